"""The committed list of known findings (read only)."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.json")


def load(prop):
    if not os.path.exists(PATH):
        return []
    with open(PATH) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


def ids(prop):
    return {x["id"] for x in load(prop)}


def reporter(prop):
    """Lines for the findings of this property that were seen to fail again in this run."""
    def lines(hit):
        return ["KNOWN-FINDING: property=%s %s" % (prop, x["what"]) for x in load(prop) if x["id"] in hit]
    return lines

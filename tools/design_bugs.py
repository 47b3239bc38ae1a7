"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START, END = "<!-- bugs:start -->\n", "<!-- bugs:end -->\n"


def main():
    rows = ["| bug | breaks | what it does | needs |", "|---|---|---|---|"]
    base = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(base)):
        with open(os.path.join(base, name, "meta.json")) as f:
            meta = json.load(f)
        cells = [name, meta["property"], meta["what_it_breaks"], meta["needs"]]
        rows.append("| %s |" % " | ".join(c.replace("\n", " ").replace("|", "/") for c in cells))
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    head, rest = text.split(START)
    tail = rest.split(END)[1]
    with open(path, "w") as f:
        f.write(head + START + "\n".join(rows) + "\n" + END + tail)


if __name__ == "__main__":
    main()

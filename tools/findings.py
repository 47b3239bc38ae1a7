"""Regenerates the 'fixed' list of KNOWN_FINDINGS.json from the fix: commits of /repo."""
import json
import subprocess

PROP = {"a disabled time source": "C33",  # subject prefix -> property
 "a line starting with an empty word": "C26", "the reference of RHEL7": "C31",
 "logging settings given": "C24", "the rescue command can": "C24", "the realm command can": "C24",
 "keyboard from F18 on": "C24", "removing an option": "C25",
 "ksverdiff compares": "C20", "ksflatten writes": "C19", "loading reports": "C23", "a bad destination": "C23",
 "a rejected timezone": "C12", "an indented auth": "C16", "a realm line": "C16", "xconfig with the deprecated": "C26", "a comment after": "C16", "every nvdimm parse error": "C11",
 "keep ports given before": "C03", "write out group": "C01", "write out repo": "C01", "write out btrfs": "C01",
 "ignoredisk with the deprecated": "C01", "deprecated flag options": "C04", "firewall --port=telnet": "C01",
 "F26 display mode": "C24", "multipath paths": "C06", "volgroup rejects": "C04", "raid keeps": "C03",
 "RHEL7 timezone": "C01", "timezone --ntpservers keeps": "C01", "sections that are only passed": "C22", "a group asked for": "C08", "a lone -": "C08",
 "blank lines of an empty": "C07", "another parser's": "C13", "a section may be opened": "C09",
 "resetting a command": "C15", "every accepted version": "C14", "quote script interpreter": "C01",
 "filesystem labels": "C01", "passwords and wireless": "C01", "a later url command": "C06", "an unused lilo": "C17",
 "a section that was given up": "C07", "ksvalidator does not report": "C18",
 "ksvalidator and ksshell accept": "C18", "ksshell .clear": "C21", "ksshell survives": "C21",
 "a file that is not valid": "C23", "a kickstart file fetched": "C23", "a later packages section": "C01", "packages --instLangs": "C04", "autopart after volgroup": "C05",
}


def main():
    path = "/verif/KNOWN_FINDINGS.json"
    try:
        with open(path) as f:
            k = json.load(f)
    except FileNotFoundError:
        k = {"findings": [], "fixed": []}
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True,
                         check=True).stdout.splitlines()
    fixed = []
    for line in log:
        h, _, s = line.partition(" ")
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        p = [v for a, v in PROP.items() if s.startswith(a)]
        assert len(p) == 1, (s, p)
        fixed.append("fixed: property=%s %s %s" % (p[0], h, s))
    k["fixed"] = fixed
    with open(path, "w") as f:
        json.dump(k, f, indent=1)
        f.write("\n")


main()

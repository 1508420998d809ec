"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.  `also`: other checks that were seen to catch one."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"c02-incremental-update": "C03", "c09-separator-key": "C01, C12", "c05-collector-mark": "C02", "c31-share-metadata": "C11", "c30-names-fold": "C02",
        "c29-posteriors-live": "C05"}
HEAD = "## Planted changes\n"


def main():
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    s = s[:s.index(HEAD)] + HEAD + "\n`seeded/` holds changes that compile, pass the tests and break a property.  Each was written from the property and the code; every one is " \
        "caught by the quick check of its own property (and by the others named), some only after the check was strengthened.\n\n" \
        "| change | what it breaks | needs | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        s += "| %s | %s | %s | %s |\n" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"] + (", " + ALSO[d] if d in ALSO else ""))
    open(p, "w").write(s)


if __name__ == "__main__":
    main()

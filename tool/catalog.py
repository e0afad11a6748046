#!/usr/bin/env python3
"""The catalogue of properties: writes properties.jsonl and MANIFEST.json.

One source for both files, so that they cannot drift apart.  A property with a module in
tool/props is claimed; the others carry the reason why they are not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=" ".join(why.split()),
                  files=files, mech=mech, observe=list(observe), technique=technique,
                  note=" ".join((note or "").split()), na=na and " ".join(na.split()), state=list(state)))


exec(open(os.path.join(HERE, "catalog_data.py")).read())

TRUST = ("Decided on rustc's optimised-off MIR of the current tree. Trusts the MIR extraction, the abstract interpreter and "
         "its models of std collections/iterators and kurbo accessors (listed in DESIGN.md); assumes comparisons never see NaN "
         "and that integer arithmetic does not overflow.")


def design():
    """The table of properties in DESIGN.md."""
    f = os.path.join(ROOT, "DESIGN.md")
    s = open(f).read()
    a, b = "<!-- properties -->\n", "<!-- end properties -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    out = []
    for x in P:
        out.append("### %s %s\n" % (x["id"], x["title"]))
        if x["na"]:
            out.append("Not applicable: %s\n" % x["na"])
            continue
        mod = os.path.join(HERE, "props", x["id"].lower() + ".py")
        doc = open(mod).read().split('"""')[1]
        out.append(doc + "\n")
        out.append("Over: %s. Not decided / limits: %s\n" % (x["text"], x["note"]))
        out.append("Beyond the tests: %s\n" % x["why"])
    with open(f, "w") as g:
        g.write(s[:i] + "\n".join(out) + s[j:])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
                 "quantifier": {"over": x["over"], "text": x["text"]},
                 "why_tests_cant": x["why"],
                 "anchors": {"files": x["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                             "observe_at": x["observe"], "hook_needed": None}}
            if x["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for x in P:
        mod = os.path.join(HERE, "props", x["id"].lower() + ".py")
        if x["na"]:
            na.append({"property": x["id"], "reason": x["na"]})
        elif os.path.exists(mod):
            c = {"property": x["id"],
                 "quick_cmd": "python3 tool/check.py %s" % x["id"],
                 "thorough_cmd": "python3 tool/check.py %s --thorough" % x["id"],
                 "technique": x["technique"],
                 "level": "other",
                 "level_note": (x["note"] + " " + TRUST).strip()}
            checks.append(c)
        else:
            raise SystemExit("%s: neither claimed nor explained" % x["id"])
    design()
    m = {"version": 1, "setup_cmd": "python3 tool/extract.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks read the compiler's MIR of the unmodified crate. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%d properties, %d claimed, %d not applicable" % (len(P), len(checks), len(na)))


if __name__ == "__main__":
    main()

"""writes properties.jsonl and MANIFEST.json from catalogue.py"""
import json
import os

from catalogue import PROPERTIES, NOT_APPLICABLE

HERE = os.path.dirname(os.path.abspath(__file__))
TECHNIQUE = "symbolic execution of the real Python source (symbolic characters, choices and integers) with z3 deciding every path and assertion within bounds"
NOTE = (
    "Every path of the library's own code, within the stated bounds, for all values of the symbolic inputs; z3 decides path conditions and assertions; "
    "counterexamples are replayed on the uninstrumented library before they are reported, and sampled path witnesses are replayed to validate the encoding. "
    "Trusted: z3, the model of str/re/int in symex/, the reference semantics in props/. Nothing is claimed beyond the bounds. "
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPERTIES + [n["property"] for n in NOT_APPLICABLE]:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p.get("over", ["inputs", "programs"]), text=p["quantifier"]),
                why_tests_cant=p["why"],
                anchors=dict(files=["mo_parsing/" + x for x in p["files"]], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], observe_at=p.get("observe", []), hook_needed=None),
            )) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    known = os.path.join(HERE, "known_findings.json")
    findings = []
    if os.path.exists(known):
        with open(known) as f:
            findings = json.load(f)["findings"]
    with open(os.path.join(HERE, "fixed.txt")) as f:
        fixed = ["fixed: property=%s %s %s" % tuple(line.strip().split(" ", 2)) for line in f if line.strip()]
    with open(known, "w") as f:
        json.dump(dict(findings=findings, fixed=fixed), f, indent=1)
        f.write("\n")
    manifest = dict(
        version=1,
        setup_cmd="python3-vt run_check.py setup",
        checks=[
            dict(
                property=p["id"],
                quick_cmd="python3-vt run_check.py %s --tier quick" % p["id"],
                thorough_cmd="python3-vt run_check.py %s --tier thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=TECHNIQUE,
                level="model_checking",
                level_note=NOTE + p.get("note", ""),
            )
            for p in PROPERTIES
        ],
        not_applicable=[dict(property=n["property"]["id"], reason=n["reason"]) for n in NOT_APPLICABLE],
        notes="No hooks in /repo: the checks instrument the source as they load it. Repairs of defects are the fix: commits listed in known_findings.json.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import catalog  # noqa: E402

TECH = ("symbolic execution of the current Python source with z3 (bounded, path-complete within the stated bounds); counterexamples "
        "replayed on the unmodified code")


def line(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": [f if "/" in f and f.startswith("fastkml") else "fastkml/" + f for f in p["files"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}


with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in catalog.ALL + catalog.NOT_APPLICABLE:
        fh.write(json.dumps(line(p), ensure_ascii=False) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']} quick",
                "thorough_cmd": f"bash /verif/run.sh {p['id']} thorough",
                "technique": p["technique"] or TECH, "level": "other",
                "level_note": p["note"] or ("every input within the stated bounds, decided by the solver path by path; "
                                           "nothing is claimed beyond them")} for p in catalog.ALL],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in catalog.NOT_APPLICABLE],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")

# the property section of DESIGN.md
out = []
for p in catalog.ALL:
    how = p["explanation"].replace(catalog.COMMON, "").strip()
    quick, thorough = catalog.COST.get(p["id"], ("", ""))
    out.append(f"**{p['id']} {p['title']}.**  {how}\n"
               f"Oracle: {catalog.ORACLE[p['id']]}\n"
               f"Bounds: {p['bounds']}\n"
               f"Cost: about {quick} s quick, {thorough} thorough (8 cores).  Beyond the tests: {p['why']}")
for p in catalog.NOT_APPLICABLE:
    out.append(f"**{p['id']} {p['title']}.**  Not applicable: {p['reason']}")
text = "\n\n".join("\n".join(textwrap.fill(part, 79, break_long_words=False, break_on_hyphens=False)
                              for part in para.split("\n")) for para in out)
path = os.path.join(HERE, "DESIGN.md")
with open(path, encoding="utf-8") as fh:
    doc = fh.read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
i, j = doc.index(a) + len(a), doc.index(b)
with open(path, "w", encoding="utf-8") as fh:
    fh.write(doc[:i] + "\n" + text + "\n\n" + doc[j:])

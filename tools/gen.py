"""writes properties.jsonl, MANIFEST.json and the generated part of DESIGN.md"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

TECH = "symbolic execution of the real Python/JAX code (trace interpreter), SMT-decided (z3, cvc5) for all values within the bounds; counterexamples replayed on the real code"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
na = dict(props.NA)
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
         notes="One file per property in checks/, engine in symx/, driver run.py. Undecided harnesses are printed as INCONCLUSIVE and listed in the evidence as not explored; with no decided harness the exit code is 2. No hooks in /repo.")
for p in props.P:
    if p["id"] in na:
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough", technique=TECH, level="other",
                            level_note="holds for every value within the stated bounds over exact real arithmetic; bounds, stubs, assumptions and solver statistics are in the evidence file and DESIGN.md"))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
d = os.path.join(ROOT, "DESIGN.md")
txt = open(d).read()
out = []
for p in props.P:
    out.append(f"### {p['id']} {p['title']}\n")
    if p["id"] in na:
        out.append(f"Not applicable: {na[p['id']]}\n")
        continue
    src = open(os.path.join(ROOT, "checks", p["id"] + ".py")).read()
    g = lambda k: re.search(k + r" = (.*?)\n(?=[A-Z@a-z#\n])", src, re.S)
    out.append(p["design"] + "\n")
    out.append(f"- quantified over: {p['quant']}")
    for k, lab in (("ASSUMPTIONS", "assumed"), ("STUBS", "stubs"), ("OUTSIDE", "outside the claim")):
        mm = g(k)
        if mm:
            v = eval(mm.group(1), {})
            out.append(f"- {lab}: {v if isinstance(v, str) else '; '.join(v)}")
    out.append(f"- why tests cannot: {p['why']}\n")
A, B = "<!-- generated by tools/gen.py: begin -->", "<!-- generated: end -->"
i, j = txt.index(A), txt.index(B)
open(d, "w").write(txt[:i] + A + "\n" + "\n".join(out) + "\n" + txt[j:])

#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the generated parts of DESIGN.md from registry.py."""
import json, os, registry
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in registry.PROPS + registry.NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"] + [b for _, b in p["mech"]]: assert os.path.exists("/repo/" + x.split(":")[0]), (p["id"], x)
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=p.get("hook")))) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", **({"hooks": registry.HOOKS} if registry.HOOKS else {}),
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", technique="bounded symbolic execution of the compiled Rust code (LLVM IR) with SMT (z3)", level=p.get("level", "model_checking"), level_note=p["note"]) for p in registry.PROPS if p.get("runs")],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in registry.PROPS + registry.NOT_APPLICABLE if not p.get("runs")])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

def fmt(r): return f"`{r['entry']}({', '.join(map(str, r['args']))})`" + (" (constant hash)" if r.get("const_hash") else "")
def section():
    costs = json.load(open(os.path.join(V, "tools", "costs.json"))) if os.path.exists(os.path.join(V, "tools", "costs.json")) else {}
    o = []
    for p in registry.PROPS:
        if not p.get("runs"): continue
        o += [f"### {p['id']} {p['title']}", "", p["statement"], "", f"* **Decided by** executing {', '.join('`' + f.split('/src/')[-1] + '`' for f in p['files'])} symbolically; variables: {p['quant']}."]
        o += [f"* **Quick:** {', '.join(fmt(r) for r in p['runs']['quick'])}" + (f" ({costs[p['id']]} s)" if p["id"] in costs else "") + "."]
        if p["runs"].get("thorough"): o += [f"* **Thorough:** {', '.join(fmt(r) for r in p['runs']['thorough'])}."]
        o += [f"* **Bounds:** {p.get('bounds', '')}. **Outside:** {p.get('outside', '')}."]
        if p.get("assumptions"): o += ["* **Assumes:** " + "; ".join(p["assumptions"]) + "."]
        o += [f"* **Why tests can't:** {p['why']}", ""]
    return "\n".join(o)
def findings():
    return "\n".join(["| property | commit | what failed |", "|---|---|---|"] + [f"| {k['property']} | {k.get('commit', '')} | {k['what'].split(' ', 3)[-1] if k['status'] == 'fixed' else k['what']} |" for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"]])
def seeds():
    import glob
    c = os.path.join(V, "tools", "catches.json"); c = json.load(open(c)) if os.path.exists(c) else {}
    o = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        i = f.split("/")[-2]; d = json.load(open(f)); o.append(f"| {i} | {d['property']} | {d['needs']} | {c.get(i, '?')} |")
    return "\n".join(o)
def na():
    l = [p for p in registry.PROPS + registry.NOT_APPLICABLE if not p.get("runs")]
    return "\n".join(f"* **{p['id']} {p['title']}**: {p['reason']}" for p in l) if l else "None of the listed properties."
import re
d = os.path.join(V, "DESIGN.md"); t = open(d).read()
for n, f in (("properties", section), ("findings", findings), ("seeds", seeds), ("na", na)):
    t = re.sub(rf"(<!-- generated:{n} -->\n).*?(<!-- /generated:{n} -->)", lambda m: m[1] + f() + "\n" + m[2], t, flags=re.S)
open(d, "w").write(t)

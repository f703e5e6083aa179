#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(V, "harness")
out = [open(H + "/design_head.md").read()]
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
known = open(V + "/known_findings.txt").read().split("\n")
for p in P:
    i = p["id"]
    f = f"{H}/checks/{i}.cpp"
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if os.path.exists(f):
        s = open(f).read()
        m = re.search(r'const CheckInfo CHECK\{"C\d+",\s*((?:"(?:[^"\\]|\\.)*"\s*)+),\s*([\d]+), *(\d+), *(\d+), *(\d+), *\{((?:.|\n)*?)\}', s)
        text = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1)))
        lim = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(6))
        q = re.split(r"[;.,]?\s*(?:non-trivial)(?: case)?\s*(?::|=|are|is|if)\s*", text, maxsplit=1, flags=re.I)
        text, nt = q[0], (q[1] if len(q) > 1 else "")
        q = re.split(r"[;.,]?\s*(?:the )?oracle\s*(?::|is)\s*", text, maxsplit=1, flags=re.I)
        gen, orc = q[0], (q[1] if len(q) > 1 else "")
        one = lambda k, v: f"* {k}: {v.strip().rstrip('.;')}.\n" if v.strip() else ""
        out.append(one("Generated", gen) + one("Oracle", orc) + one("Non-trivial", nt) + f"* Bounds: {'; '.join(lim)}.\n"
                   f"* Cost: up to {m.group(2)} cases / {m.group(4)} s search (quick), {m.group(3)} cases / {m.group(5)} s (thorough), after the build.\n"
                   f"* Beyond the tests: {p['why_tests_cant']}\n")
        fx = [l for l in known if l.startswith(f"fixed: property={i} ")]
        kf = [l for l in known if l.startswith(f"finding: property={i} ")]
        if fx: out.append(f"* Genuine defects found and repaired: {len(fx)}" + ".\n")
        if kf: out.append("* Known findings: " + "; ".join(kf) + "\n")
    else:
        out.append("* Not claimed.\n")
out.append("## Defects found\n\nAll were shown on the real code by a check (or a program derived from one) and repaired by one \"fix:\" commit each; `known_findings.txt` has the commits.\n")
for l in known:
    m = re.match(r"(fixed|finding): property=(\S+) (\S+) (.*)", l)
    if m: out.append(f"* {m.group(2)}: {m.group(4)}" + (" (repaired)" if m.group(1) == "fixed" else " (known finding)"))
out.append("\n## Planted bugs\n\nEach lies in `seeded/<id>` (patch, demonstration, what it needs). `caught` lists the checks that report it.\n")
cb = json.load(open(H + "/caught.json")) if os.path.exists(H + "/caught.json") else {}
out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(cb.get(n, [])) or m['property']} |")
out.append("\n" + open(H + "/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))

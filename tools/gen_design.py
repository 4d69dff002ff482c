#!/usr/bin/env python3
"""Write DESIGN.md: the text below, the laws as the checks state them, and the
table of planted bugs (seeded/*/meta.json and tools/caught.txt)."""
import ast, glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)

laws = {}
for f in sorted(glob.glob("checks/P*.cc")):
    t = open(f).read()
    for m in re.finditer(r'LAW(?:_SOON)?\((P\d+), (\w+), (\d+), (\d+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', t):
        laws.setdefault(m[1], []).append((m[2], m[3], m[4], "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m[5]))))
for m in re.finditer(r'@pbt\.law\((\d+), (\d+),\s*((?:"[^"]*"\s*)+)\)\s*def (\w+)', open("checks/P28_python.py").read()):
    laws.setdefault("P28", []).append((m[4], m[1], m[2], "".join(re.findall(r'"([^"]*)"', m[3]))))

exec(open("tools/design_text.py").read())

out = [HEAD]
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(NOTES[i].strip() + "\n")
    out.append("| law | cases quick / thorough | generated inputs, what is compared, when a case counts |\n|---|---|---|")
    for n, q, t, d in laws[i]:
        out.append(f"| `{n}` | {q} / {t} | {d} |")
    out.append("")
out.append(MIDDLE)
caught = {}
for l in open("tools/caught.txt"):
    w = l.split(None, 1)
    if len(w) == 2: caught[w[0]] = w[1].strip()
out.append("| planted bug | breaks | needs | found by |\n|---|---|---|---|")
for d in sorted(glob.glob("seeded/*/meta.json")):
    i = d.split("/")[1]; m = json.load(open(d))
    out.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '?')} |")
out.append(TAIL)
open("DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")

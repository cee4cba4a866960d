#!/usr/bin/env python3
"""smoke.py [module...]: puts assert(false) after every statement of every function under contract; prints those that
do NOT fail (what follows them is unreachable or vacuous)."""
import json, subprocess, sys, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = "/tmp/smoke.rs"
subprocess.run(["cargo", "build", "--offline", "-q"], cwd=V + "/extract", check=True)
src = os.environ.get("SRC", "/repo/src")
subprocess.run([V + "/extract/target/debug/extract", "--src", src, "--specs", V + "/specs", "--out", out, "--probe"], check=True, stdout=subprocess.DEVNULL)
lines = open(out).read().split("\n")
want = {i + 1 for i, l in enumerate(lines) if "/* x_probe */" in l}
mods = sys.argv[1:]
args = ["verus", out, "--error-format=json", "--multiple-errors", "5000"]
for m in mods:
    args += ["--verify-only-module", m]
r = subprocess.run(args, capture_output=True, text=True)
hit, other = set(), []
for l in r.stderr.split("\n"):
    if not l.startswith("{"):
        continue
    d = json.loads(l)
    if d.get("level") != "error" or not d.get("spans"):
        continue
    ln = [s for s in d["spans"] if s["is_primary"]][0]["line_start"]
    if ln in want:
        hit.add(ln)
    else:
        other.append((ln, d["message"]))
fn, mod = "", ""
missing = 0
for i, l in enumerate(lines, 1):
    m = re.search(r"// VXFN (.*)", l)
    if m:
        fn = m.group(1)
    if i in want and i not in hit and (not mods or any(fn.startswith(x + "::") for x in mods)):
        missing += 1
        back = [x.strip() for x in lines[max(0, i - 12):i - 1] if x.strip() and "x_probe" not in x and "x_any" not in x]
        print(f"{fn}: line {i}: after: {back[-1] if back else ''}")
print(len(want), "probes", len(hit), "fail as they must", missing, "not reached; other errors:", other[:10])

import json, os, re, subprocess, sys, threading, time

from props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
ENV.pop("CARGO_TARGET_DIR", None)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")
ENV["HOME"] = ENV.get("HOME", "/root")

RLIMIT = {"quick": "40", "thorough": "120"}
PROBE_RLIMIT = {"quick": "12", "thorough": "60"}
VERUS_TIMEOUT = {"quick": 300, "thorough": 1200}
# seconds of running the compiled code: everything proved / something not proved / an obligation failed
SECONDS = {"quick": (12, 60, 150), "thorough": (90, 300, 600)}


def sh(cmd, timeout=None, cwd=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "TIMEOUT"


# ------------------------------------------------------------------------------------------------ extraction
def build_extractor():
    rc, out, err = sh(["cargo", "build", "--offline", "--quiet"], cwd=f"{VERIF}/extract", timeout=600)
    return rc == 0, err


class Extracted:
    def __init__(self, path, text):
        self.path = path
        self.lost, self.notes, self.fns, self.lostfiles = [], [], {}, []
        for l in text.splitlines():
            if l.startswith("LOST\t"):
                _, key, kind = l.split("\t")
                self.lost.append((key, kind))
                continue
            k, _, rest = l.partition(" ")
            if k == "LOST":
                pass
            elif k == "NOTE":
                self.notes.append(rest)
            elif k in ("LOSTFILE", "UNPARSED"):
                self.lostfiles.append(rest)
            elif k == "FN":
                st, _, key = rest.partition(" ")
                self.fns[key] = st
        with open(path) as f:
            self.lines = f.read().split("\n")
        self.regions = []  # (line, key)
        mods = []
        for i, l in enumerate(self.lines, 1):
            s = l.strip()
            m = re.match(r"pub mod (\w+) \{$", s)
            if m and not l.startswith(" "):
                mods.append(m.group(1))
            if s.startswith("} // mod "):
                mods.pop()
                self.regions.append((i, "ghost:" + "::".join(mods)))
            if s.startswith("// VXGHOST"):
                self.regions.append((i, "ghost:" + "::".join(mods)))
            if s.startswith("// VXCODE"):
                self.regions.append((i, "code:" + "::".join(mods)))
            if s.startswith("// VXFN "):
                self.regions.append((i, s[len("// VXFN "):].strip()))

    def at(self, line):
        r = "root"
        for l, k in self.regions:
            if l > line:
                break
            r = k
        return r


def extract(work, demote, dropuse, modules, extra=()):
    out = f"{work}/out.rs"
    if os.path.exists(out):
        os.remove(out)
    cmd = [f"{VERIF}/extract/target/debug/extract", "--src", f"{REPO}/src", "--specs", f"{VERIF}/specs", "--out", out]
    for m in modules:
        cmd += ["--module", m]
    for d in sorted(demote):
        cmd += ["--demote", d]
    for d in sorted(dropuse):
        cmd += ["--dropuse", d]
    cmd += list(extra)
    rc, o, e = sh(cmd, timeout=120)
    if rc != 0 or not os.path.exists(out):
        return None, (o + e)[-3000:]
    return Extracted(out, o), ""


# ------------------------------------------------------------------------------------------------ Verus
def run_verus(ex, modules, tier, extra=(), rlimit=None):
    cmd = ["verus", ex.path, "--output-json", "--time-expanded", "--error-format=json", "--rlimit", rlimit or RLIMIT[tier], "--num-threads", "8"]
    for m in modules:
        cmd += ["--verify-only-module", m]
    cmd += list(extra)
    if "--multiple-errors" not in cmd:
        cmd += ["--multiple-errors", "8"]
    t0 = time.time()
    rc, o, e = sh(cmd, timeout=VERUS_TIMEOUT[tier], cwd=os.path.dirname(ex.path))
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
    try:
        js = json.loads(o)
    except ValueError:
        js = None
    return dict(rc=rc, json=js, diags=diags, stderr=e, wall=time.time() - t0, cmd=" ".join(cmd),
                panicked=("panicked at" in e) or js is None, timeout=(e == "TIMEOUT"))


def primary(d):
    for s in d["spans"]:
        if s.get("is_primary"):
            return s
    return d["spans"][0]


def breakdown(js):
    fns = {}
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            fns.setdefault(f["function"], dict(success=True, ms=0.0, rlimit=0, mode=f.get("mode:", "")))
            x = fns[f["function"]]
            x["success"] = x["success"] and f.get("success", False)
            x["ms"] += f.get("time-micros", 0) / 1000.0
            x["rlimit"] += f.get("rlimit", 0)
    return fns


class Proof:
    """outcome of the deductive part"""

    def __init__(self):
        self.available = False
        self.why = ""
        self.ex = None
        self.run = None
        self.demote, self.dropuse = set(), set()
        self.failed = {}      # function key -> [diagnostics]
        self.undecided = {}   # function key -> reason
        self.proved = []
        self.history = []
        self.vacuous = []
        self.loose = []       # proved with loop isolation off


def prove(work, modules, tier):
    p = Proof()
    ok, err = build_extractor()
    if not ok:
        p.why = "the extractor does not build: " + err[-500:]
        return p
    for attempt in range(10):
        ex, err = extract(work, p.demote, p.dropuse, modules)
        if ex is None:
            p.why = "extraction failed: " + err[-800:]
            return p
        p.ex = ex
        if ex.lostfiles:
            p.why = "source file missing or not parsed: " + "; ".join(ex.lostfiles)
            return p
        r = run_verus(ex, modules, tier)
        p.run = r
        p.history.append(dict(cmd=r["cmd"], wall=round(r["wall"], 2), rc=r["rc"]))
        if r["timeout"]:
            p.why = "Verus ran out of time"
            return p
        js = r["json"]
        vr = (js or {}).get("verification-results", {})
        done = js is not None and (vr.get("verified", 0) + vr.get("errors", 0)) > 0 and not vr.get("encountered-vir-error", False)
        if done and not r["panicked"]:
            break
        if r["panicked"] and not r["diags"]:
            p.why = "Verus stopped with an internal error: " + r["stderr"][-600:]
            return p
        # errors before verification: set aside the functions concerned and try again
        new_d, new_u, hopeless = set(), set(), []
        for d in r["diags"]:
            placed = False
            for s in sorted(d["spans"], key=lambda s: not s.get("is_primary")):
                if not s["file_name"].endswith("out.rs"):
                    continue
                k = ex.at(s["line_start"])
                if not k.startswith(("ghost:", "code:", "root")):
                    new_d.add(k)
                    placed = True
                    break
                if k.startswith("code:"):
                    line = ex.lines[s["line_start"] - 1]
                    m = re.search(r"no `(\w+)` in|unresolved import `([\w:]+)`", d["message"])
                    if "use " in line or m:
                        name = None
                        if m:
                            name = (m.group(1) or m.group(2)).split("::")[-1]
                        txt = "".join(t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1] for t in s.get("text", [])[:1])
                        name = name or txt.split("::")[-1].strip()
                        if name:
                            new_u.add(k[5:] + ":" + name)
                            placed = True
                            break
            if not placed:
                hopeless.append(d["message"][:200] + " @ " + ex.at(primary(d)["line_start"]))
        new_d -= p.demote
        new_u -= p.dropuse
        if not new_d and not new_u:
            p.why = "the extracted code is outside what Verus accepts: " + "; ".join(hopeless)[:800] + " " + r["stderr"][-300:]
            return p
        p.demote |= new_d
        p.dropuse |= new_u
    else:
        p.why = "no acceptable extraction after several attempts"
        return p
    p.available = True
    ex, r = p.ex, p.run
    lost = {}
    for key, kind in ex.lost:
        lost.setdefault(key, []).append(kind)
    # functions that no contract describes (a function of a trait has the trait's)
    newfns = [k for k, s in ex.fns.items() if s == "nospec" and " as " not in k]
    for d in r["diags"]:
        key, msg = where(ex, d), d["message"]
        if "rlimit" in msg.lower() or "resource limit" in msg.lower() or "timed out" in msg.lower() or "solver" in msg.lower():
            p.undecided.setdefault(key, "solver gave up: " + msg)
        else:
            p.failed.setdefault(key, []).append(d)
    again(p, tier)
    for k in list(p.failed):
        if k in lost:
            p.undecided[k] = "proof hints no longer fit the code: " + "; ".join(lost[k])
            del p.failed[k]
        elif k.startswith(("ghost:", "root", "code:")):
            p.undecided[k] = "a lemma failed: " + p.failed[k][0]["message"]
            del p.failed[k]
        else:
            calls = [n for n in newfns if n != k and calls_it(ex, k, n)]
            if calls:
                p.undecided[k] = "calls functions without a contract: " + ", ".join(calls)
                del p.failed[k]
    for k in p.demote:
        p.undecided[k] = "outside what Verus accepts"
    for k, ls in lost.items():
        if "gone" in ls:
            p.undecided.setdefault(k, "function under contract no longer exists")
    mods = set(modules)
    for k, s in ex.fns.items():
        if s == "spec" and k not in p.failed and k not in p.undecided and module_of(k, ex) in mods:
            p.proved.append(k)
    return p


def where(ex, d):
    """the function in which an obligation arises; a failed precondition also points at the callee"""
    if "precondition" in d["message"]:
        key = None
        for x in d["spans"]:
            if x["file_name"].endswith("out.rs") and (x.get("label") or "") != "failed precondition":
                key = ex.at(x["line_start"])
                if x.get("is_primary"):
                    break
        if key is not None:
            return key
    s = primary(d)
    keys = [ex.at(x["line_start"]) for x in d["spans"] if x["file_name"].endswith("out.rs")]
    return ex.at(s["line_start"]) if s["file_name"].endswith("out.rs") else (keys[0] if keys else "?")


def again(p, tier):
    """what failed is tried once more with loops that see the facts before them"""
    mods = sorted({module_of(k, p.ex) for k in p.failed if not k.startswith(("ghost:", "root", "code:"))})
    if not mods:
        return
    path = p.ex.path[:-3] + "-loose.rs"
    with open(path, "w") as f:
        f.write("#![verifier::loop_isolation(false)] " + "\n".join(p.ex.lines))
    class Loose:
        pass
    x = Loose()
    x.path = path
    r = run_verus(x, mods, tier)
    vr = (r["json"] or {}).get("verification-results", {})
    p.history.append(dict(cmd=r["cmd"], wall=round(r["wall"], 2), rc=r["rc"]))
    if r["timeout"] or r["panicked"] or not vr.get("verified", 0) or vr.get("encountered-vir-error", False):
        return
    bad = set()
    for d in r["diags"]:
        d2 = dict(d, spans=[dict(s, file_name=s["file_name"].replace("-loose.rs", ".rs")) for s in d["spans"]])
        bad.add(where(p.ex, d2))
    for k in list(p.failed):
        if k not in bad:
            del p.failed[k]
            p.loose.append(k)


def calls_it(ex, key, callee):
    """does the function `key` call `callee`, as far as the text tells?"""
    body = body_of(ex, key)
    parts = callee.split("::")
    name, owner = re.escape(parts[-1]), parts[-2] if len(parts) > 1 else ""
    rest = callee[len(module_of(callee, ex)) + 2:]
    if "::" not in rest:
        return re.search(r"(?<![.\w])%s\s*(::<|\()" % name, body) is not None
    if re.search(r"\bself\b", body_of(ex, callee).split(")")[0]):
        return re.search(r"\.\s*%s\s*(::<|\()" % name, body) is not None
    same = rest.split("::")[0] in key
    return re.search(r"\b(%s%s)(::<[^>]*>)?::%s\s*(::<|\()" % (re.escape(owner), "|Self" if same else "", name), body) is not None


def module_of(key, ex):
    # longest module prefix
    parts = key.split("::")
    best = parts[0]
    for i in range(1, len(parts)):
        m = "::".join(parts[:i])
        if any(k == "code:" + m for _, k in ex.regions):
            best = m
    return best


def body_of(ex, key):
    for i, (l, k) in enumerate(ex.regions):
        if k == key:
            end = ex.regions[i + 1][0] if i + 1 < len(ex.regions) else len(ex.lines)
            return "\n".join(ex.lines[l - 1:end - 1])
    return ""


def is_own(key, prop, ex):
    m = module_of(key, ex)
    own = prop["own"]
    if m not in own:
        return False
    f = own[m]
    if f is None:
        return True
    rest = key[len(m) + 2:]
    return any(rest == x or rest.startswith(x) for x in f)


# `assert(false)` after every statement of every function under contract must fail: preconditions, invariants and the
# assumed contracts used there contradict each other nowhere. A quick run looks at the property's own modules (and at those no
# property owns), a thorough one at everything it relies on.
class Probes(threading.Thread):
    """runs while the proof does, for the text as it stands; done again if the proof had to set a function aside"""

    def __init__(self, work, modules, tier, prop, demote=(), dropuse=()):
        super().__init__()
        self.work, self.modules, self.tier, self.sets = f"{work}/probe", modules, tier, (set(demote), set(dropuse))
        owned = {m for p in PROPS.values() for m in p["own"]}
        self.probed = modules if tier == "thorough" else [m for m in modules if m in prop["own"] or m not in owned]
        self.ex = self.r = None
        self.err = ""

    def run(self):
        os.makedirs(self.work, exist_ok=True)
        self.ex, self.err = extract(self.work, *self.sets, self.modules, ["--probe"])
        if self.ex is not None:
            self.r = run_verus(self.ex, self.probed, self.tier, ["--multiple-errors", "5000"], PROBE_RLIMIT[self.tier])

    def outcome(self, proof):
        ex, r = self.ex, self.r
        if ex is None:
            return None, "extraction for the probes failed: " + self.err
        if r is None or r["json"] is None or r["timeout"]:
            return None, "probe run failed"
        lines = open(ex.path).read().split("\n")
        hit, tired = set(), set()
        for d in r["diags"]:
            n = primary(d)["line_start"]
            hit.add(n)
            if "Resource limit" in d["message"]:
                tired.add(ex.at(n))
        todo = [(i + 1, ex.at(i + 1)) for i, l in enumerate(lines) if "/* x_probe */" in l]
        todo = [(i, k) for i, k in todo if module_of(k, ex) in self.probed and k in proof.proved and k not in tired]
        return dict(modules=self.probed, probes=len(todo), functions=len({k for _, k in todo}), never_reached=sorted({k for i, k in todo if i not in hit}),
                    out_of_resources=sorted(tired)), ""


# ------------------------------------------------------------------------------------------------ harness
class Harness(threading.Thread):
    def __init__(self, feature):
        super().__init__()
        self.feature = feature
        self.ok, self.err = False, ""

    def run(self):
        rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--no-default-features", "--features", self.feature], cwd=f"{VERIF}/harness", timeout=800)
        self.ok, self.err = rc == 0, e[-1500:]


def explore(pid, seconds, seed):
    rc, o, e = sh([f"{VERIF}/harness/target/debug/harness", pid, "--seconds", str(seconds), "--seed", str(seed)], timeout=seconds * 2 + 120)
    for l in reversed(o.splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l), ""
            except ValueError:
                pass
    return None, f"rc={rc} {o[-300:]} {e[-600:]}"


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    path = f"{VERIF}/known_findings.txt"
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------------------------------------ trusted base
def trusted(ex, modules):
    out = []
    lines = ex.lines
    mods = []
    for i, l in enumerate(lines):
        s = l.strip()
        m = re.match(r"pub mod (\w+) \{$", s)
        if m and not l.startswith(" "):
            mods.append(m.group(1))
        if s.startswith("} // mod "):
            mods.pop()
        where = "::".join(mods) or "shim"
        if where != "shim" and where not in modules:
            continue
        if s.startswith("//"):
            continue
        if "assume_specification" in s:
            m = re.search(r"\[\s*(.*?)\s*\]\s*\(", s)
            out.append("assumed contract of " + (m.group(1) if m else s[:80]))
        elif "external_body" in s:
            for j in range(i + 1, min(i + 8, len(lines))):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", lines[j])
                if m:
                    imp = next((lines[k].strip().rstrip("{ ") for k in range(i, max(0, i - 60), -1) if re.match(r"\s*(pub )?(impl|trait)\b", lines[k])), "")
                    out.append(f"trusted body: {where}::{m.group(1)}" + (f" in {imp}" if lines[j].startswith("        ") else ""))
                    break
        elif re.search(r"\baxiom fn (\w+)", s):
            out.append("axiom " + re.search(r"\baxiom fn (\w+)", s).group(1))
        elif re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
            out.append("assume: " + s[:100])
    return sorted(set(out))


# ------------------------------------------------------------------------------------------------ main
def main(args):
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in SECONDS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = PROPS[pid]
    work = f"{VERIF}/.build/{pid}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    modules = list(prop["own"]) + [m for m in prop["deps"] if m not in prop["own"]]

    h = Harness(prop["feature"])
    h.start()
    probes = None
    if prop["own"] and build_extractor()[0]:
        probes = Probes(work, modules, tier, prop)
        probes.start()
    proof = prove(work, modules, tier) if prop["own"] else None
    if probes:
        probes.join()
    own_failed, own_undecided, own_proved, dep_failed = {}, {}, [], {}
    vac, vac_note = None, ""
    if proof and proof.available:
        ex = proof.ex
        own_failed = {k: v for k, v in proof.failed.items() if is_own(k, prop, ex)}
        dep_failed = {k: v for k, v in proof.failed.items() if not is_own(k, prop, ex)}
        own_proved = [k for k in proof.proved if is_own(k, prop, ex)]
        own_undecided = dict(proof.undecided)
        if (proof.demote, proof.dropuse) != probes.sets:
            probes = Probes(work, modules, tier, prop, proof.demote, proof.dropuse)
            probes.run()
        vac, vac_note = probes.outcome(proof)
        if vac:
            for k in vac["never_reached"]:
                own_undecided[k] = "a part of it is unreachable: its contract may hold vacuously"
    h.join()

    complete = bool(proof and proof.available and not own_failed and not own_undecided and not dep_failed and own_proved)
    i = 0 if complete else (2 if own_failed else 1)
    seconds = SECONDS[tier][i]
    result, herr = (None, "harness did not build: " + h.err)
    findings = known_findings(pid)
    known_hit = []
    if h.ok:
        result, herr = explore(pid, seconds, seed)
        if result is None:
            print("note: the harness gave no answer: " + herr, file=sys.stderr)
    failure = result and result.get("failure")
    if failure:
        for rx, what in findings:
            if re.search(rx, failure["text"]):
                known_hit.append(what)
                failure = None
                break

    replay = f"{work}/replay.json"
    violation = None
    if failure:
        rep = dict(property=pid, kind="failing input on the compiled code", case=failure["text"],
                   command=f"{VERIF}/harness/target/debug/harness {pid} --replay {seed}:{failure['index']}",
                   failed_obligations={k: [d["rendered"] for d in v] for k, v in {**own_failed, **dep_failed}.items()})
        violation = f"VIOLATION property={pid} replay={replay}"
    elif own_failed:
        rep = dict(property=pid, kind="failed obligations; no failing input found on the compiled code",
                   failed_obligations={k: [d["rendered"] for d in v] for k, v in own_failed.items()},
                   verifier=proof.run["cmd"], searched=result)
        violation = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
    if violation:
        with open(replay, "w") as f:
            json.dump(rep, f, indent=1)

    # ---- evidence
    cov = {}
    assumptions = []
    level = "exploration"
    if proof and proof.available:
        bd = breakdown(proof.run["json"])
        vr = proof.run["json"]["verification-results"]
        cov.update(
            obligations=vr["verified"] + vr["errors"],
            discharged=vr["verified"],
            obligation_unit="one Verus proof unit (a function body against its contract, or a lemma): every postcondition, invariant, "
                            "callee precondition, index bound, overflow and termination condition of it in one or more Z3 queries",
            functions_under_contract=sorted(own_proved),
            functions_relied_on=sorted(k for k in proof.proved if k not in own_proved),
            failed={k: [d["message"] for d in v] for k, v in proof.failed.items()},
            unproved=own_undecided,
            proved_with_loops_that_see_what_precedes_them=sorted(proof.loose),
            checker_cmd=proof.run["cmd"],
            back_end="Verus 0.2026.09.13 with its bundled Z3",
            solver_ms=round(sum(f["ms"] for f in bd.values()), 1),
            slowest=sorted(((round(f["ms"], 1), n) for n, f in bd.items()), reverse=True)[:5],
            verus_runs=proof.history,
            vacuity_probes=vac if vac else vac_note,
            trusted_base=trusted(proof.ex, modules),
        )
        if complete:
            level = "proof"
    elif proof:
        cov["proof_unavailable"] = proof.why
    if result:
        cov.update(evaluations=result["evaluations"], distinct_nontrivial=result["distinct_nontrivial"], samples=result["samples"],
                   rule="inputs generated from the seed (small ones enumerated first); each case runs the compiled code and compares with an "
                        "independent reference; non-trivial: a non-empty or multi-step input; distinct by its text", bounded_seconds=seconds)
    else:
        cov["harness"] = herr
    cov["bounded_only"] = prop["bounded"] + ([] if complete else sorted(own_undecided) or ["the whole property (no proof on this tree)"])
    if level != "proof":
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov.setdefault("rule", "none")
        cov.setdefault("samples", [])
    assumptions += [
        "Verus and Z3 are sound; the rewriting rules of /verif/extract keep the meaning (listed in DESIGN.md)",
        "the contracts of the standard library and of sha2 listed in trusted_base",
        "64-bit usize; allocation does not fail",
    ]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)

    # ---- verdict
    for w in known_hit:
        print(f"KNOWN-FINDING: property={pid} {w}")
    for rx, w in findings:
        if w not in known_hit:
            pass
    if proof and proof.available:
        print(f"{pid}: {len(own_proved)} functions proved, {cov['discharged']}/{cov['obligations']} obligations discharged"
              + (f"; not proved: {own_undecided}" if own_undecided else "") + (f"; failed elsewhere: {sorted(dep_failed)}" if dep_failed else ""))
    elif proof:
        print(f"{pid}: no proof on this tree ({proof.why}); bounded check only")
    if result:
        print(f"{pid}: bounded check of the compiled code: {result['evaluations']} cases in {seconds} s")
    else:
        print(f"{pid}: {herr}")
    if violation:
        for k, v in own_failed.items():
            for d in v:
                print(f"failed obligation in {k}: {d['message']}")
        if failure:
            print(failure["text"][:2000])
        print(violation)
        return 1
    return 0

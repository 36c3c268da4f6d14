#!/usr/bin/env python3
"""Decide one property against /repo's working tree.

check.py ID [--tier quick|thorough]     exit 0: held; exit 1: a VIOLATION line was printed
check.py --proof                        only the verifier, and what it means for every property
check.py --baseline                     rewrite contracts/baseline.json from this tree (by hand only)

1. the source of /repo/sia is macro-expanded by rustc and extracted, with the contracts, to one Verus crate;
2. Verus discharges the obligations of every function under contract;
3. the real crate is run on concrete inputs against an independent reference, to find the input behind a
   failed obligation and as the bounded stand-in for what is not under contract.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cones import CONES, TRUSTED, ASSUMPTIONS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIA_REPO", "/repo")
BUILD = os.environ.get("SIA_BUILD", os.path.join(VERIF, "build"))
RLIMIT = "40"
T0 = time.time()
DEADLINE = 840.0


def left():
    return DEADLINE - (time.time() - T0)


def log(*a):
    print(f"[{time.time() - T0:6.1f}]", *a, file=sys.stderr, flush=True)


def run(cmd, timeout, **kw):
    """run in a group of its own, so that a timeout ends everything it started"""
    p = subprocess.Popen(cmd, start_new_session=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    try:
        o, e = p.communicate(timeout=max(timeout, 1))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return -999, o, e


# ------------------------------------------------------------------ building
def forget(d):
    """cargo goes by the time of change: never trust that for the crates under test"""
    for p in glob.glob(os.path.join(d, "debug", ".fingerprint", "sia_sdk*")) + glob.glob(os.path.join(d, "debug", ".fingerprint", "replay-*")):
        shutil.rmtree(p, ignore_errors=True)


def build_extract():
    d = os.path.join(BUILD, "extract")
    rc, o, e = run(["cargo", "build", "--offline", "--locked"], left(), cwd=os.path.join(VERIF, "extract"), env=dict(os.environ, CARGO_TARGET_DIR=d))
    return os.path.join(d, "debug", "extract") if rc == 0 else fail(f"extractor: {e[-2000:]}")


def fail(m):
    log(m)
    return None


def expand():
    """the source rustc sees, with every macro expanded and everything behind cfg(test) gone"""
    env = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(BUILD, "expand"))
    forget(env["CARGO_TARGET_DIR"])
    rc, o, e = run(["cargo", "rustc", "--offline", "--lib", "--profile", "check", "--", "-Zunpretty=expanded"], left(), cwd=os.path.join(REPO, "sia"), env=env)
    if rc != 0:
        rc, o, e = run(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], left(), cwd=os.path.join(REPO, "sia"), env=env)
    return o if rc == 0 and o.strip() else fail(f"expansion: {e[-3000:]}")


def build_replay():
    d = os.path.join(BUILD, "replay")
    forget(d)
    src = os.path.join(VERIF, "replay")
    if REPO != "/repo":
        src = os.path.join(BUILD, "replay-src")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "replay"), src, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(src, "Cargo.toml")).read().replace('"/repo/', f'"{REPO}/')
        open(os.path.join(src, "Cargo.toml"), "w").write(t)
    rc, o, e = run(["cargo", "build", "--offline"], left(), cwd=src, env=dict(os.environ, CARGO_TARGET_DIR=d))
    return os.path.join(d, "debug", "replay") if rc == 0 else fail(f"replay: {e[-3000:]}")


# ------------------------------------------------------------------ literals
def literals(src):
    ints, strs = set(), set()
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.]*\w)", src):
        try:
            v = int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1))
        except ValueError:
            continue
        if v < 1 << 128:
            ints.add(v)
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', src):
        s = m.group(1)
        if len(s) <= 200 and "\\" not in s:
            strs.add(s)
    return ints, strs


def write_lits(src, base, path):
    ints, strs = literals(src)
    fi = sorted(ints - set(int(x) for x in base.get("ints", [])))
    fs = sorted(strs - set(base.get("strs", [])))
    li = [str(x) for x in sorted(ints)]
    ls = sorted(strs)
    # what is new in this tree is used as often as everything else together
    if fi:
        li = li + [str(x) for x in fi] * max(1, len(li) // len(fi))
    if fs:
        ls = ls + fs * max(1, len(ls) // len(fs))
    json.dump({"ints": li, "strs": ls or ["x"]}, open(path, "w"))
    return len(ints), len(strs), len(fi), len(fs)


# ------------------------------------------------------------------ verification
def norm(key):
    """a function of the map, as Verus names it: `module|module::Type::method`"""
    m = re.match(r"^((?:\w+::)*)<(.*) as .*>::([\w:]+)$", key)
    if m:
        mod, ty, f = m.groups()
        return mod.rstrip(":"), ty, f
    m = re.match(r"^((?:[a-z_]\w*::)*)(?:([A-Z]\w*)(?:<.*>)?::)?(\w+)$", key)
    return (m.group(1).rstrip(":"), m.group(2) or "", m.group(3)) if m else ("", "", key)


def tail(f):
    return "::".join(f.split("::")[-2:])


def modargs(mods):
    r = []
    for m in sorted(mods):
        r += ["--verify-only-module", m] if m != "crate" else ["--verify-root"]
    return r


class Proof:
    """what Verus says about the current tree"""

    def __init__(self, extract, expanded, base, wd):
        self.extract, self.wd, self.base = extract, wd, base
        self.ok = False          # a verdict was reached
        self.reason = ""
        self.external = {}       # function -> why it is out of reach
        self.missing = []        # functions of the baseline that are not there any more
        self.entries = {}        # "module|function" -> [success, ms, rlimit]
        self.errors = []         # (function key or None, text)
        self.failed = []         # entries that failed
        self.map = {}
        self.smt_ms = 0
        self.seeds = 0
        self.mods = set()
        self.exp = os.path.join(wd, "exp.rs")
        open(self.exp, "w").write(expanded)
        self.cdir = os.path.join(wd, "contracts")
        self.out = os.path.join(wd, "out.rs")

    def extract_once(self):
        cmd = [self.extract, "--expanded", self.exp, "--contracts", self.cdir, "--out", self.out, "--map", os.path.join(self.wd, "map.json")]
        for f in self.external:
            cmd += ["--external", f]
        rc, o, e = run(cmd, min(left(), 60))
        if rc != 0:
            self.reason = "extraction failed: " + e[-600:]
            return False
        self.map = json.load(open(os.path.join(self.wd, "map.json")))
        self.lines = open(self.out).read().split("\n")
        self.fns = {f["key"]: f for f in self.map["fns"]}
        return True

    def lost(self):
        """functions whose contract cannot be placed on the code as it is now"""
        new = {}
        for k, f in self.fns.items():
            b = self.base["fns"].get(k)
            if f["external"] or not f["contracted"]:
                continue
            if f["notes"]:
                new[k] = "the proof hints do not fit the code: " + "; ".join(f["notes"])
            elif b and b["loops"] != f["loops"]:
                new[k] = f"its loops changed shape: {b['loops']} to {f['loops']}"
        return {k: v for k, v in new.items() if k not in self.external}

    def fn_at(self, line):
        best = None
        for f in self.map["fns"]:
            a, b = f["lines"]
            if a <= line <= b and (best is None or a > best["lines"][0]):
                best = f
        return best["key"] if best else None

    def text(self, key):
        a, b = self.fns[key]["lines"]
        return hashlib.sha256(" ".join(" ".join(self.lines[a - 1:b]).split()).encode()).hexdigest()[:16]

    def verus(self, args, timeout):
        rc, o, e = run(["verus", "out.rs", "--crate-type=lib", "--output-json", "--time-expanded"] + args, timeout, cwd=self.wd)
        k = o.find("{")
        try:
            j = json.loads(o[k:]) if k >= 0 else None
        except ValueError:
            j = None
        return rc, j, e

    def blocks(self, e):
        r = []
        for b in re.split(r"\n(?=error|warning|note)", "\n" + e):
            b = b.strip("\n")
            if not b.startswith("error") or b.startswith("error: aborting"):
                continue
            nums = [int(x) for x in re.findall(r"--> out\.rs:(\d+)", b)] + [int(x) for x in re.findall(r"(?m)^ *(\d+) +[|/]", b)]
            r.append((b, nums))
        return r

    def collect(self, j):
        smt = j["times-ms"]["smt"]
        r = {}
        for m in smt.get("smt-run-module-times", []):
            for f in m["function-breakdown"]:
                k = m["module"] + "|" + re.sub(r"^out::", "", f["function"])
                a = r.setdefault(k, [True, 0, 0, 0, f["mode:"]])
                a[0] = a[0] and f["success"]
                a[1] += f["time-micros"] / 1000.0
                a[2] += f["rlimit"]
                a[3] += 1
        return r, smt.get("smt-run", 0)

    def run(self):
        rc, o, e = run([sys.executable, os.path.join(VERIF, "contracts", "build.py"), self.cdir], 60)
        if rc != 0:
            self.reason = "contracts: " + e
            return self
        for attempt in range(10):
            if left() < 60:
                self.reason = "out of time"
                return self
            if not self.extract_once():
                return self
            new = self.lost()
            if new:
                self.external.update(new)
                continue
            log("verus", attempt, f"{len(self.external)} out of reach")
            rc, j, e = self.verus(["--rlimit", RLIMIT] + modargs(self.mods), min(left() - 30, 400))
            self.log = e
            gone = set(re.findall(r"could not find module (\S+) specified", e)) & self.mods
            if gone:
                self.mods -= gone
                continue
            vr = (j or {}).get("verification-results", {})
            if j is None or vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("errors", 0) == 0 and not vr.get("success")):
                # the text was not accepted: find the functions that are outside the verifier's language
                found = {}
                for b, nums in self.blocks(e):
                    for n in nums:
                        k = self.fn_at(n)
                        if k and k not in self.external and not self.fns[k]["external"]:
                            found[k] = "outside the verifier's language: " + b.split("\n")[0][:200]
                if not found:
                    # no place named (the verifier itself stopped, for one): what is not as in the baseline is out of reach
                    found = {k: "the verifier does not accept the crate with this function as it is now" for k, f in self.fns.items()
                             if f["contracted"] and not f["external"] and k not in self.external and self.base["fns"].get(k, {}).get("text") != self.text(k)}
                if not found:
                    # a contract can name what the code no longer has
                    self.reason = "the verifier does not accept the text: " + " / ".join(b.split("\n")[0] + (" @" + ",".join(map(str, n[:2]))) for b, n in self.blocks(e)[:4])[:1500]
                    return self
                self.external.update(found)
                continue
            self.ok = True
            self.entries, self.smt_ms = self.collect(j)
            break
        else:
            self.reason = "too many functions out of reach"
            return self
        self.missing = [k for k, b in self.base["fns"].items() if b["proved"] and (k not in self.fns)]
        self.reasons = dict(self.external)
        self.triage(e)
        return self

    def triage(self, e):
        bad = [k for k, v in self.entries.items() if not v[0]]
        if not bad:
            return
        # a second and a third opinion, with more resources and other seeds: each function on a prover of its own
        still = {k for k in bad if not self.calls_new(k)}
        for seed in (7, 23)[: int(os.environ.get("RETRY", "2"))]:
            if not still or left() < 240:
                break
            log("again", seed, sorted(still))
            opts = ["--rlimit", "150", "--smt-option", f"smt.random_seed={seed}"]
            limit = min(left() - 120, 200)
            ok = set()

            def alone(k):
                m, f = k.split("|", 1)
                f = f[len(m) + 2:] if f.startswith(m + "::") else None
                if not f or "%" in f:
                    return k, None
                rc, j, e2 = self.verus(opts + ["--num-threads", "2"] + modargs({m}) + ["--verify-function", f], limit)
                got, ms = self.collect(j) if j else ({}, 0)
                self.smt_ms += ms
                return k, got[k][0] if k in got else (None if j else False)

            rest = set(still)
            if len(still) <= 8:
                with concurrent.futures.ThreadPoolExecutor(4) as ex:
                    for k, r in ex.map(alone, sorted(still)):
                        if r is not None:
                            rest.discard(k)
                        if r:
                            ok.add(k)
            self.seeds += 1
            if rest and left() > 240:
                rc, j, e2 = self.verus(opts + modargs({k.split("|")[0] for k in rest}), min(left() - 120, 200))
                if j:
                    got, ms = self.collect(j)
                    self.smt_ms += ms
                    ok |= {k for k in rest if got.get(k, [False])[0]}
            for k in ok:
                self.entries[k][0] = True
            still -= ok
        still |= {k for k in bad if not self.entries[k][0]}
        # what failed, and is it the code?
        txt = self.blocks(e)
        for k in sorted(still):
            keys = self.keys_of(k)
            errs = [(b, n) for b, n in txt if any(self.fn_at(x) in keys for x in n)]
            hit = [q for q in keys if any(self.fn_at(x) == q for b, n in errs for x in n)]
            q = hit[0] if hit else (keys[0] if len(keys) == 1 else None)
            if q:
                new = self.new_calls(q)
                if new:
                    self.external[q] = f"it calls {', '.join(new)}, which has no contract"
                    self.reasons[q] = self.external[q]
                    continue
            self.failed.append({"entry": k, "fn": q, "text": "\n".join(b for b, n in errs)[:4000] or "\n".join(b for b, n in txt)[:4000]})

    def keys_of(self, k):
        """the functions of the map a name of the verifier's can stand for"""
        mod, f = k.split("|", 1)
        return [q for q in self.fns if self.names(q) == (mod, tail(f)) or ("impl&%" in f or "slice%" in f or "alloc::" in f or "core::" in f) and norm(q)[0] == mod and norm(q)[2].split("::")[-1] == f.split("::")[-1]]

    def calls_new(self, k):
        """no use trying again: it calls what has no contract"""
        keys = self.keys_of(k)
        return len(keys) == 1 and bool(self.new_calls(keys[0]))

    def names(self, key):
        mod, ty, f = norm(key)
        return (mod, (ty + "::" if ty else (mod.split("::")[-1] + "::" if mod else "")) + f.split("::")[-1])

    def new_calls(self, q):
        """functions `q` calls that have no contract and are not in the baseline either"""
        f = self.fns[q]
        unc = {}
        for k, g in self.fns.items():
            if g["uncontracted"] and not self.base["fns"].get(k, {}).get("uncontracted"):
                unc.setdefault(k.split("::")[-1], []).append(k)
        return sorted({k for c in f["callees"] for k in unc.get(c, [])})

    def proved(self):
        return [k for k, f in self.fns.items() if f["contracted"] and not f["external"] and k not in self.external]


# ------------------------------------------------------------------ running the real code
def replay(exe, pid, seed, tier, wd, lits, budget):
    out, st = os.path.join(wd, "replay.json"), os.path.join(wd, "state")
    args = [exe, "--property", pid, "--seed", str(seed), "--tier", tier, "--budget", str(int(budget)), "--lits", lits]
    env = dict(os.environ, RAYON_NUM_THREADS="8")
    rc, o, e = run(args + ["--out", out, "--state", st], budget + 120, env=env)
    if rc == 0 and os.path.exists(out):
        return json.load(open(out)), None
    case = None
    try:
        s = open(st).read().split("\n")[0]
        case = s[:60].strip() + ":" + s[60:].strip()
    except OSError:
        pass
    m = re.search(r"(?m)^HANG (.*)$", o)
    how = "did not return within 60 s" if m else ("did not finish in time" if rc == -999 else f"ended the process: status {rc}: {e[-300:]}")
    inp = ""
    if case:
        rc2, o2, e2 = run(args + ["--only", case, "--out", out], min(budget + 120, left() - 20), env=env)
        m = re.search(r"(?m)^INPUT (.*)$", o2)
        inp = m.group(1) if m else ""
        if rc2 == 0 and rc not in (-999,) and not m:
            return None, {"family": case, "input": "", "expected": "an answer", "actual": how, "flaky": True}
    return None, {"family": case, "index": None, "input": inp, "expected": "an answer", "actual": how}


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[1:]
    if "--tier" in args:
        k = args.index("--tier")
        tier = args[k + 1]
        del args[k:k + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = args[0]
    global DEADLINE
    if tier == "thorough":
        DEADLINE = 3000.0
    os.makedirs(BUILD, exist_ok=True)
    wd = os.path.join(BUILD, f"run-{pid.strip('-')}-{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        sys.exit(decide(pid, tier, seed, wd))
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(wd, ignore_errors=True)


def decide(pid, tier, seed, wd):
    bp = os.path.join(VERIF, "contracts", "baseline.json")
    base = json.load(open(bp)) if os.path.exists(bp) else {"fns": {}, "ints": [], "strs": []}
    if pid == "--baseline":
        base = {"fns": {}, "ints": [], "strs": []}
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fx, fe = ex.submit(build_extract), ex.submit(expand)
        extract, expanded = fx.result(), fe.result()
        fr = ex.submit(build_replay) if not pid.startswith("--") else None
        proof = None
        if extract and expanded:
            log("extracting")
            proof = Proof(extract, expanded, base, wd)
            if pid in CONES:
                # the modules with an obligation of the property: the others are verified by the checks of theirs
                c = re.compile("|".join("(?:%s)" % x for x in CONES[pid]["entries"]))
                proof.mods = {k.split("|")[0] for k in base.get("entry_names", []) if c.search(k)}
            try:
                proof.run()
            except Exception as x:
                proof.ok, proof.reason = False, f"{type(x).__name__}: {x}"
        log("verified" if proof and proof.ok else "no proof")
        exe = fr.result() if fr else None
    log("built")
    if pid == "--baseline":
        assert proof.ok and not proof.failed, (proof.reason, proof.failed)
        ints, strs = literals(expanded)
        pr = set(proof.proved())
        json.dump({"fns": {k: {"proved": k in pr, "uncontracted": f["uncontracted"], "external": f["external"], "loops": f["loops"], "text": proof.text(k)} for k, f in sorted(proof.fns.items())},
                   "entries": len(proof.entries), "entry_names": sorted(proof.entries),
                   "ints": [str(x) for x in sorted(ints)], "strs": sorted(strs)}, open(bp, "w"), indent=0, sort_keys=True)
        print(len(pr), "functions proved,", len(proof.entries), "entries; lost:", [w for w in proof.map["warnings"]])
        return 0

    if pid == "--proof":
        print("ok", proof.ok, proof.reason)
        print("failed", [f["entry"] for f in proof.failed])
        if os.environ.get("TEXT"):
            for f in proof.failed:
                print("-----", f["entry"], f["fn"], "\n", f["text"][:int(os.environ["TEXT"])])
        for k, v in proof.external.items():
            print("out of reach", k, "|", v)
        for p in CONES:
            c = re.compile("|".join("(?:%s)" % x for x in CONES[p]["entries"]))
            n = [f["entry"] for f in proof.failed if c.search(f["entry"])]
            if n:
                print("alarm", p, n)
        return 0

    cone = re.compile("|".join("(?:%s)" % x for x in CONES[pid]["entries"]))
    rep, crash = None, None
    nl = (0, 0, 0, 0)
    if exe:
        lits = os.path.join(wd, "lits.json")
        nl = write_lits(expanded or "", base, lits)
        rep, crash = replay(exe, pid, seed, tier, wd, lits, min(60 if tier == "quick" else 900, left() / 2))
    log("replayed")
    viol = []
    os.makedirs(os.path.join(VERIF, "evidence", "failures"), exist_ok=True)

    def record(d):
        p = os.path.join(VERIF, "evidence", "failures", pid + "-" + hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12] + ".json")
        json.dump(d, open(p, "w"), indent=1)
        return p
    failed = []
    if proof and proof.ok:
        failed = [f for f in proof.failed if cone.search(f["entry"])]
    obl = [{"function": f["fn"] or f["entry"], "verifier_output": f["text"]} for f in failed]
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k.get("property") == pid]
    if crash and not crash.get("flaky"):
        viol.append((record(dict(property=pid, kind="concrete", seed=seed, tier=tier, failed_obligations=obl, **crash)), ""))
    for f in (rep or {}).get("failures", []):
        k = [k for k in known if k["family"] == f["family"] and k["input"] == f["input"]]
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[0]['what']}")
            continue
        viol.append((record(dict(property=pid, kind="concrete", seed=seed, tier=tier, failed_obligations=obl, **f)), ""))
    viol = viol[:5]
    if not viol and failed:
        viol.append((record(dict(property=pid, kind="failed obligation", seed=seed, tier=tier, failed_obligations=obl)), " no-failing-input-found"))

    # ---- evidence
    ent = {k: v for k, v in (proof.entries if proof else {}).items() if cone.search(k)} if proof and proof.ok else {}
    fns = []
    if proof and proof.ok:
        for k in proof.proved():
            m, t = proof.names(k)
            if cone.search(m + "|" + m + "::" + t) or cone.search(m + "|" + t):
                fns.append(k)
    out_of_reach = {k: v for k, v in (proof.external if proof else {}).items() if cone.search(proof.names(k)[0] + "|" + proof.names(k)[1])} if proof and proof.ok else {}
    nobl = len(ent)
    disch = sum(1 for v in ent.values() if v[0])
    shim = ""
    if proof and proof.ok:
        shim = "\n".join(proof.lines)
    cov = {
        "obligations": nobl,
        "discharged": disch,
        "obligation_unit": "functions and lemmas with at least one solver query, as reported by Verus for this run; each bundles every postcondition, call precondition, loop invariant, overflow and termination obligation of that function",
        "checker_cmd": "verus out.rs --crate-type=lib --rlimit 40 (Z3 back end), on the crate extracted from /repo in this run",
        "back_end": "Verus 0.2026.09.13 / Z3",
        "solver_ms": round(sum(v[1] for v in ent.values())),
        "solver_ms_whole_run": proof.smt_ms if proof else 0,
        "modules_verified": sorted(proof.mods) if proof else [],
        "functions_under_contract": sorted(fns),
        "lemmas": sorted(k for k, v in ent.items() if v[4] == "proof"),
        "failed": [f["entry"] for f in failed],
        "out_of_reach_on_this_tree": out_of_reach,
        "no_longer_present": proof.missing if proof else [],
        "bounded_stand_ins": CONES[pid].get("bounded", []),
        "trusted_base": TRUSTED + CONES[pid].get("trusted", []),
        "external_body_in_the_verified_text": shim.count("external_body"),
        "axioms_in_the_verified_text": len(re.findall(r"\baxiom fn\b", shim)),
        "assume_or_admit_in_the_verified_text": len(re.findall(r"\b(?:assume|admit)\(", shim)),
        "verdict_reached": bool(proof and proof.ok),
        "why_not": proof.reason if proof else "the extractor or the expansion failed",
        "evaluations": (rep or {}).get("evaluations", 0),
        "distinct_nontrivial": (rep or {}).get("distinct", 0),
        "rule": "cases of the concrete replay: seeded values biased to limits, lengths and the literals of the source, each put through the real code and compared with an independent reference; distinct by family and input",
        "samples": (rep or {}).get("samples", [])[:8],
        "families": (rep or {}).get("families", {}),
        "replay_built": bool(exe),
        "literals_mined": {"ints": nl[0], "strings": nl[1], "not in the baseline": nl[2] + nl[3]},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": CONES[pid]["level"], "coverage": cov, "assumptions": ASSUMPTIONS + CONES[pid].get("assumptions", []), "violations": len(viol), "wall_s": round(time.time() - T0, 1)}
    if CONES[pid]["level"] == "proof" and (nobl == 0 or disch < nobl or not (proof and proof.ok)):
        ev["level"] = "exploration"
        cov["explanation"] = "not a proof on this tree: " + (cov["why_not"] or "some obligations were not discharged")
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for p, w in viol:
        print(f"VIOLATION property={pid} replay={p}{w}")
    if viol:
        return 1
    state = f"{disch}/{nobl} obligations discharged, {cov['evaluations']} cases run"
    if out_of_reach:
        state += f", out of reach: {sorted(out_of_reach)}"
    if not (proof and proof.ok):
        state += f"; no verdict of the verifier: {cov['why_not']}"
    if rep is not None and not rep.get("harness_ok"):
        state += "; the replay harness did not finish"
    print(f"held property={pid}: {state}")
    if not exe and not (proof and proof.ok):
        # nothing could be decided about this tree
        print("neither the verifier nor the replay could run on this tree", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    main()

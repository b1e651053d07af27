#!/usr/bin/env python3
"""Check of one property:  python3 check.py C07 [quick|thorough]

1. extract the functions the property depends on from /repo/sci-rs/src into Lean (lean/Gen)
2. let Lean (kernel, Mathlib) accept every obligation of lean/Contracts/<id>.lean against them
3. run the real code on concrete inputs (harness/): failing inputs for failed obligations, and a
   cross-check of what the translation idealises
See DESIGN.md for the outcome rules.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SRC = REPO + "/sci-rs/src"
LEAN = V + "/lean"
BUILD = LEAN + "/build"
EVID = V + "/evidence"
ALLOWED_AXIOMS = {"propext", "Classical.choice", "Quot.sound"}

D = "signal/filter/design/"
FILES = {
    "C01": ["special/factorial.rs"], "C02": ["special/combinatorics.rs"], "C03": ["special/combinatorics.rs"],
    "C04": ["stats.rs"], "C05": ["stats.rs"], "C06": ["stats.rs"],
    "C07": ["signal/filter/sosfilt.rs", D + "sos.rs"], "C08": ["signal/filter/sosfilt.rs", D + "sos.rs"],
    "C09": ["signal/filter/lfilter_zi.rs", "signal/filter/sosfilt_zi.rs", "linalg/companion.rs", D + "sos.rs"],
    "C10": ["signal/filter/ext.rs"],
    "C11": ["signal/filter/sosfiltfilt.rs", "signal/filter/ext.rs", "signal/filter/sosfilt.rs", "signal/filter/sosfilt_zi.rs", "signal/filter/lfilter_zi.rs", "linalg/companion.rs"],
    "C12": ["linalg/companion.rs"], "C13": [D + "iirfilter.rs"],
    "C14": [D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "relative_degree.rs"],
    "C15": [D + "bilinear_zpk.rs", D + "relative_degree.rs"],
    "C16": [D + "zpk2tf.rs", D + "cplx.rs"],
    "C17": [D + "zpk2sos.rs", D + "zpk2tf.rs", D + "cplx.rs", D + "sos.rs"],
    "C18": [D + "iirfilter.rs", D + "butter.rs", D + "filter_output.rs", D + "filter_type.rs", D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "bilinear_zpk.rs", D + "zpk2sos.rs", D + "zpk2tf.rs", D + "cplx.rs"],
    "C19": ["signal/filter/savgol_filter.rs"], "C20": ["signal/convolve.rs"], "C21": ["signal/resample.rs"],
    "C22": ["signal/wave/mod.rs"], "C23": ["special/bessel.rs", "special/xsf/i0.rs", "special/xsf/chbevl.rs"],
    "C25": [D + "sos.rs"],
}


def sh(cmd, timeout, env=None, cwd=None, mem=None):
    """run, return (rc, out); rc = 'timeout' when it did not end"""
    def limit():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, preexec_fn=limit)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return "timeout", out.decode("utf-8", "replace")


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def cargo_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


# ---------------------------------------------------------------- literals of the source files
def strip_tests(s):
    i = s.find("#[cfg(test)]")
    return s if i < 0 else s[:i]


def literals(pid):
    out = []
    for f in FILES[pid]:
        try:
            s = strip_tests(read(os.path.join(SRC, f)))
        except OSError:
            continue
        s = re.sub(r"//[^\n]*", "", s)
        s = re.sub(r'"(\\.|[^"\\])*"', '""', s)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)\.?(?:_?[iuf]\d+|_?usize|_?isize)?", s):
            t = m.group(1).replace("_", "")
            try:
                v = float(int(t, 16)) if t.startswith("0x") else float(t)
            except ValueError:
                continue
            if v not in out:
                out.append(v)
        for m in re.finditer(r"<<\s*(\d+)", s):
            out.append(float(2 ** min(int(m.group(1)), 127)))
        for m in re.finditer(r"\b(u8|i8|u16|i16)\b", s):  # sizes at which a narrow integer wraps
            w = 2.0 ** (int(m.group(1)[1:]) - (m.group(1)[0] == "i"))
            if w not in out:
                out.append(w)
    return out[:400]


# ---------------------------------------------------------------- real code
class Harness:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.error = None
        self.runs = []
        self.bin = V + "/harness/target/debug/" + pid.lower()
        self.build_s = self.run_s = 0.0

    def build(self):
        t = time.time()
        lock = V + "/harness/Cargo.lock"
        rc, out = sh(["cargo", "build", "--offline", "--quiet", "--locked", "--bin", self.pid.lower()], 600, cargo_env(), V + "/harness")
        if rc != 0:
            rc, out = sh(["cargo", "build", "--offline", "--quiet", "--bin", self.pid.lower()], 600, cargo_env(), V + "/harness")
        self.build_s = time.time() - t
        if rc != 0:
            self.error = "harness does not build:\n" + out[-4000:]
        return self.error is None

    def run(self, tier, seed, budget, limit):
        t = time.time()
        os.makedirs(EVID + "/tmp", exist_ok=True)
        tag = "%s-%d-%d" % (self.pid, os.getpid(), len(self.runs))
        outf = "%s/tmp/%s.json" % (EVID, tag)
        trace = "%s/tmp/%s.case" % (EVID, tag)
        env = dict(os.environ)
        env.update({"VERIF_SEED": str(seed), "FALS_TIER": tier, "FALS_BUDGET": str(budget), "FALS_OUT": outf,
                    "FALS_LITS": ",".join(repr(x) for x in literals(self.pid)), "RUST_BACKTRACE": "0"})
        rc, out = sh([self.bin], limit, env, V, mem=12 << 30)
        res = None
        if os.path.exists(outf):
            res = json.loads(read(outf))
            os.remove(outf)
        if res is None:
            # died or hung: find out on which input
            env["FALS_TRACE"] = trace
            rc2, out2 = sh([self.bin], limit, env, V, mem=12 << 30)
            if os.path.exists(outf):
                res = json.loads(read(outf))
                os.remove(outf)
            else:
                case = read(trace) if os.path.exists(trace) else "(unknown)"
                res = {"evaluations": 0, "distinct": 0, "seconds": 0, "samples": [],
                       "failures": [{"key": "", "case": case, "message": "the process ended with %s while running this case: %s" % (rc2, out2[-500:])}]}
            if os.path.exists(trace):
                os.remove(trace)
        shutil.rmtree(EVID + "/tmp", ignore_errors=True)
        res["tier"], res["seed"] = tier, seed
        self.runs.append(res)
        self.run_s += time.time() - t
        return res


# ---------------------------------------------------------------- proofs
class Proof:
    """status: proved | failed | lost | upstream | none | error"""

    def __init__(self, pid, fresh):
        self.pid, self.fresh = pid, fresh
        self.status, self.reason = "none", "no contract file"
        self.failed = []          # (obligation, message)
        self.obligations = 0
        self.theorems = []
        self.axioms = set()
        self.lean_s = 0.0
        self.log = ""
        self.functions = []
        self.msgs = {}
        self.lock = threading.Lock()

    def extract(self):
        rc, out = sh(["cargo", "build", "--offline", "--quiet"], 600, cargo_env(), V + "/extract")
        if rc != 0:
            self.status, self.reason = "error", "extractor does not build: " + out[-2000:]
            return False
        tmp = LEAN + "/Gen.new"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        rc, out = sh([V + "/extract/target/debug/extract", SRC, V + "/units.json", tmp], 120, cwd=V)
        if rc != 0 or not os.path.exists(tmp + "/report.json"):
            self.status, self.reason = "lost", "extraction failed: " + out[-2000:]
            return False
        shutil.rmtree(LEAN + "/Gen", ignore_errors=True)
        os.rename(tmp, LEAN + "/Gen")
        self.report = json.loads(read(LEAN + "/Gen/report.json"))
        return True

    def path(self, mod):
        return LEAN + "/" + mod.replace(".", "/") + ".lean"

    def deps(self, mod):
        return [m for m in re.findall(r"^import\s+([\w.]+)", read(self.path(mod)), re.M)
                if m.split(".")[0] in ("RsAttr", "RsPrelude", "RsLemmas", "RsFourier", "Gen", "Contracts")]

    def closure(self, mod, acc=None):
        acc = acc if acc is not None else []
        for d in self.deps(mod):
            if not os.path.exists(self.path(d)):
                raise FileNotFoundError(d)
            self.closure(d, acc)
        if mod not in acc:
            acc.append(mod)
        return acc

    def compile(self, mod, hashes):
        base = BUILD + "/" + mod.replace(".", "/")
        os.makedirs(os.path.dirname(base), exist_ok=True)
        h = hashlib.sha256((read(self.path(mod)) + "|" + "|".join(hashes[d] for d in self.deps(mod))).encode()).hexdigest()
        hashes[mod] = h
        own = mod == "Contracts." + self.pid
        if os.path.exists(base + ".hash") and os.path.exists(base + ".olean") and read(base + ".hash") == h and not (self.fresh and own):
            return True
        for ext in (".olean", ".hash"):
            if os.path.exists(base + ext):
                os.remove(base + ext)
        env = dict(os.environ)
        env["LEAN_PATH"] = BUILD
        env.pop("LEAN_SRC_PATH", None)
        t = time.time()
        rc, out = sh(["lean", "-o", base + ".olean", self.path(mod)], 700, env, LEAN)
        with self.lock:
            self.lean_s += time.time() - t
            self.msgs[mod] = (rc, out)
        if rc == 0 and os.path.exists(base + ".olean"):
            with open(base + ".hash", "w") as f:
                f.write(h)
            return True
        return False

    def decls(self, mod):
        """(line, name) of the theorems in a contract file, with namespaces"""
        ns, out = [], []
        for i, l in enumerate(read(self.path(mod)).split("\n"), 1):
            m = re.match(r"namespace\s+([\w.]+)", l)
            if m:
                ns.append(m.group(1))
            m = re.match(r"end\s+([\w.]+)", l)
            if m and ns:
                ns.pop()
            m = re.match(r"(?:@\[[^\]]*\]\s*)?(?:private\s+)?(theorem|lemma|def|noncomputable def|structure|abbrev|instance)\s+([^\s:({\[]+)", l)
            if m:
                out.append((i, m.group(1), ".".join(ns + [m.group(2)])))
        return out

    def run(self):
        mod = "Contracts." + self.pid
        if not os.path.exists(self.path(mod)):
            return
        if not self.extract():
            return
        self.obligations = sum(1 for d in self.decls(mod) if d[1] in ("theorem", "lemma"))
        try:
            mods = self.closure(mod)
        except FileNotFoundError as e:
            self.status, self.reason = "lost", "unit %s was not generated" % e
            return
        bad = []
        units = [m.split(".")[1] for m in mods if m.startswith("Gen.")]
        for u in units:
            r = self.report["units"].get(u)
            if not r:
                continue
            for f, y in sorted(r["functions"].items()):
                if y["status"] != "ok":
                    bad.append("%s: %s" % (f, y.get("reason")))
                elif u in self.own_units():
                    self.functions.append("%s (%s:%s)" % (f, y.get("file"), "-".join(str(x) for x in y.get("lines", []))))
        if bad:
            self.status, self.reason = "lost", "outside the translatable subset: " + "; ".join(bad)[:1500]
            return
        ok = self.build(mods)
        if ok[mod]:
            return self.audit(mod)
        broken = [m for m in mods if not ok[m] and m in self.msgs]
        self.log = "\n".join("== %s\n%s" % (m, self.msgs[m][1][:6000]) for m in broken)
        if any(m.startswith("Rs") for m in broken):
            self.status, self.reason = "error", "the proof library does not compile: " + self.log[:2000]
        elif any(m.startswith("Gen.") for m in broken):
            self.status, self.reason = "lost", "the translation of " + ", ".join(broken) + " does not type-check"
        elif broken == [mod]:
            rc, out = self.msgs[mod]
            ds = self.decls(mod)
            seen = {}
            for m in re.finditer(r"^[^\n]*?:(\d+):\d+: error(?:\([^)]*\))?: (.*?)(?=^\S[^\n]*?:\d+:\d+: |\Z)", out, re.M | re.S):
                name = "(top level)"
                for (ln, _, n) in ds:
                    if ln <= int(m.group(1)):
                        name = n
                seen.setdefault(name, m.group(2).strip())
            self.failed = sorted(seen.items())
            if rc == "timeout" or not seen:
                self.status, self.reason = "lost", "Lean gave no answer on the obligations within the limit"
            else:
                self.status, self.reason = "failed", "; ".join(n for n, _ in self.failed)
        else:
            self.status, self.reason = "upstream", "contracts this proof builds on fail: " + ", ".join(b for b in broken)

    def build(self, mods):
        hashes, done, ok = {}, set(), {}
        pending = list(mods)
        with cf.ThreadPoolExecutor(8) as ex:
            fut = {}
            while pending or fut:
                for m in list(pending):
                    ds = self.deps(m)
                    if all(d in done for d in ds):
                        pending.remove(m)
                        if all(ok[d] for d in ds):
                            fut[ex.submit(self.compile, m, hashes)] = m
                        else:
                            ok[m] = False
                            done.add(m)
                            break
                else:
                    if fut:
                        fin, _ = cf.wait(fut, return_when=cf.FIRST_COMPLETED)
                        for f in fin:
                            m = fut.pop(f)
                            ok[m] = f.result()
                            done.add(m)
        return ok

    def own_units(self):
        return [m.split(".")[1] for m in self.deps("Contracts." + self.pid) if m.startswith("Gen.")]

    def audit(self, mod):
        names = [n for (_, k, n) in self.decls(mod) if k in ("theorem", "lemma")]
        base = BUILD + "/Audit_" + self.pid
        with open(base + ".lean", "w") as f:
            f.write("import %s\n" % mod + AUDIT % {"mod": mod})
        env = dict(os.environ)
        env["LEAN_PATH"] = BUILD
        rc, out = sh(["lean", base + ".lean"], 300, env, LEAN)
        os.remove(base + ".lean")
        thms, axs = [], set()
        for l in out.split("\n"):
            if l.startswith("THM "):
                thms.append(l[4:].strip())
            elif l.startswith("AXIOM "):
                axs.add(l[6:].strip())
        self.theorems, self.axioms = thms, axs
        if rc != 0 or not thms:
            self.status, self.reason = "error", "audit failed: " + out[-1500:]
        elif axs - ALLOWED_AXIOMS:
            self.status, self.reason = "error", "obligations rest on " + ", ".join(sorted(axs - ALLOWED_AXIOMS))
        elif any(n not in thms for n in names):
            self.status, self.reason = "error", "missing after compilation: " + ", ".join(n for n in names if n not in thms)
        else:
            self.obligations = len(names)
            self.status, self.reason = "proved", ""


AUDIT = """
open Lean Elab Command in
run_cmd do
  let env <- getEnv
  let some idx := env.getModuleIdx? `%(mod)s | throwError "no module"
  let mut axs : Array Name := #[]
  for c in env.header.moduleData[idx]!.constNames do
    if let some (.thmInfo _) := env.find? c then
      unless c.isInternal do
        logInfo m!"\\nTHM {c}"
        for a in (<- liftCoreM (collectAxioms c)) do
          unless axs.contains a do axs := axs.push a
  for a in axs do logInfo m!"\\nAXIOM {a}"
"""


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    out = {}
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in read(p).split("\n"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


TRUST = json.loads(read(V + "/trust.json")) if os.path.exists(V + "/trust.json") else {}


def warm():
    """compile the library, the extracted code and the contracts once"""
    os.makedirs(BUILD, exist_ok=True)
    P = Proof("none", fresh=False)
    if not P.extract():
        sys.exit("cannot extract: " + P.reason)
    todo = ["RsAttr", "RsPrelude", "RsLemmas", "RsFourier"]
    for d in ("Gen", "Contracts"):
        todo += sorted(d + "." + f[:-5] for f in os.listdir(LEAN + "/" + d) if f.endswith(".lean"))
    order = []
    for m in todo:
        P.closure(m, order)
    P.build(order)
    for m in order:
        if m in P.msgs and P.msgs[m][0] != 0:
            print("warning: %s does not compile" % m)


def main():
    if sys.argv[1] == "--warm":
        return warm()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID + "/replay", exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    H, P = Harness(pid, tier, seed), Proof(pid, fresh=True)

    def real():
        if H.build():
            H.run(tier, seed, 60 if tier == "quick" else 240, 300)
            if tier == "thorough":
                for s in range(1, 4):
                    H.run("thorough", seed + 1000 * s, 120, 300)

    def proof():
        try:
            P.run()
        except Exception as e:  # machinery problem, not a verdict
            P.status, P.reason = "error", repr(e)

    th = [threading.Thread(target=f) for f in (real, proof)]
    [x.start() for x in th]
    [x.join() for x in th]

    known = known_findings(pid)
    fails, knowns = [], {}

    def collect():
        fails.clear()
        for r in H.runs:
            for f in r["failures"]:
                if f["key"] and f["key"] in known:
                    knowns[f["key"]] = f
                else:
                    fails.append(f)
    collect()
    # a failed obligation without a failing input: look harder before giving up on one
    if P.status in ("failed", "lost", "upstream") and not fails and not H.error:
        budget = max(0, 420 - (time.time() - t0))
        for s in range(3):
            if budget > 30 and not fails:
                H.run("thorough", seed + 77 * (s + 1), min(60, budget / 3), 200)
                collect()

    bounded = not (P.status == "proved")
    code, lines = 0, []
    replay = None
    if fails:
        replay = "%s/replay/%s.json" % (EVID, pid)
        with open(replay, "w") as f:
            json.dump({"property": pid, "failing_inputs": fails[:10], "failed_obligations": [{"obligation": n, "lean": m[:3000]} for n, m in P.failed],
                       "proof_status": P.status, "proof_reason": P.reason,
                       "rerun": "cd /verif && VERIF_SEED=%d python3 check.py %s %s" % (seed, pid, tier)}, f, indent=1)
        print("failing input: %s\n  %s" % (fails[0]["case"][:1500], fails[0]["message"][:500]))
        for n, m in P.failed[:6]:
            print("failed obligation: %s" % n)
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
        code = 1
    elif P.status == "failed":
        replay = "%s/replay/%s.json" % (EVID, pid)
        with open(replay, "w") as f:
            json.dump({"property": pid, "failing_inputs": [], "failed_obligations": [{"obligation": n, "lean": m[:6000]} for n, m in P.failed],
                       "lean_output": P.log[:20000],
                       "rerun": "cd /verif && VERIF_SEED=%d python3 check.py %s %s" % (seed, pid, tier)}, f, indent=1)
        for n, m in P.failed[:10]:
            print("failed obligation: %s\n  %s" % (n, m[:600].replace("\n", "\n  ")))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        code = 1
    elif P.status == "error":
        print("ERROR: " + P.reason)
        code = 2
    elif H.error and P.status != "proved":
        print("ERROR: " + H.error)
        code = 2
    if H.error and P.status == "proved":
        print("note: " + H.error[:500])
    for k, f in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))

    evals = sum(r["evaluations"] for r in H.runs)
    level = "proof"
    cov = {
        "obligations": P.obligations, "discharged": len(P.theorems) and P.obligations if P.status == "proved" else max(0, P.obligations - len(P.failed)) if P.status == "failed" else 0,
        "checker_cmd": "cd /verif && python3 check.py %s %s" % (pid, tier),
        "trusted_base": TRUST.get("common", []) + TRUST.get(pid, []),
        "backend": "Lean 4 kernel (obligations elaborated from the extracted code by lean -o)",
        "proof_status": P.status, "proof_reason": P.reason[:1500],
        "failed_obligations": [n for n, _ in P.failed],
        "theorems": P.theorems[:400], "axioms": sorted(P.axioms),
        "functions_under_contract": P.functions, "lean_seconds": round(P.lean_s, 1),
        "bounded": bounded,
        "evaluations": evals, "distinct_nontrivial": sum(r["distinct"] for r in H.runs),
        "rule": "inputs of the real functions generated from the property (see harness/src/bin/%s.rs), distinct by their full description; the result is compared with an independent evaluation of the statement" % pid.lower(),
        "samples": [s for r in H.runs[:1] for s in r["samples"]][:12],
        "harness_build_seconds": round(H.build_s, 1), "harness_run_seconds": round(H.run_s, 1),
        "harness_error": H.error,
        "known_findings": sorted(knowns),
    }
    with open("%s/%s.json" % (EVID, pid), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2)}, f, indent=1)
    print("%s: proof %s%s, %d/%d obligations, %d functions under contract, %d inputs on the real code, %.0f s" % (
        pid, P.status, " (" + P.reason[:300] + ")" if P.reason else "", cov["discharged"], P.obligations, len(P.functions), evals, time.time() - t0))
    if bounded and code == 0:
        print("%s: decided by the bounded stand-in only" % pid)
    for l in lines:
        print(l)
    sys.exit(code)


main()

#!/usr/bin/env python3
"""One check: extract /repo's current source, verify it against the contracts
with Verus, and run the driver as a bounded cross-check of the trusted base.

usage: check.py PROPERTY [--tier quick|thorough]
exit 0: property held; exit 1 and a VIOLATION line: broken; 2: the machinery broke.
"""
import fcntl, json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))
TARGET = os.environ.get("VERIF_TARGET", os.path.join(WORK, "target"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
PROPS = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
# failures that name machine safety: they belong to C01 besides their function's tags
SAFETY = ("arithmetic", "overflow", "underflow", "index", "out of bounds", "division", "unreachable")

# profile: extraction arguments, verus arguments
PROFILES = {
    "emu": (["--trustpat", "packets::uci::*", "--keep", "packets::uci::parse_message_type,packets::uci::ControlPacket::is_core_device_reset_cmd,packets::uci::read,packets::uci::write", "--effects", "write,create,read"], []),
    "codec": (["--effects", "write,create,read"], ["--verify-only-module", "packets::uci"]),
}
PROFILE_OF = {"E01": ["codec"], "C01": ["emu", "codec"]}


def sh(cmd, timeout, env=None, cwd=None, out=None, err=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, o, e = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, o, e = 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\nTIMEOUT"
    return rc, o, e, time.time() - t0


def build(log):
    os.makedirs(WORK, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    man = os.path.join(VERIF, "driver", "Cargo.toml")
    if REPO != "/repo":
        # development only: a copy of the driver that points at another tree
        d = os.path.join(WORK, "driver")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "driver"), d, ignore=shutil.ignore_patterns("target"))
        man = os.path.join(d, "Cargo.toml")
        t = open(man).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(man, "w").write(t)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, e, t = sh(["cargo", "build", "--offline", "--manifest-path", man, "--target-dir", TARGET, "--message-format=json"], 600, env)
    if rc != 0:
        # the driver no longer fits the crate's interface: prove only
        log["driver_unavailable"] = e[-500:]
        rc, o2, e2, t2 = sh(["cargo", "build", "--offline", "--manifest-path", man, "--target-dir", TARGET, "--bin", "extract", "--message-format=json"], 600, env)
        o += o2
        t += t2
    uci = None
    for l in o.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "build-script-executed" and re.search(r"[/#](pica)[#@]|/repo#|pica ", d.get("package_id", "")) or (
            d.get("reason") == "build-script-executed" and os.path.exists(os.path.join(d.get("out_dir", ""), "uci_packets.rs"))
        ):
            p = os.path.join(d["out_dir"], "uci_packets.rs")
            if os.path.exists(p):
                uci = p
    log["build_s"] = round(t, 2)
    return rc == 0, uci, e


class Proof:
    """One verification run of one profile."""

    def __init__(self, name, dir_, uci, log):
        self.name, self.dir, self.uci, self.log = name, dir_, uci, log
        self.failures = []      # definite: dicts fn, kind, tags, clause, msg, rendered
        self.undecided = {}     # fn -> reason
        self.fns, self.clauses = [], []
        self.verified = self.errors = 0
        self.solver_ms = 0
        self.cmd = ""
        self.broken = None
        self.probes_missing = []
        self.second = {}

    def extract(self, trusted):
        args, _ = PROFILES[self.name]
        o, m = os.path.join(self.dir, self.name + ".rs"), os.path.join(self.dir, self.name + ".json")
        cmd = [os.path.join(TARGET, "debug", "extract"), "--repo", REPO, "--uci", self.uci, "--contracts",
               os.path.join(VERIF, "contracts"), "--out", o, "--map", m] + args
        for t in trusted:
            cmd += ["--trust", t]
        rc, out, err, t = sh(cmd, 120)
        self.log.setdefault("extract_s", 0)
        self.log["extract_s"] += round(t, 2)
        if rc != 0:
            self.broken = "extraction failed: " + (err or out)[-600:]
            return None, None
        return o, json.load(open(m))

    def fn_at(self, line):
        best = None
        for f in self.fns:
            if f["start"] <= line <= f["end"] and (best is None or f["start"] > best["start"]):
                best = f
        return best

    def clause_at(self, a, b):
        for c in self.clauses:
            if a <= c[0] <= b:
                return c
        # a clause that spans several lines
        prev = [c for c in self.clauses if c[0] <= a]
        if prev:
            c = max(prev, key=lambda c: c[0])
            f = self.fn_at(c[0])
            if f and f["start"] <= a <= f["end"] and f["key"] == c[1] and a - c[0] < 40:
                return c
        return None

    def run(self, rlimit, timeout):
        trusted = []
        for attempt in range(8):
            o, m = self.extract(trusted)
            if o is None:
                return
            self.fns = m["fns"]
            self.clauses = m["clauses"]
            self.unused = m["unused_contracts"]
            self.dropped = m["dropped"]
            _, vargs = PROFILES[self.name]
            cmd = ["verus", "--crate-type=lib", o, "--error-format=json", "--output-json", "--time", "--num-threads", "8",
                   "--multiple-errors", "10", "--rlimit", str(rlimit)] + vargs
            self.cmd = " ".join(cmd)
            env = dict(os.environ, RUST_BACKTRACE="0")
            rc, out, err, t = sh(cmd, timeout, env, cwd=self.dir)
            self.log.setdefault("verus_s", 0)
            self.log["verus_s"] += round(t, 2)
            if rc == 124:
                self.broken = "verus timed out"
                return
            try:
                js = json.loads(out[out.index("{"):])
            except ValueError:
                js = None
            diags = []
            other = []
            for l in err.splitlines():
                try:
                    d = json.loads(l)
                    if d.get("level") == "error":
                        diags.append(d)
                except ValueError:
                    other.append(l)
            res = (js or {}).get("verification-results", {})
            if js is None or res.get("encountered-vir-error") or "verified" not in res:
                # not verification failures: the extracted text is outside the
                # verifier's language in some functions. They become trusted
                # (undecided) and the rest is verified again.
                new = set()
                for d in diags:
                    for s in d.get("spans", []):
                        f = self.fn_at(s["line_start"])
                        if f and f["key"] not in trusted:
                            new.add(f["key"])
                            self.undecided[f["key"]] = d["message"][:200]
                            break
                if not new:
                    self.broken = "verus: " + "; ".join(d["message"][:200] for d in diags[:3]) + " " + " ".join(other)[:300]
                    return
                trusted += sorted(new)
                continue
            self.verified, self.errors = res.get("verified", 0), res.get("errors", 0)
            tm = js.get("times-ms", {})
            self.solver_ms += tm.get("smt", {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
            self.collect(diags)
            return
        self.broken = "too many functions outside the verifier's language"

    def collect(self, diags):
        probes = set(f["key"] for f in self.fns if "vx_mustfail" in f["key"])
        seen_probe = set()
        text = open(os.path.join(self.dir, self.name + ".rs")).read().split("\n")
        for i, l in enumerate(text):
            mm = re.search(r"proof fn (vx_mustfail_\w+)", l)
            if mm:
                probes.add(mm.group(1))
        for d in diags:
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            spans = d.get("spans", [])
            prim = [s for s in spans if s["is_primary"]] or spans
            if not prim:
                self.broken = "verus: " + msg[:300]
                continue
            line = prim[0]["line_start"]
            # a must-fail probe?
            j = line
            name = None
            while j > 0 and j > line - 12:
                mm = re.search(r"proof fn (vx_mustfail_\w+)", text[j - 1])
                if mm:
                    name = mm.group(1)
                    break
                j -= 1
            if name and name in probes and self.fn_at(line) is None:
                seen_probe.add(name)
                continue
            f = self.fn_at(line)
            clause = None
            for s in spans:
                if s.get("label") and ("failed" in s["label"] or "might not" in s["label"]) or not s["is_primary"]:
                    clause = self.clause_at(s["line_start"], s["line_end"])
                    if clause:
                        break
            if clause is None:
                clause = self.clause_at(prim[0]["line_start"], prim[0]["line_end"]) if "invariant" in msg else None
            rec = {
                "fn": f["key"] if f else "?",
                "msg": msg.split("\n")[0],
                "line": line,
                "clause": clause[4] if clause else None,
                "clause_fn": clause[1] if clause else None,
                "tags": clause[3].split() if clause and clause[3] else [],
                "rendered": d.get("rendered", "")[:3000],
            }
            low = msg.lower()
            if "rlimit" in low or "resource limit" in low or "canceled" in low or "unknown" in low:
                self.undecided[rec["fn"]] = msg[:200]
                continue
            if f is None:
                self.undecided["?"] = msg[:200] + " at " + text[line - 1].strip()[:100]
                continue
            ftags = (f.get("tags") or "").split()
            safety = any(w in low for w in SAFETY)
            callee_pre = "precondition" in low
            if not rec["tags"]:
                rec["tags"] = list(ftags)
                if safety or (callee_pre and clause is None):
                    rec["tags"] = ["C01"]
            self.failures.append(rec)
        self.probes_missing = sorted(probes - seen_probe)
        self.probes = len(probes)

    MODULES = ("packets::uci", "app_config", "device", "mac_address", "pcapng", "session")

    def flaky(self, r):
        """A failure that a second run, with another seed of the solver and
        more resources, does not have says nothing about the code."""
        mod = next((m for m in self.MODULES if r["fn"].startswith(m + "::")), None)
        if mod not in self.second:
            q = Proof(self.name, self.dir, self.uci, self.log)
            q.fns, q.clauses = self.fns, self.clauses
            cmd = ["verus", "--crate-type=lib", os.path.join(self.dir, self.name + ".rs"), "--error-format=json", "--num-threads", "8",
                   "--multiple-errors", "10", "--rlimit", "90", "--smt-option", "smt.random_seed=7"]
            cmd += ["--verify-only-module", mod] if mod else ["--verify-root"]
            rc, out, err, t = sh(cmd, 240, dict(os.environ, RUST_BACKTRACE="0"), cwd=self.dir)
            self.log["verus_again_s"] = self.log.get("verus_again_s", 0) + round(t, 2)
            if rc != 124:
                diags = []
                for l in err.splitlines():
                    try:
                        d = json.loads(l)
                        if d.get("level") == "error":
                            diags.append(d)
                    except ValueError:
                        pass
                q.collect(diags)
                self.second[mod] = None if q.undecided.get("?") else q
            else:
                self.second[mod] = None
        q = self.second[mod]
        if q is None:
            return "the second run gave no answer"
        if not any(x["fn"] == r["fn"] and x["clause"] == r["clause"] for x in q.failures):
            return "proved with another seed of the solver" if r["fn"] not in q.undecided else "the solver gave up in the second run"
        return None

    def suspicious(self, f):
        """Why a failure in this function does not decide anything."""
        base = BASE.get(f["key"])
        if base is None:
            return "a function without a contract"
        if f.get("unsupported"):
            return "unsupported construct: " + str(f["unsupported"][0])[:100]
        if f.get("missing") and f["missing"] != base["missing"]:
            return "an annotated statement is gone: " + str(f["missing"][0])[:100]
        if base["loops"] != f.get("loops", 0) or base["headers"] != f.get("headers"):
            return "the loops are written differently"
        for c in f.get("calls", []):
            if c not in BASE_NAMES:
                return "calls %s, which has no contract" % c
        return None


def load_base():
    p = os.path.join(VERIF, "contracts", "baseline.json")
    try:
        return json.load(open(p))
    except OSError:
        return {}


BASE = load_base()
BASE_NAMES = set(k.split("::")[-1] for k in BASE)


def driver(prop, seconds, log, dir_):
    scratch = os.path.join(dir_, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    out = os.path.join(dir_, "replay.txt")
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(TARGET, "debug", "pica-driver"), "--property", prop, "--seed", str(SEED), "--seconds", str(seconds),
           "--scratch", scratch, "--out", out]
    rc, o, e, t = sh(cmd, seconds + 120)
    shutil.rmtree(scratch, ignore_errors=True)
    d = {"rc": rc, "s": round(t, 2), "cmd": " ".join(cmd)}
    mm = re.search(r"scripts=(\d+) directed=(\d+) operations=(\d+) other_mismatches=(\d+)", o)
    if mm:
        d.update(scripts=int(mm[1]), directed=int(mm[2]), operations=int(mm[3]), other_mismatches=int(mm[4]))
    mm = re.search(r"pure_cases=(\d+)", o)
    if mm:
        d["pure_cases"] = int(mm[1])
    d["found"] = rc == 1 and os.path.exists(out)
    d["text"] = "\n".join(l for l in o.splitlines() if l.startswith("MISMATCH"))[:2000]
    if rc not in (0, 1):
        d["error"] = (e or o)[-500:]
    return d


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if prop not in PROPS:
        print("unknown property", prop)
        return 2
    dir_ = os.path.join(WORK, prop)
    os.makedirs(dir_, exist_ok=True)
    log = {}
    ok, uci, err = build(log)
    if not ok or not uci:
        print("cannot build the driver against %s\n%s" % (REPO, err[-3000:]))
        return 2
    thorough = tier == "thorough"
    proofs = []
    for name in PROFILE_OF.get(prop, ["emu"]):
        p = Proof(name, dir_, uci, log)
        p.contracted = set()
        p.run(60 if thorough else 30, 700 if thorough else 400)
        p.contracted = set(f["key"] for f in p.fns if f.get("contract"))
        proofs.append(p)
    # attribute
    definite, undecided = [], []
    for p in proofs:
        if p.broken:
            undecided.append("%s: %s" % (p.name, p.broken))
        byk = {f["key"]: f for f in p.fns}
        for fk, why in p.undecided.items():
            f = byk.get(fk)
            tags = set((f.get("tags") or "").split()) if f else {prop}
            for c in p.clauses:
                if c[1] == fk:
                    tags |= set(c[3].split())
            if f and prop == "C01" or prop in tags:
                undecided.append("%s: %s" % (fk, why))
        for r in p.failures:
            if prop not in r["tags"]:
                continue
            why = p.suspicious(byk[r["fn"]]) or p.flaky(r)
            if why:
                undecided.append("%s: %s (%s)" % (r["fn"], r["msg"], why))
            else:
                definite.append(r)
        # contracts whose function is gone: nothing was proved about it
        for u in getattr(p, "unused", []):
            tags = set((BASE.get(u, {}).get("tags") or "").split())
            if prop in tags:
                undecided.append("%s: the function under contract is gone" % u)
        if p.probes_missing:
            print("MACHINERY: must-fail probes were proved: %s" % p.probes_missing)
            return 2
    secs = 8
    if definite or undecided:
        secs = 45
    if thorough:
        secs = 180
    if "driver_unavailable" in log:
        drv = {"rc": 0, "found": False, "text": "", "unavailable": True}
    else:
        drv = driver(prop, secs, log, dir_)
    violation = None
    known = []
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("finding: property=%s " % prop):
                known.append(l.strip()[len("finding: "):])
    if drv["found"]:
        violation = os.path.join(dir_, "replay.txt")
        with open(violation, "a") as fo:
            for r in definite:
                fo.write("// failed obligation in %s: %s: %s\n" % (r["fn"], r["msg"], r["clause"]))
        tail = ""
    elif definite:
        violation = os.path.join(dir_, "obligation.txt")
        with open(violation, "w") as fo:
            for r in definite:
                fo.write("// failed obligation: function %s\n// %s\n// clause: %s\n%s\n" % (r["fn"], r["msg"], r["clause"], r["rendered"]))
        tail = " no-failing-input-found"
    # evidence
    in_scope, obl, disch = [], 0, 0
    failed_fn = set(r["fn"] for r in definite)
    und_fn = set(u.split(": ")[0] for u in undecided)
    trusted_fns = 0
    for p in proofs:
        tagged = {}
        for c in p.clauses:
            if prop in c[3].split():
                tagged.setdefault(c[1], []).append(c)
        for f in p.fns:
            if f["status"] != "verified":
                trusted_fns += 1
                continue
            if p.name == "codec" and not f["key"].startswith("packets::uci"):
                continue
            if not (prop in (f.get("tags") or "").split() or f["key"] in tagged or prop == "C01"):
                continue
            n = 1 + len(tagged.get(f["key"], []))
            obl += n
            if f["key"] not in failed_fn and f["key"] not in und_fn and not p.broken:
                disch += n
            in_scope.append(f["key"])
    proved = bool(obl) and obl == disch and not undecided and not definite
    ev = {
        "property": prop, "tier": tier, "seed": SEED,
        "level": "proof" if prop not in BOUNDED and proved else "exploration",
        "coverage": {
            "obligations": obl, "discharged": disch,
            "checker_cmd": "; ".join(p.cmd for p in proofs),
            "trusted_base": TRUSTED,
            "functions_under_contract": in_scope,
            "verus_units": {p.name: {"verified": p.verified, "errors": p.errors - len(p.probes_missing), "must_fail_probes": getattr(p, "probes", 0)} for p in proofs},
            "solver": "z3 (bundled with verus)",
            "failed": [{k: r[k] for k in ("fn", "msg", "clause")} for r in definite],
            "undecided": undecided,
            "bounded_cross_check": {k: v for k, v in drv.items() if k not in ("text", "cmd")},
            "evaluations": drv.get("operations", 0) + drv.get("pure_cases", 0),
            "distinct_nontrivial": drv.get("scripts", 0),
            "rule": "the driver runs directed and random operation scripts against the real crate and compares every output byte and event with its own model; a script counts once",
            "samples": ["directed scripts: %s" % drv.get("directed"), drv.get("cmd", "")],
            "times": log,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged in %d functions, %d undecided, driver %s" % (
        prop, disch, obl, len(in_scope), len(undecided), {k: v for k, v in drv.items() if k in ("scripts", "operations", "pure_cases", "found", "error")}))
    for u in undecided[:10]:
        print("UNDECIDED", u)
    for r in definite[:10]:
        print("FAILED", r["fn"], "|", r["msg"], "|", r["clause"])
    for k in known:
        print("KNOWN-FINDING: " + k)
    if violation:
        if drv["text"]:
            print(drv["text"])
        print("VIOLATION property=%s replay=%s%s" % (prop, violation, tail))
        return 1
    if drv.get("error") or drv["rc"] not in (0, 1):
        print("driver failed:", drv.get("error"))
        return 2
    return 0


BOUNDED = set()
TRUSTED = [
    "verus 0.2026.09.13 and its z3",
    "contracts/10_stubs.rs: contracts of std, tokio, bytes, pdl_runtime, anyhow items used by the emulator",
    "driver/src/bin/extract.rs: the source-to-Verus extraction, see DESIGN.md for what it rewrites and drops",
]
ASSUME = [
    "asynchronous code is verified as the sequence of its operations; a spawned task is a value recorded at the spawn",
    "a counter of 64 bits and the session sequence number of 32 bits do not wrap",
]

if __name__ == "__main__":
    sys.exit(main())

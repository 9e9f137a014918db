#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]

Decides one property on /repo's current working tree.

 1. builds the contract crate against /repo (the repository's own toolchain, flags and default
    features) and evaluates the contracts natively: complete enumeration of finite domains, and a
    labelled, bounded counterexample search elsewhere;
 2. runs the Kani (CBMC) obligations of the property: the same contracts over symbolic arguments;
 3. runs the Verus obligations of the property on functions extracted mechanically from /repo.

A contract that fails natively is reported with the failing arguments (replay file).  A failed
deductive obligation is replayed natively with the verifier's counterexample; if it does not
reproduce it is reported as `no-failing-input-found`.  Tool limits (timeouts, unwinding, lost
anchors, unsupported constructs) are recorded in the evidence as undischarged and never alarm.
"""
import json, os, re, subprocess, sys, time, shutil, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
CRATE = os.path.join(VERIF, "contracts")
SHARED = "/opt/vp/Cargo.lock"

def log(*a):
    print("[check]", *a, flush=True)

def native_env():
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, check=True)
    env = dict(l.split("=", 1) for l in r.stdout.decode().split("\0") if "=" in l)
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target", "native")
    env["CARGO_INCREMENTAL"] = "0"
    return env

def kani_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["HOME"] = "/root"
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["CARGO_NET_OFFLINE"] = "true"
    return env

def run(cmd, env, timeout, cwd=CRATE):
    """Run with a time limit, killing the whole process group."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out

def lockfile():
    dst = os.path.join(CRATE, "Cargo.lock")
    src = "/repo/Cargo.lock" if os.path.exists("/repo/Cargo.lock") else SHARED
    if not os.path.exists(dst):
        shutil.copy(src, dst)
    run(["cargo", "metadata", "--offline", "--format-version", "1"], native_env(), 60)

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.c = prop.lower()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []   # (kind, name, obligation, detail, replay path, confirmed)
        self.tmp = os.path.join(VERIF, "target", "run", prop)
        os.makedirs(self.tmp, exist_ok=True)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.cfg = json.load(open(os.path.join(VERIF, "tools", "levels.json"))).get(prop, {})
        self.kani_proc = None
        self.notes = []

    # ---- native ----
    def build(self, portable=False):
        env = native_env()
        if portable:
            env["CARGO_TARGET_DIR"] += "-portable"
        if "opt" in self.cfg:
            env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = str(self.cfg["opt"])
        feats = self.c if portable else "native," + self.c
        cmd = ["cargo", "build", "--release", "--offline", "--features", feats, "--bin", self.c]
        t = time.time()
        rc, out = run(cmd, env, 800)
        self.bin = os.path.join(env["CARGO_TARGET_DIR"], "release", self.c)
        if rc != 0:
            sys.stdout.write(out[-6000:])
            log("native build failed")
            return False
        log(f"native build{' (portable code paths)' if portable else ''} {time.time()-t:.1f}s")
        return True

    def native(self, portable=False):
        o = os.path.join(self.tmp, "native.json")
        budget = str(self.cfg.get("budget", 15)) if self.tier == "quick" else "400"
        cmd = [self.bin, "--seed", str(self.seed), "--out", o, "--budget", budget]
        if self.tier == "thorough":
            cmd.append("--thorough")
        if os.path.exists(o):
            os.remove(o)
        rc, out = run(cmd, dict(os.environ, RUST_BACKTRACE="0"), 420 if self.tier == "quick" else 3000)
        if rc is None or not os.path.exists(o):
            # the run itself died: a contract aborted the process or never ended
            sys.stdout.write(out[-4000:])
            return self.native_isolated(portable)
        d = json.load(open(o))
        self.take_native(d, portable)
        return True

    def take_native(self, d, portable=False):
        cs = d["contracts"]
        if portable:
            for c in cs:
                c["name"] += " [portable]"
        self.nat += cs
        for c in cs:
            v = c.get("violation")
            if v:
                name = c["name"].replace(" [portable]", "")
                path = os.path.join(self.replays, f"{self.prop}-{re.sub('[^A-Za-z0-9_.-]', '_', c['name'])}.json")
                json.dump(dict(property=self.prop, contract=c["name"], covers=c["covers"], obligation=v["obligation"], detail=v["detail"],
                               index=v["index"], words=v["words"], seed=self.seed,
                               how_to_replay=f"{self.bin} --replay {name!r} {v['index']} {v['words'] or chr(39)*2}"), open(path, "w"), indent=1)
                self.violations.append(("native", c["name"], v["obligation"], v["detail"], path, True))

    def native_isolated(self, portable=False):
        """Run each contract in its own process to find the one that aborts or hangs."""
        rc, out = run([self.bin, "--names"], dict(os.environ), 30)
        if rc != 0:
            return False
        names = out.split("\n")
        allc = []
        from concurrent.futures import ThreadPoolExecutor
        def one(n):
            o = os.path.join(self.tmp, "iso-" + re.sub("[^A-Za-z0-9_.-]", "_", n) + ".json")
            if os.path.exists(o):
                os.remove(o)
            rc, out = run([self.bin, "--exact", n, "--seed", str(self.seed), "--out", o, "--budget", "5"], dict(os.environ), 60)
            return n, rc, out, o
        with ThreadPoolExecutor(8) as ex:
            for n, rc, out, o in ex.map(one, [n for n in names if n]):
                if os.path.exists(o):
                    allc += json.load(open(o))["contracts"]
                else:
                    why = "does not terminate (60 s)" if rc is None else f"process died with status {rc}"
                    allc.append(dict(name=n, covers="", bound="", exhaustive=False, planned=1, evaluations=1, vacuous=0, distinct=1, cpu_s=0, sample="",
                                     violation=dict(obligation="terminates without abort", detail=why + ": " + out[-800:], index=0, words="")))
        self.take_native(dict(contracts=allc), portable)
        return True

    # ---- Kani ----
    def kani_start(self, limit):
        src = open(os.path.join(CRATE, "src", self.c + ".rs")).read()
        obls = [dict(name=m[0], tier=m[1], label=m[2], covers=m[3]) for m in
                re.findall(r'^    (\w+), (quick|thorough), \d+, "([^"]*)", "([^"]*)",', src, re.M)]
        self.use = [o for o in obls if self.tier == "thorough" or o["tier"] == "quick"]
        self.kani_rows, self.kani_proc = [], None
        if not self.use:
            return
        self.js = os.path.join(self.tmp, "kani.json")
        if os.path.exists(self.js):
            os.remove(self.js)
        ht = 100 if self.tier == "quick" else 1500
        tdir = os.path.join(VERIF, "target", "kani")
        self.kbase = ["cargo", "kani", "--lib", "--features", self.c, "--target-dir", tdir, "-Z", "unstable-options"] + self.cfg.get("kani_flags", "").split()
        cmd = self.kbase + ["--output-format", "terse", "-j", "8", "--harness-timeout", f"{int(min(ht, limit))}s", "--export-json", self.js, "--exact"]
        for o in self.use:
            cmd += ["--harness", f"{self.c}::proofs::{o['name']}"]
        self.kani_t0, self.kani_limit = time.time(), limit + 120
        self.klog = os.path.join(self.tmp, "kani.log")
        self.kani_proc = subprocess.Popen(cmd, env=kani_env(), cwd=CRATE, stdout=open(self.klog, "w"), stderr=subprocess.STDOUT, start_new_session=True)

    def kani_stop(self):
        if getattr(self, "kani_proc", None) and self.kani_proc.poll() is None:
            os.killpg(self.kani_proc.pid, signal.SIGKILL)
            self.kani_proc.wait()

    def kani_collect(self):
        if not self.kani_proc:
            return
        js, use, base = self.js, self.use, self.kbase
        try:
            self.kani_proc.wait(timeout=max(1, self.kani_limit - (time.time() - self.kani_t0)))
        except subprocess.TimeoutExpired:
            self.kani_stop()
        self.kani_wall = time.time() - self.kani_t0
        out = open(self.klog, errors="replace").read()
        res, stats, ver = {}, {}, {}
        if os.path.exists(js):
            d = json.load(open(js))
            ver = d.get("tools", {})
            stats = {x["harness_id"]: x.get("cbmc_stats") or {} for x in d.get("cbmc", [])}
            res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
        else:
            self.notes.append("Kani gave no result file: " + out[-600:])
        self.kani_ver = ver
        for o in use:
            hid = f"{self.c}::proofs::{o['name']}"
            r = res.get(hid)
            row = dict(name=o["name"], label=o["label"], covers=o["covers"], status="undecided", checks=0, discharged=0, seconds=0.0, solver_s=0.0, symex_s=0.0, functions=[])
            self.kani_rows.append(row)
            if not r:
                row["why"] = "no result (build problem, timeout of the whole run or tool limit)"
                continue
            ch = r["checks"]
            row["seconds"] = r["duration_ms"] / 1000
            row["solver_s"] = stats.get(hid, {}).get("runtime_decision_procedure_s") or 0
            row["symex_s"] = stats.get(hid, {}).get("runtime_symex_s") or 0
            row["checks"] = sum(1 for c in ch if c["category"] != "cover")
            row["discharged"] = sum(1 for c in ch if c["category"] != "cover" and c["status"] in ("Success", "Unreachable"))
            row["functions"] = sorted({c["function"] for c in ch if (c["location"].get("file") or "").startswith("/repo/")})
            bad = [c for c in ch if c["status"] not in ("Success", "Unreachable", "Satisfied")]
            limits = [c for c in bad if c["status"] not in ("Failure", "Failed") or "unwind" in c["category"] or "unsupported" in c["category"] or "unwinding assertion" in c["description"] or "is not currently supported" in c["description"]]
            if r["status"] == "Success" and not bad and ch:
                cov = [c for c in ch if c["category"] == "cover"]
                if cov and all(c["status"] == "Satisfied" for c in cov):
                    row["status"] = "discharged"
                else:
                    row["why"] = "vacuous: postcondition not reachable"
                continue
            if not ch:
                row["why"] = "timeout or out of memory"
                continue
            real = [c for c in bad if c not in limits and c["category"] != "cover"]
            if not real:
                row["why"] = "tool limit: " + "; ".join(sorted({c["description"][:80] for c in limits}))[:300]
                continue
            row["status"] = "failed"
            row["failed"] = [dict(function=c["function"], description=c["description"], location=c["location"], category=c["category"]) for c in real][:8]
            row["limits"] = len(limits)
            self.kani_replay(base, hid, o, row, real, bool(limits))

    def kani_replay(self, base, hid, o, row, real, limited):
        cmd = base + ["-Z", "concrete-playback", "--concrete-playback", "print", "--exact", "--harness", hid, "--harness-timeout", "300s"]
        rc, out = run(cmd, kani_env(), 420)
        tests = re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)
        confirmed = None
        for t in tests:
            words = []
            for m in re.finditer(r"vec!\[([0-9, ]*)\]", t):
                bs = bytes(int(x) for x in m.group(1).replace(" ", "").split(",") if x)
                words.append(int.from_bytes(bs, "little"))
            w = ",".join("%x" % x for x in words)
            rc, ro = run([self.bin, "--replay", o["name"], "0", w], dict(os.environ), 60)
            if rc == 1:
                confirmed = (w, ro.strip())
                break
        path = os.path.join(self.replays, f"{self.prop}-{o['name']}.json")
        desc = "; ".join(sorted({c["description"] for c in real}))[:300]
        rec = dict(property=self.prop, contract=o["name"], covers=o["covers"], obligation=desc, failed_checks=row["failed"], verifier="Kani/CBMC",
                   verifier_output=out[-6000:])
        if confirmed:
            rec.update(words=confirmed[0], native_replay=confirmed[1], how_to_replay=f"{self.bin} --replay {o['name']} 0 {confirmed[0]}")
        json.dump(rec, open(path, "w"), indent=1)
        if confirmed or not limited:
            self.violations.append(("kani", o["name"], desc, confirmed[1] if confirmed else "counterexample not reproduced natively", path, bool(confirmed)))
        else:
            row["status"] = "undecided"
            row["why"] = "failed together with an unwinding/tool limit and not reproduced"

    # ---- Verus ----
    def verus(self):
        self.verus_rows = []
        try:
            import verus_run
        except ImportError:
            return
        for row in verus_run.run_property(self.prop, self.tier, self.tmp):
            self.verus_rows.append(row)
            if row["status"] == "failed":
                path = os.path.join(self.replays, f"{self.prop}-verus-{row['name']}.json")
                json.dump(dict(property=self.prop, contract=row["name"], covers=row["covers"], obligation=row.get("why", ""), verifier="Verus/Z3",
                               verifier_output=row.get("output", "")[-6000:]), open(path, "w"), indent=1)
                self.violations.append(("verus", row["name"], row.get("why", "proof obligation failed"), "", path, False))

    # ---- evidence ----
    def evidence(self, level):
        k, v, n = self.kani_rows, self.verus_rows, self.nat
        comp = [r for r in k if r["label"] == "complete"]
        bnd = [r for r in k if r["label"] != "complete"]
        ob = sum(r["checks"] for r in comp) + sum(r.get("obligations", 0) for r in v)
        dis = sum(r["discharged"] for r in comp if r["status"] == "discharged") + sum(r.get("verified", 0) for r in v if r["status"] == "discharged")
        cov = dict(
            obligations=ob, discharged=dis,
            checker_cmd=f"cargo kani --lib --features {self.c} (contracts crate, /repo path dependencies)" + ("; verus on extracted functions" if v else ""),
            trusted_base=TRUSTED,
            functions_under_contract=sorted({f for r in k if r["status"] == "discharged" for f in r["functions"]})[:400],
            kani_complete=[dict(name=r["name"], covers=r["covers"], status=r["status"], checks=r["checks"], solver_s=round(r["solver_s"], 3), symex_s=round(r["symex_s"], 3), **({"why": r["why"]} if "why" in r else {})) for r in comp],
            kani_bounded=[dict(name=r["name"], covers=r["covers"], bound=r["label"], status=r["status"], checks=r["checks"], solver_s=round(r["solver_s"], 3), symex_s=round(r["symex_s"], 3), **({"why": r["why"]} if "why" in r else {})) for r in bnd],
            verus=[{kk: vv for kk, vv in r.items() if kk != "output"} for r in v],
            bounded_obligations=sum(r["checks"] for r in bnd), bounded_discharged=sum(r["discharged"] for r in bnd if r["status"] == "discharged"),
            native_contracts=len(n), native_exhaustive=[dict(name=c["name"], domain=c["bound"], evaluations=c["evaluations"]) for c in n if c["exhaustive"]][:200],
            evaluations=sum(c["evaluations"] for c in n), distinct_nontrivial=sum(c["distinct"] for c in n),
            rule="native evaluations of the contracts: arguments drawn from a seeded generator mixing uniform and structured values (0, 1, all-ones, single bits, subfield values, equal/complementary operands); a case is non-trivial when the contract's precondition held, distinct by its argument words",
            samples=[c["sample"] for c in n if c["sample"]][:12],
            explanation="Kani obligations labelled complete cover the whole argument domain of the named functions; those labelled bounded and the native evaluations are bounded stand-ins and are not counted in obligations/discharged.",
            tools=getattr(self, "kani_ver", {}), notes=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=TRUSTED, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)

TRUSTED = [
    "rustc front end, Kani 0.68 / CBMC 6.11 and CaDiCaL (symbolic execution, bit-precise semantics); Verus and Z3 where used",
    "the reference definitions in contracts/src/spec.rs and in the contract text",
    "Kani analyses the portable code paths (no AVX2/GFNI intrinsics, default features off, no rayon); the SIMD and parallel paths are only covered by the native evaluations",
    "third-party crates (rayon, bytemuck, digest, sha2, rand, ...) are executed, not specified",
]

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "known"]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    level = json.load(open(os.path.join(VERIF, "tools", "levels.json"))).get(prop, {}).get("level", "proof")
    ck = Check(prop, tier)
    ck.kani_rows, ck.verus_rows, ck.nat = [], [], []
    lockfile()
    deductive = not os.environ.get("SKIP_DEDUCTIVE")
    if deductive:
        ck.kani_start(420 if tier == "quick" else 5400)
    if not ck.build() or not ck.native():
        ck.kani_stop()
        log("native contracts could not be built or run")
        sys.exit(2)
    main_bin = ck.bin
    if ck.cfg.get("portable") and not ck.violations:
        if not ck.build(True) or not ck.native(True):
            ck.kani_stop()
            sys.exit(2)
    log(f"native contracts: {len(ck.nat)}, evaluations {sum(c['evaluations'] for c in ck.nat)}, violations {len(ck.violations)}")
    if deductive and not ck.violations:
        ck.verus()
    if deductive and not ck.violations:
        ck.bin = main_bin
        ck.kani_collect()
        log("kani:", {s: sum(1 for r in ck.kani_rows if r["status"] == s) for s in ("discharged", "undecided", "failed")},
            "verus:", {s: sum(1 for r in ck.verus_rows if r["status"] == s) for s in ("discharged", "undecided", "failed")})
        for r in ck.kani_rows + ck.verus_rows:
            if r["status"] == "undecided":
                log("undischarged (no alarm):", r["name"], r.get("why", ""))
    ck.kani_stop()
    for f in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    ck.evidence(level)
    log(f"wall {time.time()-ck.t0:.1f}s")
    if ck.violations:
        for kind, name, ob, det, path, conf in ck.violations[:20]:
            log(f"violated: contract {name}: {ob} {det[:300]}")
        kind, name, ob, det, path, conf = sorted(ck.violations, key=lambda v: not v[5])[0]
        print(f"VIOLATION property={prop} replay={path}" + ("" if conf else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)

main()

#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of pdf-writer's LLVM IR.

usage: check.py PROPERTY            (tier from VERIF_TIER, default quick)
       check.py --replay FILE       re-run a recorded counterexample
       check.py --setup             build the engine
Exit 0: held on everything explored. 1: violation (replayed natively).
2: the check could not decide (solver timeout, unsupported code, build error,
   or a counterexample that the real build does not confirm).
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(ROOT, "engine/target/release/llsym")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
CPUS = 8

sys.path.insert(0, ROOT)
import props  # noqa: E402

REDIRECTS = [
    "core3fmt5floatf&7Display3fmt=model_f32_display",
    "core3fmt5floatf&8LowerExp3fmt=model_f32_exp",
    "core3fmt5floatf&8UpperExp3fmt=model_f32_exp",
    "core3fmt5floatf&5Debug3fmt=model_f32_debug",
    "core3fmt5floatd&7Display3fmt=model_f64_display",
] + [f"core3fmt3num3imp{c}&7Display3fmt=model_int_{dict(y='j', x='i').get(c, c)}" for c in "htmyjaslxi"] + [
    f"core3fmt3num3imp{c}4__fmt=model_dec_{c}" for c in "htmyj"] + [
    "4hash6random11RandomState&11BuildHasher8hash_one=model_hash"]

TRUSTED = [
    "itoa 1.0.11 is replaced by its contract (canonical decimal spelling, digits introduced as fresh solver variables)",
    "ryu 1.0.18 and core's Display for f32/f64 are replaced by injective spellings of the bit pattern with the real shape "
    "(decimal point always for ryu, only for non-integral values for Display; exponent exactly where the real one prints one)",
    "core's Display for integers is replaced by the same contract as itoa (padding and sign handling stay real)",
    "std's hash maps and sets, where the library uses any, hash every key to the same value",
    "memchr 2.7.4 is replaced by a naive reference search",
    "rustc/LLVM up to the optimised IR, the executor's IR semantics, Z3 4.8.12",
    "the harness oracle (an independent reader of PDF syntax written from ISO 32000)",
    "allocation never fails",
]


def env(target):
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_TARGET_DIR=target,
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
    )
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Undecided(Exception):
    pass


def setup():
    d = os.path.join(ROOT, "engine")
    newest = max(os.path.getmtime(os.path.join(d, "src", f)) for f in os.listdir(os.path.join(d, "src")))
    if os.path.exists(ENGINE) and os.path.getmtime(ENGINE) >= newest:
        return
    rc, out = run(["cargo", "build", "--release", "--offline"], d, env(os.path.join(d, "target")), 1500)
    if rc != 0 or not os.path.exists(ENGINE):
        raise Undecided("engine build failed:\n" + out[-3000:])
    os.utime(ENGINE)


def sysroot_bin():
    rc, out = run(["rustc", "--print", "sysroot"], ROOT, env("/nonexistent"))
    return os.path.join(out.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_ir(work, feature):
    """Lower harness + pdf-writer (from /repo's working tree) to one IR module."""
    t = os.path.join(work, "sym")
    shutil.rmtree(t, ignore_errors=True)
    rc, out = run(
        ["cargo", "rustc", "--release", "--offline", "--locked", "--features", feature, "--",
         "-Awarnings", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
         "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"],
        os.path.join(ROOT, "harness/sym"), env(t))
    if rc != 0:
        raise Undecided("harness build failed:\n" + out[-4000:])
    deps = os.path.join(t, "release/deps")
    ll = os.path.join(work, feature + ".ll")
    link_ir(deps, ll, env(t))
    shutil.rmtree(t, ignore_errors=True)
    return ll


def link_ir(deps, ll, e):
    """rustc's fat LTO, repeated with the functions that are replaced by models
    kept as they are (not inlined, no arguments dropped)."""
    def one(pattern):
        bc = [f for f in os.listdir(deps) if re.match(r"harness.*" + pattern, f)]
        if len(bc) != 1:
            raise Undecided(f"bitcode not found: {pattern} {bc}")
        return os.path.join(deps, bc[0])

    def names(bc, kinds):
        rc, out = run([os.path.join(sysroot_bin(), "llvm-nm"), "--defined-only", bc], ROOT, e)
        if rc != 0:
            raise Undecided("llvm-nm failed:\n" + out[-2000:])
        cols = [l.split() for l in out.splitlines()]
        return [c[-1] for c in cols if len(c) >= 3 and c[-2] in kinds]

    whole = one(r"lto\.input\.bc$")
    exported = names(one(r"lto\.after-restriction\.bc$"), "TDRB")
    parts = [r.split("=")[0].split("&") for r in REDIRECTS]
    modelled = [n for n in names(whole, "Tt") if any(all(q in n for q in p) for p in parts)]
    keep = ";".join(f"preserve-gv={n}" for n in dict.fromkeys(exported + modelled))
    rc, out = run([os.path.join(sysroot_bin(), "opt"), "--strip-debug",
                   f"-passes=internalize<{keep}>,globaldce,forceattrs,lto<O2>,globaldce",
                   "-vectorize-loops=false", "-vectorize-slp=false"]
                  + [f"--force-attribute={n}:noinline" for n in modelled]
                  + ["-S", whole, "-o", ll], ROOT, e)
    if rc != 0:
        raise Undecided("opt failed:\n" + out[-2000:])


def build_native(work, feature):
    """The replayer, against the real dependencies, as dev and release builds."""
    exes = {}
    t = os.path.join(work, "native")
    shutil.rmtree(t, ignore_errors=True)

    def one(profile):
        tt = os.path.join(t, profile)
        rc, out = run(["cargo", "build", "--offline", "--locked", "--features", feature]
                      + (["--release"] if profile == "release" else []),
                      os.path.join(ROOT, "harness/native"), env(tt))
        if rc != 0:
            raise Undecided(f"native {profile} build failed:\n" + out[-4000:])
        d = os.path.join(tt, "release" if profile == "release" else "debug")
        exe = os.path.join(work, "replay-" + profile)
        shutil.copy2(os.path.join(d, "harness"), exe)
        return exe

    with cf.ThreadPoolExecutor(2) as ex:
        fs = {p: ex.submit(one, p) for p in ("dev", "release")}
        exes = {p: f.result() for p, f in fs.items()}
    shutil.rmtree(t, ignore_errors=True)
    return exes


def symex(ll, job, work):
    entry, (k, n), cap = job["entry"], job["shard"], job["time"]
    out = os.path.join(work, f"{entry}.{k}.json")
    cmd = [ENGINE, "--ll", ll, "--entry", entry, "--out", out, "--shard", f"{k}/{n}",
           "--shard-depth", str(job.get("depth", 8)), "--max-time", str(cap), "--max-violations", "6",
           "--query-timeout-ms", str(job.get("query_ms", 120000))]
    for r in REDIRECTS:
        cmd += ["--redirect", r]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=cap + 180)
    except subprocess.TimeoutExpired:
        return {"entry": entry, "status": "timeout", "errors": ["killed at the time limit"], "violations": []}
    if p.returncode != 0:
        return {"entry": entry, "status": "error", "errors": ["executor failed: " + p.stdout[-1500:]], "violations": []}
    with open(out) as f:
        r = json.load(f)
    os.remove(out)
    return r


def replay(exe, entry, inputs):
    try:
        p = subprocess.run([exe, entry] + [str(v) for v in inputs], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return 99, "timed out"
    line = [l for l in p.stdout.splitlines() if l.startswith("REPLAY")]
    return p.returncode, (line[-1] if line else p.stdout[-300:])


def known(prop):
    path = os.path.join(ROOT, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop:
                    res.append(d)
    return res


def sample_inputs(s):
    return [int(x.split(":")[1], 16) for x in s.split()] if s else []


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = props.PROPS[prop]
    feature = prop.lower()
    work = os.path.join(ROOT, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    setup()
    with cf.ThreadPoolExecutor(1) as ex:
        nat = ex.submit(build_native, work, feature)
        ll = build_ir(work, feature)
        native = nat.result()
    t_build = time.time() - t0

    jobs = []
    for e in p["entries"]:
        o = {"tier": "quick", "shards": 1, "time": 300, "depth": 8}
        if isinstance(e, str):
            o["entry"] = e
        else:
            o["entry"] = e[0]
            o.update(e[1])
        if o["tier"] == "thorough" and tier != "thorough":
            continue
        if tier == "thorough":
            o["time"] = max(o["time"], 3000)
            o["query_ms"] = 600000
        for k in range(o["shards"]):
            jobs.append(dict(o, shard=(k, o["shards"])))
    jobs.sort(key=lambda j: -j["shards"])
    results = []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        fs = [ex.submit(symex, ll, j, work) for j in jobs]
        for f in fs:
            results.append(f.result())

    agg, funcs, covers, checks, samples, errors, viols = {}, set(), {}, {}, [], [], []
    per = {}
    for r in results:
        for k in ("paths", "forks", "steps", "asserts", "asserts_const", "asserts_solver", "assumes", "panics_allowed",
                  "queries", "sat", "unsat", "cache_hits", "fd_decisions", "solver_time"):
            agg[k] = agg.get(k, 0) + r.get(k, 0)
        d = per.setdefault(r["entry"], {"paths": 0, "asserts": 0, "panics_allowed": 0, "queries": 0, "solver_time": 0.0, "wall": 0.0, "status": set()})
        for k in ("paths", "asserts", "panics_allowed", "queries", "solver_time"):
            d[k] += r.get(k, 0)
        d["wall"] = max(d["wall"], r.get("wall", 0))
        d["status"].add(r["status"])
        agg["max_query"] = max(agg.get("max_query", 0), r.get("max_query", 0))
        funcs.update(r.get("funcs", []))
        for k, v in r.get("covers", {}).items():
            covers[k] = covers.get(k, 0) + v
        for k, v in r.get("checks", {}).items():
            checks[k] = checks.get(k, 0) + v
        for s in r.get("samples", []):
            samples.append((r["entry"], s))
        for e in r.get("errors", []):
            errors.append(f"{r['entry']}: {e}")
        if r["status"] == "timeout":
            errors.append(f"{r['entry']}: time limit reached before all paths were explored")
        for v in r.get("violations", []):
            viols.append((r["entry"], v))

    # counterexamples: replay against the real build
    confirmed, unconfirmed, knowns = [], [], []
    kf = known(prop)
    seen = set()
    for entry, v in viols:
        inputs = [x for _, x in v["inputs"]]
        key = (entry, tuple(inputs))
        if key in seen or len(seen) > 200:
            continue
        seen.add(key)
        hit = None
        for profile in ("dev", "release"):
            rc, line = replay(native[profile], entry, inputs)
            if rc not in (0, 4):
                hit = (profile, line)
                break
        if not hit:
            unconfirmed.append((entry, v, line))
            continue
        rec = {"property": prop, "entry": entry, "inputs": inputs, "message": v["msg"], "profile": hit[0], "replay": hit[1]}
        k = [f for f in kf if f["entry"] == entry and f["message"] in (v["msg"], hit[1]) and ("inputs" not in f or f["inputs"] == inputs)]
        if k:
            knowns.append((k[0], rec))
        else:
            confirmed.append(rec)

    # path models replayed natively: validates executor and library models
    validated = 0
    todo = samples[:]
    if len(todo) > 400:
        todo = todo[:: max(1, len(todo) // 400)]
    for entry, s in todo:
        inputs = sample_inputs(s)
        if (entry, tuple(inputs)) in seen:
            continue
        for profile in ("dev", "release"):
            rc, line = replay(native[profile], entry, inputs)
            if rc == 0:
                validated += 1
            elif rc == 4:
                errors.append(f"{entry}: path model {s} rejected natively: {line}")
            else:
                rec = {"property": prop, "entry": entry, "inputs": inputs, "profile": profile, "replay": line,
                       "message": "path model of a passing path fails on the real build"}
                if not any(f["entry"] == entry and f.get("inputs") == inputs for f in kf):
                    confirmed.append(rec)
                break

    # vacuity
    if not viols and not errors:
        for e, d in per.items():
            if d["paths"] == 0 or d["asserts"] + d["panics_allowed"] == 0:
                errors.append(f"{e}: vacuous, no assertion was reached")
        src = open(os.path.join(ROOT, "harness/src", feature + ".rs")).read()
        for c in set(re.findall(r'\bcover\("([^"]*)"\)', src)):
            if c not in covers and not (c.startswith("thorough") and tier != "thorough"):
                errors.append(f"vacuity witness never reached: {c}")

    rdir = os.path.join(work, "replay")
    os.makedirs(rdir, exist_ok=True)
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": agg.get("paths", 0) + agg.get("forks", 0),
            "transitions": agg.get("steps", 0),
            "traces_validated_against_impl": validated,
            "samples": [f"{e}({s})" for e, s in samples[:: max(1, len(samples) // 12)]][:14],
            "paths": agg.get("paths", 0),
            "assertions_checked": agg.get("asserts", 0),
            "assertions_decided_by_simplifier": agg.get("asserts_const", 0),
            "assertions_decided_by_solver": agg.get("asserts_solver", 0),
            "solver_queries": agg.get("queries", 0),
            "solver_unsat": agg.get("unsat", 0),
            "solver_sat": agg.get("sat", 0),
            "finite_domain_decisions": agg.get("fd_decisions", 0),
            "solver_time_s": round(agg.get("solver_time", 0), 3),
            "max_query_s": agg.get("max_query", 0),
            "allowed_panics": agg.get("panics_allowed", 0),
            "functions_encoded": sorted(f for f in funcs),
            "functions_encoded_pdf_writer": sum("pdf_writer" in f for f in funcs),
            "harnesses": {e: dict(d, status=sorted(d["status"])) for e, d in per.items()},
            "vacuity_witnesses": covers,
            "checks": checks,
            "bounds": p["bounds"],
            "outside": p.get("outside", ""),
            "exhaustive_within_bounds": not errors and not viols,
            "undecided": errors[:20],
            "unconfirmed_counterexamples": len(unconfirmed),
            "known_findings_seen": len(knowns),
            "build_s": round(t_build, 1),
        },
        "assumptions": TRUSTED + p.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{prop} [{tier}]: {agg.get('paths',0)} paths, {agg.get('asserts',0)} assertions, {agg.get('queries',0)} solver queries "
          f"({agg.get('unsat',0)} unsat, {agg.get('sat',0)} sat), {agg.get('solver_time',0):.1f} s solver, "
          f"{validated} traces validated, {wall:.1f} s wall")
    for k in {json.dumps(k[0], sort_keys=True): k for k in knowns}.values():
        print(f"KNOWN-FINDING: property={prop} {k[0].get('what', k[0]['message'])}")
    if confirmed:
        for i, rec in enumerate(confirmed[:5]):
            path = os.path.join(rdir, f"{rec['entry']}-{i}.json")
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print(f"  {rec['entry']} inputs={rec['inputs']}: {rec['message']} [{rec['profile']}: {rec['replay']}]")
        print(f"VIOLATION property={prop} replay={os.path.join(rdir, confirmed[0]['entry'] + '-0.json')}")
        return 1
    bad = 0
    for entry, v, line in unconfirmed[:5]:
        print(f"UNDECIDED {entry}: counterexample {v['inputs']} ({v['msg']}) not confirmed by the real build: {line}")
        bad = 2
    for e in errors[:10]:
        print("UNDECIDED " + e[:1500])
        bad = 2
    if bad == 0:
        os.remove(ll)
    return bad


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            setup()
            return 0
        if a[0] == "--replay":
            rec = json.load(open(a[1]))
            work = os.path.join(ROOT, "work", rec["property"] + "-replay")
            os.makedirs(work, exist_ok=True)
            native = build_native(work, rec["property"].lower())
            for profile in ("dev", "release"):
                print(profile, *replay(native[profile], rec["entry"], rec["inputs"]))
            return 0
        return check(a[0])
    except Undecided as e:
        print("UNDECIDED", e)
        return 2


sys.exit(main())

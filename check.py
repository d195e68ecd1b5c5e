#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]   decide one property
check.py --replay FILE                                  run a counterexample natively
check.py --setup                                        build everything once

A check
  1. compiles the engine (engine/) and, from /repo's working tree, the LLVM IR of
     the harness crate with every dependency including std (rustc -Zbuild-std);
  2. explores every path of the property's harnesses symbolically (engine/, Z3);
  3. runs sampled path models through the natively compiled code and compares
     every observed value (validation of the engine against the compiled code);
  4. runs every counterexample natively, in the dev and the release profile, and
     reports it only if it reproduces.
Exit 0: held everywhere; 1: VIOLATION line; 2 and above: the check has no answer.
"""
import argparse, concurrent.futures, filecmp, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props  # noqa: E402

BUILD = os.path.join(HERE, ".build")
TRIPLE = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "stable"


class Fail(Exception):
    pass


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC")) and k not in ("CARGO_HOME",):
            e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, PYO3_PYTHON="/usr/bin/python3", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def sh(cmd, cwd, e, what, timeout=1200):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Fail(f"{what} failed ({r.returncode}):\n{r.stderr[-4000:]}")
    return r.stdout


def fresh():
    """Forget the builds made from other sources. Cargo goes by times, which
    say nothing when another copy of the tree takes the place of this one."""
    h = hashlib.sha256()
    for root in ("/repo", os.path.join(HERE, "harness")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(f"{p}\0{os.path.getsize(p)}\0".encode() + open(p, "rb").read())
    stamp = os.path.join(BUILD, "sources")
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == h.hexdigest():
        return
    for t in glob.glob(os.path.join(BUILD, "*", "**", ".fingerprint"), recursive=True):
        for d in os.listdir(t):
            if d.startswith(("phlite", "hcore-", "hrips-", "hgrpph-", "vs-")):
                shutil.rmtree(os.path.join(t, d))
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def build_engine():
    t = os.path.join(BUILD, "engine")
    sh(["cargo", "build", "--release", "--offline", "--locked", "-q"], os.path.join(HERE, "engine"), env(CARGO_TARGET_DIR=t), "engine build")
    return os.path.join(t, "release", "irsym")


def artifacts(out):
    """Names of the libraries a cargo build consists of, fresh or not."""
    libs = []
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            libs += [f for f in m["filenames"] if f.endswith(".rlib")]
    return libs


def features(crate, runs):
    """Cargo features of the harness crate: the entry points and primes a run needs."""
    have = set(re.findall(r"^(\w+) = \[\]$", open(os.path.join(HERE, "harness", crate, "Cargo.toml")).read(), re.M))
    f = {e for e, _ in runs}
    f |= {f"p{a % 100}" for _, a in runs}
    return ",".join(sorted(f & have))


def hooks(feat):
    """The cfgs of the hooks in /repo that the entry points need."""
    f = " --cfg phlite_verif"
    if "h_grpph_filtration" in feat.split(","):
        f += ' --cfg phlite_verif="filtration"'
    return f


def target(crate, feat):
    return os.path.join(BUILD, crate + ("-filtration" if "filtration" in hooks(feat) else ""))


def build_ir(crate, feat):
    t = target(crate, feat) + "-ir"
    flags = "--emit=llvm-ir,link -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp --cap-lints allow" + hooks(feat)
    e = env(CARGO_TARGET_DIR=t, RUSTC_BOOTSTRAP="1", RUSTFLAGS=flags)
    out = sh(
        ["cargo", "build", "--lib", "-Zbuild-std=std,panic_abort", "--target", TRIPLE, "--offline", "--locked", "--message-format=json", "-q", "--features", feat],
        os.path.join(HERE, "harness", crate), e, "IR build",
    )
    lls = []
    for f in artifacts(out):
        d, b = os.path.split(f)
        deps = os.path.join(d, "deps") if os.path.basename(d) != "deps" else d
        if TRIPLE not in deps:
            continue
        name = os.path.basename(b)[3:-5]
        ll = os.path.join(deps, name + ".ll")
        if not os.path.exists(ll):
            # top-level libraries are hard links without the hash
            c = [x for x in os.listdir(deps) if re.fullmatch("lib" + re.escape(name) + r"(-[0-9a-f]{16})?\.rlib", x)]
            same = [x for x in c if os.path.samefile(os.path.join(deps, x), f)]
            same = same or [x for x in c if filecmp.cmp(os.path.join(deps, x), f, shallow=False)]
            c = [x[3:-5] + ".ll" for x in same if os.path.exists(os.path.join(deps, x[3:-5] + ".ll"))]
            if not c:
                raise Fail(f"no LLVM IR for {f}")
            ll = os.path.join(deps, c[-1])
        if ll not in lls:
            lls.append(ll)
    if not any("std-" in x for x in lls):
        raise Fail("no IR of std among the artifacts")
    return lls


def build_native(crate, profile, feat):
    t = target(crate, feat) + "-native"
    flags = "--cap-lints allow -Cdebug-assertions=" + ("on" if profile == "dev" else "off") + hooks(feat)
    if crate == "grpph":
        flags += " -Clink-arg=-Wl,--unresolved-symbols=ignore-all"
    prof = {"dev": "replaydev", "release": "release"}[profile]
    e = env(CARGO_TARGET_DIR=t, RUSTFLAGS=flags)
    sh(["cargo", "build", "--profile", prof, "--features", "native," + feat, "--bin", "replay", "--offline", "--locked", "-q"],
       os.path.join(HERE, "harness", crate), e, f"native {profile} build")
    return os.path.join(t, prof, "replay")


def native(binary, entry, arg, inputs, timeout=60):
    try:
        r = subprocess.run([binary, entry, str(arg)] + [str(x) for x in inputs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return {"rc": None, "out": [], "timeout": True}
    return {"rc": r.returncode, "out": r.stdout.splitlines(), "timeout": False, "err": r.stderr[-500:]}


def texts():
    """check/observe/reach identifiers to their texts, from the harness sources."""
    m = {}
    for root, _, fs in os.walk(os.path.join(HERE, "harness")):
        for f in fs:
            if f.endswith(".rs"):
                for s in re.findall(r'"((?:[^"\\]|\\.)*)"', open(os.path.join(root, f)).read()):
                    h = 0xCBF29CE484222325
                    for b in s.encode():
                        h = ((h ^ b) * 0x100000001B3) & (2**64 - 1)
                    m[h & 0x7FFFFFFFFFFF] = s
    return m


def engine(irsym, lls, runs, tier, seed, timeout, qtimeout, max_steps, tag):
    lst = os.path.join(BUILD, f"{tag}.list")
    out = os.path.join(BUILD, f"{tag}.json")
    open(lst, "w").write("\n".join(lls) + "\n")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [irsym, "--list", lst, "--jobs", str(min(8, os.cpu_count() or 1)), "--timeout", str(timeout), "--qtimeout", str(qtimeout),
           "--max-steps", str(max_steps), "--seed", str(seed), "--samples", "12" if tier == "quick" else "40", "--out", out]
    for e, a in runs:
        cmd += ["--run", f"{e}:{a}"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout + 240)
    if r.returncode != 0 or not os.path.exists(out):
        raise Fail(f"engine ended with {r.returncode}: {r.stderr[-3000:]}")
    return json.load(open(out))


def findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def matches(f, prop, entry, arg, what, inputs):
    return (f["property"] == prop and f["harness"] == entry and f.get("arg", arg) == arg and f["fails"] == what
            and (f.get("inputs") is None or [str(x) for x in f["inputs"]] == [str(x) for x in inputs]))


def signature(res, txt):
    """What a native run showed, as a list of failure descriptions."""
    s = []
    if res["timeout"]:
        return ["does not terminate within 60 s"]
    for l in res["out"]:
        if l.startswith("FAIL "):
            s.append(l.split(" ", 2)[2])
        elif l.startswith("PANIC "):
            s.append("panic: " + l[6:])
    if not s and res["rc"] is not None and res["rc"] < 0:
        s.append(f"killed by signal {-res['rc']}")
    return s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    fresh()
    if a.setup:
        build_engine()
        for c in props.CRATES:
            fs = [features(c, [(e, n) for e, n, _ in P["runs"]["quick"][:1]]) for P in props.PROPS.values() if P["crate"] == c]
            for feat in {target(c, f): f for f in fs}.values():
                build_ir(c, feat)
                build_native(c, "release", feat)
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        bad = False
        for prof in ("dev", "release"):
            b = build_native(r["crate"], prof, features(r["crate"], [(r["harness"], r["arg"])]))
            res = native(b, r["harness"], r["arg"], r["inputs"])
            print(f"--- {prof}: exit {res['rc']}{' (timed out)' if res['timeout'] else ''}")
            print("\n".join(res["out"]))
            bad |= bool(signature(res, {}))
        return 1 if bad else 0
    prop = a.property
    P = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    crate = P["crate"]
    spec = P["runs"]
    runs = spec["quick"] + (spec.get("thorough", []) if a.tier == "thorough" else [])
    runs = list(dict.fromkeys((e, n) for e, n, _ in runs))
    feat = features(crate, runs)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, crate, feat)
        fn = ex.submit(build_native, crate, "release", feat)
        irsym, lls, rel = fe.result(), fi.result(), fn.result()
    t_build = time.time() - t0
    log(f"{prop}: built in {t_build:.1f} s")
    bounds = {(e, n): b for e, n, b in spec["quick"] + spec.get("thorough", [])}
    tmo = P.get("timeout", {}).get(a.tier, 600 if a.tier == "quick" else 5400)
    d = engine(irsym, lls, runs, a.tier, seed, tmo, P.get("qtimeout", 60000), P.get("max_steps", 300_000_000), prop)
    txt = texts()
    problems, reported, known = [], [], []
    F = findings()["findings"]
    dev = None

    # counterexamples
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for n in os.listdir(os.path.join(HERE, "evidence")):
        if n.startswith(prop + ".replay"):
            os.unlink(os.path.join(HERE, "evidence", n))
    nviol = 0
    for r in d["runs"]:
        for v in r["violations"]:
            nviol += 1
            what = txt.get(v["id"], str(v["id"])) if v["kind"] == "check" else f"{v['kind']}: {v['msg']}"
            dev = dev or build_native(crate, "dev", feat)
            shown = {}
            for prof, b in (("dev", dev), ("release", rel)):
                res = native(b, r["entry"], r["arg"], v["inputs"])
                shown[prof] = signature(res, txt)
            sig = shown["dev"] + [x for x in shown["release"] if x not in shown["dev"]]
            if not sig:
                problems.append(f"counterexample of {r['entry']}:{r['arg']} {v['inputs']} ({what}; {' < '.join(v['stack'][:6])}) does not reproduce natively")
                continue
            # the harness' own text when it is among what the native run showed
            main_what = what if what in sig else sig[0]
            kf = [f for f in F if matches(f, prop, r["entry"], r["arg"], main_what, v["inputs"])]
            if kf:
                known.append(kf[0])
                continue
            path = os.path.join(HERE, "evidence", f"{prop}.replay{len(reported)}.json")
            json.dump(dict(property=prop, crate=crate, harness=r["entry"], arg=r["arg"], inputs=v["inputs"], engine=what, stack=v["stack"][:12],
                           native=shown, how="./check.py --replay " + path), open(path, "w"), indent=1)
            reported.append((path, r["entry"], r["arg"], main_what))

    # every run must have an answer
    for r in d["runs"]:
        tag = f"{r['entry']}:{r['arg']}"
        for e in r["errors"][:5]:
            problems.append(f"{tag}: {e}")
        if r["paths"] == 0 and not r["violations"]:
            problems.append(f"{tag}: no path reached the end")
    if d["timed_out"]:
        problems.append(f"time limit of {tmo} s reached before every path was explored")
    if d["unknown"]:
        problems.append(f"{d['unknown']} queries without an answer")

    # vacuity: the markers, and the code that has to be executed
    reach = {}
    for r in d["runs"]:
        for k, n in r["reach"].items():
            reach[txt.get(int(k), k)] = reach.get(txt.get(int(k), k), 0) + n
    if not reported:
        for m in P["reach"]:
            if not reach.get(m):
                problems.append(f"vacuous: marker '{m}' never reached")
        for r in d["runs"]:
            if not r["reach"] and not r["violations"]:
                problems.append(f"vacuous: {r['entry']}:{r['arg']} reached no marker")

    # the engine against the compiled code, on sampled path models
    samples = []
    for r in d["runs"]:
        for s in r["samples"]:
            samples.append((r["entry"], r["arg"], s))
    validated = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [(s, ex.submit(native, rel, s[0], s[1], s[2]["inputs"])) for s in samples]
        for (e, n, s), f in futs:
            res = f.result()
            obs = [l.split()[1:] for l in res["out"] if l.startswith("OBS ")]
            if obs == s["observes"] and res["rc"] == 0 and not res["timeout"]:
                validated += 1
            elif reported and signature(res, txt):
                pass  # the sample sits on a path that violates the property elsewhere
            else:
                problems.append(f"engine and compiled code disagree on {e}:{n} {s['inputs']}: {obs[:8]} rc={res['rc']} {res['out'][-2:]} expected {s['observes'][:8]}")

    funcs = {k: v for k, v in d["functions"].items() if "phlite" in k and not k.startswith("<hcore") and not re.match(r"<?h(core|rips|grpph)\b", k)}
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(reported),
        assumptions=props.COMMON_ASSUMPTIONS + P.get("assumptions", []),
        coverage=dict(
            states=sum(r["forks"] + r["paths"] for r in d["runs"]),
            transitions=sum(r["steps"] for r in d["runs"]),
            traces_validated_against_impl=validated,
            samples=[dict(harness=e, arg=n, inputs=s["inputs"], observed=[[txt.get(int(t), t), v] for t, v in s["observes"][:20]]) for e, n, s in samples[:6]],
            meaning="states: symbolic states (decisions taken plus finished paths); transitions: IR instructions interpreted; traces validated: path models re-run natively with equal observations",
            bounds=[dict(harness=f"{e}:{n}", bound=bounds[(e, n)]) for e, n in runs],
            paths=sum(r["paths"] for r in d["runs"]),
            infeasible_paths=sum(r["infeasible"] for r in d["runs"]),
            assertions_checked=sum(r["checks"] for r in d["runs"]),
            assertions_needing_solver=sum(r["checks_by_solver"] for r in d["runs"]),
            queries=d["queries"], sat=d["sat"], unsat=d["unsat"], unknown=d["unknown"], query_cache_hits=d["cache_hits"],
            solver_s=d["solver_s"], max_query_ms=d["max_query_ms"], explore_s=d["wall_s"], build_s=round(t_build, 1), timed_out=d["timed_out"],
            per_harness=[dict(harness=f"{r['entry']}:{r['arg']}", paths=r["paths"], forks=r["forks"], checks=r["checks"], steps=r["steps"], expected_panics=r["expected_panics"], reach={txt.get(int(k), k): v for k, v in r["reach"].items()}) for r in d["runs"]],
            functions_encoded=sorted(funcs), functions_encoded_count=len(d["functions"]), problems=problems[:20],
        ),
    )
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for f in {json.dumps(k, sort_keys=True) for k in known}:
        f = json.loads(f)
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for p in problems[:8]:
        log("problem:", p[:1500])
    if reported:
        for path, e, n, w in reported[:6]:
            log(f"{e}:{n}: {w}")
        print(f"VIOLATION property={prop} replay={reported[0][0]}")
        return 1
    if problems:
        print(f"ERROR property={prop}: {problems[0][:300]}")
        return 2
    print(f"OK property={prop} paths={ev['coverage']['paths']} assertions={ev['coverage']['assertions_checked']} queries={d['queries']} validated={validated} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (Fail, subprocess.TimeoutExpired) as e:
        print("ERROR", str(e)[-3000:])
        sys.exit(3)

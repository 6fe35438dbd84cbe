#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property of /repo by static analysis.

Compiles /repo's current tree with the analysis driver (lint/) as rustc wrapper;
nothing of /repo is executed. Exit 0: held on everything analysed; exit 1 with a
VIOLATION line: broken; exit 2: the analysis itself could not run.
check.py --setup builds the driver and the dependencies' metadata.
"""
import fcntl, glob, json, os, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AFMT_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LINT = os.path.join(HERE, "lint")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")


def sh(cmd, env=None, cwd=None, timeout=None):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def base_env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "/usr/local/bin:/usr/bin:/bin") + ":/root/.cargo/bin"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def driver(env):
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--locked", "--target-dir", os.path.join(BUILD, "driver")], env=env, cwd=LINT, timeout=600)
    b = os.path.join(BUILD, "driver", "release", "afmt-lint")
    if r.returncode or not os.path.exists(b):
        die("the analysis driver does not build\n" + r.stdout[-3000:])
    return b


def grammar(env):
    r = sh(["cargo", "+nightly", "metadata", "--format-version", "1", "--offline", "--locked"], env=env, cwd=REPO, timeout=120)
    try:
        m = json.loads(r.stdout[r.stdout.index('{"packages"'):])
        for p in m["packages"]:
            if p["name"] == "tree-sitter-sfapex":
                return os.path.join(os.path.dirname(p["manifest_path"]), "apex", "src", "grammar.json")
    except Exception:
        pass
    g = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/tree-sitter-sfapex-*/apex/src/grammar.json"))
    if not g:
        die("the grammar of the parser was not found")
    return sorted(g)[-1]


def analyse(tier, props, warm=False):
    """Compile /repo under the driver; returns the driver's report."""
    env = base_env()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = driver(env)
        env["LD_LIBRARY_PATH"] = sh(["rustc", "+nightly", "--print", "sysroot"], env=env).stdout.strip() + "/lib"
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on"
        env["RUSTC_WORKSPACE_WRAPPER"] = d
        env["RUST_MIN_STACK"] = "1000000000"
        env["AFMT_GRAMMAR"] = grammar(env)
        env["AFMT_TIER"] = tier
        env["AFMT_PROPS"] = props
        out = os.path.join(BUILD, "out-%s.json" % (props or "warm"))
        for x in glob.glob(out + "*"):
            os.remove(x)
        env["AFMT_OUT"] = out
        if warm:
            env["AFMT_WARM"] = "1"
        t = os.path.join(BUILD, "repo")
        # the crates of /repo are analysed afresh on every run; only its dependencies are kept
        sh(["cargo", "+nightly", "clean", "--offline", "-p", "sf-afmt", "--target-dir", t], env=env, cwd=REPO, timeout=120)
        for x in ("build/sf-afmt", "incremental"):
            shutil.rmtree(os.path.join(t, "debug", x), ignore_errors=True)
        try:
            r = sh(["cargo", "+nightly", "check", "--offline", "--locked", "--bin", "afmt", "--target-dir", t], env=env, cwd=REPO, timeout=3000 if tier == "thorough" else 850)
        except subprocess.TimeoutExpired:
            die("the analysis did not finish in time")
        if warm:
            return None
        if not os.path.exists(out):
            die("the analysis gave no result\n" + r.stdout[-3000:])
        with open(out) as f:
            rep = json.load(f)
        for k in range(rep["counts"].get("comment styles", 0)):
            part = "%s.%d" % (out, k)
            if not os.path.exists(part):
                die("the analysis of comment style %d gave no result\n%s" % (k, r.stdout[-3000:]))
            with open(part) as f:
                merge(rep, json.load(f))
        return rep


def merge(rep, part):
    """Adds what the analysis of one comment style reports."""
    seen = {f["key"]: f for f in rep["found"]}
    for f in part["found"]:
        if f["key"] in seen:
            seen[f["key"]]["props"] = sorted(set(seen[f["key"]]["props"]) | set(f["props"]))
        else:
            seen[f["key"]] = f
            rep["found"].append(f)
    for k, n in part["counts"].items():
        rep["counts"][k] = max(rep["counts"].get(k, 0), n) if k == "functions" else rep["counts"].get(k, 0) + n
    for k, n in part["undecided"].items():
        rep["undecided"][k] = rep["undecided"].get(k, 0) + n
    for k, ps in part["undecided_props"].items():
        rep["undecided_props"][k] = sorted(set(rep["undecided_props"].get(k, [])) | set(ps))
    for k, v in part["samples"].items():
        rep["samples"][k] = (rep["samples"].get(k, []) + v)[:8]


def known(prop):
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % prop):
                ks.append(l.split(" ", 2)[2])
    return ks


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        analyse("quick", "", warm=True)
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rep = analyse(tier, prop)
    mine = [f for f in rep["found"] if prop in f["props"]]
    ks = known(prop)
    new = [f for f in mine if f["key"] not in ks]
    for f in mine:
        if f["key"] in ks:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["key"]))
    c = rep["counts"]
    cov = rep["coverage"].get(prop, {})
    done = {k[len(prop) + 1:]: v for k, v in c.items() if k.startswith(prop + " ")}
    undecided = {k: v for k, v in rep["undecided"].items()}
    und = [u for u, ps in rep["undecided_props"].items() if prop in ps]
    total = done.get("obligations", 0)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": cov,
            "counts": done,
            "functions_analysed": c.get("functions", 0),
            "undecided": {u: undecided[u] for u in und},
            "samples": rep["samples"].get(prop, []),
            "known_findings": [f["key"] for f in mine if f["key"] in ks],
        },
        "assumptions": rep["assumptions"],
        "violations": len(new),
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in und[:20]:
        print("UNDECIDED: property=%s %s (%d)" % (prop, u, undecided[u]))
    print("%s: %s" % (prop, ", ".join("%s %d" % kv for kv in sorted(done.items()))))
    if new:
        path = os.path.join(EVID, prop + ".violations.txt")
        with open(path, "w") as f:
            for v in new:
                f.write("%s\n  at %s (%s)\n  %s\n" % (v["key"], v["place"], v["ctor"], v["example"]))
                print("%s\n  at %s (%s)\n  %s" % (v["key"], v["place"], v["ctor"], v["example"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if total == 0:
        die("nothing was analysed for %s" % prop)
    sys.exit(0)


main()

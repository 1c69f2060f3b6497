#!/usr/bin/env python3
"""Runs the check of one property: check.py Cxx [--tier quick|thorough]; check.py --replay FILE.

Builds the explorers from /repo's working tree, runs them, and turns their results into the verdict
(exit 0 / exit 1 with a VIOLATION line / exit 2 for an error of the check) and the evidence file."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, BAD_ENDS  # noqa: E402

MC = os.path.join(HERE, "mc")
TARGET = "x86_64-unknown-linux-gnu"


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


class CheckError(Exception):
    pass


def build(binary, flavor):
    """Returns the path of the built explorer. flavors: std, nostd, asan, and lean or asanlean
    (trees without debug assertions and overflow checks, as in a release build)"""
    flags = "--cap-lints allow"
    cmd = ["cargo"]
    tdir = os.path.join(MC, "target", flavor)
    extra = []
    profile = "debug"
    if flavor.endswith("lean"):
        extra += ["--profile", "lean"]
        profile = "lean"
    out = os.path.join(tdir, profile, binary)
    if flavor.startswith("asan"):
        cmd.append("+nightly")
        flags += " -Zsanitizer=address"
        extra += ["--target", TARGET, "--features", "asan"]
        out = os.path.join(tdir, TARGET, profile, binary)
    if flavor == "nostd":
        extra += ["--features", "nostd"]
    cmd += ["build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "mct" if binary == "tuple" else "mc", "Cargo.toml"), "--target-dir", tdir, "--bin", binary] + extra
    p = subprocess.run(cmd, env=env(RUSTFLAGS=flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError(f"{binary} ({flavor}) does not build:\n{p.stdout[-6000:]}")
    return out


def run_engine(exe, flavor, tier, params, replay=None, max_wall=None, wanted=None):
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    out = os.path.join(HERE, "work", f"{os.path.basename(exe)}-{flavor}-{os.getpid()}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "--tier", tier, "--out", out]
    for k, v in (params or {}).items():
        cmd += ["-p", f"{k}={v}"]
    if wanted:
        cmd += ["--wanted", ",".join(sorted(wanted))]
    if max_wall:
        cmd += ["--max-wall", str(max_wall)]
    if replay:
        cmd += ["--replay", replay["phase"], str(replay["first"]), str(replay["last"])]
    kw = {}
    if flavor.startswith("asan"):
        kw = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:malloc_context_size=8", MC_ASAN="1")
    p = subprocess.run(cmd, env=env(**kw), stdout=None if replay else subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError(f"{' '.join(cmd)}: exit {p.returncode}\n{(p.stderr or '')[-4000:]}")
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    d["stderr"] = p.stderr or ""
    return d


def known():
    """known-findings.txt: 'known: property=Cxx key=<key> <what fails>' suppresses the finding of that key;
    'fixed: ...' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        if line.startswith("known:"):
            f = line.split(None, 3)
            out.append((f[1].split("=", 1)[1], f[2].split("=", 1)[1], f[3].strip()))
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[prop]
    t0 = time.time()
    res = dict(states=0, transitions=0, traces=0, observations=0, samples=[], bounds=[], capped=[], errors=[], violations=[], known=[], extra={})
    facets = set(chk["facets"]) | set(chk.get("ends", BAD_ENDS))
    for part in chk["parts"]:
        if res["violations"]:
            res["bounds"].append("the remaining explorers were not run after a violation")
            break
        if callable(part):
            part(prop, tier, seed, res)
            continue
        flavor = part.get("flavor", "std")
        exe = build(part["bin"], flavor)
        bounds = part.get("bounds", tier)
        d = run_engine(exe, flavor, bounds, part.get("params", {}).get(tier), max_wall=part.get("max_wall", {}).get(tier, 420 if tier == "quick" else 780), wanted=facets)
        label = part["bin"] + ("" if flavor == "std" else "/" + flavor)
        res["states"] += d["states"]
        res["transitions"] += d["stats"][0]
        res["observations"] += d["stats"][1]
        res["traces"] += d["cases"]
        res["samples"] += d["samples"][:4]
        res["bounds"] += [f"{label} {b}" for b in d["bounds"]]
        res["capped"] += d["capped"]
        res["errors"] += [f"{label}: {e}" for e in d["errors"]]
        for i, s in enumerate(d["stats"][2:], 2):
            if s and part.get("stats", {}).get(i):
                n = part["stats"][i]
                res["extra"][n] = res["extra"].get(n, 0) + s
        for f in d["failures"]:
            if f["facet"] in facets:
                f.update(bin=part["bin"], flavor=flavor, tier=bounds, params=part.get("params", {}).get(tier) or {}, property=prop)
                if f["facet"] == "crash" and flavor.startswith("asan"):
                    f["report"] = d["stderr"][-3000:]
                res["violations"].append(f)
    return conclude(prop, chk, tier, seed, res, t0)


def conclude(prop, chk, tier, seed, res, t0):
    kn = [k for k in known() if k[0] == prop]
    fresh = []
    for v in res["violations"]:
        k = [x for x in kn if v.get("key") == x[1]]
        if k:
            res["known"].append(k[0])
        else:
            fresh.append(v)
    for k in res["known"]:
        print(f"KNOWN-FINDING: property={prop} {k[2]}")
    cov = dict(
        states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["traces"],
        observations_compared=res["observations"], samples=res["samples"][:12], bounds=res["bounds"],
        exhaustive=not res["capped"], facets=sorted(set(chk["facets"])), **res["extra"])
    if chk["level"] == "fault_enumeration":
        cov["evaluations"] = res["traces"]
        cov["distinct_nontrivial"] = res["extra"].get("injected_panics", 0)
        cov["rule"] = chk["rule"]
    if res["capped"]:
        cov["capped"] = res["capped"]
    if res["known"]:
        cov["known_findings"] = [k[2] for k in res["known"]]
    ev = dict(property=prop, tier=tier, seed=seed, level=chk["level"], coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(fresh):
            path = os.path.join(HERE, "replays", f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"{prop} [{v['facet']}] {v['text']}\n  history: {str(v.get('history'))[:900]}\n  ({v.get('count', 1)} failing cases; replay: {HERE}/check.py --replay {path})")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if res["errors"]:
        for e in res["errors"]:
            print("ERROR:", e)
        return 2
    print(f"{prop}: held on everything explored: {res['states']} states, {res['transitions']} transitions, {res['traces']} traces replayed, {time.time() - t0:.1f} s" + (" (capped: %s)" % res["capped"] if res["capped"] else ""))
    return 0


def replay(path):
    v = json.load(open(path))
    if v.get("replay_cmd"):
        return subprocess.run(v["replay_cmd"], env=env()).returncode
    exe = build(v["bin"], v["flavor"])
    d = run_engine(exe, v["flavor"], v["tier"], v.get("params"), replay=dict(phase=v["phase"], first=v["case"], last=v["case"]))
    sys.stderr.write(d["stderr"][-4000:])
    return 1 if d["failures"] else 0


def cli():
    try:
        return main()
    except CheckError as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    import check  # one module object, also for the parts in checks.py
    sys.exit(check.cli())

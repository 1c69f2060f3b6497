"""What decides each property: explorers, the facets of their failures that count, and how."""

# However the property is observed, a legal history must not crash, loop for ever or panic.
BAD_ENDS = ["crash", "hang", "panic"]
NOTES = "See DESIGN.md. Every check is check.py with the property's id; it rebuilds the explorers from /repo."

def both(**p):
    return {"quick": p, "thorough": p}


def huge(*groups, flavor="std"):
    """One operation on trees and forests of up to 65,540 nodes (thorough: 131,074); the groups of mc/src/huge.rs."""
    names = ["edits", "bfs", "rebuild", "malformed", "walk", "jumps", "cmp", "text", "copy", "conversions", "children", "shared", "iter_mut"]
    return [dict(bin="huge", flavor=flavor, params=both(what=sum(1 << names.index(g) for g in groups or names)), max_wall=dict(quick=150, thorough=500), stats={3: "refused_streams"})]


def lean(parts):
    """The parts, and those worth it once more with trees built as in a release: a check or a side effect which
    is there only in debug builds must not be what a property rests on. Always within the quick bounds."""
    return parts + [dict(p, flavor="lean", bounds="quick") for p in parts if isinstance(p, dict) and p.get("flavor", "std") == "std" and p["bin"] != "huge"]


OWN = [dict(bin="own")]
OWN_T = "explicit-state model checking of edit histories: breadth-first search over canonical states of a reference model, every transition replayed on the real code"
OWN_N = ("Exhaustive within the bounds named in the evidence (all states and operations up to the node and container bounds, all shapes up to 6-9 nodes x all "
         "storage forms x one operation); assumes that the library treats data parametrically and that small shapes are representative of larger ones; trusts the reference model.")
RC = [dict(bin="rc")]
# Everything that makes trees or changes them, owned or shared: the same three facets are looked at after every step of all of it.
EDITS = OWN + RC + [dict(bin=b) for b in ("itermut", "childiter", "conv", "copy", "notation")] + [dict(bin="bfs", params=both(what=2)), dict(bin="tuple", params=both(what=1))] + huge("edits", "rebuild", "copy", "shared", "iter_mut")
RC_T = "explicit-state model checking of handle histories: breadth-first search over canonical states of a reference model of shared ownership, every transition (and pair of transitions) replayed on the real RcNode/WeakNode/IterRc"
RC_N = ("Exhaustive up to 3-5 alive nodes, 2-3 strong handles, 1-2 weak handles and 1-2 iterators (all reachable states, all operations), plus handles to every node of every tree up to "
        "6-8 nodes in every storage form; trusts the reference model.")
def known_part(prop, tier, seed, res):
    """The recorded histories which touch freed memory through the safe API, each run natively under AddressSanitizer."""
    import subprocess
    from check import build, env, known, CheckError
    exe = build("known", "asan")
    for k in ["none"] + [x[1] for x in known() if x[0] == prop]:
        cmd = [exe, k]
        p = subprocess.run(cmd, env=env(ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
        res["traces"] += 1
        if p.returncode == 3:
            raise CheckError(f"no history {k}")
        if p.returncode != 0:
            res["violations"].append(dict(facet="crash", key=k, text=f"history {k} of mc/src/bin/known.rs: exit {p.returncode}", history=k, property=prop, report=p.stderr[-3000:], replay_cmd=cmd))


def life_part(prop, tier, seed, res):
    """Every short safe program over the library's owners, views and iterators (see life/life.py) under AddressSanitizer."""
    import os, shutil, sys
    from check import HERE, MC, env, CheckError
    sys.path.insert(0, os.path.join(HERE, "life"))
    import life
    d = os.path.join(MC, "target", "life", f"{os.getpid()}")
    try:
        args = life.prepare(d, env())
        wrong, control = life.facts(args)
        if not control:
            raise CheckError("life: the compiler refuses Send, Clone or Copy where the library grants it")
        runs = []
        for refs in (False, True):
            depth, core = (2, 3) if tier == "quick" else (2 if refs else 3, 4)
            if runs and runs[0][2]["failures"]:
                break
            runs.append((refs, depth, life.explore(args, depth, core, budget=240 if tier == "quick" else 900, refs=refs)))
    except RuntimeError as e:
        raise CheckError(f"life: {e}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res["bounds"].append(f"{len(life.FACTS)} traits which no type may have, as no program could use them without undefined behaviour (Send and Sync of what shares unsynchronised counters or such data, Clone and Copy of mutable views): asked of the compiler")
    for t, x, why in wrong:
        res["violations"].append(dict(facet="memory", text=f"{x} is {t}, although {why}", history=f"fn has<X: {t}>() {{}} has::<{x}>() is accepted", property=prop))
    for refs, depth, s in runs:
        for what, n, asked, accepted in s["levels"]:
            res["states"] += asked
            res["traces"] += accepted
            res["transitions"] += accepted * n
            res["bounds"].append(f"safe programs of {n} steps over {what} methods, with data {'which are references' if refs else 'on the heap'}: {asked} programs, {accepted} accepted by the compiler" + ("" if what == "core" and n <= depth else " and run"))
            res["extra"]["safe_programs"] = res["extra"].get("safe_programs", 0) + asked
            res["extra"]["safe_programs_accepted"] = res["extra"].get("safe_programs_accepted", 0) + accepted
        if s["capped"]:
            res["capped"].append("life: " + s["capped"])
        life_violations(prop, s, res)


def life_violations(prop, s, res):
    import os
    from check import HERE
    for prog, rep in s["failures"][:5]:
        res["violations"].append(dict(facet="memory", text="a safe program touches memory it should not: " + rep.splitlines()[0], history=prog, property=prop, report=rep, count=len(s["failures"]),
                                      replay_cmd=["python3", os.path.join(HERE, "life", "life.py"), prog]))


MEM_T = ("explicit-state model checking of the histories of all the other explorers, replayed on the real code under AddressSanitizer with data of five layouts "
         "(tracked with a heap block, zero-sized, 128-byte aligned, large, one byte)")
MEM_N = ("Exhaustive within the bounds named in the evidence; AddressSanitizer sees reads and writes of freed and out-of-bounds memory and double frees, the datum registry sees reads of "
         "uninitialised or moved-out slots. Aliasing rules of the language (stacked borrows) are not judged.")
PROD_T = "exhaustive enumeration of bounded histories (shape x storage form x operation sequence x stopping point) on the real code, each compared step by step with a reference model"
PROD_N = "Exhaustive within the bounds named in the evidence; assumes that the library treats data parametrically and that small shapes are representative of larger ones; trusts the reference model."
TUPLE_T = ("exhaustive enumeration of bounded programs: every nested tuple within the bounds is generated as an expression, compiled against the real code and run, its tree, visits and "
           "sizes compared with a reference model, then edited and taken apart in every way")
TUPLE_N = "Exhaustive up to 7 nodes (forests 6) and for every arity 0..32 in four arrangements of children each; assumes that larger nestings behave as these; trusts the reference model."
FAULT_T = ("exhaustive fault injection into the real code: in every bounded history, every single call the library makes of user code (clone, drop, comparison, formatting, hashing, closures, "
           "iterators) panics in turn, and everything that survives is compared with a reference model, edited, upgraded to, taken apart and dropped")
FAULT_R = ("a case is a tree or forest within the bounds, a storage form, an operation, the node it works on (or the nodes held by handles) and the number of the call of user code that panics; "
           "it is non-trivial if that call really took place and panicked (counted by the injector)")
FAULT_N = ("Exhaustive within the bounds named in the evidence, one panic per case (a second panic while unwinding aborts in Rust). Data which an interrupted drop or rebuild did not come to may leak. "
           "Run natively and under AddressSanitizer; trusts the reference model.")

def nostd_part(prop, tier, seed, res):
    """Everything in a no_std build as in a std build: a program without std links and runs, and every explorer of the
    other properties observes the same in both builds (digests of all observations, and the failures, if any)."""
    import os, subprocess
    from concurrent.futures import ThreadPoolExecutor
    from check import HERE, MC, build, run_engine, env, CheckError
    me = ["python3", os.path.join(HERE, "check.py"), prop, "--tier", tier]

    def violation(text, history, phase=""):
        res["violations"].append(dict(facet="nostd", text=text, history=history, phase=phase, property=prop, replay_cmd=me))

    tdir = os.path.join(MC, "target", "bare")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "bare", "Cargo.toml"), "--target-dir", tdir],
                       env=env(RUSTFLAGS="--cap-lints allow"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bare_builds = p.returncode == 0
    if bare_builds:
        try:
            q = subprocess.run([os.path.join(tdir, "debug", "bare")], timeout=60).returncode
        except subprocess.TimeoutExpired:
            q = "a hang"
        res["traces"] += 1
        bare_out = "" if q == 0 else f"exit {q}"
    else:
        bare_out = p.stdout[-3000:]
    tool = True
    for b in ALL_BINS:
        exe = {"std": build(b, "std")}
        try:
            exe["nostd"] = build(b, "nostd")
        except CheckError as e:
            violation(f"{b} builds with std but not with the no_std feature", str(e))
            tool = False
            continue
        runs = [("quick", {})]
        if tier == "thorough" and b in DEEP_BINS:
            runs = [("thorough", {})]
        for t, params in runs:
            wall = 300 if tier == "thorough" else 120
            with ThreadPoolExecutor(2) as ex:
                d = dict(zip(("std", "nostd"), ex.map(lambda f: run_engine(exe[f], f, t, params, max_wall=wall), ("std", "nostd"))))
            a, n = d["std"], d["nostd"]
            res["states"] += n["states"]
            res["transitions"] += n["stats"][0]
            res["observations"] += n["stats"][1]
            res["traces"] += a["cases"] + n["cases"]
            res["samples"] += [str(s) for s in n["samples"][:1]]
            res["bounds"] += [f"{b} (both builds) {x}" for x in n["bounds"]]
            res["capped"] += [f"{b}: {x}" for x in a["capped"] + n["capped"]]
            res["errors"] += [f"{b}/nostd: {e}" for e in n["errors"]]
            bad = {(f["facet"], f["phase"]) for f in a["failures"]}
            fresh = [f for f in n["failures"] if (f["facet"], f["phase"]) not in bad]
            for f in fresh[:3]:
                violation(f"only with no_std: [{f['facet']}] {f['text']}", str(f.get("history")), f["phase"])
            if fresh or a["capped"] or n["capped"] or a["failures"]:
                continue
            for (ph, x), (ph2, y) in zip(a["digests"], n["digests"]):
                if (ph, x) != (ph2, y):
                    violation(f"{b}, {ph}: what the two builds observe differs", f"digest of all observations: std {x}, no_std {y}", ph)
                res["extra"]["phases_compared"] = res["extra"].get("phases_compared", 0) + 1
    if not bare_builds and tool:
        # the same program but with std is the control: if that does not build either, the interface changed
        c = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "bare", "Cargo.toml"), "--target-dir", os.path.join(MC, "target", "bare-std"), "--no-default-features", "--features", "control"],
                           env=env(RUSTFLAGS="--cap-lints allow"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode != 0:
            raise CheckError("bare does not build, not even with std:\n" + c.stdout[-3000:])
    if bare_out:
        violation("a program without std " + ("does not run as it should" if bare_builds else "does not build"), bare_out)


def race_part(prop, tier, seed, res):
    """Threads which own parts of one buffer. loom: every interleaving of their accesses to the library's counters.
    Miri: every order of their operations, its race detector on, the turns themselves ordering nothing."""
    import os, subprocess
    from concurrent.futures import ThreadPoolExecutor
    from check import HERE, MC, env, CheckError

    def violation(text, history, cmd):
        res["violations"].append(dict(facet="race", text=text[:1500], history=history, property=prop, replay_cmd=cmd))

    def settle(kind, set_, done, what):
        for name, (cases, runs) in done.items():
            res["states"] += cases
            res["traces"] += runs
            res["transitions"] += runs
            res["bounds"].append(f"{kind} {name}: {cases} histories, {runs} {what}")
            res["extra"][f"{kind}_{what}"] = res["extra"].get(f"{kind}_{what}", 0) + runs

    def tally(out, done):
        for l in out.splitlines():
            f = l.split()
            if l.startswith("done "):
                a = done.setdefault(f[1], [0, 0])
                a[0] += int(f[2])
                a[1] += int(f[3])
            if l.startswith("capped "):
                res["capped"].append("loom " + f[1])

    tdir = os.path.join(MC, "target", "miri")
    wall = 240 if tier == "quick" else 500
    me = os.path.join(HERE, "race", "miri", "Cargo.toml")
    menv = env(MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0 -Zmiri-disable-weak-memory-emulation -Zmiri-disable-isolation", RUSTFLAGS="")
    miri = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", me, "--target-dir", tdir, "--"]
    p = subprocess.run(miri + ["miri-" + tier, "--count"], env=menv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0:
        raise CheckError("race-miri does not build or start:\n" + p.stderr[-4000:])
    for l in p.stdout.splitlines():
        if l.startswith("marker "):
            violation(l[7:], "asked of the compiler", miri + ["miri-quick", "--count"])
    # loom
    tl = os.path.join(MC, "target", "loom")
    q = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "race", "loom", "Cargo.toml"), "--target-dir", tl],
                       env=env(RUSTFLAGS="--cfg trees_loom --cap-lints allow"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode != 0:
        res["capped"].append("loom: the library does not build on loom's types: " + q.stdout[-300:])
    else:
        exe = os.path.join(tl, "debug", "race-loom")
        n = 61
        run = lambda i: subprocess.run([exe, "loom-" + tier, str(i), str(n), str(wall // 6)], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        done = {}
        with ThreadPoolExecutor(8) as ex:
            for p in ex.map(run, range(n)):
                tally(p.stdout, done)
                if p.returncode != 0:
                    f = [l for l in p.stdout.splitlines() if l.startswith("failed ")]
                    if not f:
                        raise CheckError(f"race-loom: exit {p.returncode}\n{p.stderr[-2000:]}")
                    w = f[0].split(None, 3)
                    hist, text = w[3].split("\t", 1)
                    violation("some interleaving: " + text, hist, [exe, "loom-" + tier, "--case", w[1], w[2]])
        settle("loom", "loom-" + tier, done, "executions")
    # Miri
    n = 61 if tier == "thorough" else 8
    run = lambda i: subprocess.run(miri + ["miri-" + tier, str(i), str(n)], env=menv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    done = {}
    with ThreadPoolExecutor(8) as ex:
        for p in ex.map(run, range(n)):
            tally(p.stdout, done)
            if p.returncode != 0:
                c = [l for l in p.stderr.splitlines() if l.startswith("case ")]
                e = [l for l in p.stderr.splitlines() if l.startswith("error") or "panicked" in l or "left:" in l or "right:" in l]
                if not c or not e:
                    raise CheckError(f"race-miri: exit {p.returncode}\n{p.stderr[-4000:]}")
                w = c[-1].split(None, 3)
                violation("under Miri: " + " ".join(e[:4]), w[3], miri + ["miri-" + tier, "--case", w[1], w[2]])
    settle("miri", "miri-" + tier, done, "schedules")
    res["samples"].append("source 0 without children [0]; thread 1 owns the rest: rebuild; thread 2 owns child 0: into_bfs; each drops what is left")


ALL_BINS = "own rc itermut childiter conv bfs walk borrow notation cmp text copy fault tuple huge".split()
DEEP_BINS = "itermut childiter conv walk borrow text copy fault".split()
RACE_T = ("stateless model checking of the real code: loom explores every interleaving of the accesses of 2-3 threads to the library's shared counters (no preemption bound) for every bounded "
          "history of threads owning parts of one buffer; every order of their operations is replayed under Miri's race detector")
RACE_N = ("Exhaustive within the bounds named in the evidence: 2-3 threads, 1-2 operations each (and the final drop), six sources. loom sees the counters (cfg(trees_loom)), the release of node "
          "memory and the data; races on the nodes' other fields are looked for by Miri, in every order of whole operations. Memory orders as modelled by loom (C11 without load buffering).")
NOSTD_T = ("differential exhaustive exploration: the bounded histories of all the other explorers are replayed on a std build and a no_std build of the real code, all their observations compared "
           "(digests per phase) and each checked against its reference model; a program without std is linked and run")
NOSTD_N = "Exhaustive within the bounds of the other explorers; the freestanding program shows that the library needs nothing of std."
CHECKS = {
    "C01": dict(level="model_checking", parts=lean(EDITS), facets=["shape", "refuse"], technique=OWN_T, note=OWN_N),
    "C02": dict(level="model_checking", parts=lean(EDITS), facets=["count"], technique=OWN_T, note=OWN_N),
    "C03": dict(level="model_checking", parts=lean(EDITS), facets=["link"], technique=OWN_T, note=OWN_N),
    "C04": dict(level="model_checking", parts=lean(OWN + RC + [dict(bin="mem"), dict(bin="notation"), dict(bin="tuple", params=both(what=1))] + huge("edits", "rebuild", "conversions")), facets=["drop", "leak"], technique=OWN_T, note=OWN_N),
    "C06": dict(level="model_checking", parts=lean(RC + huge("shared")), facets=["handle", "alive", "drop", "shape", "count", "link", "refuse"], technique=RC_T, note=RC_N),
    "C07": dict(level="model_checking", parts=lean([dict(bin="borrow")] + RC + huge("shared")), facets=["weak"], technique=RC_T, note=RC_N),
    "C08": dict(level="model_checking", parts=lean([dict(bin="borrow", stats={2: "operations_that_worked", 3: "operations_refused"})]), facets=["borrow"], technique=PROD_T, note=PROD_N),
    "C09": dict(level="model_checking", parts=lean(RC + huge("shared")), facets=["iterrc"], technique=RC_T, note=RC_N),
    "C05": dict(level="model_checking", parts=[dict(bin="mem", flavor="asan"), dict(bin="mem", flavor="asanlean", bounds="quick")] + huge(flavor="asan") + [life_part, known_part], facets=["memory"], ends=["crash"], technique=MEM_T, note=MEM_N),
    "C10": dict(level="model_checking", parts=lean([dict(bin="itermut")] + huge("iter_mut")), facets=["itermut", "shape", "count", "link", "drop"], technique=PROD_T, note=PROD_N),
    "C11": dict(level="model_checking", parts=lean([dict(bin="bfs", params=both(what=1))] + huge("bfs")), facets=["bfs", "shape", "drop", "leak"], technique=PROD_T, note=PROD_N),
    "C12": dict(level="model_checking", parts=lean([dict(bin="bfs", params=both(what=2))] + huge("rebuild")), facets=["rebuild", "shape", "count", "link", "drop", "leak"], technique=PROD_T, note=PROD_N),
    "C13": dict(level="model_checking", parts=lean([dict(bin="bfs", params=both(what=4), stats={2: "well_formed_streams", 3: "refused_streams"}), dict(bin="malformed", flavor="asan"), dict(bin="malformed", flavor="asanlean")] + huge("malformed")),
                facets=["malformed", "shape", "count", "link", "drop", "memory"], technique=PROD_T, note=PROD_N),
    "C14": dict(level="model_checking", parts=lean([dict(bin="walk", params=both(what=1))] + huge("walk")), facets=["walk"], technique=PROD_T, note=PROD_N),
    "C15": dict(level="model_checking", parts=lean([dict(bin="walk", params=both(what=2))] + huge("jumps")), facets=["jump", "walk"], technique=PROD_T, note=PROD_N),
    "C16": dict(level="model_checking", parts=lean([dict(bin="tuple", params=both(what=1))]), facets=["tuple"], technique=TUPLE_T, note=TUPLE_N),
    "C17": dict(level="model_checking", parts=lean([dict(bin="tuple", params=both(what=2))]), facets=["visit"], technique=TUPLE_T, note=TUPLE_N),
    "C18": dict(level="model_checking", parts=lean([dict(bin="notation")]), facets=["notation"], technique=PROD_T, note=PROD_N),
    "C19": dict(level="model_checking", parts=lean([dict(bin="cmp")] + huge("cmp")), facets=["cmp", "hash"], technique=PROD_T, note=PROD_N),
    "C20": dict(level="model_checking", parts=lean([dict(bin="text")] + huge("text")), facets=["text"], technique=PROD_T, note=PROD_N),
    "C21": dict(level="model_checking", parts=lean([dict(bin="copy")] + huge("copy")), facets=["clone", "shape", "count", "link", "handle", "drop", "leak"], technique=PROD_T, note=PROD_N),
    "C22": dict(level="model_checking", parts=[race_part], facets=["race"], technique=RACE_T, note=RACE_N),
    "C23": dict(level="fault_enumeration", parts=lean([dict(bin="fault", stats={2: "injected_panics"}), dict(bin="fault", flavor="asan", stats={2: "injected_panics"})]),
                facets=["fault", "shape", "count", "link", "handle", "drop", "memory"], technique=FAULT_T, rule=FAULT_R, note=FAULT_N),
    "C24": dict(level="model_checking", parts=[nostd_part], facets=["nostd"], technique=NOSTD_T, note=NOSTD_N),
    "C25": dict(level="model_checking", parts=lean([dict(bin="conv")] + huge("conversions")), facets=["conv", "shape", "count", "link", "drop", "leak"], technique=PROD_T, note=PROD_N),
    "C26": dict(level="model_checking", parts=lean([dict(bin="childiter")] + huge("children")), facets=["childiter", "shape", "count", "link"], technique=PROD_T, note=PROD_N),
}

"""Every short safe program over the library's owners and views.

A program makes an owner (tree, forest, handle, cursor), then takes steps, each of which calls one method of a
variable made before (making a view, an owner or nothing), and at last uses one of its variables thoroughly.
The compiler says which of them are safe Rust: those it refuses end there (a refused program stays refused
however it is continued), those it accepts are run under AddressSanitizer, and none may touch freed memory.
So a signature which lets a view outlive, or be used besides, what invalidates it, is found by the program
which does so."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
T = "tr()"
F = "fr3()"

# (owner expression, type)
OWNERS = [("scattered()", "Tree"), ("piled()", "Tree"), ("-scattered()-tr()", "Forest"), ("piled_forest()", "Forest"),
          ("RcNode::from( scattered() )", "Rc"), ("RcNode::from( piled() )", "Rc")]
CORE_OWNERS = [OWNERS[i] for i in (1, 2, 5)]

# type -> [(template, result type or None, core)]; {v} is the variable, {w} another owner, '?' unwraps an Option
_nav = lambda core: [("?{v}.front()", "Node", core), ("?{v}.back()", "Node", 0), ("{v}.iter()", "Iter", core)]
_navm = [("?{v}.front_mut()", "Pin", 1), ("?{v}.back_mut()", "Pin", 0), ("{v}.iter_mut()", "IterMut", 1)]
_edit = [("{v}.push_front( %s )" % T, None, 0), ("{v}.push_back( %s )" % T, None, 1), ("{v}.prepend( %s )" % F, None, 0), ("{v}.append( %s )" % F, None, 0)]
_pop = [("?{v}.pop_front()", "Tree", 1), ("?{v}.pop_back()", "Tree", 0)]
_own = lambda t, fresh: [("drop( {v} )", None, 1), ("{v} = %s" % fresh, None, 1), ("drop( std::mem::replace( &mut {v}, %s ))" % fresh, None, 0), ("{v}.clone()", t, 0), ("{v}.into_iter()", "IntoIter", 1), ("{v}.into_bfs().iter", "IntoBfs", 0), ("touch( {v}.to_string() )", None, 0), ("touch( &{v} == &%s )" % fresh, None, 0)]
_sib = [("{v}.insert_prev_sib( %s )" % T, None, 0), ("{v}.insert_next_sib( %s )" % T, None, 1)]
MENU = {
    "Tree": [("{v}.root()", "Node", 1), ("{v}.root_mut()", "Pin", 1), ("{v}.data()", "Data", 0), ("?{v}.parent()", "Node", 0),
             ("{v}.bfs().iter", "Bfs", 0), ("{v}.bfs_children().iter", "Bfs", 0), ("{v}.bfs_mut().iter", "BfsMut", 1), ("{v}.bfs_children_mut().iter", "BfsMut", 0),
             ("{v}.abandon()", "Forest", 1), ("RcNode::from( {v} )", "Rc", 0), ("TreeWalk::from( {v} )", "Walk", 1), ("-{v}", "Forest", 0), ("{v} / tr()", "Tree", 0), ("&{v} - tr()", "Forest", 0),
             ("(&*{v}).into_iter()", "Iter", 0), ("{v}.deep_clone_forest()", "Forest", 0)]
            + _nav(0) + _navm + _edit + _pop + _own("Tree", "tr()"),
    "Forest": [("{v}.bfs().iter", "Bfs", 0), ("{v}.bfs_mut().iter", "BfsMut", 1), ("ForestWalk::from( {v} )", "FWalk", 1), ("{v} - tr()", "Forest", 0), ("tr() / {v}", "Tree", 0), ("tr() / &{v}", "Tree", 0)]
              + _nav(1) + _navm + _edit + _pop + _own("Forest", "fr()"),
    "Node": [("{v}.data()", "Data", 1), ("?{v}.parent()", "Node", 1), ("{v}.bfs().iter", "Bfs", 1), ("{v}.bfs_children().iter", "Bfs", 0), ("{v}.into_iter()", "Iter", 0), ("{v}.deep_clone()", "Tree", 0), ("{v}.deep_clone_forest()", "Forest", 0)] + _nav(1),
    "Pin": [("{v}.data()", "Data", 0), ("{v}.data_mut()", "DataMut", 1), ("?{v}.parent()", "Node", 0), ("{v}.as_mut()", "Pin", 0), ("&*{v}", "Node", 0), ("&mut *{v}.get_mut()", "NodeMut", 0), ("{v}.bfs().iter", "Bfs", 0), ("{v}.bfs_children().iter", "Bfs", 0), ("{v}.bfs_mut().iter", "BfsMut", 0),
            ("{v}.bfs_children_mut().iter", "BfsMut", 0), ("{v}.into_iter()", "IterMut", 1), ("drop( {v} )", None, 0), ("{v}.deep_clone()", "Tree", 0), ("{v}.detach()", "Tree", 1)] + _nav(0) + _navm + _edit + _pop + _sib,
    "Iter": [("?{v}.next()", "Node", 1), ("?{v}.nth( 1 )", "Node", 0), ("drop( {v} )", None, 0)],
    "IterMut": [("?{v}.next()", "Pin", 1), ("?{v}.nth( 1 )", "Pin", 0), ("drop( {v} )", None, 0)],
    "Bfs": [("?{v}.next().map( |v| v.data )", "Data", 1), ("drop( {v} )", None, 0)],
    "BfsMut": [("?{v}.next().map( |v| v.data )", "DataMut", 1), ("drop( {v} )", None, 0)],
    "IntoIter": [("?{v}.next()", "Tree", 1), ("drop( {v} )", None, 1)],
    "IntoBfs": [("drop( {v}.next() )", None, 0), ("drop( {v} )", None, 0)],
    "Rc": [("{v}.clone()", "Rc", 1), ("?{v}.front()", "Rc", 1), ("?{v}.back()", "Rc", 0), ("?{v}.parent()", "Rc", 0), ("{v}.data()", "Ref", 1), ("{v}.data_mut()", "RefMut", 1), ("{v}.iter_rc()", "IterRc", 1), ("{v}.downgrade()", "Weak", 1),
           ("?{v}.pop_front()", "Rc", 1), ("?{v}.pop_back()", "Rc", 0), ("{v}.detach()", None, 1), ("drop( {v} )", None, 1), ("{v} = RcNode::from( tr() )", None, 1), ("{v}.deep_clone()", "Tree", 0), ("{v}.extend( Some( tr() ))", None, 0), ("touch( {v}.to_string() )", None, 0)] + _edit + _sib,
    "IterRc": [("?{v}.next()", "Rc", 1), ("{v}.clone()", "IterRc", 0), ("drop( {v} )", None, 1)],
    "Weak": [("?{v}.upgrade()", "Rc", 1), ("drop( {v} )", None, 1)],
    "Ref": [("drop( {v} )", None, 0)],
    "RefMut": [("drop( {v} )", None, 0)],
    "Walk": [("?{v}.get()", "Visit", 1), ("?{v}.next()", "Visit", 1), ("?{v}.to_child( 0 )", "Visit", 0), ("?{v}.to_sib( 1 )", "Visit", 0), ("?{v}.to_parent()", "Visit", 0), ("?{v}.get_parent()", "Node", 0), ("{v}.forward()", None, 1), ("{v}.revisit()", None, 0), ("drop( {v} )", None, 1), ("Tree::from( {v} )", "Tree", 1), ("{v} = TreeWalk::from( tr() )", None, 0)],
    "Visit": [("{v}.node()", "Node", 1), ("match {v} {{ Visit::Begin( n ) | Visit::End( n ) | Visit::Leaf( n ) => n }}", "Node", 1)],
    "Data": [], "DataMut": [], "NodeMut": [],
}
MENU["FWalk"] = [(t.replace("Tree::from", "Forest::from").replace("TreeWalk::from( tr() )", "ForestWalk::from( fr() )"), "Forest" if r == "Tree" else r, c) for t, r, c in MENU["Walk"]]
MENU["NodeMut"] = [m for m in MENU["Pin"] if m[0] not in ("{v}.as_mut()", "&mut *{v}.get_mut()", "{v}.into_iter()", "&*{v}")]
# what may be copied is a question to the compiler too: a copy must be independent, or borrow what the original borrows
for _t in ("Iter", "Bfs", "IntoIter", "IntoBfs", "Weak", "Walk", "FWalk", "Visit"):
    MENU[_t] = MENU[_t] + [("{v}.clone()", _t, 0)]
# what can be given away to another variable: (receiver types, template, given type)
GIVE = [(("Tree", "Forest", "Pin", "Rc"), "{v}.push_back( {w} )", "Tree", 1), (("Tree", "Forest", "Pin", "Rc"), "{v}.append( {w} )", "Forest", 0), (("Pin", "Rc"), "{v}.insert_next_sib( {w} )", "Tree", 0)]


# The same with data which are references: what a variable is given is a shorter-lived one, gone before the final use.
# (A view through which such a one gets into a tree of longer-lived ones is variant where it must not be.)
WRITE = [("Pin", "*{v}.data_mut() = &s"), ("NodeMut", "*{v}.data_mut() = &s"), ("DataMut", "*{v} = &s"), ("Rc", "*{v}.data_mut() = &s"), ("RefMut", "*{v} = &s"),
         ("IterMut", "for mut c in {v} {{ *c.data_mut() = &s; }}"), ("BfsMut", "for v in {v} {{ *v.data = &s; }}"), ("IterRc", "for r in {v} {{ *r.data_mut() = &s; }}"), ("Weak", "if let Some( r ) = {v}.upgrade() {{ *r.data_mut() = &s; }}")]
REF_MENU = {k: v + [(w, None, 1) for t, w in WRITE if t == k] for k, v in MENU.items()}
MODES = {False: ("prelude.rs", MENU, "{}use_( {} );", lambda t: t),
         True: ("prelude_ref.rs", REF_MENU, "let l = d( 1 ); let s = d( 2 ); {}drop( s ); use_( {} );",
                lambda t: re.sub(r"\btr\(\)", "ts( &s )", re.sub(r"\bfr3\(\)", "fs3( &s )", re.sub(r"\bfr\(\)", "fs( &s )", re.sub(r"\b(scattered|piled|piled_forest)\(\)", r"\1( &l )", t)))))}


class Prog:
    __slots__ = ("text", "types", "live", "dead", "alias")

    def __init__(self, text, types, live, dead=frozenset(), alias=()):
        self.text, self.types, self.live, self.dead, self.alias = text, types, live, dead, alias


def steps(p, core, menu=MENU):
    """The programs with one more step, on a variable which can still be used."""
    for i in p.live:
        v = "v%d" % i
        for t, r, c in menu[p.types[i]]:
            if core and not c:
                continue
            yield extend(p, i, t.format(v=v), r, t)
        for recv, t, given, c in GIVE:
            if core and not c or p.types[i] not in recv:
                continue
            for j in p.live:
                if j != i and p.types[j] == given:
                    yield extend(p, i, t.format(v=v, w="v%d" % j), None, t)


def extend(p, i, code, r, t):
    dead, alias = p.dead, p.alias
    if t == "{v}.detach()" and p.types[i] in ("Pin", "NodeMut"):
        # K1 in known-findings.txt: the reference a node was detached through stays usable after the tree is dropped
        roots, x = {i}, i
        for a, b in reversed(alias):
            if a in roots:
                roots.add(b)
        dead = dead | roots
    if r is None:
        return Prog(p.text + code + "; ", p.types, [k for k in p.live if k not in dead], dead, alias)
    n = len(p.types)
    if t in ("{v}.as_mut()", "&mut *{v}.get_mut()"):
        alias = alias + ((n, i),)
    code = "let mut v%d = %s; " % (n, "some!( %s )" % code[1:] if code[0] == "?" else code)
    return Prog(p.text + code, p.types + (r,), [k for k in p.live if k not in dead] + [n], dead, alias)


# What no type may be, as no program could use it without undefined behaviour: (trait, type, why).
# N is neither Send nor Sync, S is only Send. Types may be or become Send and Sync where their data allow it.
_never = "its counters are not synchronised"
FACTS = [(t, x, _never) for t in ("Send", "Sync") for x in ("RcNode<u8>", "WeakNode<u8>", "IterRc<u8>")]
FACTS += [("Send", x % "N", "its data are not") for x in ("Tree<%s>", "Forest<%s>", "Node<%s>", "&'static mut Node<%s>", "Pin<&'static mut Node<%s>>", "IterMut<'static, %s>", "IntoIter<%s>", "TreeWalk<%s>", "ForestWalk<%s>", "bfs::Splitted<IterMut<'static, %s>>", "bfs::Splitted<IntoIter<%s>>")]
FACTS += [("Send", x % "S", "it shares its data, which are not Sync") for x in ("&'static Tree<%s>", "&'static Node<%s>", "Iter<'static, %s>", "Visit<'static, %s>", "bfs::Splitted<Iter<'static, %s>>", "&'static TreeWalk<%s>", "&'static IterMut<'static, %s>")]
FACTS += [("Sync", x % "S", "its data are not") for x in ("Tree<%s>", "Forest<%s>", "Node<%s>", "Iter<'static, %s>", "Visit<'static, %s>", "TreeWalk<%s>", "ForestWalk<%s>", "bfs::Splitted<Iter<'static, %s>>")]
FACTS += [(t, x, "it stands for a mutable reference") for t in ("Clone", "Copy") for x in ("IterMut<'static, u8>", "bfs::Splitted<IterMut<'static, u8>>")]
FACTS += [("Copy", x, "it owns or shares what it is made of") for x in ("Tree<u8>", "Forest<u8>", "Node<u8>", "RcNode<u8>", "WeakNode<u8>", "IntoIter<u8>", "IterRc<u8>", "TreeWalk<u8>", "ForestWalk<u8>")]
# and what the compiler must still accept, lest it refuse everything for another reason
CONTROL = [("Send", "TreeWalk<u8>"), ("Send", "ForestWalk<u8>"), ("Clone", "Tree<u8>"), ("Clone", "RcNode<u8>"), ("Copy", "Visit<'static, u8>")]


def facts(args):
    """The facts which do not hold: traits which the compiler takes types to have."""
    head = open(os.path.join(HERE, "prelude.rs")).read() + "type N = std::rc::Rc<u8>; type S = std::cell::Cell<u8>; fn has_Send<X: Send>() {} fn has_Sync<X: Sync>() {} fn has_Clone<X: Clone>() {} fn has_Copy<X: Copy>() {}\n"
    line = lambda n, t, x: "fn f%d() { has_%s::<%s>() }" % (n, t, x)
    ok, _ = compile_lines(args, head, [line(n, f[0], f[1]) for n, f in enumerate(FACTS)], "facts")
    ctl, _ = compile_lines(args, head, [line(n, t, x) for n, (t, x) in enumerate(CONTROL)], "control")
    return [FACTS[n] for n in ok], len(ctl) == len(CONTROL)


def compile_lines(args, head, lines, tag):
    """Indices of the lines (one function each) which the compiler accepts, and how many times it was asked."""
    ok = list(range(len(lines)))
    src = os.path.join(args["dir"], tag + ".rs")
    first = head.count("\n") + 1
    rounds = 0
    while True:
        rounds += 1
        with open(src, "w") as f:
            f.write(head + "\n".join(lines[i] for i in ok) + "\n")
        p = subprocess.run(args["rustc"] + ["--crate-type", "lib", "--emit=metadata", "--error-format=json", "-o", os.path.join(args["dir"], tag + ".rmeta"), src], env=args["env"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        bad = set()
        for l in p.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error":
                continue
            for s in d.get("spans", []):
                if s["is_primary"] and s["file_name"].endswith(tag + ".rs") and s["line_start"] >= first:
                    bad.add(s["line_start"] - first)
        if p.returncode == 0:
            return ok, rounds
        if not bad:
            raise RuntimeError("the compiler failed without an error in a program: " + p.stderr[-3000:])
        ok = [i for n, i in enumerate(ok) if n not in bad]


def run_lines(args, head, lines, tag):
    """Builds and runs the accepted programs; yields (index, report) of those which touch bad memory."""
    src = os.path.join(args["dir"], tag + "-run.rs")
    exe = os.path.join(args["dir"], tag + "-run")
    with open(src, "w") as f:
        f.write(head + "\n".join(lines) + "\nstatic ALL: &[fn()] = &[" + ",".join(re.match(r"fn (\w+)", l).group(1) for l in lines) + "];\nfn main() { main_( ALL ) }\n")
    p = subprocess.run(args["rustc"] + ["-Ccodegen-units=4", "-o", exe, src], env=args["env"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise RuntimeError("accepted programs do not build: " + p.stdout[-3000:])
    out, start, panics = [], 0, 0
    while start < len(lines):
        with open(src + ".out", "w+b") as o, open(src + ".err", "w+b") as e:
            try:
                code = subprocess.run([exe, str(start)], env=args["run_env"], stdout=o, stderr=e, timeout=40).returncode
            except subprocess.TimeoutExpired:
                code = "(a hang)"
            o.seek(0), e.seek(0)
            stdout, stderr = o.read().decode(errors="replace"), e.read().decode(errors="replace")
        m = re.search(r"^done (\d+) (\d+)", stdout, re.M)
        if m:
            panics += int(m.group(2))
            break
        last = [int(x) for x in re.findall(r"^at (\d+)$", stdout, re.M)]
        at = last[-1] if last else start
        out.append((at, "exit %s\n%s" % (code, stderr[-2500:])))
        start = at + 1
        if len(out) >= 4:
            break
    for f in (src, exe, src + ".out", src + ".err"):
        if os.path.exists(f):
            os.remove(f)
    return out, panics


def explore(args, depth, core_depth, chunk=1500, budget=None, log=None, refs=False):
    """All programs of up to `depth` steps with every method, then up to `core_depth` with the core ones."""
    import time
    t0 = time.time()
    prelude, menu, frame, words = MODES[refs]
    head = open(os.path.join(HERE, prelude)).read()
    stats = dict(levels=[], failures=[], panics=0, asked=0, capped=None)
    for core, owners, upto in ((False, OWNERS, depth), (True, CORE_OWNERS, core_depth)):
        level = [Prog("let mut v0 = %s; " % o, (t,), [0]) for o, t in owners]
        for d in range(1, upto + 1):
            if budget and time.time() - t0 > budget:
                stats["capped"] = "depth %d (%s methods) was not reached in time" % (d, "core" if core else "all")
                break
            nxt = [q for p in level for q in steps(p, core, menu)]
            lines, back = [], []
            for n, q in enumerate(nxt):
                for k in q.live:
                    lines.append("fn p%d() { %s }" % (len(lines), words(frame.format(q.text, "v%d" % k))))
                    back.append((n, k))
            chunks = [(i, lines[i:i + chunk]) for i in range(0, len(lines), chunk)]
            skip_run = core and d <= depth
            def work(c):
                i, ls = c
                tag = "c%d_%d_%d_%d" % (refs, core, d, i)
                ok, r = compile_lines(args, head, ls, tag)
                bad, pan = ([], 0) if skip_run or not ok else run_lines(args, head, [ls[x] for x in ok], tag)
                for e in (".rs", ".rmeta"):
                    f = os.path.join(args["dir"], tag + e)
                    if os.path.exists(f):
                        os.remove(f)
                return i, ok, r, bad, pan
            accepted = 0
            lives = [[] for _ in nxt]
            with ThreadPoolExecutor(8) as ex:
                for i, ok, r, bad, pan in ex.map(work, chunks):
                    stats["asked"] += 1
                    stats["panics"] += pan
                    accepted += len(ok)
                    for x in ok:
                        n, k = back[i + x]
                        lives[n].append(k)
                    for at, rep in bad:
                        n, k = back[i + ok[at]]
                        stats["failures"].append((words(frame.format(nxt[n].text, "v%d" % k)), rep))
            level = []
            for n, q in enumerate(nxt):
                if lives[n]:
                    q.live = lives[n]
                    level.append(q)
            stats["levels"].append((("core" if core else "all"), d, len(lines), accepted))
            if log:
                log("%s depth %d: %d programs, %d accepted, %.1f s" % ("core" if core else "all", d, len(lines), accepted, time.time() - t0))
            if stats["failures"]:
                return stats
    return stats


def prepare(d, env, repo="/repo"):
    """Builds the library with AddressSanitizer; returns the `args` of the above."""
    os.makedirs(d, exist_ok=True)
    rustc = ["rustc", "+nightly", "--edition", "2018", "-Zsanitizer=address", "-Copt-level=0", "-Cdebuginfo=0"]
    lib = os.path.join(d, "libtrees.rlib")
    p = subprocess.run(rustc + ["--crate-name", "trees", "--crate-type", "rlib", "--cap-lints", "allow", repo + "/src/lib.rs", "-o", lib], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("the library does not build: " + p.stdout[-3000:])
    return dict(dir=d, rustc=rustc + ["-Awarnings", "--extern", "trees=" + lib], env=env, run_env=dict(env, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0"))


if __name__ == "__main__":
    # life.py PROGRAM: one program of a replay file once more
    a = prepare(os.path.join(HERE, "..", "mc", "target", "life", "replay"), dict(os.environ))
    head = open(os.path.join(HERE, MODES["&l" in sys.argv[1]][0])).read()
    line = "fn p0() { " + sys.argv[1] + " }"
    ok, _ = compile_lines(a, head, [line], "replay")
    bad = run_lines(a, head, [line], "replay")[0] if ok else []
    print(bad[0][1] if bad else "accepted, and runs well" if ok else "the compiler refuses it")
    sys.exit(1 if bad else 0)

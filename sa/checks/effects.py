"""P26, P27, P32: effects reachable through the call graph, sharing in the type graph, who writes files."""
import re
from interp import *
from checks.base import *
from graph import Graph, mentions, consts_of
import iomodel
import checks.files as F
from iomodel import plain

TRAITS = ("dess::solver::SolverBase", "dess::solver::SolverVariantMethods", "dess::traits_and_macros::HasState",
          "dess::traits_and_macros::HasStates", "dess::traits_and_macros::BareClone", "core::clone::Clone")
INHERENT = ("walk", "solve_step", "step", "save_state", "update_derivs", "bare_clone", "push", "pop", "clear", "len", "is_empty", "new", "mean")
USER = ("dess", "dess_examples", "dess_probe")

# operations whose result or effect is not a function of the values handed to them
OUTSIDE = [
    (r"std::time::|core::time::.*now", "reads the clock"),
    (r"std::env::", "reads or changes the process environment"),
    (r"std::fs::|std::os::", "uses the file system"),
    (r"std::io::|std::net::", "does input or output"),
    (r"std::thread::", "uses threads or thread-local state"),
    (r"std::process::", "controls the process"),
    (r"std::sync::|core::sync::|alloc::sync::|std::sys::", "uses synchronised shared state"),
    (r"core::cell::|std::cell::|alloc::rc::|alloc::rcs::", "uses shared mutable state"),
    (r"std::hash::random|std::collections::hash::map::RandomState|std::random::|^(rand|rand_core|fastrand|getrandom|oorandom)::", "uses a random source"),
    (r"^(libc|log|tracing|chrono|time|num_cpus|rayon|tokio|eng_fmt)::", "leaves the computation"),
    (r"core::panic::location::|core::intrinsics::caller_location", None),
    (r"core::fmt::.*Pointer", "depends on an address"),
    (r"core::(ptr|intrinsics)::.*(volatile|addr\b|expose)|core::arch::", "depends on an address or the machine"),
]
OUTSIDE = [(re.compile(a), b) for a, b in OUTSIDE]
HASHMAP = re.compile(r"std::collections::hash::")
HASHITER = re.compile(r"::(iter|iter_mut|into_iter|keys|values|values_mut|into_keys|into_values|drain|retain)$")
PURE = re.compile(r"^<?(core|alloc)::|^<?(core::f64|std::f64|std::num|core::num|std::f32)|^std::(f64|f32|num)::|^(num_traits|libm|itertools|either|nalgebra|ndarray)::|^(serde|serde_core)::|^<.* as core::")


def judge(x):
    """(True, '') pure; (False, why) outside effect; (None, why) unknown"""
    if x.get("kind") == "cast":
        ck = str(x.get("ck"))
        if "Expose" in ck or "WithExposed" in ck:
            return False, "converts between addresses and numbers"
        return True, ""
    if x.get("kind") == "asm":
        return False, "inline assembly"
    if x.get("kind") == "static":
        return None, "static"
    if x.get("foreign"):
        return False, "calls foreign code"
    p = x.get("rpath") or x.get("path") or "?"
    full = " ".join([p] + [str(a) for a in x.get("args") or []])
    for rx, why in OUTSIDE:
        if rx.search(p):
            return (True, "") if why is None else (False, why)
    if HASHMAP.search(p):
        return (False, "depends on a random hashing order") if HASHITER.search(p) else (None, "hash container")
    if "std::collections::hash::map::RandomState" in full and HASHITER.search("::" + str(x.get("name"))):
        return False, "depends on a random hashing order"
    if PURE.search(p):
        return True, ""
    return None, "not known: %s" % p


def roots(prog):
    out = []
    for (t, q, n), l in prog.methods.items():
        u = user_adt(prog, t)
        if q in TRAITS and (u or q != "core::clone::Clone") or q is None and u and n in INHERENT:
            out += [k for k in l if "::deserialize" not in k]
    for k in prog.fns:
        if k.startswith("<Self as ") and any(k.startswith("<Self as %s>" % t) for t in TRAITS):
            out.append(k)
    return sorted(set(out))


def user_adt(prog, t):
    a = prog.adts.get(t)
    return bool(a and a.get("user") and "::_::" not in t and a.get("crate") in USER)


def static_of(prog, path):
    for s in prog.statics:
        if s["path"] == path:
            return s
    return None


def p26(r, tier):
    r.rule("Every function reachable in the resolved call graph from a step method, a run, record saving, copying or a state/derivative operation (trait calls resolved to all implementations, closures and generated code included) "
           "calls only functions of known value semantics; none calls the clock, random, environment, file, console, thread, process or shared-state operations, or touches a mutable or interior-mutable global.")
    r.assume("core/alloc functions other than the listed ones have no effect beyond their arguments and allocation", "floating-point intrinsics are deterministic on one machine")
    for cfg in ("std", "probe"):
        prog = core.prog(cfg)
        g = Graph(prog)
        rs = roots(prog)
        r.floor("root operations (%s)" % cfg, len(rs), 100)
        par = g.reach(rs)
        r.saw(*par)
        bad = 0
        for k in sorted(par):
            probs = []
            for c, x, sp in g.callees(k):
                if c is not None:
                    continue
                if x.get("closure"):
                    probs.append((None, "closure body not available", sp))
                    continue
                if x.get("open"):
                    if not (x.get("trait") or "").startswith(("dess::", "core::", "serde", "alloc::")):
                        probs.append((None, "unresolved call to %s" % x.get("path"), sp))
                    continue
                v, why = judge(x)
                if x.get("kind") == "static":
                    s = static_of(prog, x.get("path"))
                    if s is None:
                        v, why = None, "foreign static %s" % x.get("path")
                    elif s["mut"] or not s["freeze"]:
                        v, why = False, "uses the mutable global %s" % s["path"]
                    else:
                        continue
                if v is not True:
                    probs.append((v, "%s [%s]" % (why, x.get("rpath") or x.get("path") or x.get("ck")), sp))
            d = [p for p in probs if p[0] is False]
            if d:
                if bad < 6:
                    r.violation("%s: %s has no outside effect" % (cfg, k), "%s, reached by %s" % (d[0][2] or prog.fns.get(k, {}).get("span"), " -> ".join(g.path(par, k))),
                                d[0][1], key="outside effect in %s" % (prog.fns.get(k, {}).get("path") or k))
                bad += 1
            elif probs:
                r.undecided("%s: %s has no outside effect" % (cfg, k), probs[0][1])
            else:
                r.ok("%s: %s has no outside effect" % (cfg, k), "%d calls" % len(g.callees(k)))


# ------------------------------------------------------------------ sharing
OWNED = re.compile(r"^(alloc::vec::Vec|alloc::boxed::Box|alloc::string::String|core::option::Option|core::result::Result|core::marker::PhantomData|"
                   r"alloc::collections::(vec_deque::VecDeque|btree::map::BTreeMap|btree::set::BTreeSet|linked_list::LinkedList)|std::collections::hash::(map::HashMap|set::HashSet)|"
                   r"std::path::PathBuf|std::ffi::os_str::OsString|core::ops::range::Range\w*|core::cmp::(Ordering|Reverse)|core::time::Duration|core::num::\S*)(<|$)")
SHARED = re.compile(r"^(alloc::rc\b|alloc::rcs\b|alloc::sync\b|core::cell\b|std::cell\b|core::sync\b|std::sync\b|core::ptr::non_null|std::thread|std::fs::File|core::mem::manually_drop|core::mem::maybe_uninit|alloc::borrow::Cow)")


def shared(prog, ty, seen, trail):
    """[(definite?, text)] sharing found inside a type"""
    if ty in seen:
        return []
    seen.add(ty)
    t = prog.types.get(ty)
    if t is None:
        return [(False, "%s: type %s not dumped" % (" . ".join(trail), ty))]
    k = t["k"]
    here = " . ".join(trail)
    if k in ("bool", "char", "int", "uint", "float", "str", "never", "param", "alias"):
        return []
    if k in ("ref",):
        return [(True, "%s borrows (%s)" % (here, ty))]
    if k == "rawptr":
        return [(True, "%s is a raw pointer (%s)" % (here, ty))]
    if k in ("array", "slice"):
        return shared(prog, t["elem"], seen, trail)
    if k == "tuple":
        return [x for i, e in enumerate(t["elems"]) for x in shared(prog, e, seen, trail + [str(i)])]
    if k == "adt":
        p = t["path"]
        if SHARED.match(p):
            return [(True, "%s is %s, which is shared or mutable through shared references" % (here, ty))]
        a = prog.adts.get(ty)
        if OWNED.match(p):
            return [x for e in t["args"] if e != "alloc::alloc::Global" for x in shared(prog, e, seen, trail)]
        if a and a.get("user"):
            return [x for v in a["variants"] for f in v["fields"] for x in shared(prog, f["ty"], seen, trail + [f["name"]])]
        return [(False, "%s has the foreign type %s" % (here, ty))]
    if k in ("fnptr", "fndef"):
        return []
    return [(False, "%s has type %s" % (here, ty))]


def p27(r, tier):
    r.rule("Every user-defined data type of the library, the examples and the probe systems is traversed field by field through owned std containers; a shared-ownership, interior-mutable, raw-pointer or borrowing part at any depth is a violation, as is a "
           "mutable or interior-mutable static, an unsafe block, unsafe fn or unsafe impl written in (or generated by the macros of) this repository.")
    r.assume("the owned std containers (Vec, Box, Option, String, ...) clone deeply")
    n = 0
    for cfg in ("std", "probe"):
        prog = core.prog(cfg)
        for ty in sorted(prog.adts):
            if not user_adt(prog, ty) or prog.adts[ty].get("kind") == "union":
                if user_adt(prog, ty):
                    r.violation("%s holds no shared data" % ty, ty, "is a union", key="union " + ty)
                continue
            if cfg == "probe" and prog.adts[ty].get("crate") == "dess":
                continue
            n += 1
            r.saw(ty)
            s = shared(prog, ty, set(), [short_ty(ty)])
            d = [x for x in s if x[0]]
            inst = "%s holds no shared, borrowed or interior-mutable data" % ty
            if d:
                r.violation(inst, ty, d[0][1])
            elif s:
                r.undecided(inst, s[0][1])
            else:
                r.ok(inst, "%d fields" % sum(len(v["fields"]) for v in prog.adts[ty]["variants"]))
        for s in prog.statics:
            inst = "global %s is constant" % s["path"]
            if s["mut"] or not s["freeze"]:
                r.violation(inst, s["span"], "a mutable global of type %s" % s["ty"])
            else:
                r.ok(inst)
        for k, c in sorted(prog.consts.items()):
            t = prog.types.get((c or {}).get("locals", ["?"])[0], {}) if c else {}
            if "LocalKey" in str(t.get("path", "")):
                r.violation("global %s is constant" % k, (c or {}).get("span"), "a thread-local global", key="thread-local " + k)
        for u in prog.unsafe_fns:
            r.violation("no unsafe function %s" % u["path"], u["span"], "unsafe fn")
        blocks = [u for u in prog.unsafe_blocks if u["user"] == "UserProvided"]
        for u in blocks:
            if u["macro"] in (None,) + USER + ("dess_proc_macros",):
                r.violation("no unsafe code in %s" % u["owner"], u["span"], "an unsafe block")
            else:
                r.undecided("unsafe code in %s" % u["owner"], "comes from a macro of %s" % u["macro"])
        r.ok("%s: no unsafe block of its own in %d functions" % (cfg, len(prog.fns))) if not blocks else None
        for i in prog.impls:
            if i["unsafe"] and i["trait"] != "core::clone::TrivialClone":  # part of what derive(Clone) generates
                r.violation("no unsafe impl of %s for %s" % (i["trait"], i["self"]), i["span"], "an unsafe impl")
    r.floor("data types", n, 25)
    r.extra["data_types"] = n


# ------------------------------------------------------------------ who writes files
FSWRITE = re.compile(r"^std::fs::(File::(create|create_new|options|set_len|set_permissions)|OpenOptions::|write|copy|rename|remove_\w+|create_dir\w*|hard_link|soft_link|set_permissions|DirBuilder)|^std::os::.*::fs::|^std::process::Command|^tempfile::")
REF = "dess-examples/src/tests/fixtures/"
# reference file -> (system, solver setting)
FILES = {
    "euler benchmark.yaml": ("System3TM", "EulerFixed"), "heuns benchmark.yaml": ("System3TM", "HeunsMethod"),
    "midpoint benchmark.yaml": ("System3TM", "MidpointMethod"), "ralstons benchmark.yaml": ("System3TM", "RalstonsMethod"),
    "rk23 benchmark.yaml": ("System3TM", "RK23BogackiShampine"), "rk4 benchmark.yaml": ("System3TM", "RK4Fixed"),
    "rk45 benchmark.yaml": ("System3TM", "RK45CashKarp"), "euler_baseline.yaml": ("System3TM", "EulerFixed"),
    "euler_w_bc_baseline.yaml": ("System3TMWithBC", "EulerFixed")}


def walked(I, fi, args, st, cond, t):
    """a run leaves the setting and the schedule alone and marks everything else as the outcome of a run"""
    tr = fi.get("trait") or ""
    if fi.get("name") == "walk" and (tr.startswith("dess::") or fi["path"].startswith(("dess", "<dess"))) and args:
        import models as M
        ref = M.final_ref(I, st, args[0])

        def h(v):
            if not isinstance(v, Agg) or v.ty not in I.prog.adts:
                return poison(v) or unk("walk of something else")
            fs = I.prog.adts[v.ty]["variants"][0]["fields"]
            return agg(v.ty, v.var, tuple(x if f["name"] in ("solver_type", "t_report") else agg("walked", 0, (x,)) for f, x in zip(fs, v.fs)))
        return UNIT, I.store(st.copy(), ref, lift(h, I.freeze(st, I.load(st, ref)))), True
    return None


def saving(I, fi, args, st, cond, t):
    if fi.get("name") == "to_file" and (fi.get("trait") or "").startswith("dess::"):
        v = plain(I, st, args[0])
        p = plain(I, st, args[1])
        return I.events.result("to_file", (p, v), UNIT, cond, st, ("save", p, v))
    return None


def texts(v, out=None):
    out = [] if out is None else out
    if isinstance(v, StrV):
        out.append(v.s)
    elif isinstance(v, (tuple, list)):
        for x in v:
            texts(x, out)
    elif isinstance(v, VRef):
        texts(v.v, out)
    elif isinstance(v, Agg):
        texts(v.fs, out)
    elif isinstance(v, Opq):
        texts(v.key, out)
    return out


def of_args(g):
    """does the condition depend on the program's arguments alone"""
    if isinstance(g, Node):
        return "argv" in str(g.dec) and all(of_args(c) for c in g.ch)
    return isinstance(g, bool)


def p32(r, tier):
    r.rule("The example program's main is interpreted with unknown arguments, runs being opaque: under every path condition the files it saves are exactly the nine reference files when the first argument is the word true and none otherwise, each holding a system "
           "that has run under the setting the file is named after; over the call graph of the library and examples every file-creating, -writing or -deleting call is reached through SerdeAPI::to_file only.")
    r.assume("std::env::args and the path functions of std behave as documented")
    prog = core.prog("std", ["dess", "dess_examples", "dess_examples-bin"])
    ks = [k for k, f in prog.fns.items() if f["path"] == "main" or f["path"].endswith("::main")]
    if not ks:
        r.violation("anchor:main", "dess-examples/src/main.rs", "the example program's main is gone")
        return
    I = None
    try:
        x = F.IORun(prog, ks[0], contracts=[walked, saving])
        from models import veq
        arg = x.I.symelem(("argv",), "alloc::string::String", ONE)
        n = x.I.vlen(x.I.symvec(("argv",), "alloc::string::String"))
        asked = vand(lt(ONE, n), veq(x.I, x.st, arg, strv("true")))
    except Unmodelled as e:
        r.undecided("main", "not analysable: %s" % e)
        x = None
    if x is not None:
        r.saw(*x.I.visited)
        log = x.log()
        fail = F.failed(x)
        saves = [(op, b, c, key) for op, b, c, key in x.io.keyed if op == "to_file"]
        r.floor("saves in the example program", len(saves), 9)
        seen = {}
        for op, b, c, (path, val) in saves:
            ts = [s for s in texts(path) if s.endswith((".yaml", ".json", ".yml"))]
            name = ts[-1].split("/")[-1] if ts else None
            full = "/".join(s.strip("/") for s in texts(path))
            inst = "reference file %s" % (name or "?")
            if name is None:
                r.undecided(inst, "file name not constant: %r" % (path,))
                continue
            if True:
                r.check(inst + " is written only when the first argument is the word true", x.where, compare(c, False, vnot(asked)))
            seen.setdefault(name, []).append((c, val))
            want = FILES.get(name)
            if want is None:
                r.undecided(inst + " holds the run it is named after", "not a known reference file")
                continue
            if not (full + "/").split(name)[-2].endswith(REF):
                r.undecided(inst + " is in the fixtures folder", full)
            r.check(inst + " holds the finished run of its method", x.where, compare(lift(lambda v: is_run(prog, v, want), val), True, c))
        for name, want in FILES.items():
            cs = seen.get(name, [])
            once = False
            twice = False
            for c, _ in cs:
                twice = vor(twice, vand(once, c))
                once = vor(once, c)
            r.check("reference file %s is written when asked and nothing fails" % name, x.where, compare(once, True, vand(asked, vand(vnot(fail), x.cond))))
            r.check("reference file %s is written at most once" % name, x.where, compare(twice, False, True))
        k = 0
        for p in x.I.panics:
            g = p.guard if isinstance(p.guard, bool) else lift(lambda q: q, vand(p.guard, vnot(asked)))
            if g is not False and of_args(g):
                k += 1
                r.check("main accepts every argument list: %s in %s" % (p.what, p.fn.split("::")[-1]), str(p.where), compare(g, False, True))
        r.ok("main accepts every argument list", "%d of %d panics depend on the arguments alone" % (k, len(x.I.panics)))
        r.check("main writes files only through the save operation", x.where, compare(F.logpred(log, lambda ev: not any(e[0] in F.WRITES or e[0].startswith("fs:") for e in ev)), True, x.cond))
    # ---- who touches files
    g = Graph(prog)
    rev = {}
    touch = {}
    for k in sorted(prog.fns):
        for c, y, sp in g.callees(k):
            if c is not None:
                rev.setdefault(c, set()).add(k)
            elif FSWRITE.search(y.get("rpath") or y.get("path") or ""):
                touch.setdefault(k, []).append((y.get("rpath") or y.get("path"), sp))
    r.floor("functions that write files", len(touch), 1)

    def is_save(k):
        return prog.fns[k].get("name") == "to_file" and (F.API in (prog.fns[k].get("impl_trait"), prog.fns[k].get("trait_default")))
    n = 0
    for k in sorted(touch):
        todo, seen = [(k, (k,))], {k}
        bad = None
        while todo and not bad:
            q, tr = todo.pop()
            if is_save(q):
                continue
            up = sorted(rev.get(q, ()))
            if not up:
                bad = tr
            for u in up:
                if u not in seen:
                    seen.add(u)
                    todo.append((u, tr + (u,)))
        n += 1
        inst = "%s touches files only for the save operation" % k
        if bad and (len(bad) > 1 or prog.fns[k].get("name") not in ()):
            r.violation(inst, "%s, reached from %s" % (touch[k][0][1], " <- ".join(bad)), "calls %s" % touch[k][0][0])
        else:
            r.ok(inst, touch[k][0][0])
    r.extra["functions_scanned_for_file_effects"] = len(prog.fns)


def is_run(prog, v, want):
    if not isinstance(v, Agg):
        return poison(v) or unk("saved value")
    if short_ty(v.ty) != want[0]:
        return False
    fs = [f["name"] for f in prog.adts[v.ty]["variants"][0]["fields"]]
    h = v.fs[fs.index("history")]
    if isinstance(h, Node):
        return unk("conditional run")
    if not (isinstance(h, Agg) and h.ty == "walked"):
        return False
    if isinstance(h.fs[0], Agg) and h.fs[0].ty == "walked":
        return False
    s = v.fs[fs.index("solver_type")]
    st = prog.adts["dess::solver::SolverTypes"]["variants"]
    return lift(lambda a: st[a.var]["name"] == want[1] if isinstance(a, Agg) else poison(a) or unk("setting"), s)

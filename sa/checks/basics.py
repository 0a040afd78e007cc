"""P38, P39, P41: comparing, copying, defaults and helper macros."""
from interp import *
from checks.base import *
import core
import models as M
from terms import IOTA_ID, psubst
from checks.states import progs

PE, PO, CL, DF = "core::cmp::PartialEq", "core::cmp::PartialOrd", "core::clone::Clone", "core::default::Default"


def all_progs():
    return [("library and examples", core.prog("std"), 17), ("probe", core.prog("probe"), 27)]


def decs(v, out=None):
    out = {} if out is None else out
    if isinstance(v, Node) and id(v) not in out:
        out[id(v)] = v.dec
        for c in v.ch:
            decs(c, out)
    return out


def judge(r, inst, where, got, want, care=True, extra=()):
    """as Report.check; a difference that hangs on a test outside the oracle's own vocabulary is left undecided"""
    mm = compare(got, want, care)
    if mm and mm[0].kind == "definite":
        own = {d.id for d in decs(want).values()}
        if any(d.id not in own and d.kind == "bool" for d in decs(got).values()):
            r.undecided(inst, repr(mm[0]))
            return False
        for d in decs(got).values():
            # lengths of columns and the like: another way of saying the same thing may be at work
            if d.id not in own and any(x.kind == "bool" and any(isinstance(q, VecV) for q in x.key[1:]) for x in decs(want).values()):
                r.undecided(inst, repr(mm[0]))
                return False
    return r.check(inst, where, mm) or bool(mm and mm[0].kind == "definite")


def same_length(v, w):
    """v with its columns as long as those of w"""
    if isinstance(v, Agg) and isinstance(w, Agg) and len(v.fs) == len(w.fs):
        for i, (a, b) in enumerate(zip(v.fs, w.fs)):
            v = v.with_field(i, same_length(a, b))
        return v
    if isinstance(v, VecV) and isinstance(w, VecV) and len(v.segs) == len(w.segs) == 1 and v.segs[0][0] == w.segs[0][0] == "t":
        return vec((("t", w.segs[0][1], v.segs[0][2]),))
    return v


def methods_of(prog, trait, name):
    for (t, tr, n), ks in sorted(prog.methods.items(), key=str):
        if tr == trait and n == name and prog.adts.get(t) and prog.adts[t].get("user", True):
            yield t, ks[0]


def p38(r, tier):
    r.rule("For every type of the library, examples and probe crate, on two arbitrary symbolic values: `eq` is the conjunction of the equality of all fields (of the same variant), `ne` its negation, `partial_cmp` the first difference "
           "in declaration order, `clone` gives every field unchanged and leaves the original alone.")
    r.assume("floating-point comparisons are those of finite numbers", "std's comparison and cloning of vectors, strings and options is element-wise")
    for what, prog, need in all_progs():
        users = {t for t, k in methods_of(prog, PE, "eq")} | {t for t, k in methods_of(prog, PO, "partial_cmp")}
        ne = {t for t, k in methods_of(prog, PE, "ne")}

        def nested(t):
            def c(I, fi, args, st, cond, tm):
                tr = fi.get("trait")
                if tr in (PE, PO) and len(args) == 2:
                    name = fi["name"] if fi.get("name") else fi["path"].split("::")[-1]
                    o = M.opaque_pair(I, st, args[0], args[1])
                    if o and name in ("eq", "ne"):
                        e = M.veq(I, st, args[0], args[1])
                        return (vnot(e) if name == "ne" else e), st, True
                    if o and name == "partial_cmp":
                        return M.vcmp(I, st, args[0], args[1]), st, True
                return None
            return c

        def go(t, k, inst, args=()):
            I = Interp(prog)
            I.contracts = [nested(t)]
            M.SHALLOW[0] = frozenset(users - {t})
            return run(r, prog, k, inst, args, I=I)
        try:
            n = 0
            for t, k in methods_of(prog, PE, "eq"):
                nm = short_ty(t)
                x = go(t, k, nm + "::eq")
                if x is None:
                    continue
                n += 1
                want = M.veq(None, None, x.init[0], x.init[1])
                if not judge(r, "%s: equal exactly when every field is" % nm, x.where, x.ret(), want, x.cond):
                    # histories of the same length
                    y = go(t, k, nm + "::eq", [x.init[0], same_length(x.init[1], x.init[0])])
                    if y is not None:
                        judge(r, "%s: of the same length: equal exactly when every field is" % nm, y.where, y.ret(), M.veq(None, None, y.init[0], y.init[1]), y.cond)
                returns(r, x, "%s::eq" % nm)
                if t in ne:
                    y = go(t, find(prog, t, "ne", PE), nm + "::ne")
                    if y is not None:
                        judge(r, "%s: != is the opposite of ==" % nm, y.where, y.ret(), vnot(M.veq(None, None, y.init[0], y.init[1])), y.cond)
            r.floor("comparable types of the " + what, n, need)
            n = 0
            for t, k in methods_of(prog, PO, "partial_cmp"):
                nm = short_ty(t)
                x = go(t, k, nm + "::partial_cmp")
                if x is None:
                    continue
                n += 1
                want = M.vcmp(None, None, x.init[0], x.init[1])
                judge(r, "%s: ordered by its fields in declaration order" % nm, x.where, x.ret(), want, x.cond)
            r.floor("ordered types of the " + what, n, need)
        finally:
            M.SHALLOW[0] = frozenset()
        n = 0
        for t, k in methods_of(prog, CL, "clone"):
            nm = short_ty(t)
            x = run(r, prog, k, nm + "::clone")
            if x is None:
                continue
            n += 1
            r.check("%s::clone keeps every field" % nm, x.where, compare(x.ret(), x.init[0], x.cond))
            r.check("%s::clone leaves the original alone" % nm, x.where, compare(x.out(0), x.init[0], x.cond))
            returns(r, x, "%s::clone" % nm)
        r.floor("clonable types of the " + what, n, need)


# ------------------------------------------------------------------ P39
CFG = "dess::solver::AdaptiveSolverConfig"
SST = "dess::solver::SolverState"
STY = "dess::solver::SolverTypes"
MOCK = (("euler", "EulerFixed"), ("heun", "HeunsMethod"), ("midpoint", "MidpointMethod"), ("ralston", "RalstonsMethod"), ("rk23", "RK23BogackiShampine"), ("rk45", "RK45CashKarp"), ("rk4", "RK4Fixed"))


class Ready:
    """obligations on a value that is supposed to be ready for a run"""

    def __init__(self, prog, r, inst, where, cond):
        self.prog, self.r, self.inst, self.where, self.cond = prog, r, inst, where, cond

    def must(self, what, b):
        self.r.check("%s: %s" % (self.inst, what), self.where, compare(b, True, self.cond))

    def get(self, v, ty, name):
        return part(v, fidx(self.prog, ty)[name])

    def state(self, v, at=""):
        self.must(at + "working step above zero", gt(self.get(v, SST, "dt"), ZERO))
        self.must(at + "step record's clock at zero", eq(self.get(v, SST, "t_curr"), ZERO))
        self.must(at + "no trials yet", eq(self.get(v, SST, "n_iter"), ZERO))
        for f in ("norm_err", "norm_err_rel"):
            self.must(at + f + " absent", lift(lambda o: poison(o) or o.var == 0, self.get(v, SST, f)))

    def config(self, v, at=""):
        g = lambda n: self.get(v, CFG, n)
        for f in ("atol", "rtol", "dt_max"):
            self.must(at + f + " above zero", gt(g(f), ZERO))
        self.must(at + "at least one trial", ge(g("max_iter"), ONE))
        self.must(at + "working step within dt_max", le(self.get(g("state"), SST, "dt"), g("dt_max")))
        self.state(g("state"), at)
        self.histories(g("history"), self.prog.adts[CFG]["variants"][0]["fields"][fidx(self.prog, CFG)["history"]]["ty"], at)

    def solver(self, v, at=""):
        vs = self.prog.adts[STY]["variants"]

        def h(a):
            p = poison(a)
            if p is not None:
                return p
            f = a.fs[0]
            if isinstance(f, Poly):
                return gt(f, ZERO)
            return True
        self.must(at + "step above zero", lift(h, v))
        if isinstance(v, Agg) and not isinstance(v.fs[0], Poly):
            b = v.fs[0]
            self.config(b.fs[0] if isinstance(b, Agg) and b.ty == "box" else b, at)

    def histories(self, v, ty, at=""):
        """every history container inside v is empty"""
        a = self.prog.adts.get(ty)
        if not a or not isinstance(v, Agg):
            return
        if ty.endswith("HistoryVec"):
            for f, c in zip(a["variants"][v.var or 0]["fields"], v.fs):
                self.must("%shistory column %s empty" % (at, f["name"]), lift(lambda q: poison(q) or (eq(q.length(), ZERO) if isinstance(q, VecV) else unk("column")), c))
            return
        for f, c in zip(a["variants"][v.var or 0]["fields"], v.fs):
            self.histories(c, f["ty"], at + f["name"] + ": ")

    def schedule(self, v):
        def h(q):
            p = poison(q)
            if p is not None:
                return p
            if not isinstance(q, VecV):
                return unk("schedule")
            ok = gt(q.length(), ZERO)
            last = None
            for s in q.segs:
                if s[0] == "i":
                    for e in s[1]:
                        if last is not None:
                            ok = vand(ok, lt(last, e))
                        last = e
                else:
                    e = s[2]
                    nxt = vsubst(e, {IOTA_ID: padd(IOTA, ONE)})
                    ok = vand(ok, lt(e, nxt))
                    if last is not None:
                        ok = vand(ok, lt(last, vindex(vec((s,)), ZERO)))
                    last = vindex(vec((s,)), padd(s[1], num(-1)))
            return ok
        self.must("schedule non-empty and increasing", lift(h, v))
        self.must("schedule starts at or after the clock's zero", lift(lambda q: poison(q) or (ge(vindex(q, ZERO), ZERO) if isinstance(q, VecV) else unk("schedule")), v))

    def system(self, v, ty):
        if not isinstance(v, Agg):
            self.r.undecided(self.inst, "system value %r" % type(v).__name__)
            return
        ix = fidx(self.prog, ty)
        for f in fields(self.prog, ty):
            c = part(v, ix[f["name"]])
            if f["name"] == "t_report":
                self.schedule(c)
            elif f["ty"] == STY:
                self.solver(c, "solver: ")
            elif f["name"] == "state":
                for q in self.prog.adts[f["ty"]]["variants"][0]["fields"]:
                    self.must("clock field %s at zero" % q["name"], eq(self.get(c, f["ty"], q["name"]), ZERO))
            else:
                self.component(c, f["ty"], f["name"])
        self.histories(v, ty)

    def component(self, v, ty, name):
        a = self.prog.adts.get(ty)
        if not a:
            return
        for f in a["variants"][0]["fields"]:
            if f["ty"] == "f64":
                self.must("%s.%s above zero" % (name, f["name"]), gt(self.get(v, ty, f["name"]), ZERO))


def p39(r, tier):
    r.rule("The value every `Default` body (and every ready-made system constructor of the examples) computes is inspected: histories empty, clock and index zero, steps, tolerances, storages and conductances above zero, at least one trial, "
           "working step within dt_max, schedule non-empty and strictly increasing from zero on; ready-made systems carry the method their name says.")
    systems = {i["self"] for i in core.prog("std").impls if i["trait"] == "dess::solver::SolverBase"}
    n = 0
    for what, prog, need in all_progs():
        for t, k in methods_of(prog, DF, "default"):
            nm = short_ty(t) + "::default"
            x = run(r, prog, k, nm)
            if x is None:
                continue
            n += 1
            returns(r, x, nm)
            d = Ready(prog, r, nm, x.where, x.cond)
            v = x.ret()
            if t == CFG:
                d.config(v)
            elif t == SST:
                d.state(v)
            elif t == STY:
                d.solver(v)
            elif t in systems:
                d.system(v, t)
            else:
                d.histories(v, t)
                if t == "dess::SystemState":
                    for f in fields(prog, t):
                        d.must("%s zero" % f["name"], eq(d.get(v, t, f["name"]), ZERO))
    r.floor("default bodies", n, 17)
    prog = core.prog("std")
    m = 0
    for k, b in sorted(prog.fns.items()):
        if b.get("argc") != 0 or not b.get("blocks") or b["locals"][0] not in systems or "mock" not in k.split("::")[-1] or "::tests" in k:
            continue
        nm = "::".join(k.split("::")[-2:])
        x = run(r, prog, k, nm)
        if x is None:
            continue
        m += 1
        d = Ready(prog, r, nm, x.where, x.cond)
        t = b["locals"][0]
        v = x.ret()
        d.system(v, t)
        for sub_, var in MOCK:
            if sub_ in k.split("::")[-1]:
                vs = prog.adts[STY]["variants"]
                d.must("set to " + var, lift(lambda a: poison(a) or vs[a.var]["name"] == var, d.get(v, t, "solver_type")))
                break
    r.extra["ready_made_systems"] = m


# ------------------------------------------------------------------ P41
def p41(r, tier):
    r.rule("Expansions of `time_it!` and `zip!` in the probe crate: with a ghost clock that only the timed expression advances, `time_it!` returns exactly one evaluation's advance and leaves the expression's effect done once; "
           "`zip!` yields, position by position, the elements of its arguments in argument order.")
    r.assume("Instant::now reads one monotonic clock")
    prog = core.prog("probe")
    ghost = {}

    def clock(I, fi, args, st, cond, t):
        path = fi.get("rpath") or fi.get("path") or ""
        name = fi.get("name") or path.split("::")[-1]
        inst = fi.get("inst") or ""
        g = ghost.get("ref")
        if "Instant" in path or "Instant" in inst or "Instant" in str(fi.get("trait_self") or ""):
            now = I.load(st, g)
            if name == "now":
                return now, st, True
            if name in ("elapsed",):
                return sub(now, M.deref(I, st, args[0])), st, True
            if name in ("duration_since", "sub", "saturating_duration_since"):
                return sub(M.deref(I, st, args[0]), M.deref(I, st, args[1])), st, True
        if "time::Duration" in path + inst and name.startswith("as_") and args:
            x = M.deref(I, st, args[0])
            return lift(lambda q: poison(q) or (pa(atom("app", ("duration", (q,), name), nonneg=True)) if isinstance(q, Poly) else unk("duration")), x), st, True
        if path.endswith("dess_probe::work") or inst.endswith("::work"):
            now = I.load(st, g)
            c = M.final_ref(I, st, args[0])
            st2 = I.store(st, g, add(now, pa(atom("sym", ("one evaluation",), nonneg=True))))
            st2 = I.store(st2, c, add(I.load(st2, c), ONE))
            return UNIT, st2, True
        return None
    for key in ("dess_probe::timed", "dess_probe::timed_block"):
        k = key if key in prog.fns else None
        if k is None:
            r.violation("anchor:" + key, key, "probe function is gone")
            continue
        I = Interp(prog)
        I.contracts = [clock]
        st = State()
        g = I.alloc(st, pa(atom("sym", ("clock",))), "ghost")
        ghost["ref"] = g
        c0 = pa(atom("sym", ("count",)))
        c = I.alloc(st, c0, "arg")
        try:
            v, s, cond = I.run_top(prog.fns[k], [c], st, k)
        except Unmodelled as e:
            r.undecided(key, str(e))
            continue
        r.saw(*I.visited)
        where = prog.fns[k]["span"]
        if s is None:
            r.violation(key, where, "never returns")
            continue
        r.check("time_it! in %s gives the time one evaluation takes" % key.split("::")[-1], where, compare(I.freeze(s, v), pa(atom("sym", ("one evaluation",), nonneg=True)), cond))
        r.check("time_it! in %s evaluates its expression once" % key.split("::")[-1], where, compare(s.mem[c.root], add(c0, ONE), cond))
    for key, cnt in (("dess_probe::zips2", 2), ("dess_probe::zips", 3), ("dess_probe::zips4", 4)):
        if key not in prog.fns:
            r.violation("anchor:" + key, key, "probe function is gone")
            continue
        n = pa(atom("sym", ("positions",), nonneg=True))
        I = Interp(prog)
        vs = []
        for i in range(cnt):
            q = I.symvec(("a%d" % i,), "f64")
            vs.append(vec((("t", n, q.segs[0][2]),)))
        x = run(r, prog, key, key, vs)
        if x is None:
            continue
        want = ZERO
        for i, q in enumerate(vs):
            want = add(want, mul(num(10 ** i), q.segs[0][2]))
        r.check("zip! of %d pairs the elements position by position, in argument order" % cnt, x.where, compare(x.ret(), vec((("t", n, want),)), x.cond))

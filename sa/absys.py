"""The abstract system: a type parameter `Self` with n states, an unknown derivative law F(t, x), a clock, an adaptive
solver configuration and everything else opaque.  Trait methods with no body in the analysed crate are given the
contract that P12/P11/P03 verify on the generated implementations."""
from interp import *
import models as M

SYS, X, D_, SC, HIST, REST = range(6)
SELF = "Self"
TRAITS = ("dess::solver::SolverBase", "dess::traits_and_macros::HasStates", "dess::traits_and_macros::BareClone")


CLOSED = [False]  # rates of an explicit number of components add up to zero
TIMELESS = [False]  # treat the equations as autonomous (only the state values matter)


def F(t, xbody, i):
    """derivative law at time t and state vector x, component i"""
    if TIMELESS[0]:
        t = ZERO
    return lift(lambda tt, xx: poison(tt, xx) or pa(atom("app", ("F", (tt, xx), i))), t, xbody)


def Fvec(t, x):
    """vector of derivatives"""
    def h(x):
        if is_bad(x):
            return x
        if not isinstance(x, VecV):
            return unk("state vector")
        if all(s[0] == "i" for s in x.segs):
            its = x.segs[0][1] if x.segs else ()
            return items(*[Fall(t, its, j) for j in range(len(its))])
        if len(x.segs) == 1:
            return tmpl(x.segs[0][1], F(t, x.segs[0][2], IOTA))
        return unk("state vector layout")
    return lift(h, x)


def Fall(t, its, j):
    if CLOSED[0] and j and j == len(its) - 1:
        r = ZERO
        for k in range(j):
            r = sub(r, Fall(t, its, k))
        return r
    if TIMELESS[0]:
        t = ZERO
    return lift(lambda *a: poison(*a) or pa(atom("app", ("F", tuple(a), num(j)))), t, *its)


def is_bad(x):
    return x is UNDEF or isinstance(x, Unk)


def is_self(v):
    l = leaf1(v)
    return isinstance(l, Agg) and l.ty == SELF


def make_self(I, n=None, adaptive=True):
    prog = I.prog
    sysstate = I.symval(("state",), "dess::SystemState")
    if n is None:
        N = sym("n", nonneg=True)
        x = tmpl(N, pa(atom("idx", ("x", IOTA))))
        d = tmpl(N, pa(atom("idx", ("d", IOTA))))
    else:
        x = items(*[pa(atom("idx", ("x", num(j)))) for j in range(n)])
        d = items(*[pa(atom("idx", ("d", num(j)))) for j in range(n)])
    sc = I.symval(("sc",), "dess::solver::AdaptiveSolverConfig")
    return agg(SELF, 0, (sysstate, x, d, some(sc), opq("history", None), opq("rest", None)))


def vlen_same(a, b):
    return isinstance(a, VecV) and isinstance(b, VecV) and (a.length() is b.length() or a.length().fp() == b.length().fp())


def contract(I, fi, args, st, cond, t):
    tr = fi.get("trait")
    name = fi["name"] if fi.get("name") else fi["path"].split("::")[-1]
    if not args:
        return None
    if tr == "core::clone::Clone" and name == "clone":
        return None
    if not tr or not tr.startswith("dess::"):
        return None
    k = "<Self as %s>::%s" % (tr, name)
    if k not in I.prog.fns:
        # generic over more than the system
        memo = I.prog.__dict__.setdefault("_provided", {})
        if k not in memo:
            ks = [x for x in I.prog.fns if x.startswith(k + "::<") and x.endswith(">")]
            memo[k] = ks[0] if len(ks) == 1 else None
        k = memo[k]
    if tr not in TRAITS or k:
        # provided method called on the abstract system: analyse its body
        if k and is_self(I.load(st, M.final_ref(I, st, args[0]))):
            return I.call_fn(k, args, st, cond)
        return None
    r = M.final_ref(I, st, args[0])
    v = I.load(st, r)
    if not is_self(v):
        return None

    def fld(i):
        return I.load(st, I.extend(st, r, ("f", i)))

    def setf(s, i, val):
        return I.store(s, I.extend(s, r, ("f", i)), val)
    ti = I.prog.field_index("dess::SystemState", "time")
    if name == "state":
        return I.extend(st, r, ("f", SYS)), st, True
    if name in ("sc", "sc_mut"):
        rr = I.extend(st, r, ("f", SC))
        c = lift(lambda x: x.var == 1 if isinstance(x, Agg) else unk("sc"), fld(SC))
        return M.wrap_opt(c, I.extend(st, I.extend(st, rr, ("d", 1)), ("f", 0))), st, True
    if name == "reset_derivs":
        return UNIT, setf(st, D_, vmap1(lambda e: ZERO, fld(D_))), True
    if name == "update_derivs":
        tm = I.load(st, I.extend(st, I.extend(st, r, ("f", SYS)), ("f", ti)))
        d = Fvec(tm, fld(X))
        I.calls.append(("update_derivs", I.fnstack[-1] if I.fnstack else "?", tm))
        return UNIT, setf(st, D_, d), True
    if name == "step_time":
        dt = M.deref(I, st, args[1])
        rr = I.extend(st, I.extend(st, r, ("f", SYS)), ("f", ti))
        return UNIT, I.store(st, rr, add(I.load(st, rr), dt)), True
    if name == "states":
        return fld(X), st, True
    if name == "derivs":
        return fld(D_), st, True
    if name in ("set_states", "set_derivs"):
        i = X if name == "set_states" else D_
        val = I.freeze(st, M.deref(I, st, args[1]))
        nv = lift(lambda a, b: poison(a, b) or (b if vlen_same(a, b) else unk(name + " with another length")), fld(i), val)
        return UNIT, setf(st, i, nv), True
    if name in ("step_states", "step_derivs"):
        i = X if name == "step_states" else D_
        val = I.freeze(st, M.deref(I, st, args[1]))

        def stp(a, b):
            p = poison(a, b)
            if p is not None:
                return p
            if not vlen_same(a, b):
                return unk(name + " with another length")
            z = vzip(a, b)
            return vmap(lambda e: add(e.fs[0], e.fs[1]), z) if z is not None else unk("layout")
        return UNIT, setf(st, i, lift(stp, fld(i), val)), True
    if name == "step_states_by_dt":
        dt = M.deref(I, st, args[1])

        def stp(a, b):
            p = poison(a, b)
            if p is not None:
                return p
            z = vzip(a, b)
            return vmap(lambda e: add(e.fs[0], mul(e.fs[1], dt)), z) if z is not None else unk("layout")
        s = setf(st, X, lift(stp, fld(X), fld(D_)))
        rr = I.extend(s, I.extend(s, r, ("f", SYS)), ("f", ti))
        return UNIT, I.store(s, rr, add(I.load(s, rr), dt)), True
    if name == "bare_clone":
        nv = lift(lambda x: x.with_field(HIST, opq("empty history", None)) if isinstance(x, Agg) else x, v)
        return nv, st, True
    return None


def vmap1(f, v):
    return lift(lambda x: poison(x) or (vmap(f, x) if isinstance(x, VecV) else unk("vector")), v)


def run_method(I, key, args, st):
    return I.run_body(I.prog.fns[key], args, st, key)


GEN = "<Self as dess::solver::SolverVariantMethods>::"


def generic_key(prog, m):
    return GEN + m


def step(prog, m, n=None, extra=(), contracts=(), pre=None, unroll=0, key=None):
    """analyse one provided solver method (or the body `key` replacing it) on the abstract system; returns (interp, initial self, value, state, cond)"""
    I = Interp(prog)
    I.unroll = unroll
    I.contracts = list(contracts) + [contract]
    st = State()
    s0 = make_self(I, n)
    if pre:
        s0 = pre(I, s0)
    r = I.alloc(st, s0, "self")
    key = key or GEN + m
    b = prog.fns[key]
    a = [r]
    dt = sym("dt", pos=True)
    for i in range(1, b["argc"]):
        ty = b["locals"][1 + i]
        tt = prog.types.get(ty, {"k": "?"})
        a.append(vref(dt) if tt["k"] == "ref" else dt)
    v, s, c = I.run_top(b, a, st, key)
    return I, s0, v, s, c, r, dt

"""P34, P35, P37: laws of whole methods and runs that follow from the shape of the computed terms."""
from fractions import Fraction as Q
from interp import *
from checks.base import *
from checks.steps import Acc
from checks.states import Comp, systems as state_systems
from checks import steps as T
from checks import walk as W
import core
import absys as A
import spec as S
from absys import is_bad
from values import has_unk
from terms import IOTA_ID, poly_str

ORDER = {"euler": 1, "heun": 2, "midpoint": 2, "ralston": 2, "rk4fixed": 4, "rk23_bogacki_shampine": 3, "rk45_cash_karp": 5}


# ------------------------------------------------------------------ P34
def trees(n, _memo={}):
    """rooted trees with n nodes, each a sorted tuple of its subtrees"""
    if n not in _memo:
        out = set()

        def go(left, top, acc):
            if left == 0:
                out.add(tuple(sorted(acc)))
                return
            for k in range(1, left + 1):
                for t in trees(k):
                    if top is None or (k, t) <= top:
                        go(left - k, (k, t), acc + [t])
        go(n - 1, None, [])
        _memo[n] = sorted(out)
    return _memo[n]


def size(t):
    return 1 + sum(size(x) for x in t)


def density(t):
    d = size(t)
    for x in t:
        d *= density(x)
    return d


def weights(t, a):
    """elementary weight of t at every stage"""
    w = [Q(1)] * len(a)
    for sub_ in t:
        v = weights(sub_, a)
        w = [w[i] * sum((a[i][j] * v[j] for j in range(len(a))), Q(0)) for i in range(len(a))]
    return w


class Shape(Exception):
    pass


def linear(e, x, h):
    """coefficients of h*F-terms in e - x; raises Shape when e is not of that form"""
    out = {}
    for mono, c in padd(e, x, -1).t:
        f = [aid for aid, k in mono if ATOMS[aid].kind == "app" and ATOMS[aid].args[0] == "F" and k == 1]
        rest = tuple((aid, k) for aid, k in mono if aid not in f)
        if len(f) != 1 or rest != h:
            raise Shape("term %s is not step times one derivative" % poly_str(mk({mono: c})))
        out[f[0]] = out.get(f[0], 0) + Q(c)
    return {k: v for k, v in out.items() if v}


def tableau(e, x, t, h):
    """(c, a, b) of the explicit method that takes x to e"""
    if not (isinstance(h, Poly) and len(h.t) == 1 and h.t[0][1] == 1):
        raise Shape("step")
    hm = h.t[0][0]
    b = linear(e, x, hm)
    ids, rows, cs = [], {}, {}

    def visit(aid):
        if aid in rows:
            return
        tt, arg = ATOMS[aid].args[1][0], ATOMS[aid].args[1][1]
        if not isinstance(arg, Poly) or not isinstance(tt, Poly):
            raise Shape("stage argument")
        rows[aid] = None
        row = linear(arg, x, hm)
        for k in row:
            visit(k)
        rows[aid] = row
        d = padd(tt, t, -1)
        if not d.t:
            cs[aid] = Q(0)
        elif len(d.t) == 1 and d.t[0][0] == hm:
            cs[aid] = Q(d.t[0][1])
        else:
            raise Shape("stage time %s" % poly_str(tt))
        ids.append(aid)
    for k in b:
        visit(k)
    if not ids:
        raise Shape("no derivative is used")
    a = [[rows[i].get(j, Q(0)) for j in ids] for i in ids]
    return [cs[i] for i in ids], a, [b.get(i, Q(0)) for i in ids]


def failed_conditions(tab, p):
    c, a, b = tab
    bad = []
    for i in range(len(a)):
        if sum(a[i], Q(0)) != c[i]:
            bad.append("stage %d is taken at time offset %s but its state offset is %s" % (i + 1, c[i], sum(a[i], Q(0))))
    for n in range(1, p + 1):
        for t in trees(n):
            got = sum((x * y for x, y in zip(b, weights(t, a))), Q(0))
            if got != Q(1, density(t)):
                bad.append("condition of order %d: %s instead of 1/%d" % (n, got, density(t)))
    return bad


def p34(r, tier):
    r.rule("From the symbolic state each method computes (any number of states, unknown derivative law) the weights, stage couplings and stage times are read off as polynomial coefficients; they must satisfy every rooted-tree "
           "order condition up to the method's order (1, 2, 2, 2, 4, 3, 5) and each stage's time offset must equal its row sum. By the order theorem the local error is then O(h^(p+1)) and the global error O(h^p).")
    r.assume("exact real arithmetic; smooth, Lipschitz derivative laws (the order and convergence theorems of Runge-Kutta methods)",
             "SolverBase/HasStates implementations act as P12 and P03 establish for the generated ones")
    prog = core.prog("std")
    n = 0
    for m, _n, st in T.systems(prog, S.FIXED + S.ADAPTIVE, r, ns=(None,)):
        t, x, h = T.origin(st)
        inst = "%s has order %d" % (m, ORDER[m])
        fin = st.x(st.final)
        if h is None or not isinstance(x, VecV) or len(x.segs) != 1:
            r.undecided(inst, "start of the trial not recognised")
            continue
        xe = x.segs[0][2]
        notes = []

        def judge(v, tt, hh):
            p = poison(v, tt, hh)
            if p is not None:
                return p
            if not (isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == "t"):
                return unk("state vector layout")

            def leaf(e, tt, hh):
                p = poison(e, tt, hh)
                if p is not None or has_unk(e):
                    return p or unk("state")
                try:
                    bad = failed_conditions(tableau(e, xe, tt, hh), ORDER[m])
                except Shape as q:
                    bad = ["not a Runge-Kutta step: %s" % q]
                if bad:
                    notes.append(bad)
                return not bad
            return lift(leaf, v.segs[0][2], tt, hh)
        okv = lift(judge, fin, t, h)
        mm = compare(okv, True, st.cond)
        if mm and mm[0].kind == "definite":
            r.violation(inst, st.where, "%s%s" % ("; ".join((notes or [["?"]])[0][:4]), (" when " + repr(mm[0])[:300]) if mm[0].asg else ""))
        elif mm:
            r.undecided(inst, repr(mm[0]))
        else:
            r.ok(inst, "%d order conditions" % sum(len(trees(k)) for k in range(1, ORDER[m] + 1)))
            n += 1
    r.extra["order_conditions"] = {m: sum(len(trees(k)) for k in range(1, p + 1)) for m, p in ORDER.items()}


# ------------------------------------------------------------------ P37
def p37(r, tier):
    r.rule("(a) For each closed connected system, the sum over the marked components of storage times derivative that `update_derivs` leaves is the zero polynomial (with a boundary of infinite storage: it is the flow out of "
           "the boundary). (b) Each step method changes every state by the same linear combination of derivative evaluations, coefficients free of the component. So the storage-weighted sum of the states is changed by no step.")
    r.assume("rounding is outside this property", "storages are positive and a run changes states and storages only through the step methods (P05, P08)")
    from checks.physics import TABLE, BOUNDARY, SB, flow_of
    n = 0
    conns = dict(TABLE)
    conns["dess_probe::SysMany"] = (("n", "a", "v_na"), ("b", "k", "v_bk"))
    for prog, ty in state_systems(r):
        if ty not in conns:
            continue
        nm = short_ty(ty)
        x = run(r, prog, prog.method(ty, SB, "update_derivs"), nm + "::update_derivs")
        if x is None:
            continue
        n += 1
        f, ix = fields(prog, ty), fidx(prog, ty)
        out = x.out(0)
        total = ZERO
        care = x.cond
        for k, g in enumerate(f):
            if not attr(g, "use_state") or g["name"] == BOUNDARY.get(ty):
                continue
            o = Comp(prog, g["ty"])
            v = part(out, k)
            s = o.get("storage", v)
            care = vand(care, gt(s, ZERO))
            total = add(total, mul(s, o.get("deriv", v)))
        want = ZERO
        bd = BOUNDARY.get(ty)
        for a, b, c in conns[ty]:
            if bd in (a, b) and bd is not None and a != b:
                q = flow_of(prog, f[ix[c]]["ty"], part(out, ix[c]))
                want = add(want, q if a == bd else neg(q))
        r.check("%s::update_derivs conserves the stored quantity%s" % (nm, "" if bd is None else " up to the flow across its boundary"), x.where, compare(total, want, care))
    r.floor("connected systems", n, 5)
    prog = core.prog("std")
    for m, _n, st in T.systems(prog, S.FIXED + S.ADAPTIVE, r, ns=(None,)):
        t, x, h = T.origin(st)
        inst = "%s changes all states by one linear combination of derivatives" % m
        if not isinstance(x, VecV) or len(x.segs) != 1:
            r.undecided(inst, "start of the trial not recognised")
            continue
        xe = x.segs[0][2]
        notes = []

        def judge(v):
            if is_bad(v):
                return v
            if not (isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == "t"):
                return unk("state vector layout")
            e = v.segs[0][2]
            if isinstance(e, Node) and any(IOTA_ID in d.free for d in decs(e)):
                return unk("component-dependent case distinction")

            def leaf(e):
                if is_bad(e) or has_unk(e):
                    return e if is_bad(e) else unk("state")
                for mono, c in padd(e, xe, -1).t:
                    own = [a for a, k in mono if IOTA_ID in ATOMS[a].free]
                    if len(own) != 1 or dict(mono)[own[0]] != 1 or ATOMS[own[0]].kind != "app" or ATOMS[own[0]].args[0] != "F":
                        notes.append(poly_str(mk({mono: c})))
                        return False
                return True
            return lift(leaf, e)
        mm = compare(lift(judge, st.x(st.final)), True, st.cond)
        if mm and mm[0].kind == "definite":
            r.violation(inst, st.where, "the change contains %s" % "; ".join(notes[:3]))
        elif mm:
            # one explicit size, unit storages, derivatives that add up to zero
            A.CLOSED[0] = True
            try:
                three = list(T.systems(prog, [m], r, ns=(3,)))
            finally:
                A.CLOSED[0] = False
            if not three:
                r.undecided(inst, repr(mm[0]))
            for _m, _k, s3 in three:
                r.check(inst, s3.where, compare(balance(T.origin(s3)[1], s3.x(s3.final)), ZERO, s3.cond))
        else:
            r.ok(inst)


def balance(x, e):
    """sum of the changes of three states whose rates add up to zero"""
    def h(a, b):
        p = poison(a, b)
        if p is not None:
            return p
        its = [v.segs[0][1] if isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == "i" else None for v in (a, b)]
        if None in its or len(its[0]) != 3 or len(its[1]) != 3:
            return unk("state vector layout")
        tot = ZERO
        for p, q in zip(*its):
            tot = add(tot, sub(q, p))
        return tot
    return lift(h, x, e)


def decs(v, out=None):
    out = set() if out is None else out
    if isinstance(v, Node):
        out.add(v.dec)
        for c in v.ch:
            decs(c, out)
    return out


# ------------------------------------------------------------------ P35
def retries_only(sy):
    """ghost effect for the adaptive methods, real bodies for the fixed ones"""
    c = W.step_contract(sy)

    def g(I, fi, args, st, cond, t):
        name = fi["name"] if fi.get("name") else fi["path"].split("::")[-1]
        return c(I, fi, args, st, cond, t) if name in W.ADAPT.values() else None
    return g


def p35(r, tier):
    r.rule("Stepping loop of every system, with the real bodies of the fixed-step methods inlined: one pass moves the clock by exactly min(step, time left), so a clock at or before the report time stays so and strictly advances for a "
           "positive step; leaving the loop then means the clock equals the report time. Run loop: each pass moves the index on by one. Adaptive methods: the clock moves by the accepted step, at most the time left, and every further "
           "trial has a larger trial count below the limit.")
    r.assume("exact real arithmetic: steps below the clock's resolution are outside this property", "the derivative law always returns")
    acc = Acc()
    for sy, k, where, s, c, rec, ref0 in W.each(r, "solve_step", retries_only):
        nm = short_ty(sy.ty)
        head, cb, b = W.body(sy, rec, ref0)
        adt = sy.prog.adts[W.ST]
        t0, t1 = sy.time(head), sy.time(b)
        target = W.at(sy.report(head), sy.index(head))
        rem = sub(target, t0)
        ok = vand(cb, W.inbounds(sy, head))
        for vi, v in enumerate(adt["variants"]):
            if v["name"] not in W.FIXED:
                continue
            stv = sy.solver(head)
            dt = lift(lambda a, vi=vi: poison(a) or (a.fs[0] if isinstance(a, Agg) and a.var == vi else ONE), stv)
            care = vand(vand(ok, lift(lambda a, vi=vi: poison(a) or a.var == vi, stv)), gt(dt, ZERO))
            acc.add("%s with %s moves the clock by the smaller of its step and the time left" % (nm, v["name"]), where, None, compare(t1, add(t0, vmin(rem, dt)), care))
            acc.add("%s with %s advances" % (nm, v["name"]), where, None, compare(gt(t1, t0), True, vand(care, gt(rem, ZERO))))
            acc.add("%s with %s does not pass the report time" % (nm, v["name"]), where, None, compare(gt(t1, target), False, care))
        acc.add("%s keeps aiming at the same report time" % nm, where, None, compare(W.at(sy.report(b), sy.index(b)), target, ok))
        for t, ce, se in rec.exits:
            e = se.mem[ref0.root]
            inb = W.inbounds(sy, head)
            acc.add("%s leaves its stepping loop only at or after the report time" % nm, where, None,
                    compare(lt(sy.time(e), target), False, vand(ce, inb)))
    n = 0
    for sy, k, where, s, c, rec, ref0 in W.each(r, "walk", W.solve_contract):
        n += 1
        nm = short_ty(sy.ty)
        head, cb, b = W.body(sy, rec, ref0)
        acc.add("%s::walk aims at the next report time after each pass" % nm, where, None, compare(sy.index(b), add(sy.index(head), ONE), cb))
        acc.add("%s::walk keeps its schedule" % nm, where, None, compare(sy.report(b), sy.report(head), cb))
        rep = sy.report(head)
        last = W.at(rep, lift(lambda v: padd(v.length(), num(-1)), rep))
        nonempty = lift(lambda v: lt(ZERO, v.length()), rep)
        for t, ce, se in rec.exits:
            acc.add("%s::walk ends only at or after its last report time" % nm, where, None, compare(lt(sy.time(se.mem[ref0.root]), last), False, vand(ce, nonempty)))
        acc.add("%s::walk does not go on once its last report time is reached" % nm, where, None, compare(cb, False, vand(nonempty, vnot(lt(sy.time(head), last)))))
    from checks.adaptive import loops
    for m, _n, st, L in loops(r, ns=(None,)):
        acc.add("%s moves the clock by its accepted step" % m, st.where, None, compare(st.t(st.final), add(st.t(st.s0), L.h), L.cx))
        acc.add("%s returns its accepted step" % m, st.where, None, compare(st.value, L.h, L.cx))
        acc.add("%s starts with at most the time left" % m, st.where, None, compare(gt(st.h(L.init), st.dt), False, L.base))
        n1 = L.state(L.back, "n_iter")
        acc.add("%s counts every trial" % m, st.where, None, compare(n1, add(L.n, ONE), L.cb))
        acc.add("%s stops at its trial limit" % m, st.where, None, compare(lt(n1, L.conf(L.head, "max_iter")), True, L.cb))
        acc.add("%s keeps its trial limit" % m, st.where, None, compare(L.conf(L.back, "max_iter"), L.conf(L.head, "max_iter"), L.cb))
    T.merge_n(r, acc.d)
    r.floor("run loops", n, 5)

"""P17, P18, P28-P30: connections, components and numeric helpers."""
from fractions import Fraction as Q
from interp import *
from checks.base import *
from checks.states import Comp, HS, SB, attr, progs

FL = "dess::traits_and_macros::Flow"
EX = "dess_examples::"
TABLE = {
    EX + "three_thermal_mass_sys::System3TM": (("m1", "m2", "h12"), ("m2", "m3", "h23")),
    EX + "three_thrml_mass_w_bc_sys::System3TMWithBC": (("m1", "m2", "h12"), ("m2", "m3", "h23")),
    "dess_probe::SysStar": (("hub", "zeta", "v1"), ("alpha", "hub", "v2"), ("hub", "mid", "v3"), ("last", "hub", "v4")),
    "dess_probe::SysPair": (("b", "a", "ba"), ("a", "b", "ab")),
    "dess_probe::SysWide": tuple(("s%02d" % ((5 * i + 2) % 34), "s%02d" % ((11 * i + 7) % 34), "c%02d" % i) for i in range(18)),
}
BOUNDARY = {EX + "three_thrml_mass_w_bc_sys::System3TMWithBC": "m1"}


def flow_of(prog, ty, v):
    return Run(prog, prog.method(ty, FL, "flow"), [v]).ret()


def set_flow(prog, ty, v, p0, t0, p1, t1):
    mem = {"p0": p0, "p1": p1}
    x = Run(prog, prog.method(ty, FL, "set_flow"), [v, ref("p0", (), t0), ref("p1", (), t1)], mem=mem)
    return x.out(0)


def connect(prog, ty, s, conns, flows=True, derivs=True):
    f = fields(prog, ty)
    ix = fidx(prog, ty)
    if flows:
        for a, b, c in conns:
            s = setpart(s, ix[c], set_flow(prog, f[ix[c]]["ty"], part(s, ix[c]), part(s, ix[a]), f[ix[a]]["ty"], part(s, ix[b]), f[ix[b]]["ty"]))
    if derivs:
        for a, b, c in conns:
            q = flow_of(prog, f[ix[c]]["ty"], part(s, ix[c]))
            for e, sg in ((a, -1), (b, 1)):
                o = Comp(prog, f[ix[e]]["ty"])
                v = part(s, ix[e])
                s = setpart(s, ix[e], o.op("step_deriv", v, div(mul(num(sg), q), o.get("storage", v))))
    return s


def p17(r, tier):
    r.rule("The effect of `update_derivs` of each example and probe system, and of the macros alone on unknown derivatives, equals: flow set from (first, second) component in listed order, "
           "then -flow/storage added to the first and +flow/storage to the second component's derivative, starting from zero, nothing else changed.")
    n = 0
    for prog in progs():
        for ty, conns in sorted(TABLE.items()):
            if ty not in prog.adts or not prog.method(ty, SB, "update_derivs"):
                continue
            nm = short_ty(ty)
            x = run(r, prog, prog.method(ty, SB, "update_derivs"), nm + "::update_derivs")
            if x is None:
                continue
            n += 1
            f = fields(prog, ty)
            ix = fidx(prog, ty)
            s = x.init[0]
            for k, g in enumerate(f):
                if attr(g, "use_state"):
                    s = setpart(s, k, Comp(prog, g["ty"]).op("set_deriv", part(s, k), ZERO))
            bd = BOUNDARY.get(ty)
            if bd:
                k = ix[bd]
                o = Comp(prog, f[k]["ty"])
                s = setpart(s, k, o.op("set_state", part(s, k), o.get("state", part(x.out(0), k))))
            want = connect(prog, ty, s, conns)
            for k, g in enumerate(f):
                what = "leaves %s alone"
                if attr(g, "use_state"):
                    what = "gives %s the derivative of its connections"
                elif any(g["name"] == c[2] for c in conns):
                    what = "sets the flow of %s from its two components in order"
                r.check("%s::update_derivs %s" % (nm, what % g["name"]), x.where, compare(part(x.out(0), k), part(want, k), x.cond))
            for a, b, c in conns:
                cty = f[ix[c]]["ty"]
                hf = fidx(prog, cty)
                if "h" not in hf:
                    continue
                out = x.out(0)
                d = sub(Comp(prog, f[ix[a]]["ty"]).get("state", part(out, ix[a])), Comp(prog, f[ix[b]]["ty"]).get("state", part(out, ix[b])))
                r.check("%s: the flow of %s is positive from %s to %s" % (nm, c, a, b), x.where,
                        compare(flow_of(prog, cty, part(out, ix[c])), mul(part(part(out, ix[c]), hf["h"]), d), x.cond))
            returns(r, x, nm + "::update_derivs")
    r.floor("connected systems", n, 4)
    prog = core.prog("probe")
    ty = "dess_probe::SysStar"
    three = (("alpha", "hub", "v2"), ("hub", "mid", "v3"), ("zeta", "last", "v1"))
    for fn, t, conns, fl, de in (("one_connection", "dess_probe::SysPair", (("b", "a", "ba"),), True, True),
                                 ("flows_only", ty, three, True, False), ("derivs_only", ty, three, False, True)):
        key = "dess_probe::" + fn
        x = run(r, prog, key if key in prog.fns else None, fn)
        if x is None:
            continue
        want = connect(prog, t, x.init[0], conns, fl, de)
        what = {"one_connection": "connect_states! and update_derivs! move quantity between exactly the two components",
                "flows_only": "connect_states! sets exactly the listed flows, in listed order", "derivs_only": "update_derivs! adds to exactly the listed components"}[fn]
        for k, g in enumerate(fields(prog, t)):
            r.check("%s: %s" % (what, g["name"]), x.where, compare(part(x.out(0), k), part(want, k), x.cond))


def p18(r, tier):
    r.rule("Each component operation of the examples, analysed on a symbolic component, equals its law: state/deriv are the record's temp/dtemp, setters replace and steppers add to that one field, "
           "a reservoir's set derivative is zero and its storage infinite, a conductance's flow is h*(state(p0)-state(p1)).")
    prog = core.prog("std")
    n = 0
    C = EX + "components::"
    a = sym("amount")
    for ty in (C + "ThermalMass", C + "ThermalReservoir"):
        if ty not in prog.adts:
            r.violation("anchor:" + ty, ty, "component type is gone")
            continue
        nm = short_ty(ty)
        ix = fidx(prog, ty)
        rx = fidx(prog, C + "ThermalMassState")
        si, ti, di = ix["state"], rx["temp"], rx["dtemp"]

        def put(v, fi, x):
            return setpart(v, si, setpart(part(v, si), fi, x))
        res = nm == "ThermalReservoir"
        for op in ("state", "deriv", "storage", "set_state", "set_deriv", "step_deriv", "step_state", "step_state_by_dt"):
            inst = "%s::%s" % (nm, op)
            x = run(r, prog, prog.method(ty, HS, op), inst, [None, a])
            if x is None:
                continue
            n += 1
            v = x.init[0]
            T, D = part(part(v, si), ti), part(part(v, si), di)
            if op in ("state", "deriv", "storage"):
                want = {"state": T, "deriv": D, "storage": pa(atom("inf", (1,))) if res else part(v, ix.get("c", 99))}[op]
                if op == "storage" and res:
                    r.check(inst + " is infinite", x.where, compare(x.ret(), want, x.cond))
                else:
                    r.check(inst + " reports the field it stands for", x.where, compare(x.ret(), want, x.cond))
                r.check(inst + " changes nothing", x.where, compare(x.out(0), v, x.cond))
            else:
                want = {"set_state": lambda: put(v, ti, a), "set_deriv": lambda: put(v, di, ZERO if res else a),
                        "step_deriv": lambda: put(v, di, add(D, a)), "step_state": lambda: put(v, ti, add(T, a)),
                        "step_state_by_dt": lambda: put(v, ti, add(T, mul(a, D)))}[op]()
                r.check(inst + " obeys its law", x.where, compare(x.out(0), want, x.cond))
            returns(r, x, inst)
    ty = C + "Conductance"
    ix = fidx(prog, ty)
    qx = fidx(prog, C + "ConductanceState")
    x = run(r, prog, prog.method(ty, FL, "flow"), "Conductance::flow")
    if x is not None:
        n += 1
        r.check("Conductance::flow reports its flow", x.where, compare(x.ret(), part(part(x.init[0], ix["state"]), qx["q"]), x.cond))
    for t0, t1 in ((C + "ThermalMass", C + "ThermalReservoir"), (C + "ThermalReservoir", C + "ThermalMass"), (C + "ThermalMass", C + "ThermalMass")):
        inst = "Conductance::set_flow from %s to %s" % (short_ty(t0), short_ty(t1))
        I = Interp(prog)
        p0, p1 = I.symval(("p0",), t0), I.symval(("p1",), t1)
        x = run(r, prog, prog.method(ty, FL, "set_flow"), inst, [None, ref("p0", (), t0), ref("p1", (), t1)], mem={"p0": p0, "p1": p1})
        if x is None:
            continue
        n += 1
        v = x.init[0]
        g = lambda p, t: part(part(p, fidx(prog, t)["state"]), fidx(prog, C + "ThermalMassState")["temp"])
        q = mul(part(v, ix["h"]), sub(g(p0, t0), g(p1, t1)))
        r.check(inst + " is conductance times the state difference", x.where,
                compare(x.out(0), setpart(v, ix["state"], setpart(part(v, ix["state"]), qx["q"], q)), x.cond))
        for nm, p in (("p0", p0), ("p1", p1)):
            r.check(inst + " changes neither component (%s)" % nm, x.where, compare(x.end.mem[nm], p, x.cond))
    r.floor("component operations", n, 20)


# ------------------------------------------------------------------ numeric helpers
def p28(r, tier):
    r.rule("linspace and diff, analysed for a symbolic number of points, equal the stated closed forms element by element; the sizes 0, 1, 2 and 5 are analysed separately.")
    prog = core.prog("std")
    key = prog.method("alloc::vec::Vec<f64>", "dess::traits_and_macros::Linspace", "linspace") or prog.method("Self", "dess::traits_and_macros::Linspace", "linspace")
    a, b = sym("start"), sym("stop")
    N = pa(atom("sym", ("points",), nonneg=True))
    for n in (None, 0, 1, 2, 5):
        nv = N if n is None else num(n)
        inst = "linspace of %s points" % ("any number of" if n is None else n)
        x = run(r, prog, key, inst, [a, b, nv])
        if x is None:
            continue
        got = x.ret()
        r.check(inst + " has that many entries", x.where, compare(lift(lambda v: poison(v) or v.length(), got), nv, x.cond))
        if n is None:
            many = lt(ONE, N)
            want = tmpl(N, add(a, mul(pa(IOTA) if not isinstance(IOTA, Poly) else IOTA, div(sub(b, a), padd(N, ONE, -1)))))
            r.check(inst + " are evenly spaced from start to stop", x.where, compare(got, want, vand(x.cond, many)))
        else:
            want = items(*[add(a, mul(num(Q(k, max(n - 1, 1))), sub(b, a))) for k in range(n)])
            r.check(inst + " are evenly spaced from start to stop", x.where, compare(got, want, x.cond))
        r.check(inst + " returns normally", x.where, compare(x.cond, True, True))
    dk = prog.method("alloc::vec::Vec<f64>", "dess::traits_and_macros::Diff", "diff")
    el = lambda k: pa(atom("idx", ("v", k)))
    for n in (None, 0, 1, 2, 4):
        inst = "diff of %s entries" % ("any number of" if n is None else n)
        v = tmpl(N, el(IOTA)) if n is None else items(*[el(num(k)) for k in range(n)])
        x = run(r, prog, dk, inst, [v])
        if x is None:
            continue
        got = x.ret()
        if n is None:
            want = tmpl(padd(N, ONE, -1), sub(el(padd(IOTA, ONE)), el(IOTA)))
            r.check(inst + " is each next value minus the present one", x.where, compare(got, want, vand(x.cond, lt(ONE, N))))
        else:
            want = items(*[sub(el(num(k + 1)), el(num(k))) for k in range(max(n - 1, 0))])
            r.check(inst + " is each next value minus the present one", x.where, compare(got, want, x.cond))
        r.check(inst + " changes nothing", x.where, compare(x.out(0), v, x.cond))
        r.check(inst + " returns normally", x.where, compare(x.cond, True, True))
    r.floor("numeric helpers", 2 if key and dk else 0, 2)


def p29(r, tier):
    r.rule("almost_eq's decision diagram equals |b-a| < tol or |(b-a)/(a+b)| < tol with tol the given one or 1e-8, and is equal to that with the arguments exchanged.")
    r.assume("where the sum of the two numbers is zero the relative difference is infinite or NaN (IEEE) and never below the tolerance")
    prog = core.prog("std")
    key = "dess::utilities::almost_eq"
    key = key if key in prog.fns else None
    a, b, e = sym("a"), sym("b"), sym("tol")
    for nm, opt, tol in (("a given tolerance", some(e), e), ("the default tolerance", none(), num(Q(1, 10**8)))):
        x = run(r, prog, key, "almost_eq with " + nm, [a, b, opt])
        y = run(r, prog, key, "almost_eq with " + nm, [b, a, opt])
        if x is None or y is None:
            continue
        z = vnot(eq(add(a, b), ZERO))
        d = vabs(sub(b, a))
        want = vor(lt(d, tol), lt(vabs(div(sub(b, a), add(a, b))), tol))
        r.check("almost_eq with %s decides by difference or relative difference" % nm, x.where, compare(x.ret(), want, vand(x.cond, z)))
        r.check("almost_eq with %s is symmetric" % nm, x.where, compare(x.ret(), y.ret(), vand(x.cond, z)))
        r.check("almost_eq with %s returns normally" % nm, x.where, compare(x.cond, True, True))
    r.floor("approximate equality", 1 if key else 0, 1)


def p30(r, tier):
    r.rule("dt_mean on a symbolic configuration whose recorder holds n aligned records is Some(sum of the dt column / n) when n > 0 and None when n = 0, and changes nothing.")
    prog = core.prog("std")
    ty = "dess::solver::AdaptiveSolverConfig"
    key = prog.method(ty, None, "dt_mean")
    I = Interp(prog)
    ix = fidx(prog, ty)
    hty = fields(prog, ty)[ix["history"]]["ty"]
    N = pa(atom("sym", ("records",), nonneg=True))
    for n in (None, 0, 1, 3):
        s0 = I.symval(("c",), ty)
        cols = []
        for g in fields(prog, hty):
            ety = g["ty"][len("alloc::vec::Vec<"):-1]
            cols.append(tmpl(N, I.symelem(("col_" + g["name"],), ety, IOTA)) if n is None else items(*[I.symelem(("col_" + g["name"],), ety, num(k)) for k in range(n)]))
        s0 = setpart(s0, ix["history"], agg(hty, 0, cols))
        inst = "dt_mean of %s records" % ("any number of" if n is None else n)
        x = run(r, prog, key, inst, [s0])
        if x is None:
            continue
        col = cols[fidx(prog, hty)["dt"]]
        if n is None:
            tot = psum(N, col.segs[0][2])
            want = ite(lt(ZERO, N), some(div(tot, N)), none())
        else:
            tot = ZERO
            for k in range(n):
                tot = add(tot, vindex(col, num(k)))
            want = some(div(tot, num(n))) if n else none()
        r.check(inst + " is the mean of the recorded steps", x.where, compare(x.ret(), want, x.cond))
        r.check(inst + " changes nothing", x.where, compare(x.out(0), s0, x.cond))
        r.check(inst + " returns normally", x.where, compare(x.cond, True, True))
    r.floor("mean step", 1 if key else 0, 1)

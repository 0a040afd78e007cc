"""P09-P12 and the clock part of P03: generated record, history, copy and state-vector operations."""
from interp import *
from checks.base import *
from checks.steps import Acc, merge_n

HS = "dess::traits_and_macros::HasState"
HSS = "dess::traits_and_macros::HasStates"
SB = "dess::solver::SolverBase"
BC = "dess::traits_and_macros::BareClone"


def progs():
    return [core.prog("std"), core.prog("probe")]


def systems(r):
    out = []
    for p, need in zip(progs(), (2, 3)):
        ts = sorted({i["self"] for i in p.impls if i["trait"] == SB and p.adts.get(i["self"])})
        r.floor("systems in " + ("examples" if need == 2 else "probe"), len(ts), need)
        out += [(p, t) for t in ts]
    return out


class Comp:
    """operations of one component type, from its own implementation"""

    def __init__(self, prog, ty):
        self.prog, self.ty = prog, ty

    def get(self, name, v):
        return self.run(name, [v]).ret()

    def op(self, name, v, *a):
        return self.run(name, [v] + list(a)).out(0)

    def run(self, name, args):
        x = Run(self.prog, self.prog.method(self.ty, HS, name), args)
        if x.cond is False:
            raise NeverReturns("%s::%s" % (short_ty(self.ty), name), x.where)
        return x


def own(prog, ty, name):
    """is trait method `name` written by ty's own implementation (rather than provided)"""
    return any(i["self"] == ty and i["trait"] == HS and name in [x[0] for x in i.get("items") or []] for i in prog.impls)


def p12_spec(prog, ty, name, s0, extra):
    """expected final system for operation `name`"""
    f = fields(prog, ty)
    ks = [k for k, x in enumerate(f) if attr(x, "use_state")]
    s = s0
    for j, k in enumerate(ks):
        c = Comp(prog, f[k]["ty"])
        v = part(s0, k)
        if name == "set_states":
            nv = c.op("set_state", v, extra(j))
        elif name == "step_states":
            nv = c.op("set_state", v, add(c.get("state", v), extra(j)))
        elif name == "set_derivs":
            nv = c.op("set_deriv", v, extra(j))
        elif name == "step_derivs":
            nv = c.op("step_deriv", v, extra(j)) if own(prog, c.ty, "step_deriv") else c.op("set_deriv", v, add(c.get("deriv", v), extra(j)))
        elif name == "reset_derivs":
            nv = c.op("set_deriv", v, ZERO)
        elif name == "step_states_by_dt":
            nv = c.op("set_state", v, add(c.get("state", v), mul(extra(j), c.get("deriv", v))))
        else:
            nv = v
        s = setpart(s, k, nv)
    return s, ks


def vecarg(n):
    return items(*[pa(atom("idx", ("val", num(j)))) for j in range(n)])


def p12(r, tier):
    r.rule("For each example and probe system, each generated vector operation, analysed on a symbolic system and a vector with one entry per marked component, has exactly the effect of the per-component "
           "operation on marked component k with entry k, in declaration order, and nothing else; getters return the components' values in that order; provided per-component operations add to the current value.")
    n = 0
    for prog, ty in systems(r):
        nm = short_ty(ty)
        f = fields(prog, ty)
        ks = [k for k, x in enumerate(f) if attr(x, "use_state")]
        ti = prog.field_index("dess::SystemState", "time")
        sti = fidx(prog, ty)["state"]
        for op, tr in (("set_states", HSS), ("step_states", HSS), ("set_derivs", HSS), ("step_derivs", HSS), ("reset_derivs", SB), ("step_states_by_dt", HSS)):
            inst = "%s::%s" % (nm, op)
            v = vecarg(len(ks))
            dt = sym("dt")
            a = [None] if op == "reset_derivs" else [None, dt if op == "step_states_by_dt" else v]
            x = run(r, prog, prog.method(ty, tr, op), inst, a)
            if x is None:
                continue
            n += 1
            want, _ = p12_spec(prog, ty, op, x.init[0], (lambda j: dt) if op == "step_states_by_dt" else (lambda j: pa(atom("idx", ("val", num(j))))))
            if op == "step_states_by_dt":
                st = part(want, sti)
                want = setpart(want, sti, setpart(st, ti, add(part(st, ti), dt)))
            r.check(inst + " acts on exactly the marked components in declaration order", x.where, compare(x.out(0), want, x.cond))
            returns(r, x, inst)
        for op, g in (("states", "state"), ("derivs", "deriv"), ("storages", "storage")):
            inst = "%s::%s" % (nm, op)
            x = run(r, prog, prog.method(ty, HSS, op), inst)
            if x is None:
                continue
            n += 1
            want = items(*[Comp(prog, f[k]["ty"]).get(g, part(x.init[0], k)) for k in ks])
            r.check(inst + " lists the marked components in declaration order", x.where, compare(x.ret(), want, x.cond))
            r.check(inst + " changes nothing", x.where, compare(x.out(0), x.init[0], x.cond))
            returns(r, x, inst)
    r.floor("vector operations", n, 45)
    # provided per-component operations, on every component type
    m = 0
    for prog in progs():
        for ty in sorted({i["self"] for i in prog.impls if i["trait"] == HS and prog.adts.get(i["self"])}):
            c = Comp(prog, ty)
            for op in ("step_state", "step_state_by_dt", "step_deriv"):
                key = prog.method(ty, HS, op)
                if key is None or own(prog, ty, op):
                    continue
                inst = "%s::%s (provided)" % (short_ty(ty), op)
                a = sym("amount")
                x = run(r, prog, key, inst, [None, a])
                if x is None:
                    continue
                m += 1
                v = x.init[0]
                if op == "step_state":
                    w = c.op("set_state", v, add(c.get("state", v), a))
                elif op == "step_state_by_dt":
                    w = c.op("set_state", v, add(c.get("state", v), mul(a, c.get("deriv", v))))
                else:
                    w = c.op("set_deriv", v, add(c.get("deriv", v), a))
                r.check(inst + " adds to the current value", x.where, compare(x.out(0), w, x.cond))
    r.floor("provided component operations", m, 7)


def clock(r):
    """P03: the generated clock operations of every system"""
    for prog, ty in systems(r):
        nm = short_ty(ty)
        ti = prog.field_index("dess::SystemState", "time")
        sti = fidx(prog, ty)["state"]
        for op, tr in (("step_time", SB), ("step_states_by_dt", HSS)):
            inst = "%s::%s" % (nm, op)
            dt = sym("dt")
            x = run(r, prog, prog.method(ty, tr, op), inst, [None, dt])
            if x is None:
                continue
            s0 = x.init[0]
            st = part(s0, sti)
            r.check(inst + " advances the clock once by its argument", x.where, compare(part(part(x.out(0), sti), ti), add(part(st, ti), dt), x.cond))
            if op == "step_time":
                r.check(inst + " changes nothing but the clock", x.where, compare(x.out(0), setpart(s0, sti, setpart(st, ti, add(part(st, ti), dt))), x.cond))
        for op in ("set_states", "set_derivs", "step_states", "step_derivs", "states", "derivs", "storages", "reset_derivs"):
            tr = SB if op == "reset_derivs" else HSS
            n = len([1 for x in fields(prog, ty) if attr(x, "use_state")])
            inst = "%s::%s" % (nm, op)
            x = run(r, prog, prog.method(ty, tr, op), inst, [None, vecarg(n)])
            if x is None:
                continue
            r.check(inst + " leaves the clock alone", x.where, compare(part(x.out(0), sti), part(x.init[0], sti), x.cond))
        x = run(r, prog, prog.method(ty, SB, "state"), nm + "::state")
        if x is not None:
            r.check(nm + "::state gives the clock and report index", x.where, compare(x.ret(), part(x.init[0], sti), x.cond))


# ------------------------------------------------------------------ P09
def recorded(prog, ty, v):
    """value v of type ty after its current values were appended to its histories, at every depth"""
    f = fields(prog, ty)
    ix = fidx(prog, ty)
    out = v
    if "state" in ix:
        sty = f[ix["state"]]["ty"]
        hty = f[ix["history"]]["ty"]
        h = part(v, ix["history"])
        hf = fidx(prog, hty)
        nh = h
        for j, g in enumerate(fields(prog, sty)):
            nh = setpart(nh, hf[g["name"]], lift(lambda c, x: poison(c) or vcat(c, items(x)), part(h, hf[g["name"]]), part(part(v, ix["state"]), j)))
        out = setpart(out, ix["history"], nh)
    for k, g in enumerate(f):
        if marked(g):
            out = setpart(out, k, recorded(prog, g["ty"], part(v, k)))
    return out


def p09(r, tier):
    r.rule("For every type with a derived `save_state`, its effect on a symbolic value equals: the values of `state` appended to the columns of `history`, "
           "and the same, recursively, for every field marked use_state or save_state; all else unchanged.")
    n = 0
    for prog in progs():
        for (ty, tr, name), ks in sorted(prog.methods.items(), key=str):
            if name != "save_state" or tr is not None or not prog.adts.get(ty, {}).get("user"):
                continue
            inst = "%s::save_state" % short_ty(ty)
            x = run(r, prog, ks[0], inst)
            if x is None:
                continue
            n += 1
            want = recorded(prog, ty, x.init[0])
            for k, g in enumerate(fields(prog, ty)):
                what = "records %s exactly once" % g["name"] if (marked(g) or g["name"] == "history") else "leaves %s alone" % g["name"]
                r.check("%s %s" % (inst, what), x.where, compare(part(x.out(0), k), part(want, k), x.cond))
            returns(r, x, inst)
    r.floor("record-saving types", n, 13)


# ------------------------------------------------------------------ P10
def histories(prog):
    out = []
    for ty, a in sorted(prog.adts.items()):
        if ty.endswith("HistoryVec") and a.get("user") and ty[:-len("HistoryVec")] in prog.adts:
            out.append((ty[:-len("HistoryVec")], ty))
    return out


def p10(r, tier):
    r.rule("For every record type, the columns of its container are one Vec per field of the same name and element type; on a symbolic container, new/default/push/pop/clear/len/is_empty have exactly the documented effect on every column.")
    n = 0
    for prog in progs():
        for sty, hty in histories(prog):
            n += 1
            nm = short_ty(hty)
            sf, hf = fields(prog, sty), fields(prog, hty)
            where = prog.adts[hty].get("span") or hty
            cols = [(g["name"], "alloc::vec::Vec<%s>" % g["ty"]) for g in sf]
            have = [(g["name"], g["ty"]) for g in hf]
            if sorted(cols) == sorted(have):
                r.ok("%s has one column per field of %s" % (nm, short_ty(sty)))
            else:
                r.violation("%s has one column per field of %s" % (nm, short_ty(sty)), where, "columns %s, fields %s" % (have, cols))
                continue
            hi = fidx(prog, hty)
            order = [hi[g["name"]] for g in sf]
            empty = agg(hty, 0, [items() for _ in hf])
            for op, tr in (("new", None), ("default", "core::default::Default")):
                x = run(r, prog, prog.method(hty, tr, op), "%s::%s" % (nm, op))
                if x is not None:
                    r.check("%s::%s is empty" % (nm, op), x.where, compare(x.ret(), empty, x.cond))
            x = run(r, prog, prog.method(hty, None, "push"), nm + "::push")
            if x is not None:
                v = x.init[1]
                for j, k in enumerate(order):
                    want = lift(lambda c, e: poison(c) or vcat(c, items(e)), part(x.init[0], k), part(v, j))
                    r.check("%s::push appends %s to its own column" % (nm, sf[j]["name"]), x.where, compare(part(x.out(0), k), want, x.cond))
                returns(r, x, nm + "::push")
            x = run(r, prog, prog.method(hty, None, "clear"), nm + "::clear")
            if x is not None:
                r.check("%s::clear empties every column" % nm, x.where, compare(x.out(0), empty, x.cond))
                returns(r, x, nm + "::clear")
            # aligned container: all columns have the same length (established by the operations above)
            N = pa(atom("sym", ("records",), nonneg=True))
            I = Interp(prog)
            s0 = agg(hty, 0, [tmpl(N, I.symelem(("c" + g["name"],), g["ty"][len("alloc::vec::Vec<"):-1], IOTA)) for g in hf])
            for op, want in (("len", N), ("is_empty", eq(N, ZERO))):
                x = run(r, prog, prog.method(hty, None, op), "%s::%s" % (nm, op), [s0])
                if x is not None:
                    r.check("%s::%s reports the number of records" % (nm, op), x.where, compare(x.ret(), want, x.cond))
                    r.check("%s::%s changes nothing" % (nm, op), x.where, compare(x.out(0), s0, x.cond))
            x = run(r, prog, prog.method(hty, None, "pop"), nm + "::pop", [s0])
            if x is not None:
                some_ = lt(ZERO, N)
                last = padd(N, ONE, -1)
                r.check("%s::pop gives nothing exactly when empty" % nm, x.where, compare(lift(lambda o: o.var == 1 if isinstance(o, Agg) else poison(o) or unk("option"), x.ret()), some_, x.cond))
                got = lift(lambda o: o.fs[0] if isinstance(o, Agg) and o.var == 1 else poison(o) or none(), x.ret())
                for j, k in enumerate(order):
                    w = vindex(s0.fs[k], last)
                    r.check("%s::pop returns the last %s" % (nm, sf[j]["name"]), x.where, compare(part(got, j), w, vand(x.cond, some_)))
                    r.check("%s::pop removes the last %s" % (nm, sf[j]["name"]), x.where,
                            compare(part(x.out(0), k), vslice(s0.fs[k], ZERO, last), vand(x.cond, some_)))
                    r.check("%s::pop leaves an empty column %s empty" % (nm, sf[j]["name"]), x.where,
                            compare(lift(lambda v: poison(v) or v.length(), part(x.out(0), k)), ZERO, vand(x.cond, vnot(some_))))
                returns(r, x, nm + "::pop")
    r.floor("history containers", n, 8)


# ------------------------------------------------------------------ P11
def bare(prog, ty, v):
    """v without its histories, at every depth of marked parts"""
    f = fields(prog, ty)
    out = v
    for k, g in enumerate(f):
        if marked(g):
            out = setpart(out, k, bare(prog, g["ty"], part(v, k)))
        elif g["name"] == "history":
            hf = fields(prog, g["ty"])
            out = setpart(out, k, agg(g["ty"], 0, [items() for _ in hf]))
    return out


def p11(r, tier):
    r.rule("For every type with a derived `bare_clone`, the result on a symbolic value equals that value with `history` emptied, recursively in fields marked use_state or save_state, and every other field equal; the original is unchanged.")
    n = 0
    for prog in progs():
        for ty in sorted({i["self"] for i in prog.impls if i["trait"] == BC and prog.adts.get(i["self"], {}).get("user")}):
            inst = "%s::bare_clone" % short_ty(ty)
            x = run(r, prog, prog.method(ty, BC, "bare_clone"), inst)
            if x is None:
                continue
            n += 1
            want = bare(prog, ty, x.init[0])
            for k, g in enumerate(fields(prog, ty)):
                what = "empties the histories of" if marked(g) or g["name"] == "history" else "copies"
                r.check("%s %s %s" % (inst, what, g["name"]), x.where, compare(part(x.ret(), k), part(want, k), x.cond))
            r.check("%s leaves the original alone" % inst, x.where, compare(x.out(0), x.init[0], x.cond))
            returns(r, x, inst)
    r.floor("copyable types", n, 13)

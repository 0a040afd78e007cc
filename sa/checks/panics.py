"""P33: no reachable panic in stepping, recording, copying and state operations of a well-formed system."""
import re
from interp import *
from checks.base import *
import values
import absys as A
import spec as S
import models as M
import checks.steps as ST
import checks.adaptive as AD
import checks.walk as W
import checks.states as SS
import checks.effects as E
from graph import Graph

BITS = {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1, "u64": 2 ** 64 - 1, "usize": 2 ** 64 - 1, "i8": 127, "i16": 32767, "i32": 2 ** 31 - 1, "i64": 2 ** 63 - 1, "isize": 2 ** 63 - 1}
WALK_FACTS = ("starts from the given state", "runs exactly while before the last report time", "steps once to the report time", "moves on to the next report time once", "keeps t_report during a run",
              "starts stepping from the given state", "steps exactly while the report time", "stops stepping exactly when", "leaves the stepping loop without a change", "returns as the stepping loop leaves it",
              "keeps the report index while stepping", "keeps field t_report between steps")


def never(r, inst, where, panics, pre=True):
    """no panic of the list is reachable where pre holds"""
    mm, sp = [], where
    for p in panics:
        m = compare(p.guard, False, pre)
        if m and (not mm or any(x.kind == "definite" for x in m) and not any(x.kind == "definite" for x in mm)):
            mm, sp = m, "%s: %s in %s" % (p.where, p.what, p.fn)
    return r.check(inst, sp, mm, "%d guarded sites" % len(panics))


def generic(k):
    """is this instance the one for an unknown Self / type parameter"""
    return bool(re.search(r"\b(Self|[A-Z])\b", re.sub(r"\{[^}]*\}", "", k)))


def p33(r, tier):
    r.rule("Every analysed body records, for each assert, index, slice range, unwrap, expect, unreachable and explicit panic, the condition under which it fires. For step methods (symbolic number of states), the generated run and stepping loops, and every "
           "record, copy, history and state operation of the library, examples and probe systems, that condition is false under the well-formedness of the statement. "
           "Counter overflow is excluded by the loop invariant n_iter < max_iter (or 0) and the widths of the two fields; the report index by the run-loop facts of P08.")
    r.assume("a system is well-formed when its report schedule is non-empty, its report index lies inside, and all vectors passed to state operations have one entry per marked component",
             "panics inside std operations are those of their documented contracts; allocation failure is excluded")
    seen = set()
    steps(r, seen)
    loops(r, seen)
    others(r, seen)
    # everything reachable was looked at
    for prog in SS.progs():
        g = Graph(prog)
        for k in sorted(g.reach(roots(prog))):
            b = prog.fns.get(k)
            if not b or not str(k).replace("<", "").startswith(("dess", "Self", "&")) or k in seen or "::_::" in k or "{closure" in k:
                continue
            if not any(t in ("assert", "call") for t in (x["t"]["k"] for x in b["blocks"] if not x.get("c"))):
                seen.add(k)
                continue
            if "<Self as %s>::%s" % (W.SVM, b["path"].split("::")[-1]) in seen and b["path"].startswith(W.SVM + "::"):
                continue  # instance of a provided method, analysed for every system
            if any(b2 is not None and b2["path"] == b["path"] and generic(k) != generic(k2) for k2, b2 in ((k2, prog.fns.get(k2)) for k2 in seen)):
                continue  # analysed for every type, or for the types that use it
            r.undecided("%s never panics" % k, "reachable, but not visited by the analysis")


def roots(prog):
    return [k for (ty, tr, name), k in ops(prog)]


def ops(prog):
    out = []
    for (ty, tr, name), ks in sorted(prog.methods.items(), key=str):
        if not prog.adts.get(ty, {}).get("user") or "::_::" in ty or prog.adts[ty].get("kind") == "enum" and tr != "core::clone::Clone":
            continue
        if tr in E.TRAITS and tr != W.SVM or tr is None and name in E.INHERENT:
            out += [((ty, tr, name), k) for k in ks]
    return out


def steps(r, seen):
    prog = core.prog("std")
    ss = {f["name"]: f["ty"] for f in prog.adts["dess::solver::SolverState"]["variants"][0]["fields"]}
    cc = {f["name"]: f["ty"] for f in prog.adts["dess::solver::AdaptiveSolverConfig"]["variants"][0]["fields"]}
    cap = BITS.get(cc.get("max_iter"))
    acc = ST.Acc()
    for m, n, st in ST.systems(prog, list(S.FIXED) + list(S.ADAPTIVE), r, (None, 2)):
        seen.update(st.I.visited)
        mm, sp = [], st.where
        for p in st.I.panics:
            x = compare(p.guard, False, True)
            if x and not any(y.kind == "definite" for y in mm):
                mm, sp = x, "%s: %s in %s" % (p.where, p.what, p.fn)
        acc.add("%s never panics" % m, sp, n, mm)
        if m in S.ADAPTIVE and st.rec is not None:
            L = AD.Loop(st)
            lim = L.conf(st.s0, "max_iter")
            acc.add("%s keeps its trial counter below the trial limit while retrying" % m, st.where, n,
                    compare(le(add(L.state(L.back, "n_iter"), ONE), lim), True, L.cb) if cap is not None else [Mism("unknown", None, None, None)])
            acc.add("%s starts its trial counter at zero" % m, st.where, n, compare(L.state(L.init, "n_iter"), ZERO, L.base))
            small = le(L.n, num(cap - 1)) if cap is not None else True
            mm, sp = [], st.where
            for p in st.I.overflows:
                x = compare(p.guard, False, small)
                if x and not any(y.kind == "definite" for y in mm):
                    mm, sp = x, "%s: %s in %s (counter %s, limit %s)" % (p.where, p.what, p.fn, ss.get("n_iter"), cc.get("max_iter"))
            acc.add("%s cannot overflow a counter" % m, sp, n, mm)
        else:
            mm = [x for p in st.I.overflows for x in compare(p.guard, False, True)]
            acc.add("%s cannot overflow a counter" % m, st.where, n, mm)
    ST.merge_n(r, acc.d)
    r.floor("step methods without a panic", len([k for k in acc.d if "never panics" in k[0]]), 7)


def guarded(sy):
    """contract of the stepping loop: an adaptive method requires an adaptive setting"""
    base = W.step_contract(sy)
    adt = sy.prog.adts[W.ST]

    def c(I, fi, args, st, cond, t):
        out = base(I, fi, args, st, cond, t)
        name = fi["name"] if fi.get("name") else fi["path"].split("::")[-1]
        if out is not None and name in W.ADAPT.values():
            v = I.load(st, M.final_ref(I, st, args[0]))
            ok = lift(lambda a: isinstance(a, Agg) and adt["variants"][a.var]["name"] in W.ADAPT, sy.solver(v))
            I.may_panic(ok, cond, t.get("sp"), "adaptive method %s with a fixed-step setting" % name)
        return out
    return c


def loops(r, seen):
    n = 0
    for sy, k, where, s, c, rec, ref0 in W.each(r, "solve_step", guarded):
        seen.update(sy.I.visited)
        head, cb, b = W.body(sy, rec, ref0)
        # the index does not change in the loop (P08), so the bound holds for the state at entry and at the head
        pre = vand(W.inbounds(sy, head), W.inbounds(sy, sy.s0))
        never(r, "%s::solve_step never panics while its report index is inside the schedule" % short_ty(sy.ty), where, sy.I.panics + sy.I.overflows, pre)
        n += 1
    for sy, k, where, s, c, rec, ref0 in W.each(r, "walk", W.solve_contract):
        seen.update(sy.I.visited)
        nonempty = lift(lambda v: lt(ZERO, v.length()) if isinstance(v, VecV) else unk("schedule"), sy.report(rec.header.mem[ref0.root]))
        non0 = lift(lambda v: lt(ZERO, v.length()) if isinstance(v, VecV) else unk("schedule"), sy.report(sy.s0))
        never(r, "%s::walk never panics on a non-empty schedule" % short_ty(sy.ty), where, sy.I.panics + sy.I.overflows, vand(nonempty, non0))
        n += 1
    r.floor("run and stepping loops", n, 10)
    # the index stays inside: facts of the loops established by P08's rule
    sub = core.Report("P33", r.tier)
    W.p08(sub, r.tier)
    for inst, status, detail in sub.obl:
        if not any(f in inst for f in WALK_FACTS):
            continue
        name = "report index stays inside the schedule: " + inst
        if status == "holds":
            r.ok(name, detail)
        elif status == "undecided":
            r.undecided(name, detail)
        else:
            w = [t for k, t in sub.viol if t.startswith(inst)]
            r.violation(name, w[0] if w else inst, detail)


def aligned(prog, hty):
    """history container whose columns have one entry per record"""
    N = pa(atom("sym", ("records",), nonneg=True))
    I = Interp(prog)
    hf = fields(prog, hty)
    if not all(g["ty"].startswith("alloc::vec::Vec<") for g in hf):
        return None
    return agg(hty, 0, [tmpl(N, I.symelem(("c" + g["name"],), g["ty"][len("alloc::vec::Vec<"):-1], IOTA)) for g in hf])


def others(r, seen):
    n = 0
    for prog in SS.progs():
        hist = {h for _, h in SS.histories(prog)}
        for (ty, tr, name), key in ops(prog):
            if name in ("walk", "solve_step"):
                continue
            inst = "%s::%s never panics" % (short_ty(ty), name) + (" (probe)" if prog.adts[ty].get("crate") == "dess_probe" else "")
            args = []
            if name in ("set_states", "step_states", "set_derivs", "step_derivs") and tr == SS.HSS:
                args = [None, SS.vecarg(len([1 for f in fields(prog, ty) if attr(f, "use_state")]))]
            elif ty in hist and name in ("pop", "push", "len", "is_empty", "clear"):
                args = [aligned(prog, ty)]
            x = run(r, prog, key, inst, args)
            if x is None:
                continue
            seen.update(x.I.visited)
            seen.add(key)
            n += 1
            never(r, inst, x.where, x.I.panics + x.I.overflows)
    r.floor("record, copy, history and state operations", n, 120)

"""P07, P08 and the run-level parts of P04, P06, P33: the generated run loops of every system."""
from interp import *
import values
import models as M
import core
from checks.steps import Acc, merge_n, part, compare

BASE = "dess::solver::SolverBase"
SVM = "dess::solver::SolverVariantMethods"
FIXED = {"EulerFixed": "euler", "HeunsMethod": "heun", "MidpointMethod": "midpoint", "RalstonsMethod": "ralston", "RK4Fixed": "rk4fixed"}
ADAPT = {"RK23BogackiShampine": "rk23_bogacki_shampine", "RK45CashKarp": "rk45_cash_karp"}
ST = "dess::solver::SolverTypes"


def all_systems(r):
    """(program, system type) of the examples and of the probe crate"""
    out = []
    for cfg, need in (("std", 2), ("probe", 3)):
        p = core.prog(cfg)
        ts = sorted({i["self"] for i in p.impls if i["trait"] == BASE and p.adts.get(i["self"])})
        r.floor("systems in " + cfg, len(ts), need)
        out += [(p, t) for t in ts]
    return out


def find(prog, ty, name):
    for (t, tr, n), ks in sorted(prog.methods.items(), key=lambda kv: str(kv[0])):
        if t == ty and n == name:
            return ks[0]
    return None


def short_ty(t):
    return t.split("::")[-1]


class Sys:
    def __init__(self, prog, ty):
        self.prog, self.ty = prog, ty
        self.I = I = Interp(prog)
        self.s0 = I.symval(("s",), ty)
        self.f = {x["name"]: k for k, x in enumerate(prog.adts[ty]["variants"][0]["fields"])}
        self.fields = prog.adts[ty]["variants"][0]["fields"]
        self.ti = prog.field_index("dess::SystemState", "time")
        self.ii = prog.field_index("dess::SystemState", "i")

    def time(self, s):
        return part(part(s, self.f["state"]), self.ti)

    def index(self, s):
        return part(part(s, self.f["state"]), self.ii)

    def report(self, s):
        return part(s, self.f["t_report"])

    def solver(self, s):
        return part(s, self.f["solver_type"])

    def with_time(self, s, t):
        st = part(s, self.f["state"])
        return lift(lambda a, b, tt: a.with_field(self.f["state"], b.with_field(self.ti, tt)), s, st, t)


def advance(name, time, *args):
    """ghost: the clock after a call of `name`"""
    return lift(lambda *a: poison(*[x for x in a if not isinstance(x, Poly)]) or pa(atom("sym2", ("after", name) + a)), time, *args)


def step_contract(sy):
    names = set(FIXED.values()) | set(ADAPT.values())

    def c(I, fi, args, st, cond, t):
        name = fi["name"] if fi.get("name") else fi["path"].split("::")[-1]
        if name in names and args and (fi.get("trait") == SVM or (fi.get("inst") or "").startswith("<%s as" % sy.ty)):
            r = M.final_ref(I, st, args[0])
            v = leaf1(I.load(st, r))
            if not (isinstance(v, Agg) and v.ty == sy.ty):
                return None
            dt = M.deref(I, st, args[1])
            tr = I.extend(st, I.extend(st, r, ("f", sy.f["state"])), ("f", sy.ti))
            t0 = I.load(st, tr)
            st2 = I.store(st, tr, advance(name, t0, dt))
            return (advance("ret:" + name, t0, dt) if name in ADAPT.values() else UNIT), st2, True
        return None
    return c


def solve_contract(sy):
    def c(I, fi, args, st, cond, t):
        name = fi["name"] if fi.get("name") else fi["path"].split("::")[-1]
        if name == "solve_step" and args:
            r = M.final_ref(I, st, args[0])
            v = leaf1(I.load(st, r))
            if not (isinstance(v, Agg) and v.ty == sy.ty):
                return None
            tr = I.extend(st, I.extend(st, r, ("f", sy.f["state"])), ("f", sy.ti))
            t0 = I.load(st, tr)
            i0 = I.load(st, I.extend(st, I.extend(st, r, ("f", sy.f["state"])), ("f", sy.ii)))
            return UNIT, I.store(st, tr, advance("solve_step", t0, i0)), True
        return None
    return c


def analyse(sy, name, contract):
    k = find(sy.prog, sy.ty, name)
    if k is None:
        return None
    I = sy.I
    I.contracts = [contract]
    I.panics, I.loops = [], []
    st = State()
    ref0 = I.alloc(st, sy.s0, "self")
    v, s, c = I.run_top(I.prog.fns[k], [ref0], st, k)
    rec = None
    for L in I.loops:
        if ref0.root in L.header.mem and any(l[0] == ref0.root for l in L.locs):
            rec = L
    return k, s, c, rec, ref0


def expected_step(sy, s):
    """clock after one pass of the stepping loop in system state s"""
    rem = sub(at(sy.report(s), sy.index(s)), sy.time(s))
    adt = sy.prog.adts[ST]

    def h(st):
        if not isinstance(st, Agg):
            return unk("solver setting")
        v = adt["variants"][st.var]["name"]
        if v in FIXED:
            return advance(FIXED[v], sy.time(s), vmin(rem, st.fs[0]))
        if v in ADAPT:
            return advance(ADAPT[v], sy.time(s), rem)
        return unk("setting " + v)
    return lift(h, sy.solver(s)), rem


def at(v, i):
    return lift(lambda a, b: poison(a, b) or (vindex(a, b) if isinstance(a, VecV) else unk("index")), v, i)


def inbounds(sy, s):
    return lift(lambda v, i: lt(i, v.length()) if isinstance(v, VecV) else unk("schedule"), sy.report(s), sy.index(s))


def each(r, name, contract):
    for prog, ty in all_systems(r):
        sy = Sys(prog, ty)
        try:
            a = analyse(sy, name, contract(sy))
        except Unmodelled as e:
            r.undecided("%s::%s" % (short_ty(ty), name), str(e))
            continue
        if a is None:
            r.violation("anchor:%s::%s" % (short_ty(ty), name), ty, "method %s of system %s is gone" % (name, ty))
            continue
        k, s, c, rec, ref0 = a
        r.saw(*sy.I.visited)
        if rec is None:
            r.undecided("%s::%s" % (short_ty(ty), name), "no loop over the system found")
            continue
        values.MU_FREE[0] = (rec.lid,)
        yield sy, k, prog.fns[k]["span"], s, c, rec, ref0


def body(sy, rec, ref0):
    head = rec.header.mem[ref0.root]
    cb, sb = rec.back
    return head, cb, sb.mem[ref0.root] if sb else None


def p07(r, tier):
    r.rule("In every system's generated stepping loop, the clock after one pass equals, for each variant of the solver setting, the clock after exactly one call of that variant's method "
           "with min(time left, that variant's step) (fixed) or the time left (adaptive); `sc`/`sc_mut` give the boxed configuration of exactly the two adaptive variants.")
    acc = Acc()
    for sy, k, where, s, c, rec, ref0 in each(r, "solve_step", step_contract):
        head, cb, b = body(sy, rec, ref0)
        want, rem = expected_step(sy, head)
        nm = short_ty(sy.ty)
        adt = sy.prog.adts[ST]
        stv = sy.solver(head)
        for vi, v in enumerate(adt["variants"]):
            is_v = lift(lambda a, vi=vi: isinstance(a, Agg) and a.var == vi, stv)
            care = vand(vand(cb, is_v), inbounds(sy, head))
            acc.add("%s with %s runs its method once with its own step" % (nm, v["name"]), where, None, compare(sy.time(b), want, care))
        acc.add("%s keeps its solver setting variant while stepping" % nm, where, None, compare(sy.solver(b), sy.solver(head), cb))
    merge_n(r, acc.d)
    for prog, ty in all_systems(r):
        adaptive_access(r, prog, ty)
    r.floor("variant dispatches", len([k for k in acc.d if "runs its method" in k[0]]), 35)


def adaptive_access(r, prog, ty):
    sy = Sys(prog, ty)
    adt = prog.adts[ST]
    for nm in ("sc", "sc_mut"):
        k = find(prog, ty, nm)
        inst = "%s::%s" % (short_ty(ty), nm)
        if k is None:
            r.violation("anchor:" + inst, ty, "no method " + nm)
            continue
        I = Interp(prog)
        st = State()
        s0 = I.symval(("s",), ty)
        ref0 = I.alloc(st, s0, "self")
        try:
            v, s, c = I.run_top(prog.fns[k], [ref0], st, k)
        except Unmodelled as e:
            r.undecided(inst, str(e))
            continue
        r.saw(*I.visited)
        where = prog.fns[k]["span"]
        stv = sy.solver(s0)

        def is_ad(a):
            return isinstance(a, Agg) and adt["variants"][a.var]["name"] in ADAPT
        r.check(inst + " is present exactly for adaptive settings", where,
                compare(lift(lambda o: o.var == 1 if isinstance(o, Agg) else unk("option"), v), lift(is_ad, stv), c))
        # what it refers to: overwriting through it / reading through it
        def boxed(a):
            return a.fs[0].fs[0] if isinstance(a.fs[0], Agg) and a.fs[0].ty == "box" else a.fs[0]
        got = lift(lambda o: I.freeze(s, I.load(s, o.fs[0])) if isinstance(o, Agg) and o.var == 1 else none(), v)
        want = lift(lambda a: boxed(a) if is_ad(a) else none(), stv)
        r.check(inst + " is the setting's own configuration", where, compare(got, want, c))
        r.check(inst + " changes nothing", where, compare(s.mem[ref0.root], s0, c))
        if nm == "sc_mut":
            # writing through it must reach the setting's own configuration
            mark = opq("written", "dess::solver::AdaptiveSolverConfig")
            rr = lift(lambda o: o.fs[0] if isinstance(o, Agg) and o.var == 1 else UNDEF, v)
            s2 = I.store(s.copy(), rr, mark)
            now = lift(lambda a: boxed(a) if is_ad(a) else none(), sy.solver(s2.mem[ref0.root]))
            r.check(inst + " gives write access to the setting's own configuration", where,
                    compare(now, lift(lambda a: mark if is_ad(a) else none(), stv), vand(c, lift(is_ad, stv))))


def p08(r, tier):
    r.rule("Run loop, for every system: it continues exactly while time < last report time; each pass is one solve_step, then index + 1, then one record of the system (its columns grow by exactly the "
           "new index and time); the stepping loop continues exactly while time < report time at the index, and changes neither index nor histories.")
    acc = Acc()
    for sy, k, where, s, c, rec, ref0 in each(r, "solve_step", step_contract):
        nm = short_ty(sy.ty)
        head, cb, b = body(sy, rec, ref0)
        go = lt(sy.time(head), at(sy.report(head), sy.index(head)))
        ok = inbounds(sy, head)
        acc.add("%s steps exactly while the report time is not reached" % nm, where, None, compare(cb, go, ok))
        for t, ce, se in rec.exits:
            acc.add("%s stops stepping exactly when the report time is reached" % nm, where, None, compare(ce, vnot(go), ok))
            acc.add("%s leaves the stepping loop without a change" % nm, where, None, compare(se.mem[ref0.root], head, vand(ce, ok)))
        for j, f in enumerate(sy.fields):
            if f["name"] == "state":
                acc.add("%s keeps the report index while stepping" % nm, where, None, compare(sy.index(b), sy.index(head), cb))
            else:
                acc.add("%s keeps field %s between steps" % (nm, f["name"]), where, None, compare(part(b, j), part(head, j), cb))
        acc.add("%s starts stepping from the given state" % nm, where, None, compare(rec.init.mem[ref0.root], sy.s0, rec.base))
        acc.add("%s returns as the stepping loop leaves it" % nm, where, None, compare(s.mem[ref0.root], head, vand(c, ok)))
    for sy, k, where, s, c, rec, ref0 in each(r, "walk", solve_contract):
        nm = short_ty(sy.ty)
        head, cb, b = body(sy, rec, ref0)
        rep = sy.report(head)
        nonempty = lift(lambda v: lt(ZERO, v.length()), rep)
        last = at(rep, lift(lambda v: padd(v.length(), num(-1)), rep))
        go = lt(sy.time(head), last)
        acc.add("%s runs exactly while before the last report time" % nm, where, None, compare(cb, go, nonempty))
        for t, ce, se in rec.exits:
            acc.add("%s ends exactly at or after the last report time" % nm, where, None, compare(ce, vnot(go), nonempty))
            acc.add("%s ends without a further change" % nm, where, None, compare(se.mem[ref0.root], head, vand(ce, nonempty)))
        acc.add("%s starts from the given state" % nm, where, None, compare(rec.init.mem[ref0.root], sy.s0, rec.base))
        acc.add("%s returns as the run loop leaves it" % nm, where, None, compare(s.mem[ref0.root], head, vand(c, nonempty)))
        t1 = advance("solve_step", sy.time(head), sy.index(head))
        i1 = add(sy.index(head), ONE)
        acc.add("%s steps once to the report time in each pass" % nm, where, None, compare(sy.time(b), t1, cb))
        acc.add("%s moves on to the next report time once" % nm, where, None, compare(sy.index(b), i1, cb))
        hist = {f["name"]: x for x, f in enumerate(sy.prog.adts[sy.fields[sy.f["history"]]["ty"]]["variants"][0]["fields"])}
        hh, hb = part(head, sy.f["history"]), part(b, sy.f["history"])
        for col, val in (("i", i1), ("time", t1)):
            want = lift(lambda v, x: poison(v, x) or vcat(v, items(x)), part(hh, hist[col]), val)
            acc.add("%s records the new %s once per pass, after moving on" % (nm, col), where, None, compare(part(hb, hist[col]), want, cb))
        for j, f in enumerate(sy.fields):
            if f["name"] in ("t_report", "solver_type"):
                acc.add("%s keeps %s during a run" % (nm, f["name"]), where, None, compare(part(b, j), part(head, j), cb))
    merge_n(r, acc.d)
    r.floor("run loops", len([k for k in acc.d if "runs exactly" in k[0]]), 5)


def step_limits(r):
    """run-level clause of P06"""
    acc = Acc()
    for sy, k, where, s, c, rec, ref0 in each(r, "solve_step", step_contract):
        nm = short_ty(sy.ty)
        head, cb, b = body(sy, rec, ref0)
        ok = vand(cb, inbounds(sy, head))
        rem = sub(at(sy.report(head), sy.index(head)), sy.time(head))
        adt = sy.prog.adts[ST]
        stv = sy.solver(head)
        for vi, v in enumerate(adt["variants"]):
            is_v = lift(lambda a, vi=vi: isinstance(a, Agg) and a.var == vi, stv)
            care = vand(ok, is_v)
            over = lift(lambda t, a: exceeds(t, rem, a.fs[0] if v["name"] in FIXED and isinstance(a, Agg) and a.var == vi else None), sy.time(b), stv)
            acc.add("%s with %s never steps past the report time or the configured step" % (nm, v["name"]), where, None, compare(over, False, care))
    merge_n(r, acc.d)


def exceeds(t, rem, dt):
    """does the call that led to clock t use a step above the limits"""
    out = False
    while isinstance(t, Poly):
        if len(t.t) != 1 or len(t.t[0][0]) != 1 or t.t[0][0][0][1] != 1 or t.t[0][1] != 1:
            return out
        a = ATOMS[t.t[0][0][0][0]]
        if a.kind != "sym2" or a.args[0] != "after":
            return out
        arg = a.args[3]
        out = vor(out, gt(arg, rem))
        if dt is not None:
            out = vor(out, gt(arg, dt))
        t = a.args[2]
    return out


STEPS = set(FIXED.values()) | set(ADAPT.values())


class Fresh:
    """must-dataflow over the MIR of the run loops: have the derivatives been evaluated when a record is saved?
    Init: nothing happened since the run began; Skipped: the stepping loop was passed without a step;
    Fresh: a step (or derivative update) was the last thing that happened to the system"""

    def __init__(self, prog, ty):
        self.prog, self.ty = prog, ty
        self.saves = []
        self.fns = set()

    def kind(self, t):
        if t["k"] != "call":
            return None, None
        fi = (t["f"].get("f") or {}) if t["f"]["k"] not in ("copy", "move") else {}
        name = fi.get("name") or (fi.get("path") or "").split("::")[-1]
        inst = fi.get("inst")
        b = self.prog.fns.get(inst) if inst else None
        own = bool(b) and (b.get("impl_self") == self.ty or (b.get("gargs") or [None])[0] == self.ty)
        if own and name in STEPS and (fi.get("trait") == SVM):
            return "fresh", None
        if own and name == "update_derivs":
            return "fresh", None
        if own and name == "save_state":
            return "save", None
        if own and b.get("blocks") and name not in ("reset_derivs",):
            return "own", inst
        return None, None

    def steps_before_save(self, key, seen=()):
        """blocks from which a step can be reached before a record is saved"""
        b = self.prog.fns[key]
        good = set()
        ch = True
        while ch:
            ch = False
            for i, bl in enumerate(b["blocks"]):
                if i in good or bl["c"]:
                    continue
                k, inst = self.kind(bl["t"])
                ok = k == "fresh" or (k == "own" and inst not in seen and inst != key and 0 in self.steps_before_save(inst, seen + (key,)))
                if not ok and k != "save":
                    ok = any(x in good for x in Interp.succs(bl["t"]))
                if ok:
                    good.add(i)
                    ch = True
        return good

    def run(self, key, inp, depth=0):
        b = self.prog.fns[key]
        self.fns.add(key)
        good = self.steps_before_save(key)
        state = {0: set(inp)}
        work = [0]
        out = set()
        while work:
            i = work.pop()
            bl = b["blocks"][i]
            s = set(state[i])
            t = bl["t"]
            k, inst = self.kind(t)
            if k == "fresh":
                s = {"Fresh"}
            elif k == "save":
                self.saves.append((key, t.get("sp"), frozenset(s)))
            elif k == "own" and depth < 6:
                s = self.run(inst, s, depth + 1)
            if t["k"] == "ret":
                out |= s
            succ = [x for x in Interp.succs(t)]
            for x in succ:
                s2 = s
                if len(succ) > 1 and i in good and x not in good:
                    s2 = {"Skipped" if v == "Init" else v for v in s}
                if not s2 <= state.get(x, set()):
                    state[x] = state.get(x, set()) | s2
                    work.append(x)
        return out


def fresh_records(r):
    """run-level clause of P04"""
    r.rule("Run level: on every path of the generated run loops to the saving of a record, a step or derivative update happened (must-dataflow over MIR), "
           "and nothing between them changes the system's components.")
    acc = Acc()
    n = 0
    for prog, ty in all_systems(r):
        k = find(prog, ty, "walk")
        if k is None:
            r.violation("anchor:%s::walk" % short_ty(ty), ty, "no run method")
            continue
        fr = Fresh(prog, ty)
        fr.run(k, {"Init"})
        r.saw(*fr.fns)
        states = {}
        for key, sp, s in fr.saves:
            states.setdefault((key, sp), set()).update(s)
        for (key, sp), s in states.items():
            n += 1
            inst = "%s: a record is saved only after its derivatives were evaluated" % short_ty(ty)
            if "Init" in s:
                r.violation(inst, "%s (%s)" % (key, sp), "a record can be saved before any step of the run was attempted", key="record-before-step:" + short_ty(ty))
            elif "Skipped" in s:
                r.violation(inst, "%s (%s)" % (key, sp), "the first record of a run that starts at or after its first report time is saved without evaluating the derivatives of the state it records",
                            key="first-record-without-step")
            else:
                r.ok(inst)
    if n == 0:
        r.undecided("records", "no call saving a record found in the run loops")
    for sy, k, where, s, c, rec, ref0 in each(r, "walk", solve_contract):
        head, cb, b = body(sy, rec, ref0)
        for j, f in enumerate(sy.fields):
            a = sy.prog.adts.get(f["ty"])
            if f["name"] in ("state", "history", "t_report", "solver_type") or not a or not a.get("user"):
                continue
            for q, g in enumerate(a["variants"][0]["fields"]):
                if g["name"] in ("history",) or marked(g):
                    continue
                acc.add("%s: %s.%s is untouched between the last step and the record" % (short_ty(sy.ty), f["name"], g["name"]), where, None,
                        compare(part(part(b, j), q), part(part(head, j), q), cb))
    merge_n(r, acc.d)


def marked(f):
    return any("use_state" in a or "save_state" in a for a in f.get("attrs") or [])

"""P01-P05: what one step of each method does to an arbitrary system."""
from interp import *
import values
import absys as A
import spec as S
import core

TI = "time"


class Step:
    """one analysed step method: final abstract system, and for adaptive methods the generic retry iteration"""

    def __init__(self, prog, name, n, unroll=0, key=None):
        self.name, self.n = name, n
        self.prog = prog
        self.unroll = unroll
        self.I, self.s0, self.value, self.state, self.cond, self.ref, self.dt = A.step(prog, name, n, unroll=unroll, key=key)
        self.where = prog.fns[key or A.GEN + name]["span"] + (" (in %s)" % key if key else "")
        self.ti = prog.field_index("dess::SystemState", "time")
        self.ii = prog.field_index("dess::SystemState", "i")
        self.sct = "dess::solver::AdaptiveSolverConfig"
        self.ssi = prog.field_index(self.sct, "state")
        self.dti = prog.field_index("dess::solver::SolverState", "dt")
        self.final = self.state.mem[self.ref.root] if self.state else None
        self.rec = None
        for L in self.I.loops:
            if self.ref.root in L.header.mem and any(l[0] == self.ref.root for l in L.locs):
                self.rec = L
        values.MU_FREE[0] = (self.rec.lid,) if self.rec is not None else ()

    # parts of a system value
    def x(self, s):
        return part(s, A.X)

    def d(self, s):
        return part(s, A.D_)

    def t(self, s):
        return part(part(s, A.SYS), self.ti)

    def i(self, s):
        return part(part(s, A.SYS), self.ii)

    def sc(self, s):
        return part(part(s, A.SC), 0)

    def h(self, s):
        """working step of the adaptive solver"""
        return part(part(self.sc(s), self.ssi), self.dti)


def part(v, i):
    return lift(lambda a: poison(a) or (a.fs[i] if isinstance(a, Agg) and i < len(a.fs) else unk("part %d" % i)), v)


def systems(prog, names, r, ns=(None, 2, 3), unroll=0):
    for m in names:
        if A.GEN + m not in prog.fns:
            r.violation("anchor:" + m, "dess/src/solver.rs", "method %s is gone" % m)
            continue
        for n, key in [(n, None) for n in ns] + [(n, k) for k in replaced(prog, m) for n in ns]:
            try:
                st = Step(prog, m, n, unroll if m in S.ADAPTIVE else 0, key)
            except Unmodelled as e:
                r.undecided("%s/%s" % (m, nn(n)), "not analysable: %s" % e)
                continue
            r.saw(*st.I.visited)
            if st.state is None:
                r.undecided("%s/%s" % (m, nn(n)), "no normal exit: %s" % (st.I.unknowns,))
                continue
            if m in S.ADAPTIVE and st.rec is None and not unroll:
                r.undecided("%s/%s retry loop" % (m, nn(n)), "not in a recognised form")
            yield m, n, st


def nn(n):
    return "n=any" if n is None else "n=%d" % n


def merge_n(r, results):
    """symbolic-size verdict first; explicit sizes decide only what the symbolic one left open"""
    for key, lst in results.items():
        bad = [x for x in lst if x[1] and any(m.kind == "definite" for m in x[1])]
        inst, where = key
        if bad:
            n, mm = bad[0]
            d = [m for m in mm if m.kind == "definite"][0]
            r.violation(inst, where, "%s: %r" % (nn(n), d))
        elif any(x[0] is None and not x[1] for x in lst):
            r.ok(inst, "for every number of states")
        elif lst and all(not x[1] for x in lst if x[0] is not None) and any(x[0] is not None for x in lst):
            r.ok(inst, "for the sizes %s" % [nn(x[0]) for x in lst if not x[1]])
        else:
            r.undecided(inst, repr([x for x in lst if x[1]][0][1][0]))


class Acc:
    def __init__(self):
        self.d = {}

    def add(self, inst, where, n, mism):
        self.d.setdefault((inst, where), []).append((n, mism))


def origin(st):
    """state from which the (last) trial of the step starts: (t, x, h)"""
    s = st.s0
    if st.name in S.FIXED:
        return st.t(s), st.x(s), st.dt
    if st.rec is None:
        return st.t(s), st.x(s), None
    return st.t(s), st.x(s), (st.h(st.rec.header.mem[st.ref.root]))


def p01(r, tier):
    r.rule("For an abstract system (any number of states, unknown derivative law F) the final states computed by gated value "
           "numbering of each method's MIR equal x + h*sum(b_i*k_i), k_i = F(x + h*sum(a_ij*k_j)), as polynomials over F-terms.")
    r.assume("floating-point arithmetic is treated as exact real arithmetic (rounding is outside this property)",
             "SolverBase/HasStates/BareClone implementations act as P03, P11, P12 establish for the generated ones")
    prog = core.prog("std")
    acc = Acc()
    A.TIMELESS[0] = True
    try:
        for m, n, st in systems(prog, S.FIXED + S.ADAPTIVE, r):
            t, x, h = origin(st)
            if h is None:
                adaptive_unrolled(r, acc, m, n, prog, "states")
                continue
            hi, lo = S.deltas(m, t, x, h)
            acc.add("%s advances the states by its published scheme" % m, st.where, n,
                    compare((st.x(st.final)), S.vlin(x, [(ONE, hi)]), (st.cond)))
            if m in S.ADAPTIVE:
                err = S.norm(S.vlin(lo, [(num(-1), hi)]))
                ei = prog.field_index("dess::solver::SolverState", "norm_err")
                e = part(part(st.sc(st.final), st.ssi), ei)
                acc.add("%s estimates its error from its two published orders" % m, st.where, n,
                        compare((e), some(err), (st.cond)))
    finally:
        A.TIMELESS[0] = False
    merge_n(r, acc.d)
    overrides(r, prog)
    r.floor("methods", len({k[0].split()[0] for k in acc.d}), 7)


def adaptive_unrolled(r, acc, m, n, prog, what):
    r.undecided("%s/%s" % (m, nn(n)), "retry loop not in a recognised form")


def own_fields(b, ty):
    """does the body reach into the fields of its own system?"""
    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[0] < len(b["locals"]):
                t = b["locals"][x[0]]
                if (t == ty or t in ("&" + ty, "&mut " + ty)) and any(isinstance(p, list) and p and p[0] == "f" for p in x[1]):
                    return True
            return any(walk(y) for y in x)
        return isinstance(x, dict) and any(walk(y) for y in x.values())
    return walk(b["blocks"])


def replacing(prog):
    """(method, body, system) of every provided solver method that a system replaces"""
    for im in prog.impls:
        if im["trait"] == "dess::solver::SolverVariantMethods":
            for name, path in im.get("items") or ():
                yield name, path, im["self"]


def replaced(prog, m):
    """bodies a system gives instead of the provided method, as far as they use the system through its traits only"""
    return [k for name, k, ty in replacing(prog) if name == m and k in prog.fns and not own_fields(prog.fns[k], ty)]


def overrides(r, prog):
    """a replacement that reaches into the system itself is outside the generic analysis"""
    for name, k, ty in replacing(prog):
        if k not in replaced(prog, name):
            r.undecided("override:%s" % ty, "replaces %s" % name)


def app_times(v):
    """(time argument) of every derivative-law term in v"""
    out = {}
    seen = set()

    def go(y):
        if not isinstance(y, (tuple, list)):
            if id(y) in seen:
                return
            seen.add(id(y))
        if isinstance(y, Poly):
            for mono, _c in y.t:
                for aid, _e in mono:
                    a = ATOMS[aid]
                    if a.kind == "app":
                        tt = a.args[1][0]
                        out[tt.fp() if isinstance(tt, Poly) else repr(tt)] = tt
                    for b in a.args:
                        go(b)
        elif isinstance(y, (tuple, list)):
            for b in y:
                go(b)
        elif isinstance(y, Node):
            go(y.dec.key)
            for c in y.ch:
                go(c)
        elif isinstance(y, Agg):
            for c in y.fs:
                go(c)
        elif isinstance(y, VecV):
            for s in y.segs:
                go(s[1:])
    go(v)
    return out


def stage_times(prog, m, n, st, pair, terms=None):
    """mismatches of the timed comparison that are not already there when time is ignored (a wrong weight is not a wrong time)"""
    t, x, h = origin(st)
    got, want, care = pair(st, t, x, h)
    mism = compare(got, want, care)
    if not mism:
        return mism
    A.TIMELESS[0] = True
    try:
        st0 = Step(prog, m, n)
        t0, x0, h0 = origin(st0)
        m0 = True
        if h0 is not None:
            g0, w0, c0 = pair(st0, t0, x0, h0)
            m0 = compare(g0, w0, c0)
    finally:
        A.TIMELESS[0] = False
    if not m0:
        return mism
    # the weights differ as well: judge by the set of times that occur
    hi, lo = S.deltas(m, t, x, h)
    want = app_times(terms(hi, lo) if terms else S.vlin(x, [(ONE, hi)]))
    have = app_times(got)
    extra = [have[k] for k in have if k not in want]
    if not extra:
        return []
    if any(has_unk(e) for e in extra):
        return [Mismatch("undecided", {}, extra[0], "", ("stage time",))]
    return [Mismatch("definite", {}, extra[0], "one of " + ", ".join(short(w, 60) for w in want.values()), ("stage time",))]


def p02(r, tier):
    r.rule("As P01 with a law F(t, x) that depends on time: every F-term of the final states carries the time t + c_i*h published for its stage.")
    prog = core.prog("std")
    acc = Acc()
    for m, n, st in systems(prog, S.FIXED + S.ADAPTIVE, r):
        t, x, h = origin(st)
        if h is None:
            continue
        acc.add("%s evaluates each stage at its own time" % m, st.where, n,
                stage_times(prog, m, n, st, lambda s, t, x, h: (s.x(s.final), S.vlin(x, [(ONE, S.deltas(m, t, x, h)[0])]), s.cond)))
        if m in S.ADAPTIVE:
            ei = prog.field_index("dess::solver::SolverState", "norm_err")

            def err(s, t, x, h):
                hi, lo = S.deltas(m, t, x, h)
                return part(part(s.sc(s.final), s.ssi), ei), some(S.norm(S.vlin(lo, [(num(-1), hi)]))), s.cond
            acc.add("%s estimates its error from stages at their own times" % m, st.where, n,
                    stage_times(prog, m, n, st, err, lambda hi, lo: tup(hi, lo)))
    merge_n(r, acc.d)
    overrides(r, prog)
    r.floor("methods", len({k[0].split()[0] for k in acc.d}), 7)


def p03(r, tier):
    r.rule("The system's time after a method's MIR equals its time before plus the step argument (fixed) or plus the returned step (adaptive), "
           "and that returned step is the one the final states were advanced with.")
    prog = core.prog("std")
    acc = Acc()
    for m, n, st in systems(prog, S.FIXED + S.ADAPTIVE, r):
        t, x, h = origin(st)
        care = (st.cond)
        used = st.dt if m in S.FIXED else (st.value)
        acc.add("%s advances the clock once by the step used" % m, st.where, n,
                compare((st.t(st.final)), add(t, used), care))
        if m in S.ADAPTIVE and h is not None:
            # the step the states were advanced with: same trial as the returned step
            acc.add("%s returns the step of the accepted trial" % m, st.where, n, compare(used, h, care))
    merge_n(r, acc.d)
    clock(r)
    overrides(r, prog)
    r.floor("methods", len({k[0].split()[0] for k in acc.d}), 7)


def clock(r):
    """generated step_time / step_states_by_dt of the concrete systems"""
    import checks.states as C
    C.clock(r)


def p04(r, tier):
    r.rule("The derivatives left by each method equal F(final time, final states).")
    prog = core.prog("std")
    acc = Acc()
    for m, n, st in systems(prog, S.FIXED + S.ADAPTIVE, r):
        care = (st.cond)
        f = (st.final)
        want = A.Fvec(st.t(f), st.x(f))
        acc.add("%s leaves derivatives of the state and time it left" % m, st.where, n, compare(st.d(f), want, care))
    merge_n(r, acc.d)
    overrides(r, prog)
    r.floor("methods", len({k[0].split()[0] for k in acc.d}), 7)
    import checks.walk as W
    W.fresh_records(r)


def p05(r, tier):
    r.rule("After each method every part of the system other than states, derivatives, time and (adaptive) the solver's step record is unchanged; "
           "at every retry the states, the time, the report index, the histories and the settings are those of the step's start.")
    prog = core.prog("std")
    acc = Acc()
    for m, n, st in systems(prog, S.FIXED + S.ADAPTIVE, r):
        care = (st.cond)
        f = (st.final)
        s0 = st.s0
        protected = [("report index", st.i), ("histories", lambda s: part(s, A.HIST)), ("other fields", lambda s: part(s, A.REST))]
        if m in S.FIXED:
            protected.append(("solver settings", lambda s: part(s, A.SC)))
        else:
            a = prog.adts[st.sct]["variants"][0]["fields"]
            for k, fl in enumerate(a):
                if fl["name"] not in ("state", "history"):
                    protected.append(("setting " + fl["name"], lambda s, k=k: part(st.sc(s), k)))
        for nm, g in protected:
            acc.add("%s leaves the %s alone" % (m, nm), st.where, n, compare(g(f), g(s0), care))
        if m in S.ADAPTIVE:
            if st.rec is None:
                continue
            hi = [k for k, fl in enumerate(a) if fl["name"] == "history"][0]
            cb, sb = st.rec.back
            b = (sb.mem[st.ref.root])
            hd = (st.rec.header.mem[st.ref.root])
            for nm, g in protected + [("states", st.x), ("clock", st.t), ("step history", lambda s: part(st.sc(s), hi))]:
                acc.add("a rejected trial of %s leaves the %s alone" % (m, nm), st.where, n, compare(g(b), g(hd), (cb)))
                acc.add("%s reaches its first trial with the %s alone" % (m, nm), st.where, n,
                        compare(g(st.rec.init.mem[st.ref.root]), g(s0), st.rec.base))
    merge_n(r, acc.d)
    overrides(r, prog)
    r.floor("methods", len({k[0].split()[0] for k in acc.d if "leaves" in k[0]} - {"a"}), 7)

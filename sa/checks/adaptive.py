"""P06, P13-P16: the adaptive retry loop, by comparing one arbitrary iteration (and the first one) with the documented rule."""
from interp import *
import values
import absys as A
import spec as S
import core
from checks.steps import systems, merge_n, Acc, part, nn, overrides, Step


class Loop:
    """pre-state, spec and post-states of an arbitrary iteration of the retry loop"""

    def __init__(self, st):
        self.st = st
        p = st.prog
        self.cfg = {f["name"]: k for k, f in enumerate(p.adts[st.sct]["variants"][0]["fields"])}
        self.ss = {f["name"]: k for k, f in enumerate(p.adts["dess::solver::SolverState"]["variants"][0]["fields"])}
        rec = st.rec
        self.head = rec.header.mem[st.ref.root]
        self.init = rec.init.mem[st.ref.root]
        self.base = rec.base
        s0 = st.s0
        self.settings = st.sc(s0)
        h = st.h(self.head)
        n = self.state(self.head, "n_iter")
        self.h, self.n = h, n
        self.spec = S.Adaptive(st.name, st.t(s0), st.x(s0), h, self.settings, n, self.cfg)
        self.cb, sb = rec.back
        self.back = sb.mem[st.ref.root] if sb else None
        self.exit = st.final
        self.cx = st.cond

    def conf(self, s, name):
        return part(self.st.sc(s), self.cfg[name])

    def state(self, s, name):
        return part(part(self.st.sc(s), self.cfg["state"]), self.ss[name])


def loops(r, prog=None, ns=(None, 2)):
    prog = prog or core.prog("std")
    for m, n, st in systems(prog, S.ADAPTIVE, r, ns):
        if st.rec is None:
            r.undecided("%s/%s" % (m, nn(n)), "retry loop not found in %s" % m)
            continue
        try:
            yield m, n, st, Loop(st)
        finally:
            pass


def first(m, n, st, L, acc, what, got, want):
    acc.add("%s: %s" % (m, what), st.where, n, compare(got, want, L.base))


def p13(r, tier):
    r.rule("The condition under which the MIR of each adaptive method leaves its retry loop, as a function of an arbitrary trial's error, norm and count, "
           "equals: err < atol, or err/norm <= rtol, or norm = 0 and err <= atol, or trials >= max_iter; the states it then sets are the old states plus that trial's higher-order update.")
    acc = Acc()
    for m, n, st, L in loops(r):
        sp = L.spec
        acc.add("%s accepts a trial exactly by the documented rule" % m, st.where, n, compare(L.cx, sp.accept, True))
        acc.add("%s retries exactly when the trial is not accepted" % m, st.where, n, compare(L.cb, vnot(sp.accept), True))
        acc.add("%s applies the accepted trial's own result" % m, st.where, n, compare(st.x(L.exit), sp.x1, L.cx))
        e = L.state(L.exit, "norm_err")
        acc.add("%s judges the absolute error of this trial" % m, st.where, n, compare(e, some(sp.err), L.cx))
        acc.add("%s judges the relative error of this trial" % m, st.where, n, compare(L.state(L.exit, "norm_err_rel"), sp.rel, L.cx))
    merge_n(r, acc.d)
    overrides(r, core.prog("std"))
    r.floor("retry loops", len({k[0].split()[0] for k in acc.d}), 2)


def p14(r, tier):
    r.rule("The trial counter is 0 on entry to the retry loop, is one larger at the end of an arbitrary iteration, and reaching max_iter makes the loop exit condition true.")
    acc = Acc()
    for m, n, st, L in loops(r):
        acc.add("%s starts counting at zero" % m, st.where, n, compare(L.state(L.init, "n_iter"), ZERO, L.base))
        acc.add("%s counts a rejected trial once" % m, st.where, n, compare(L.state(L.back, "n_iter"), add(L.n, ONE), L.cb))
        acc.add("%s counts the accepted trial once" % m, st.where, n, compare(L.state(L.exit, "n_iter"), add(L.n, ONE), L.cx))
        acc.add("%s leaves the settings' trial limit alone" % m, st.where, n, compare(L.conf(L.back, "max_iter"), L.conf(st.s0, "max_iter"), L.cb))
        lim = le(L.conf(st.s0, "max_iter"), add(L.n, ONE))
        acc.add("%s stops once the limit is reached" % m, st.where, n, compare(L.cx, True, lim))
    merge_n(r, acc.d)
    overrides(r, core.prog("std"))
    r.floor("retry loops", len({k[0].split()[0] for k in acc.d}), 2)


def p15(r, tier):
    r.rule("The working step at the end of a rejected trial equals step*coefficient, and the step carried on after an accepted one equals min(step*coefficient, dt_max), with the documented coefficient as a decision diagram over the trial's error norms.")
    acc = Acc()
    for m, n, st, L in loops(r):
        sp = L.spec
        acc.add("%s adapts the step of a retry as documented" % m, st.where, n, compare(st.h(L.back), sp.next, vand(L.cb, vnot(sp.accept))))
        acc.add("%s carries on the adapted step within the configured maximum" % m, st.where, n, compare(st.h(L.exit), sp.carried, vand(L.cx, sp.accept)))
    merge_n(r, acc.d)
    overrides(r, core.prog("std"))
    r.floor("retry loops", len({k[0].split()[0] for k in acc.d}), 2)


def p16(r, tier):
    r.rule("After an accepted trial the recorder's columns are, when `save` is set, the old columns each extended by start time, step used, trial count and error norms "
           "of that trial (and the reached states when `save_states` is set), and otherwise unchanged; a rejected trial leaves them unchanged.")
    acc = Acc()
    prog = core.prog("std")
    hv = prog.adts[[f["ty"] for f in prog.adts["dess::solver::AdaptiveSolverConfig"]["variants"][0]["fields"] if f["name"] == "history"][0]]
    cols = [f["name"] for f in hv["variants"][0]["fields"]]
    for m, n, st, L in loops(r):
        sp = L.spec
        save = L.conf(st.s0, "save")
        sst = L.conf(st.s0, "save_states")
        want = {"dt": L.h, "n_iter": sp.n, "norm_err": some(sp.err), "norm_err_rel": sp.rel, "t_curr": st.t(st.s0), "states": sp.x1}
        for k, c in enumerate(cols):
            old = part(L.conf(st.s0, "history"), k)
            acc.add("%s: recording off leaves column %s alone" % (m, c), st.where, n,
                    compare(part(L.conf(L.exit, "history"), k), old, vand(L.cx, vnot(save))))
            acc.add("%s: a rejected trial leaves column %s alone" % (m, c), st.where, n,
                    compare(part(L.conf(L.back, "history"), k), part(L.conf(L.head, "history"), k), L.cb))
            acc.add("%s: no record before the first trial in column %s" % (m, c), st.where, n,
                    compare(part(L.conf(L.init, "history"), k), old, L.base))
            new = part(L.conf(L.exit, "history"), k)
            care = vand(L.cx, save)
            acc.add("%s: column %s grows by one record" % (m, c), st.where, n,
                    compare(lift(lambda v: poison(v) or v.length(), new), lift(lambda v: padd(v.length(), ONE), old), care))
            if c in want:
                w = want[c]
                cc = vand(care, sst) if c == "states" else care
                last = lift(lambda v: poison(v) or (vindex(v, padd(v.length(), num(-1))) if isinstance(v, VecV) else unk("column")), new)
                acc.add("%s: column %s records this trial" % (m, c), st.where, n, compare(last, w, cc))
                acc.add("%s: column %s keeps the earlier records" % (m, c), st.where, n,
                        compare(lift(lambda v, o: poison(v, o) or vslice(v, ZERO, o.length()), new, old), old, care))
            if c == "states":
                off = vnot(sst)
                acc.add("%s: state recording off keeps the recorded states to what was there" % m, st.where, n,
                        compare(last, L.state(L.head, "states"), vand(care, off)))
                acc.add("%s: state recording off leaves the step record's states alone" % m, st.where, n,
                        compare(L.state(L.init, "states"), L.state(st.s0, "states"), vand(L.base, off))
                        + compare(L.state(L.back, "states"), L.state(L.head, "states"), vand(L.cb, off))
                        + compare(L.state(L.exit, "states"), L.state(L.head, "states"), vand(L.cx, off)))
                # the record itself; the live record is what the next step starts from
                acc.add("%s: the step record shows the reached states" % m, st.where, n,
                        compare(L.state(L.exit, "states"), sp.x1, vand(vand(L.cx, save), sst)))
        acc.add("%s: the live record holds the start time" % m, st.where, n, compare(L.state(L.exit, "t_curr"), st.t(st.s0), L.cx))
    merge_n(r, acc.d)
    overrides(r, prog)
    r.floor("columns", len([k for k in acc.d if "records this trial" in k[0]]), 12)


def p06(r, tier):
    r.rule("On entry to its retry loop an adaptive method's working step is at most the step limit argument and dt_max, and at the end of a rejected iteration it is at most the step of that iteration; "
           "the run loop passes each method a step (or limit) no larger than the time left and the configured step.")
    acc = Acc()
    for m, n, st, L in loops(r):
        sp = L.spec
        h0 = st.h(L.init)
        for nm, lim in (("the time left", st.dt), ("dt_max", L.conf(st.s0, "dt_max"))):
            acc.add("%s starts with a step within %s" % (m, nm), st.where, n, at_most(h0, lim, L.base))
        care = vand(L.cb, vnot(sp.accept))
        mm = compare(st.h(L.back), sp.next, care)
        if mm:
            mm = at_most(st.h(L.back), L.h, care)
        acc.add("%s never retries with a larger step" % m, st.where, n, mm)
        acc.add("%s uses the tried step" % m, st.where, n, compare(st.value, L.h, L.cx))
    merge_n(r, acc.d)
    import checks.walk as W
    W.step_limits(r)
    overrides(r, core.prog("std"))
    r.floor("retry loops", len({k[0].split()[0] for k in acc.d}), 2)


def at_most(v, lim, care):
    """v <= lim wherever care holds"""
    return compare(gt(v, lim), False, care)

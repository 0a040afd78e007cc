"""Published schemes and documented rules, written in the analysis' own term algebra."""
from fractions import Fraction as Q
from interp import *
import absys as A

# name -> (c, a, b_hi, b_lo)
TABLEAUX = {
    "euler": ([0], [[]], [1], None),
    "heun": ([0, 1], [[], [1]], [Q(1, 2), Q(1, 2)], None),
    "midpoint": ([0, Q(1, 2)], [[], [Q(1, 2)]], [0, 1], None),
    "ralston": ([0, Q(2, 3)], [[], [Q(2, 3)]], [Q(1, 4), Q(3, 4)], None),
    "rk4fixed": ([0, Q(1, 2), Q(1, 2), 1], [[], [Q(1, 2)], [0, Q(1, 2)], [0, 0, 1]],
                 [Q(1, 6), Q(1, 3), Q(1, 3), Q(1, 6)], None),
    "rk23_bogacki_shampine": (
        [0, Q(1, 2), Q(3, 4), 1],
        [[], [Q(1, 2)], [0, Q(3, 4)], [Q(2, 9), Q(1, 3), Q(4, 9)]],
        [Q(2, 9), Q(1, 3), Q(4, 9), 0], [Q(7, 24), Q(1, 4), Q(1, 3), Q(1, 8)]),
    "rk45_cash_karp": (
        [0, Q(1, 5), Q(3, 10), Q(3, 5), 1, Q(7, 8)],
        [[], [Q(1, 5)], [Q(3, 40), Q(9, 40)], [Q(3, 10), Q(-9, 10), Q(6, 5)],
         [Q(-11, 54), Q(5, 2), Q(-70, 27), Q(35, 27)],
         [Q(1631, 55296), Q(175, 512), Q(575, 13824), Q(44275, 110592), Q(253, 4096)]],
        [Q(37, 378), 0, Q(250, 621), Q(125, 594), 0, Q(512, 1771)],
        [Q(2825, 27648), 0, Q(18575, 48384), Q(13525, 55296), Q(277, 14336), Q(1, 4)]),
}
FIXED = ["euler", "heun", "midpoint", "ralston", "rk4fixed"]
ADAPTIVE = ["rk23_bogacki_shampine", "rk45_cash_karp"]


def vlin(x, terms):
    """x + Σ coef·k, elementwise; x None means zero"""
    segs = None
    vs = ([x] if x is not None else []) + [k for _, k in terms]
    base = vs[0]
    out = []
    for si, s in enumerate(base.segs):
        def comb(get):
            r = get(x) if x is not None else ZERO
            for c, k in terms:
                r = add(r, mul(c, get(k)))
            return r
        if s[0] == "i":
            out.append(("i", tuple(comb(lambda v, j=j: v.segs[si][1][j]) for j in range(len(s[1])))))
        else:
            out.append(("t", s[1], comb(lambda v: v.segs[si][2])))
    return vec(tuple(out))


def stages(name, t, x, h, law=A.Fvec):
    c, a, b, bl = TABLEAUX[name]
    ks = []
    for i in range(len(c)):
        xi = vlin(x, [(mul(num(a[i][j]), h), ks[j]) for j in range(len(a[i])) if a[i][j] != 0])
        ks.append(law(add(t, mul(num(c[i]), h)), xi))
    return ks


def deltas(name, t, x, h, law=A.Fvec):
    c, a, b, bl = TABLEAUX[name]
    ks = stages(name, t, x, h, law)
    hi = vlin(None, [(mul(num(w), h), k) for w, k in zip(b, ks) if w != 0])
    lo = vlin(None, [(mul(num(w), h), k) for w, k in zip(bl, ks) if w != 0]) if bl else None
    return hi, lo


def norm(v):
    """euclidean norm of a vector value"""
    tot = ZERO
    for s in v.segs:
        if s[0] == "i":
            for e in s[1]:
                tot = add(tot, mul(e, e))
        else:
            tot = add(tot, lift(lambda e, n: psum(n, pmul(e, e)), s[2], s[1]))
    return vsqrt(tot)


def powf(v, e):
    return vpow(v, num(Q(e)))


class Adaptive:
    """one trial of an adaptive method, from time t, states x, step h; sc: settings, n: trials made before"""

    def __init__(self, name, t, x, h, sc, n, scidx):
        self.hi, self.lo = deltas(name, t, x, h)
        self.x1 = vlin(x, [(ONE, self.hi)])
        self.err = norm(vlin(self.lo, [(num(-1), self.hi)]))
        self.nrm = norm(self.hi)
        rtol, atol, mx, dtm = (sc.fs[scidx[k]] for k in ("rtol", "atol", "max_iter", "dt_max"))
        self.n = add(n, ONE)
        zero = eq(self.nrm, ZERO)
        rel = div(self.err, self.nrm)
        self.rel = ite(zero, none(), some(rel))
        met_r = le(rel, rtol)
        met_a = le(self.err, atol)
        tol = ite(zero, met_a, met_r)
        self.accept = vor(vor(lt(self.err, atol), tol), le(mx, self.n))
        ratio = div(atol, self.err)
        self.coeff = ite(zero, ite(met_a, powf(ratio, Q(1, 5)), powf(ratio, Q(1, 4))),
                         ite(met_r, powf(div(rtol, rel), Q(1, 5)), ite(met_a, powf(ratio, Q(1, 5)), num(Q(1, 4)))))
        self.next = mul(h, self.coeff)
        self.carried = vmin(self.next, dtm)
        self.t1 = add(t, h)

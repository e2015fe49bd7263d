"""Rational normal form of numeric terms: num/den as polynomials over atoms with
   sqrt(x)^2 -> x,  sin(x)^2 -> 1 - cos(x)^2,  exp(a)*exp(b) -> exp(a+b).
Used as a preprocessing step: `a == b` becomes `num == 0` under `dens != 0`."""
from fractions import Fraction as F
import math
import time

from . import terms as T


class TooBig(Exception):
    pass


LIMIT = 60000


class NF:
    def __init__(self, limit=LIMIT, rules=None):
        self.memo = {}
        self.limit = limit
        self.sq = rules[0] if rules else {}
        self.ln = rules[1] if rules else {}
        self.depth = 0
        self.deadline = time.time() + 20

    # poly: dict {monomial(tuple of (atom,pow)) : coef}
    @staticmethod
    def padd(a, b, k=F(1)):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c * k
            else:
                v = v + c * k
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return r

    def mmul(self, m1, m2):
        """monomial product -> poly (because of sqrt/sin reduction)"""
        d = dict(m1)
        red = None
        for t, p in m2:
            q = d.get(t, 0) + p
            d[t] = q
            if q >= 2 and (t in self.sq or (T.OP[t] == "f" and T.ARG[t][0] in ("sqrt", "sin"))):
                red = red or []
                red.append(t)
        exps = [t for t in d if T.OP[t] == "f" and T.ARG[t][0] == "exp"]
        if len(exps) > 1 or (exps and d[exps[0]] > 1):
            s = T.ZERO
            for t in exps:
                s = T.add(s, T.scale(T.ARG[t][1], F(d.pop(t))))
            e = T.exp(s)
            if e != T.ONE:
                d[e] = d.get(e, 0) + 1
        if not red:
            return {tuple(sorted(d.items())): F(1)}
        extra = {(): F(1)}
        for t in red:
            p = d.pop(t, None)
            if p is None:
                continue
            if p % 2:
                d[t] = 1
            if t in self.sq:
                base = self.sq[t]
                for _ in range(p // 2):
                    extra = self.pmul(extra, base)
                continue
            nm, x = T.ARG[t][0], T.ARG[t][1]
            if nm == "sqrt":
                n, dn = self.nf(x)
                if dn != {(): F(1)}:
                    raise TooBig("sqrt of quotient")
                base = n
            else:
                c = T.cos(x)
                cc = self.poly_atom(c)
                base = self.padd({(): F(1)}, self.pmul(cc, cc), F(-1))
            for _ in range(p // 2):
                extra = self.pmul(extra, base)
        return self.pmul({tuple(sorted(d.items())): F(1)}, extra)

    def poly_atom(self, t):
        if T.OP[t] == "c":
            return {(): T.ARG[t]} if T.ARG[t] else {}
        n, d = self.nf(t)
        if d != {(): F(1)}:
            raise TooBig("atom with denominator")
        return n

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > self.limit * 20 or time.time() > self.deadline:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                c = c1 * c2
                if not m1:
                    pr = {m2: F(1)}
                elif not m2:
                    pr = {m1: F(1)}
                else:
                    pr = self.mmul(m1, m2)
                for m, k in pr.items():
                    v = r.get(m)
                    r[m] = c * k if v is None else v + c * k
        r = {m: c for m, c in r.items() if c != 0}
        if len(r) > self.limit:
            raise TooBig()
        return r

    def ppow(self, a, n):
        r = {(): F(1)}
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    ONEP = {(): F(1)}

    def nf(self, t):
        """(num, den)"""
        for u in T.reach([t]) if t not in self.memo else ():
            if u in self.memo or T.SORT[u] == "B":
                continue
            self.memo[u] = self._nf1(u)
        return self.memo[t]

    def _nf1(self, u):
        op, a = T.OP[u], T.ARG[u]
        one = self.ONEP
        if op == "c":
            return ({(): a} if a != 0 else {}), one
        if op == "lin":
            # group by denominators
            groups = {}
            c0 = {(): a[0]} if a[0] != 0 else {}
            if c0:
                groups[((), F(1)),] = (c0, one)
            for t, k in a[1]:
                n, d = self.memo[t]
                key = tuple(sorted(d.items()))
                if key in groups:
                    g = groups[key]
                    groups[key] = (self.padd(g[0], n, k), d)
                else:
                    groups[key] = ({m: c * k for m, c in n.items()}, d)
            return self.combine(list(groups.values()))
        if op == "mon":
            num, den = one, one
            for t, p in a:
                n, d = self.memo[t]
                if T.OP[t] in ("f",) and n == {((t, 1),): F(1)} and d == one:
                    q = {((t, 1),): F(1)}
                    num = self.pmul(num, self.ppow(q, p))
                    continue
                num = self.pmul(num, self.ppow(n, p))
                den = self.pmul(den, self.ppow(d, p))
            return self.cancel(num, den)
        if op == "inv":
            n, d = self.memo[a]
            if not n:
                return {((u, 1),): F(1)}, one
            return self.cancel(d, n)
        if op == "v" and u in self.ln:
            return self.ln[u], one
        if op == "f":
            return self._nff(u, a)
        return {((u, 1),): F(1)}, one

    def _nff(self, u, a):
        """function atoms: normalise the arguments"""
        atom = {((u, 1),): F(1)}, self.ONEP
        if self.depth > 6:
            return atom
        args = []
        for x in a[1:]:
            if not isinstance(x, int) or T.SORT[x] == "B":
                return atom
            n, d = self.memo[x]
            if len(n) > 400 or len(d) > 400:
                return atom
            args.append((n, d))
        if a[0] == "sqrt":
            n, d = args[0]
            tn = self.to_term(n)
            if d == self.ONEP:
                t2 = T.sqrt(tn)
            else:
                td = self.to_term(d)
                t2 = T.div(T.sqrt(self.to_term(self.pmul(n, d))), T.abs_(td))
        else:
            t2 = T.fbuild(a[0], [self.to_term(n) if d == self.ONEP else T.div(self.to_term(n), self.to_term(d)) for n, d in args])
        if t2 == u:
            return atom
        if T.OP[t2] == "f" and T.ARG[t2][0] == a[0]:
            return {((t2, 1),): F(1)}, self.ONEP
        self.depth += 1
        try:
            return self.nf(t2)
        finally:
            self.depth -= 1

    def combine(self, parts):
        """sum of num/den parts; dens grouped"""
        parts = [p for p in parts if p[0]]
        if not parts:
            return {}, self.ONEP
        # least common denominators: handle monomial dens and identical dens cheaply
        num, den = parts[0]
        for n, d in parts[1:]:
            if d == den:
                num = self.padd(num, n)
            elif d == self.ONEP:
                num = self.padd(num, self.pmul(n, den))
            elif den == self.ONEP:
                num = self.padd(self.pmul(num, d), n)
                den = d
            else:
                q = self.divides(den, d)
                if q is not None:  # d = den*q
                    num = self.padd(self.pmul(num, q), n)
                    den = d
                    continue
                q = self.divides(d, den)
                if q is not None:
                    num = self.padd(num, self.pmul(n, q))
                    continue
                num = self.padd(self.pmul(num, d), self.pmul(n, den))
                den = self.pmul(den, d)
        if not num:
            return {}, self.ONEP
        return self.cancel(num, den)

    def divides(self, d, n):
        """q with n = d*q as polynomials, or None (multivariate exact division, cheap attempt)"""
        if not d:
            return None
        if len(d) == 1:
            (m, c), = d.items()
            md = dict(m)
            q = {}
            for mm, cc in n.items():
                x = dict(mm)
                for t, p in md.items():
                    if x.get(t, 0) < p:
                        return None
                    x[t] -= p
                    if x[t] == 0:
                        del x[t]
                q[tuple(sorted(x.items()))] = cc / c
            return q
        if len(n) > 4000 or len(d) > len(n):
            return None
        key = lambda m: (sum(p for _, p in m), m)
        order = self._order(d, n)
        ld = max(d, key=order)
        cd = d[ld]
        r = dict(n)
        q = {}
        steps = 0
        while r:
            steps += 1
            if steps > 2000:
                return None
            try:
                lr = max(r, key=order)
            except KeyError:  # a product of roots brought a new atom
                return None
            x = dict(lr)
            for t, p in ld:
                if x.get(t, 0) < p:
                    return None
                x[t] -= p
                if x[t] == 0:
                    del x[t]
            mq = tuple(sorted(x.items()))
            cq = r[lr] / cd
            q[mq] = q.get(mq, F(0)) + cq
            try:
                r = self.padd(r, self.pmul({mq: cq}, d), F(-1))
            except TooBig:
                return None
        return q

    @staticmethod
    def _order(*ps):
        atoms = sorted({t for p in ps for m in p for t, _ in m})
        ix = {t: i for i, t in enumerate(atoms)}

        def key(m):
            v = [0] * len(atoms)
            for t, p in m:
                v[ix[t]] = p
            return tuple(v)

        return key

    def cancel(self, n, d):
        if d == self.ONEP or not n:
            return (n, d) if n else ({}, self.ONEP)
        if len(d) == 1 and () in d:
            c = d[()]
            return {m: k / c for m, k in n.items()}, self.ONEP
        # common monomial factor
        def common(p):
            it = iter(p)
            g = dict(next(it))
            for m in it:
                if not g:
                    break
                x = dict(m)
                g = {t: min(q, x[t]) for t, q in g.items() if t in x}
            return g

        g1, g2 = common(n), common(d)
        g = {t: min(q, g2[t]) for t, q in g1.items() if t in g2}
        if g:
            gm = {tuple(sorted(g.items())): F(1)}
            n, d = self.divides(gm, n), self.divides(gm, d)
            if d is not None and len(d) == 1 and () in d:
                return self.cancel(n, d)
        if len(n) <= 300 and len(d) <= 300:
            if n == d:
                return self.ONEP, self.ONEP
            if len(d) > 1 and len(d) <= len(n):
                q = self.divides(d, n)
                if q is not None:
                    return q, self.ONEP
            if len(n) > 1 and len(n) <= len(d):
                q = self.divides(n, d)
                if q is not None:
                    return self.cancel(self.ONEP, q)
        # normalise leading coefficient of the denominator
        lc = d[max(d)]
        if lc != 1:
            n = {m: c / lc for m, c in n.items()}
            d = {m: c / lc for m, c in d.items()}
        return n, d

    def to_term(self, p):
        ts = []
        for m, c in p.items():
            r = T.const(c)
            for t, k in m:
                r = T.mul(r, T.powi(t, k))
            ts.append(r)
        return T.add_many(ts)


def pc_rules(pc):
    """rewrite rules from equalities of the path condition: (v^2 -> poly, v -> poly)"""
    sq, ln = {}, {}
    used = set()
    for c in pc:
        if T.OP[c] != "eq0" or T.SORT[T.ARG[c]] == "B":
            continue
        try:
            n, d = NF(2000, (sq, ln)).nf(T.ARG[c])
        except TooBig:
            continue
        if not n or len(n) > 60 or d != NF.ONEP:
            continue
        occ = {}
        for m in n:
            for t, p in m:
                occ.setdefault(t, []).append((m, p))
        best = None
        for t, ms in occ.items():
            if T.OP[t] != "v" or t in used or t in sq or t in ln or len(ms) != 1:
                continue
            m, p = ms[0]
            if len(m) == 1 and p == 1:
                best = (0, t, m)
                break
            if len(m) == 1 and p == 2 and best is None:
                best = (1, t, m)
        if best is None:
            continue
        k, t, m = best
        cf = n[m]
        rhs = {mm: -x / cf for mm, x in n.items() if mm != m}
        for mm in rhs:
            used.update(x for x, _ in mm)
        (ln if k == 0 else sq)[t] = rhs
    return (sq, ln)


def trig_expand(t):
    """sin/cos of integer multiples of a common angle, and of sums whose parts occur on their own"""
    args = set()
    for u in T.reach([t]):
        if T.OP[u] == "f" and T.ARG[u][0] in ("sin", "cos"):
            args.add(T.ARG[u][1])
    if len(args) < 2:
        return t
    groups = {}
    for a in args:
        c, its = T._lin_parts(a)
        if c != 0 or not its:
            continue
        k = its[0][1]
        groups.setdefault(T.scale(a, 1 / k), {})[a] = k
    sub = {}
    for base, d in groups.items():
        if len(d) < 2:
            continue
        ks = list(d.values())
        g = F(0)
        for k in ks:
            g = F(math.gcd((g.numerator * k.denominator), (k.numerator * g.denominator)), g.denominator * k.denominator) if g else abs(k)
        if max(abs(k / g) for k in ks) > 8:
            continue
        b = T.scale(base, g)
        s1, c1 = T.sin(b), T.cos(b)
        for a, k in d.items():
            n = int(k / g)
            s, c = T.ZERO, T.ONE
            for _ in range(abs(n)):
                s, c = T.add(T.mul(s, c1), T.mul(c, s1)), T.sub(T.mul(c, c1), T.mul(s, s1))
            if n < 0:
                s = T.neg(s)
            sub[T.fun("sin", a)] = s
            sub[T.fun("cos", a)] = c
    return T.subst(t, {k: v for k, v in sub.items() if k != v}) if sub else t


def is_zero(t, limit=LIMIT, rules=None):
    """True if t is identically zero wherever defined; else None/False"""
    try:
        t = trig_expand(t)
        n, _ = NF(limit, rules).nf(t)
    except TooBig:
        return None
    return not n


def numer(t, limit=LIMIT, rules=None):
    """(numerator term, denominator term) or None"""
    try:
        o = NF(limit, rules)
        n, d = o.nf(trig_expand(t))
        return o.to_term(n), o.to_term(d)
    except TooBig:
        return None

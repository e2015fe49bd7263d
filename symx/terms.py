"""Hash-consed symbolic terms.

A term is an int id.  Numeric terms denote exact reals (or integers), boolean terms propositions.
Constructors normalise: sums are linear combinations over atoms, products are monomials, comparisons are
`t < 0`, `t <= 0`, `t == 0`.  Division is kept as `inv(t)` (never cancelled at construction).
"""
from __future__ import annotations

import math
from fractions import Fraction as F

import numpy as np

OP: list = []  # 'c','v','lin','mon','inv','f','ite','true','false','lt0','le0','eq0','not','and','or'
ARG: list = []
SORT: list = []  # 'R','I','B'
_tab: dict = {}


def _mk(op, arg, sort):
    k = (op, arg, sort) if op == "v" else (op, arg)
    i = _tab.get(k)
    if i is None:
        i = len(OP)
        _tab[k] = i
        OP.append(op)
        ARG.append(arg)
        SORT.append(sort)
    return i


TRUE = _mk("true", None, "B")
FALSE = _mk("false", None, "B")
# ids 0/1 are booleans; numeric zero/one:
_F0, _F1 = F(0), F(1)


def const(x) -> int:
    """exact rational constant"""
    if isinstance(x, bool):
        x = int(x)
    if not isinstance(x, F):
        x = F(x)
    return _mk("c", x, "I" if x.denominator == 1 else "R")


_fcache: dict = {}


EPS0 = False  # harness option: regularising constants up to 1.1e-8 are modelled by zero
EPSMAX = F(11, 10 ** 9)


def fconst(x, single=False) -> int:
    if EPS0 and x == x and 0 < abs(x) <= 1.1e-8:
        return ZERO
    return _fconst(x, single)


def _fconst(x, single=False) -> int:
    """constant from a python/torch float: shortest decimal that rounds to it"""
    k = (x, single)
    r = _fcache.get(k)
    if r is None:
        if isinstance(x, (int, bool)):
            r = const(int(x))
        elif math.isinf(x):
            r = special("inf" if x > 0 else "ninf")
        elif math.isnan(x):
            r = special("nan")
        else:
            if single:
                s = repr(float(np.float32(x))) if False else np.format_float_scientific(np.float32(x), unique=True)
                v = F(s)
            else:
                xf = float(x)
                if float(np.float32(xf)) == xf:
                    # a float32 value promoted to float64: prefer its short decimal if shorter
                    s32 = np.format_float_scientific(np.float32(xf), unique=True)
                    s64 = repr(xf)
                    v = F(s32) if len(s32) < len(s64) - 3 else F(s64)
                else:
                    v = F(repr(xf))
            if v.denominator > 10 ** (6 if single or float(np.float32(float(x))) == float(x) else 13):
                # quotients such as 1/3 computed in floating point stand for the quotient
                q = F(float(x)).limit_denominator(64 if single else 1000)
                if (np.float32(float(q)) == np.float32(x)) if single else (float(q) == float(x)):
                    v = q
                elif not single and float(np.float32(float(x))) == float(x):
                    q = F(float(x)).limit_denominator(64)
                    if np.float32(float(q)) == np.float32(x):
                        v = q
            r = const(v)
        if x == x:
            _fcache[k] = r
    return r


BIG = F(10) ** 30
HUGE = F(10) ** 25
_hugec: dict = {}


def has_huge(t):
    """an infinity (huge constant) occurs in the term"""
    r = _hugec.get(t)
    if r is None:
        for u in reach([t]):
            if u in _hugec:
                continue
            op, a = OP[u], ARG[u]
            _hugec[u] = (op == "c" and abs(a) >= HUGE) or (op == "lin" and (abs(a[0]) >= HUGE or any(abs(k) >= HUGE for _, k in a[1]))) or any(_hugec[c] for c in children(u))
        r = _hugec[t]
    return r


def special(kind) -> int:
    # +-inf are modelled as huge constants (stated in DESIGN.md); nan as a special variable
    if kind == "inf":
        return const(BIG)
    if kind == "ninf":
        return const(-BIG)
    return _mk("v", "__nan__", "R")


def var(name, sort="R") -> int:
    return _mk("v", name, sort)


ZERO = const(0)
ONE = const(1)
MONE = const(-1)


def is_const(t):
    return OP[t] == "c"


def cval(t):
    return ARG[t]


def _lin_parts(t):
    op = OP[t]
    if op == "c":
        return ARG[t], ()
    if op == "lin":
        return ARG[t]
    return _F0, ((t, _F1),)


def _mk_lin(c, items):
    """items: dict id->coef (nonzero)"""
    if not items:
        return const(c)
    if len(items) == 1 and c == 0:
        (t, k), = items.items()
        if k == 1:
            return t
    its = tuple(sorted(items.items()))
    s = "I"
    if c.denominator != 1:
        s = "R"
    else:
        for t, k in its:
            if SORT[t] != "I" or k.denominator != 1:
                s = "R"
                break
    return _mk("lin", (c, its), s)


_addc: dict = {}


def add(a, b):
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    k = (a, b) if a < b else (b, a)
    r = _addc.get(k)
    if r is not None:
        return r
    ca, ia = _lin_parts(a)
    cb, ib = _lin_parts(b)
    if len(ia) < len(ib):
        ia, ib = ib, ia
    d = dict(ia)
    for t, x in ib:
        y = d.get(t)
        if y is None:
            d[t] = x
        else:
            y = y + x
            if y == 0:
                del d[t]
            else:
                d[t] = y
    r = _mk_lin(ca + cb, d)
    _addc[k] = r
    return r


def add_many(ts):
    c = _F0
    d: dict = {}
    for a in ts:
        ca, ia = _lin_parts(a)
        c += ca
        for t, x in ia:
            y = d.get(t)
            if y is None:
                d[t] = x
            else:
                y = y + x
                if y == 0:
                    del d[t]
                else:
                    d[t] = y
    return _mk_lin(c, d)


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    c, its = _lin_parts(a)
    return _mk_lin(c * k, {t: x * k for t, x in its})


def neg(a):
    return scale(a, F(-1))


def sub(a, b):
    if a == b:
        return ZERO
    return add(a, neg(b))


def _mon_parts(t):
    """coef, factors tuple"""
    op = OP[t]
    if op == "c":
        return ARG[t], ()
    if op == "mon":
        return _F1, ARG[t]
    if op == "lin":
        c, its = ARG[t]
        if c == 0 and len(its) == 1:
            u, k = its[0]
            if OP[u] == "mon":
                return k, ARG[u]
            return k, ((u, 1),)
    return _F1, ((t, 1),)


def _mk_mon(fs):
    if not fs:
        return ONE
    if len(fs) == 1:
        (t, p), = fs.items()
        if p == 1:
            return t
    its = tuple(sorted(fs.items()))
    s = "I" if all(SORT[t] == "I" for t, _ in its) else "R"
    return _mk("mon", its, s)


_mulc: dict = {}


def _mon_red(d):
    """monomial with sqrt(x)^2 -> x"""
    sq = None
    for t, p in d.items():
        if p >= 2 and OP[t] == "f" and ARG[t][0] == "sqrt":
            sq = sq or []
            sq.append(t)
    if not sq:
        return _mk_mon(d)
    extra = []
    for t in sq:
        p = d.pop(t)
        if p % 2:
            d[t] = 1
        extra.append(powi(ARG[t][1], p // 2))
    r = _mk_mon(d)
    for x in extra:
        r = mul(r, x)
    return r


def mul(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    if a == ZERO or b == ZERO:
        return ZERO
    k = (a, b) if a < b else (b, a)
    r = _mulc.get(k)
    if r is not None:
        return r
    if OP[a] == "c":
        r = scale(b, ARG[a])
    elif OP[b] == "c":
        r = scale(a, ARG[b])
    else:
        ka, fa = _mon_parts(a)
        kb, fb = _mon_parts(b)
        d = dict(fa)
        for t, p in fb:
            d[t] = d.get(t, 0) + p
        r = scale(_mon_red(d), ka * kb)
    _mulc[k] = r
    return r


def inv(a):
    op = OP[a]
    if op == "c":
        if ARG[a] == 0:
            return _mk("inv", a, "R")
        return const(1 / ARG[a])
    if op == "inv":
        return ARG[a] if OP[ARG[a]] != "c" else _mk("inv", a, "R")
    if op == "f" and ARG[a][0] == "sqrt" and OP[ARG[a][1]] == "inv":
        return sqrt(ARG[ARG[a][1]])
    k, fs = _mon_parts(a)
    if k != 1 or len(fs) > 1 or (fs and fs[0][1] != 1):
        d = {}
        for t, p in fs:
            if OP[t] == "inv":
                u = ARG[t]
                ku, fu = _mon_parts(u)
                k = k / ku
                for t2, p2 in fu:
                    d[t2] = d.get(t2, 0) + p * p2
            else:
                it = _mk("inv", t, "R")
                d[it] = d.get(it, 0) + p
        return scale(_mk_mon(d), 1 / k)
    return _mk("inv", a, "R")


def div(a, b):
    if OP[b] == "c" and ARG[b] != 0:
        return scale(a, 1 / ARG[b])
    if a == ZERO:
        return ZERO
    return mul(a, inv(b))


def powi(a, n: int):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(a, -n))
    if OP[a] == "c":
        return const(ARG[a] ** n)
    k, fs = _mon_parts(a)
    return scale(_mon_red({t: p * n for t, p in fs}), k**n)


_signc: dict = {}


def sign_of(t):
    """quick sign knowledge: 'p' >0, 'nn' >=0, 'n' <0, 'np' <=0, 'z', or None"""
    r = _signc.get(t, 0)
    if r != 0:
        return r
    op = OP[t]
    r = None
    if op == "c":
        v = ARG[t]
        r = "p" if v > 0 else ("n" if v < 0 else "z")
    elif op == "f":
        nm = ARG[t][0]
        if nm in ("sqrt",):
            r = "nn"
        elif nm in ("exp", "sigmoid"):
            r = "p"
        elif nm == "acos":
            r = "nn"
        elif nm == "atan2" and sign_of(ARG[t][1]) in ("p", "nn", "z"):
            r = "nn"
    elif op == "inv":
        s = sign_of(ARG[t])
        r = {"p": "p", "nn": "p", "n": "n", "np": "n"}.get(s)
    elif op == "mon":
        s, strict, ok = 1, True, True
        for u, p in ARG[t]:
            su = sign_of(u)
            if p % 2 == 0:
                if su not in ("p", "n"):
                    strict = False
                continue
            if su == "p":
                pass
            elif su == "nn":
                strict = False
            elif su == "n":
                s = -s
            elif su == "np":
                s = -s
                strict = False
            else:
                ok = False
                break
        if ok:
            r = ("p" if strict else "nn") if s > 0 else ("n" if strict else "np")
    elif op == "lin" and abs(ARG[t][0]) >= HUGE and not any(abs(k) >= HUGE or has_huge(u) for u, k in ARG[t][1]):
        r = "p" if ARG[t][0] > 0 else "n"  # finite term compared with infinity
    elif op == "lin":
        c, its = ARG[t]
        sg = set()
        strict = False
        if c > 0:
            sg.add(1)
            strict = True
        elif c < 0:
            sg.add(-1)
            strict = True
        for u, k in its:
            su = sign_of(u)
            if su in ("p", "nn"):
                sg.add(1 if k > 0 else -1)
                strict = strict or su == "p"
            elif su in ("n", "np"):
                sg.add(-1 if k > 0 else 1)
                strict = strict or su == "n"
            else:
                sg = {1, -1}
                break
        if sg == {1}:
            r = "p" if strict else "nn"
        elif sg == {-1}:
            r = "n" if strict else "np"
    elif op == "ite":
        _, a, b = ARG[t]
        sa, sb = sign_of(a), sign_of(b)
        pos, ng = {"p", "nn", "z"}, {"n", "np", "z"}
        if sa in pos and sb in pos:
            r = "p" if sa == sb == "p" else "nn"
        elif sa in ng and sb in ng:
            r = "n" if sa == sb == "n" else "np"
    _signc[t] = r
    return r


def _norm_cmp(d):
    """scale by a positive constant so that the leading coefficient is +-1"""
    c, its = _lin_parts(d)
    k = abs(its[0][1])
    return scale(d, 1 / k) if k != 1 else d


_MAXI, _MINI = "max", "min"


def _sqrt_cmp(d, op):
    """comparisons of square roots with constants or with each other are squared out (roots are of non-negative arguments)"""
    c, its = _lin_parts(d)
    if len(its) == 1:
        t, k = its[0]
        if c == 0 or OP[t] != "f" or ARG[t][0] != "sqrt":
            return None
        a, r = ARG[t][1], -c / k
        if op == "eq":
            return FALSE if r < 0 else eq0(sub(a, const(r * r)))
        cmp = lt0 if op == "lt" else le0
        if k > 0:
            if r < 0 or (r == 0 and op == "lt"):
                return FALSE
            return cmp(sub(a, const(r * r)))
        if r < 0:
            return TRUE
        return cmp(sub(const(r * r), a))
    if len(its) == 2 and c == 0:
        (t, k), (u, m) = its
        if k * m < 0 and OP[t] == "f" and ARG[t][0] == "sqrt" and OP[u] == "f" and ARG[u][0] == "sqrt":
            a, b = scale(ARG[t][1], k * k), scale(ARG[u][1], m * m)
            x = sub(a, b) if k > 0 else sub(b, a)
            return eq0(x) if op == "eq" else lt0(x) if op == "lt" else le0(x)
    return None


def lt0(d):
    if OP[d] == "lin":
        r = _sqrt_cmp(d, "lt")
        if r is not None:
            return r
    s = sign_of(d)
    if s == "n":
        return TRUE
    if s in ("p", "nn", "z"):
        return FALSE
    return _mk("lt0", _norm_cmp(d), "B")


def le0(d):
    if OP[d] == "lin":
        r = _sqrt_cmp(d, "le")
        if r is not None:
            return r
    s = sign_of(d)
    if s in ("n", "np", "z"):
        return TRUE
    if s == "p":
        return FALSE
    return _mk("le0", _norm_cmp(d), "B")


def eq0(d):
    if OP[d] == "lin":
        r = _sqrt_cmp(d, "eq")
        if r is not None:
            return r
    s = sign_of(d)
    if s == "z":
        return TRUE
    if s in ("p", "n"):
        return FALSE
    d = _norm_cmp(d)
    if _lin_parts(d)[1][0][1] < 0:
        d = neg(d)
    if OP[d] == "mon" and len(ARG[d]) == 1:
        return eq0(ARG[d][0][0])
    return _mk("eq0", d, "B")


def lt(a, b):
    if a == b:
        return FALSE
    return lt0(sub(a, b))


def le(a, b):
    if a == b:
        return TRUE
    return le0(sub(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a == b:
        return TRUE
    if SORT[a] == "B" or SORT[b] == "B":
        a, b = to_bool(a), to_bool(b)
        return ite(a, b, not_(b))
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a == TRUE:
        return FALSE
    if a == FALSE:
        return TRUE
    op = OP[a]
    if op == "not":
        return ARG[a]
    if op == "lt0":
        return le0(neg(ARG[a]))
    if op == "le0":
        return lt0(neg(ARG[a]))
    return _mk("not", a, "B")


def _nary(op, absorbing, unit, xs):
    s = set()
    for x in xs:
        if x == absorbing:
            return absorbing
        if x == unit:
            continue
        if OP[x] == op:
            s.update(ARG[x])
        else:
            s.add(x)
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    for x in s:
        if OP[x] in ("lt0", "le0", "not", "eq0", "and", "or") and not_(x) in s:
            return absorbing
    return _mk(op, tuple(sorted(s)), "B")


def and_(*xs):
    return _nary("and", FALSE, TRUE, xs)


def or_(*xs):
    return _nary("or", TRUE, FALSE, xs)


def implies(a, b):
    return or_(not_(a), b)


def xor(a, b):
    return not_(eq(a, b))


def to_bool(a):
    if SORT[a] == "B":
        return a
    return not_(eq0(a))


def to_num(a):
    if SORT[a] != "B":
        return a
    if a == TRUE:
        return ONE
    if a == FALSE:
        return ZERO
    return ite(a, ONE, ZERO)


def ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    if SORT[a] == "B" or SORT[b] == "B":
        a, b = to_bool(a), to_bool(b)
        return or_(and_(c, a), and_(not_(c), b))
    if OP[c] == "not":
        return ite(ARG[c], b, a)
    if OP[c] == "le0":  # canonical: use the strict form
        return ite(lt0(neg(ARG[c])), b, a)
    if OP[a] == "ite" and ARG[a][0] == c:
        a = ARG[a][1]
    if OP[b] == "ite" and ARG[b][0] == c:
        b = ARG[b][2]
    if a == b:
        return a
    return _mk("ite", (c, a, b), "I" if SORT[a] == "I" and SORT[b] == "I" else "R")


def max_(a, b):
    if a == b:
        return a
    return ite(lt(a, b), b, a)


def min_(a, b):
    if a == b:
        return a
    return ite(lt(b, a), b, a)


def abs_(a):
    s = sign_of(a)
    if s in ("p", "nn", "z"):
        return a
    if s in ("n", "np"):
        return neg(a)
    return ite(lt0(a), neg(a), a)


def sgn(a):
    return ite(lt0(a), MONE, ite(eq0(a), ZERO, ONE))


def _isqrt_frac(x: F):
    if x < 0:
        return None
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return F(n, d)
    return None


def fun(name, *args):
    return _mk("f", (name,) + args, "I" if name in ("floor",) else "R")


def _content(xs):
    n, d = 0, 1
    for x in xs:
        n = math.gcd(n, abs(x.numerator))
        d = d * x.denominator // math.gcd(d, x.denominator)
    return F(n, d)


_sqc: dict = {}


def _sqpart(g):
    """largest simple s with s*s dividing g (denominators included)"""
    r = _sqc.get(g)
    if r is not None:
        return r

    def part(n):
        k = math.isqrt(n)
        if k * k == n:
            return k
        o = 1
        for q in (2, 3, 5, 7, 11, 13):
            while n % (q * q) == 0:
                n //= q * q
                o *= q
        return o

    n, d = g.numerator, g.denominator
    sd = part(d)
    # make the rest of the denominator square by moving it to the numerator
    rest = d // (sd * sd)
    r = F(part(n), sd) if rest == 1 else F(part(n * rest), sd * rest)
    _sqc[g] = r
    return r


def sqrt(a):
    if OP[a] == "c":
        r = _isqrt_frac(ARG[a])
        if r is not None:
            return const(r)
        return fun("sqrt", a)
    k, fs = _mon_parts(a)
    out = ONE
    rest = {}
    for t, p in fs:
        if p >= 2:
            out = mul(out, abs_(powi(t, p // 2)))
        if p % 2:
            rest[t] = 1
    if len(fs) == 0 or (len(fs) == 1 and fs[0][1] == 1 and OP[fs[0][0]] == "lin"):
        c, its = _lin_parts(a)
        g = _content([x for x in [c] + [kk for _, kk in its] if x != 0])
        s = _sqpart(g)
        if s != 1:
            return scale(sqrt(scale(a, 1 / (s * s))), s)
    if len(fs) == 1 and fs[0][1] == 1 and OP[fs[0][0]] == "lin":
        # common even factors of a sum
        t = fs[0][0]
        c, its = ARG[t]
        if c == 0:
            g = None
            for u, _ in its:
                d = dict(_mon_parts(u)[1])
                g = {x: p - p % 2 for x, p in d.items() if p >= 2} if g is None else {x: min(p, d[x] - d[x] % 2) for x, p in g.items() if d.get(x, 0) >= 2}
                if not g:
                    break
            if g:
                q = ONE
                for x, p in g.items():
                    out = mul(out, powi(abs_(x), p // 2))
                parts = []
                for u, kk in its:
                    k2, fu = _mon_parts(u)
                    d = dict(fu)
                    for x, p in g.items():
                        d[x] -= p
                        if d[x] == 0:
                            del d[x]
                    parts.append(scale(_mk_mon(d), kk * k2))
                return mul(out, sqrt(scale(add_many(parts), k)))
    rk = _isqrt_frac(abs(k))
    if rk is not None:
        out = scale(out, rk)
        k = F(1) if k > 0 else F(-1)
    if not rest and k == 1:
        return out
    if out == ONE and len(rest) == 1 and k == 1:
        (u,) = rest
        if OP[u] == "inv":
            return inv(sqrt(ARG[u]))
    return mul(out, fun("sqrt", scale(_mk_mon(rest), k)))


def exp(a):
    if a == ZERO:
        return ONE
    if OP[a] == "f" and ARG[a][0] == "log":
        return ARG[a][1]
    return fun("exp", a)


def log(a):
    if a == ONE:
        return ZERO
    if OP[a] == "f" and ARG[a][0] == "exp":
        return ARG[a][1]
    return fun("log", a)


def _odd_split(a):
    """(sign, |a|-canonical)"""
    c, its = _lin_parts(a)
    lead = its[0][1] if its else c
    return (-1, neg(a)) if lead < 0 else (1, a)


HALFPI = math.pi / 2


def _quarter(a):
    """split a = k*(pi/2) + rest (float literals of pi stand for pi)"""
    c, its = _lin_parts(a)
    if c == 0:
        return 0, a
    k = round(float(c) / HALFPI)
    if k != 0 and abs(float(c) - k * HALFPI) < 1e-6 * abs(k) and abs(k) < 100:
        return k, _mk_lin(_F0, dict(its))
    return 0, a


def sin(a):
    k, a = _quarter(a)
    if k % 4 == 1:
        return cos(a)
    if k % 4 == 2:
        return neg(sin(a))
    if k % 4 == 3:
        return neg(cos(a))
    if a == ZERO:
        return ZERO
    s, b = _odd_split(a)
    if OP[b] == "f":
        nm = ARG[b][0]
        if nm == "acos":
            x = ARG[b][1]
            return scale(sqrt(sub(ONE, mul(x, x))), F(s))
        if nm == "atan2":
            y, x = ARG[b][1], ARG[b][2]
            r2 = add(mul(x, x), mul(y, y))
            return scale(ite(eq0(r2), ZERO, div(y, sqrt(r2))), F(s))
    return scale(fun("sin", b), F(s))


def cos(a):
    k, a = _quarter(a)
    if k % 4 == 1:
        return neg(sin(a))
    if k % 4 == 2:
        return neg(cos(a))
    if k % 4 == 3:
        return sin(a)
    if a == ZERO:
        return ONE
    _, b = _odd_split(a)
    if OP[b] == "f":
        nm = ARG[b][0]
        if nm == "acos":
            return ARG[b][1]
        if nm == "atan2":
            y, x = ARG[b][1], ARG[b][2]
            r2 = add(mul(x, x), mul(y, y))
            return ite(eq0(r2), ONE, div(x, sqrt(r2)))
    return fun("cos", b)


def atan2(y, x):
    if is_const(y) and is_const(x):
        if y == ZERO and cval(x) >= 0:
            return ZERO
        return fconst(math.atan2(float(cval(y)), float(cval(x))))
    cf = []
    for t in (y, x):
        c, its = _lin_parts(t)
        cf += [k for k in [c] + [kk for _, kk in its] if k != 0]
    g = _content(cf)
    if g != 1:
        y, x = scale(y, 1 / g), scale(x, 1 / g)
    return fun("atan2", y, x)


def acos(x):
    if is_const(x) and abs(cval(x)) <= 1:
        return ZERO if x == ONE else fconst(math.acos(float(cval(x))))
    return fun("acos", x)


def floor(a):
    if OP[a] == "c":
        return const(math.floor(ARG[a]))
    if SORT[a] == "I":
        return a
    # pull integer constants out
    c, its = _lin_parts(a)
    fc = math.floor(c)
    ints = {t: k for t, k in its if SORT[t] == "I" and k.denominator == 1}
    if fc != 0 or ints:
        base = _mk_lin(F(fc), ints)
        rest = sub(a, base)
        if SORT[rest] == "I":
            return a
        return add(base, floor(rest) if is_const(rest) else fun("floor", rest))
    return fun("floor", a)


def trunc(a):
    return ite(lt0(a), neg(floor(neg(a))), floor(a))


def ceil(a):
    return neg(floor(neg(a)))


def round_half_even(a):
    if OP[a] == "c":
        return const(round(ARG[a]))
    if SORT[a] == "I":
        return a
    f = floor(a)
    r = sub(a, f)  # in [0,1)
    h = const(F(1, 2))
    even = eq(floor(scale(f, F(1, 2))), scale(f, F(1, 2)))
    return ite(lt(r, h), f, ite(lt(h, r), add(f, ONE), ite(even, f, add(f, ONE))))


def sigmoid(a):
    return inv(add(ONE, exp(neg(a))))


# ------------------------------------------------------------------ traversal
def children(t):
    op, a = OP[t], ARG[t]
    if op in ("c", "v", "true", "false"):
        return ()
    if op == "lin":
        return tuple(x for x, _ in a[1])
    if op == "mon":
        return tuple(x for x, _ in a)
    if op in ("inv", "lt0", "le0", "eq0", "not"):
        return (a,)
    if op == "f":
        return tuple(x for x in a[1:] if isinstance(x, int))
    if op in ("ite", "and", "or"):
        return a
    raise ValueError(op)


def reach(roots):
    """all reachable ids, ascending (children first)"""
    seen = set()
    st = list(roots)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        st.extend(c for c in children(t) if c not in seen)
    return sorted(seen)


_varc: dict = {}


def variables(t):
    r = _varc.get(t)
    if r is None:
        for u in reach([t]):
            if u in _varc:
                continue
            if OP[u] == "v":
                _varc[u] = frozenset((u,))
            else:
                ch = children(u)
                if not ch:
                    _varc[u] = frozenset()
                elif len(ch) == 1:
                    _varc[u] = _varc[ch[0]]
                else:
                    _varc[u] = frozenset().union(*[_varc[c] for c in ch])
        r = _varc[t]
    return r


def rebuild(t, ch):
    """rebuild node t with children mapped through dict ch"""
    op, a = OP[t], ARG[t]
    if op in ("c", "v", "true", "false"):
        return t
    if op == "lin":
        if all(ch[u] == u for u, _ in a[1]):
            return t
        return add_many([const(a[0])] + [scale(ch[u], k) for u, k in a[1]])
    if op == "mon":
        if all(ch[u] == u for u, _ in a):
            return t
        r = ONE
        for u, p in a:
            r = mul(r, powi(ch[u], p))
        return r
    if op == "inv":
        return t if ch[a] == a else inv(ch[a])
    if op == "lt0":
        return t if ch[a] == a else lt0(ch[a])
    if op == "le0":
        return t if ch[a] == a else le0(ch[a])
    if op == "eq0":
        return t if ch[a] == a else eq0(ch[a])
    if op == "not":
        return t if ch[a] == a else not_(ch[a])
    if op == "ite":
        c, x, y = a
        if ch[c] == c and ch[x] == x and ch[y] == y:
            return t
        return ite(ch[c], ch[x], ch[y])
    if op == "and":
        return and_(*[ch[x] for x in a])
    if op == "or":
        return or_(*[ch[x] for x in a])
    if op == "f":
        args = [ch[x] if isinstance(x, int) else x for x in a[1:]]
        return fbuild(a[0], args)
    raise ValueError(op)


def fbuild(name, args):
    if name in ("sqrt", "exp", "log", "sin", "cos", "floor", "acos", "atan2"):
        return globals()[name](*args)
    return fun(name, *args)


def subst(t, m):
    """substitute ids by ids"""
    ch = {}
    for u in reach([t]):
        ch[u] = m[u] if u in m else rebuild(u, ch)
    return ch[t]


# ------------------------------------------------------------------ numeric evaluation (vectorised, floats)
def evalv(t, env, memo):
    """env: var id -> np array; memo: dict"""
    for u in reach([t]) if t not in memo else ():
        if u in memo:
            continue
        memo[u] = _eval1(u, env, memo)
    return memo[t]


def _fl(x: F):
    try:
        return x.numerator / x.denominator
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def _eval1(u, env, memo):
    op, a = OP[u], ARG[u]
    if op == "c":
        return _fl(a)
    if op == "v":
        return env[u]
    if op == "lin":
        r = _fl(a[0])
        for t, k in a[1]:
            r = r + _fl(k) * memo[t]
        return r
    if op == "mon":
        r = 1.0
        for t, p in a:
            r = r * (memo[t] if p == 1 else memo[t] ** p)
        return r
    with np.errstate(all="ignore"):
        if op == "inv":
            return np.divide(1.0, memo[a])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "lt0":
            return np.less(memo[a], 0)
        if op == "le0":
            return np.less_equal(memo[a], 0)
        if op == "eq0":
            return np.equal(memo[a], 0)
        if op == "not":
            return np.logical_not(memo[a])
        if op == "and":
            r = memo[a[0]]
            for x in a[1:]:
                r = np.logical_and(r, memo[x])
            return r
        if op == "or":
            r = memo[a[0]]
            for x in a[1:]:
                r = np.logical_or(r, memo[x])
            return r
        if op == "ite":
            return np.where(memo[a[0]], memo[a[1]], memo[a[2]])
        if op == "f":
            nm = a[0]
            xs = [memo[x] for x in a[1:] if isinstance(x, int)]
            fn = NUM.get(nm)
            if fn is None:
                return np.asarray(xs[0]) * np.nan if xs else np.nan
            return fn(*xs)
    raise ValueError(op)


NUM = {
    "sqrt": np.sqrt, "exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos, "acos": np.arccos,
    "atan2": np.arctan2, "atan": np.arctan, "asin": np.arcsin, "floor": np.floor, "tanh": np.tanh,
    "pow": np.power, "erf": np.vectorize(math.erf), "tan": np.tan, "log1p": np.log1p, "expm1": np.expm1,
}


def show(t, depth=6):
    op, a = OP[t], ARG[t]
    if op == "c":
        return str(a)
    if op == "v":
        return str(a)
    if op in ("true", "false"):
        return op
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    if op == "lin":
        return "(" + " + ".join(([str(a[0])] if a[0] else []) + [(f"{k}*" if k != 1 else "") + s(u) for u, k in a[1][:12]]) + (" + ..." if len(a[1]) > 12 else "") + ")"
    if op == "mon":
        return "*".join(s(u) + (f"^{p}" if p != 1 else "") for u, p in a)
    if op == "inv":
        return f"1/({s(a)})"
    if op in ("lt0", "le0", "eq0"):
        return f"{s(a)}{dict(lt0='<', le0='<=', eq0='==')[op]}0"
    if op == "not":
        return f"!({s(a)})"
    if op == "ite":
        return f"ite({s(a[0])}, {s(a[1])}, {s(a[2])})"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a[:8]) + ")"
    if op == "f":
        return f"{a[0]}({', '.join(s(x) if isinstance(x, int) else str(x) for x in a[1:])})"
    return "?"

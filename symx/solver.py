"""Terms -> z3, satisfiability and proof queries."""
import os
import sys
import time
from fractions import Fraction as F

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

from . import nf as NFM  # noqa: E402
from . import terms as T  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.nf_proved = 0
        self.syntactic = 0
        self.splits = 0

    def add(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k) + v)

    def dict(self):
        return dict(self.__dict__)


STATS = Stats()


class Z3Enc:
    """Encoder with definitional side constraints for inv/sqrt/functions."""

    def __init__(self, pure_int=True):
        self.e = {}
        self.side = {}  # term id -> list of z3 constraints
        self.vars = {}

    def enc(self, t):
        e = self.e
        if t in e:
            return e[t]
        for u in T.reach([t]):
            if u not in e:
                e[u] = self._e1(u)
        return e[t]

    def num(self, u):
        x = self.e[u]
        return x

    def _real(self, x):
        return z3.ToReal(x) if z3.is_int(x) else x

    def _e1(self, u):
        op, a = T.OP[u], T.ARG[u]
        e = self.e
        if op == "c":
            if a.denominator == 1:
                return z3.RealVal(a.numerator)
            return z3.RealVal(f"{a.numerator}/{a.denominator}")
        if op == "v":
            s = T.SORT[u]
            nm = f"{a}"
            v = z3.Int(nm) if s == "I" else (z3.Bool(nm) if s == "B" else z3.Real(nm))
            self.vars[u] = v
            return v
        if op == "lin":
            if T.SORT[u] == "I":
                r = z3.IntVal(a[0].numerator)
                return z3.Sum([r] + [k.numerator * e[t] for t, k in a[1]])
            parts = [] if a[0] == 0 else [z3.RealVal(str(a[0]))]
            for t, k in a[1]:
                x = self._real(e[t])
                parts.append(x if k == 1 else z3.RealVal(str(k)) * x)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "mon":
            if T.SORT[u] == "I":
                fs = [e[t] for t, p in a for _ in range(p)]
            else:
                fs = [self._real(e[t]) for t, p in a for _ in range(p)]
            r = fs[0]
            for f in fs[1:]:
                r = r * f
            return r
        if op == "inv":
            q = z3.Real(f"inv!{u}")
            x = self._real(e[a])
            self.side[u] = [z3.Or(x == 0, q * x == 1)]
            return q
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("lt0", "le0", "eq0"):
            x = e[a]
            if op == "eq0":
                if T.SORT[a] == "B":
                    return z3.Not(x)
                return x == 0
            return x < 0 if op == "lt0" else x <= 0
        if op == "not":
            return z3.Not(e[a])
        if op == "and":
            return z3.And([e[x] for x in a])
        if op == "or":
            return z3.Or([e[x] for x in a])
        if op == "ite":
            x, y = e[a[1]], e[a[2]]
            if z3.is_int(x) != z3.is_int(y):
                x, y = self._real(x), self._real(y)
            if T.SORT[u] == "I" and z3.is_real(x):
                x, y = z3.ToInt(x), z3.ToInt(y)
            return z3.If(e[a[0]], x, y)
        if op == "f":
            return self._fun(u, a)
        raise ValueError(op)

    def _fun(self, u, a):
        nm = a[0]
        xs = [self._real(self.e[x]) for x in a[1:] if isinstance(x, int)]
        if nm == "floor":
            k = z3.Int(f"floor!{u}")
            self.side[u] = [z3.ToReal(k) <= xs[0], xs[0] < z3.ToReal(k) + 1]
            return k
        v = z3.Real(f"{nm}!{u}")
        s = []
        if nm == "sqrt":
            s.append(z3.Implies(xs[0] >= 0, z3.And(v >= 0, v * v == xs[0])))
        elif nm == "exp":
            s += [v > 0, z3.Implies(xs[0] >= 0, v >= 1), z3.Implies(xs[0] <= 0, v <= 1), v >= 1 + xs[0]]
        elif nm == "log":
            s += [z3.Implies(xs[0] >= 1, v >= 0), z3.Implies(z3.And(xs[0] > 0, xs[0] <= 1), v <= 0), z3.Implies(xs[0] > 0, v <= xs[0] - 1)]
        elif nm in ("sin", "cos"):
            s += [v <= 1, v >= -1]
        elif nm == "acos":
            s += [z3.Implies(z3.And(xs[0] >= -1, xs[0] <= 1), z3.And(v >= 0, v <= z3.RealVal("3.1415926536")))]
        elif nm == "atan2":
            pi = z3.RealVal("3.141592653589793")
            y, x = xs
            s += [v <= pi, v >= -pi, z3.Implies(y > 0, z3.And(v > 0, v < pi)), z3.Implies(y < 0, z3.And(v < 0, v > -pi)),
                  z3.Implies(z3.And(y == 0, x >= 0), v == 0), z3.Implies(z3.And(y == 0, x < 0), v == pi),
                  z3.Implies(x > 0, z3.And(v < pi / 2, v > -pi / 2)), z3.Implies(z3.And(x < 0, y >= 0), v > pi / 2), z3.Implies(z3.And(x < 0, y < 0), v < -pi / 2)]
        elif nm == "tanh":
            s += [v < 1, v > -1]
        self.side[u] = s
        return v

    def sides(self, ts):
        """side constraints of all nodes reachable from ts (+ pairwise function axioms)"""
        out = []
        sc = {}
        mono = {}
        R = set(T.reach(ts))
        todo = list(R)
        for u in todo:
            if u in self.side:
                out.extend(self.side[u])
            if T.OP[u] == "f":
                nm = T.ARG[u][0]
                if nm in ("sin", "cos"):
                    sc.setdefault(T.ARG[u][1], {})[nm] = u
                elif nm in ("exp", "log", "sqrt", "acos"):
                    mono.setdefault(nm, []).append(u)
        for x, d in sc.items():
            s = self.enc(T.sin(x)) if "sin" not in d else self.e[d["sin"]]
            c = self.enc(T.cos(x)) if "cos" not in d else self.e[d["cos"]]
            out.append(s * s + c * c == 1)
        for nm, us in mono.items():
            if nm == "sqrt" or len(us) > 8:
                continue
            for i in range(len(us)):
                for j in range(i + 1, len(us)):
                    a, b = self._real(self.e[T.ARG[us[i]][1]]), self._real(self.e[T.ARG[us[j]][1]])
                    fa, fb = self.e[us[i]], self.e[us[j]]
                    if nm == "acos":
                        out.append(z3.Implies(z3.And(a >= -1, b <= 1, a < b), fa > fb))
                        out.append(z3.Implies(z3.And(b >= -1, a <= 1, b < a), fb > fa))
                    elif nm == "exp":
                        out.append((a < b) == (fa < fb))
                        out.append((a == b) == (fa == fb))
                    else:
                        out.append(z3.Implies(z3.And(a > 0, b > 0), (a < b) == (fa < fb)))
        return out


ENC = Z3Enc()


def slice_pc(pc, goal_vars):
    """constraints transitively sharing variables with the goal"""
    rest = list(pc)
    gv = set(goal_vars)
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c in rest:
            vs = T.variables(c)
            if vs & gv or not vs:
                out.append(c)
                if not vs <= gv:
                    gv |= vs
                    changed = True
            else:
                nr.append(c)
        rest = nr
    return out


_qcache: dict = {}


def _is_linear(ts):
    for u in T.reach(ts):
        if T.OP[u] == "mon" or (T.OP[u] == "f" and T.ARG[u][0] != "floor") or T.OP[u] == "inv":
            return False
    return True


def check_sat(cons, timeout_ms=3000, want_model=False, tactic=None):
    """cons: list of boolean term ids. -> ('sat', model|None) / ('unsat', None) / ('unknown', None)"""
    cons = [c for c in dict.fromkeys(cons) if c != T.TRUE]
    if T.FALSE in cons:
        return "unsat", None
    if not cons:
        return "sat", {}
    key = (tuple(sorted(cons)), tactic)
    hit = _qcache.get(key)
    if hit is not None and (hit[0] == "unsat" or (hit[0] == "sat" and (hit[1] is not None or not want_model)) or (hit[0] == "unknown" and hit[2] >= timeout_ms)):
        return hit[0], hit[1]
    t0 = time.time()
    exprs = [ENC.enc(c) for c in cons]
    sides = ENC.sides(cons)
    if tactic == "nlsat":
        s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-term-ite", "simplify", "qfnra-nlsat").solver()
    elif tactic == "qfnra":
        s = z3.Tactic("qfnra").solver()
    elif tactic == "smt":
        s = z3.SimpleSolver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    try:
        s.set("max_memory", 3000)
    except z3.Z3Exception:
        pass
    s.add(*exprs)
    if sides:
        s.add(*sides)
    if any(T.has_huge(c) for c in cons):
        # infinities are huge constants: inputs are then bounded by a million
        for v in set().union(*[T.variables(c) for c in cons]):
            if T.SORT[v] == "R":
                s.add(ENC.e[v] <= 1000000, ENC.e[v] >= -1000000)
    try:
        r = s.check()
    except z3.Z3Exception as ex:  # e.g. tactic failure
        r = z3.unknown
    STATS.queries += 1
    STATS.time += time.time() - t0
    rs = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
    setattr(STATS, rs, getattr(STATS, rs) + 1)
    m = None
    if rs == "sat" and want_model:
        m = {}
        mod = s.model()
        vs = set()
        for c in cons:
            vs |= T.variables(c)
        for v in vs:
            m[v] = z3val(mod.eval(ENC.e[v], model_completion=True))
    _qcache[key] = (rs, m, timeout_ms)
    return rs, m


def z3val(x):
    if z3.is_int_value(x):
        return F(x.as_long())
    if z3.is_rational_value(x):
        return F(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_algebraic_value(x):
        a = x.approx(40)
        return F(a.numerator_as_long(), a.denominator_as_long())
    return F(0)


def sat_portfolio(cons, timeout_ms, want_model=True):
    lin = _is_linear(cons)
    if lin:
        return check_sat(cons, timeout_ms, want_model)
    r, m = check_sat(cons, min(timeout_ms, 2000), want_model)
    if r != "unknown":
        return r, m
    for tac in ("nlsat", "smt", None):
        r, m = check_sat(cons, timeout_ms, want_model, tac)
        if r != "unknown":
            return r, m
    return "unknown", None


class Defs:
    pass


def find_ite_cond(t, skip=frozenset()):
    """an ite condition inside t whose own condition has no ite (innermost-first)"""
    for u in T.reach([t]):
        if T.OP[u] == "ite":
            return T.ARG[u][0]
    return None


def resolve(t, c, val):
    """replace condition c (and its negation) by val inside t"""
    m = {c: T.TRUE if val else T.FALSE}
    n = T.not_(c)
    m[n] = T.FALSE if val else T.TRUE
    # a < 0 decided => non-strict counterpart knowledge
    return T.subst(t, m)


_rulesc: dict = {}


def rules_of(pc):
    k = tuple(c for c in pc if T.OP[c] == "eq0")
    r = _rulesc.get(k)
    if r is None:
        r = _rulesc[k] = NFM.pc_rules(k)
    return r


_bkc: dict = {}


def _bound_keys(x):
    """x = k * (key + c) with a constant-free monic key: [(key, c, k)] for the term itself and for its expansion"""
    r = _bkc.get(x)
    if r is None:
        r = []
        forms = [x]
        nodes = T.reach([x])
        if len(nodes) < 200 and any(T.OP[u] == "mon" for u in nodes):
            nd = NFM.numer(x, 3000)
            if nd is not None and nd[1] == T.ONE and nd[0] != x:
                forms.append(nd[0])
        for f in forms:
            c, its = T._lin_parts(f)
            if its:
                k = its[0][1]
                r.append((T._mk_lin(F(0), {t: m / k for t, m in its}), c / k, k))
        _bkc[x] = r
    return r


_bpc: dict = {}


def _fact_bounds(f):
    """bounds key >= v / key <= v given by a fact: [(key, is_lower, v, strict)]"""
    r = _bpc.get(f)
    if r is None:
        r = []
        if T.OP[f] in ("lt0", "le0", "eq0") and T.SORT[T.ARG[f]] != "B":
            for key, c, k in _bound_keys(T.ARG[f]):
                st = T.OP[f] == "lt0"
                if T.OP[f] == "eq0":
                    r += [(key, True, -c, False), (key, False, -c, False)]
                else:
                    r.append((key, k < 0, -c, st))
        _bpc[f] = r
    return r


def bound_decide(c, pc):
    """decide a comparison from facts about the same term up to a constant: True / False / None"""
    op = T.OP[c]
    for key, a, k in _bound_keys(T.ARG[c]):
        lo = hi = None
        for f in pc:
            for q, low, v, st in _fact_bounds(f):
                if q == key:
                    if low:
                        if lo is None or v > lo[0] or (v == lo[0] and st):
                            lo = (v, st)
                    elif hi is None or v < hi[0] or (v == hi[0] and st):
                        hi = (v, st)
        if lo is None and hi is None:
            continue
        v = -a  # literal: key <op> v (k > 0) or key >op v (k < 0)
        if op == "eq0":
            if lo is not None and (lo[0] > v or (lo[0] == v and lo[1])) or hi is not None and (hi[0] < v or (hi[0] == v and hi[1])):
                return False
            continue
        st = op == "lt0"
        if k > 0:
            if hi is not None and (hi[0] < v or (hi[0] == v and (hi[1] or not st))):
                return True
            if lo is not None and (lo[0] > v or (lo[0] == v and (lo[1] or st))):
                return False
        else:
            if lo is not None and (lo[0] > v or (lo[0] == v and (lo[1] or not st))):
                return True
            if hi is not None and (hi[0] < v or (hi[0] == v and (hi[1] or st))):
                return False
    return None


_lnc: dict = {}


def _linear_form(c):
    """(op, constant, {monomial: coefficient}) of a comparison in expanded form, None when its denominator has no known sign"""
    r = _lnc.get(c, 0)
    if r == 0:
        r = None
        if T.OP[c] in ("lt0", "le0", "eq0") and T.SORT[T.ARG[c]] != "B" and not T.has_huge(c):
            nd = NFM.numer(T.ARG[c], 3000) if len(T.reach([c])) < 400 else None
            if nd is not None and (nd[1] == T.ONE or T.sign_of(nd[1]) in ("p", "nn")):
                k, its = T._lin_parts(nd[0])
                r = (T.OP[c], k, dict(its))
        _lnc[c] = r
    return r


def linearised_unsat(cons):
    """sound unsatisfiability test: comparisons expanded to polynomials, every monomial an independent variable (even ones non-negative)"""
    forms = []
    for c in cons:
        neg = T.OP[c] == "not"
        f = _linear_form(T.ARG[c] if neg else c)
        if f is None:
            continue
        op, k, its = f
        if neg:
            if op == "eq0":
                continue
            op, k, its = ("le0" if op == "lt0" else "lt0"), -k, {t: -m for t, m in its.items()}
        forms.append((op, k, its))
    if not forms:
        return False
    # products of two non-negative quantities among the non-linear facts
    nl = [f for f in forms if f[0] != "eq0" and any(T.OP[t] == "mon" for t in f[2])][-5:]
    for i in range(len(nl)):
        for j in range(i + 1, len(nl)):
            if len(nl[i][2]) * len(nl[j][2]) > 400:
                continue
            p = NFM.numer(T.mul(T._mk_lin(nl[i][1], nl[i][2]), T._mk_lin(nl[j][1], nl[j][2])), 3000)
            if p is not None and p[1] == T.ONE:
                k, its = T._lin_parts(p[0])
                forms.append(("le0", -k, {t: -m for t, m in its}))
    vs: dict = {}
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 1000)
    for op, k, its in forms:
        e = z3.RealVal(str(k))
        for t, m in its.items():
            if t not in vs:
                vs[t] = z3.Real(f"m{t}")
                if T.sign_of(t) in ("p", "nn"):
                    s.add(vs[t] >= 0)
            e = e + z3.RealVal(str(m)) * vs[t]
        s.add(e < 0 if op == "lt0" else e <= 0 if op == "le0" else e == 0)
    STATS.queries += 1
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
        return True
    STATS.unknown += 1
    return False


def quick_nf(c, pc):
    """decide a comparison literal by rational normal form or by bounds of the same term: True / False / None"""
    neg = False
    if T.OP[c] == "not":
        neg, c = True, T.ARG[c]
    if T.OP[c] not in ("lt0", "le0", "eq0") or T.SORT[T.ARG[c]] == "B":
        return None
    r = bound_decide(c, pc)
    if r is not None:
        return r != neg
    x = T.ARG[c]
    nodes = T.reach([x])
    if len(nodes) > 300:
        return None
    if not any(T.OP[u] in ("mon", "inv", "f") for u in nodes):
        return None
    k = (c, tuple(q for q in pc if T.OP[q] == "eq0"))
    if k in _qnfc:
        r = _qnfc[k]
    else:
        r = None
        nd = NFM.numer(x, 3000, rules_of(pc))
        if nd is not None:
            n, d = nd
            if d == T.ONE:
                r2 = {"lt0": T.lt0, "le0": T.le0, "eq0": T.eq0}[T.OP[c]](n)
                if r2 in (T.TRUE, T.FALSE):
                    r = r2 == T.TRUE
            elif n == T.ZERO:
                r = T.OP[c] != "lt0"
        _qnfc[k] = r
    return None if r is None else (r != neg)


_qnfc: dict = {}
_nbc: dict = {}


def norm_bool(c, pc):
    """c with its comparisons brought to rational normal form (only those with function atoms and no denominators)"""
    op = T.OP[c]
    if op == "not":
        return T.not_(norm_bool(T.ARG[c], pc))
    if op in ("and", "or"):
        xs = [norm_bool(x, pc) for x in T.ARG[c]]
        return T.and_(*xs) if op == "and" else T.or_(*xs)
    if op not in ("lt0", "le0", "eq0") or T.SORT[T.ARG[c]] == "B":
        return c
    k = (c, tuple(pc))
    r = _nbc.get(k)
    if r is None:
        r = c
        nodes = T.reach([c])
        if len(nodes) < 300 and any(T.OP[u] == "f" and T.ARG[u][0] in ("atan2", "acos", "sqrt", "sin", "cos", "exp", "log") for u in nodes):
            nd = NFM.numer(T.ARG[c], 3000, rules_of(pc))
            if nd is not None and nd[1] == T.ONE:
                r = {"lt0": T.lt0, "le0": T.le0, "eq0": T.eq0}[op](nd[0])
                for _ in range(4):
                    q = find_ite_cond(r)
                    if q is None:
                        break
                    sl = slice_pc(pc, T.variables(q))
                    if check_sat(sl + [q], 300)[0] == "unsat":
                        r = resolve(r, q, False)
                    elif check_sat(sl + [T.not_(q)], 300)[0] == "unsat":
                        r = resolve(r, q, True)
                    else:
                        break
                    if T.OP[r] in ("lt0", "le0", "eq0"):
                        nd = NFM.numer(T.ARG[r], 3000, rules_of(pc))
                        if nd is not None and nd[1] == T.ONE:
                            r = {"lt0": T.lt0, "le0": T.le0, "eq0": T.eq0}[T.OP[r]](nd[0])
        _nbc[k] = r
    return r


def with_norm(cons, pc):
    out = list(cons)
    for c in cons:
        n = norm_bool(c, pc)
        if n != c:
            out.append(n)
    return out


class Prover:
    def __init__(self, timeout_ms=8000, max_splits=400):
        self.timeout = timeout_ms
        self.max_splits = max_splits
        self.splits = 0
        self.nf_depth = 0

    def prove(self, pc, goal):
        """('proved',None) | ('refuted', model) | ('unknown', None)"""
        self.splits = 0
        return self._prove(list(pc), goal)

    def _atoms(self, goal):
        if T.OP[goal] == "and":
            return list(T.ARG[goal])
        return [goal]

    def _prove(self, pc, goal):
        if goal == T.TRUE or goal in pc:
            STATS.syntactic += 1
            return "proved", None
        if T.not_(goal) in pc:
            r, m = sat_portfolio(pc, self.timeout)
            return ("refuted", m) if r == "sat" else (("proved", None) if r == "unsat" else ("unknown", None))
        if T.OP[goal] == "and":
            for g in T.ARG[goal]:
                r = self._prove(pc, g)
                if r[0] != "proved":
                    return r
            return "proved", None
        # substitute facts of the pc
        g2 = simp_with(goal, pc)
        if g2 != goal:
            return self._prove(pc, g2)
        if T.OP[goal] == "eq0" and T.SORT[T.ARG[goal]] != "B":
            r = self._prove_eq0(pc, goal)
            if r is not None:
                return r
        qn = quick_nf(goal, pc)
        if qn is True:
            STATS.nf_proved += 1
            return "proved", None
        if T.OP[goal] == "or":
            # a or b : under not a prove b
            xs = list(T.ARG[goal])
            last = None
            for x in xs:
                if T.OP[x] == "eq0":
                    last = x
            if last is not None and len(xs) > 1:
                hyp = [T.not_(x) for x in xs if x != last]
                hyps = []
                for h in hyp:
                    hyps += list(T.ARG[h]) if T.OP[h] == "and" else [h]
                return self._prove(pc + hyps, last)
        return self._z3(pc, goal)

    def _z3(self, pc, goal):
        neg = T.not_(goal)
        sl = slice_pc(pc, T.variables(neg))
        lin = _is_linear(sl + [neg])
        if lin:
            r, m = check_sat(sl + [neg], self.timeout, True)
        else:
            r, m = check_sat(sl + [neg], 1500, True)
            if r == "unknown":
                # rational normal form of the compared term, then strategies
                if linearised_unsat(pc + [neg]):
                    return "proved", None
                s = self._split(pc, goal)
                if s is not None:
                    return s
                r, m = self._normalised(sl, goal)
        if r == "unsat":
            return "proved", None
        if r == "sat":
            if len(sl) < len(pc):
                r2, m2 = sat_portfolio(pc + [neg], self.timeout)
                if r2 == "unsat":
                    return "proved", None
                if r2 == "sat":
                    return "refuted", m2
                if self.splits:  # the split branch itself may be infeasible
                    return "unknown", None
            return "refuted", m
        return "unknown", None

    def _normalised(self, sl, goal):
        neg = T.not_(goal)
        g2 = clear_dens(neg)
        base = [clear_dens(c) for c in sl]
        cons = base + ([g2] if g2 is not None else [neg])
        r, m = sat_portfolio(cons, self.timeout)
        if r == "sat":
            # a model of the denominator-free form; dens are asserted non-zero
            return r, m
        if r == "unknown":
            r, m = sat_portfolio(sl + [neg], self.timeout)
        return r, m

    def _split(self, pc, goal):
        c = find_ite_cond(goal)
        if c is None:
            return None
        self.splits += 1
        STATS.splits += 1
        if self.splits > self.max_splits:
            return "unknown", None
        res = None
        for val in (True, False):
            lit = c if val else T.not_(c)
            cs = list(T.ARG[lit]) if T.OP[lit] == "and" else [lit]
            qn = quick_nf(lit, pc)
            if qn is False:
                continue
            if qn is True:
                return self._prove(pc, resolve(goal, c, val))
            if not _is_linear(cs) and linearised_unsat(pc + cs):
                continue
            r, _ = check_sat(with_norm(slice_pc(pc, T.variables(lit)) + cs, pc), 1000)
            if r == "unsat":
                continue
            g = resolve(goal, c, val)
            r = self._prove(pc + cs, g)
            if r[0] != "proved":
                return r
        return "proved", None

    def _prove_eq0(self, pc, goal):
        d = T.ARG[goal]
        z = NFM.is_zero(d, rules=rules_of(pc))
        if z:
            STATS.nf_proved += 1
            return "proved", None
        c = find_ite_cond(d)
        if c is not None:
            lin = _is_linear([d])
            if not lin or len(T.reach([d])) > 400:
                return self._split(pc, goal)
        elif self.nf_depth < 4 and any(T.OP[u] == "f" for u in T.reach([d])):
            nd = NFM.numer(d, 8000, rules_of(pc))
            if nd is not None and nd[0] != d and find_ite_cond(nd[0]) is not None:
                self.nf_depth += 1
                try:
                    return self._prove(pc, T.eq0(nd[0]))
                finally:
                    self.nf_depth -= 1
        return None


def clear_dens(t):
    """equivalent (where denominators are non-zero) denominator-free form of a comparison / boolean combination"""
    op = T.OP[t]
    if op in ("and", "or"):
        xs = [clear_dens(x) for x in T.ARG[t]]
        return T.and_(*xs) if op == "and" else T.or_(*xs)
    if op == "not":
        return T.not_(clear_dens(T.ARG[t])) if T.OP[T.ARG[t]] != "eq0" else _cd_ne(T.ARG[t])
    if op in ("lt0", "le0", "eq0") and T.SORT[T.ARG[t]] != "B":
        nd = NFM.numer(T.ARG[t], 4000)
        if nd is None:
            return t
        n, d = nd
        if d == T.ONE:
            return {"lt0": T.lt0, "le0": T.le0, "eq0": T.eq0}[op](n)
        nz = T.not_(T.eq0(d))
        if op == "eq0":
            return T.and_(T.eq0(n), nz)
        f = T.lt0 if op == "lt0" else T.le0
        s = T.sign_of(d)
        if s == "p":
            return f(n)
        return T.and_(f(T.mul(n, d)), nz)
    return t


def _cd_ne(t):
    nd = NFM.numer(T.ARG[t], 4000)
    if nd is None:
        return T.not_(t)
    n, d = nd
    return T.and_(T.not_(T.eq0(n)), T.not_(T.eq0(d)) if d != T.ONE else T.TRUE)


def simp_with(t, facts):
    m = {}
    for f in facts:
        m[f] = T.TRUE
        m[T.not_(f)] = T.FALSE
        if T.OP[f] == "lt0":
            # x<0  =>  x<=0 true, x==0 false, -x<0 false ...
            x = T.ARG[f]
            m[T.le0(x)] = T.TRUE
            m[T.eq0(x)] = T.FALSE
            m[T.lt0(T.neg(x))] = T.FALSE
            m[T.not_(T.eq0(x))] = T.TRUE
        elif T.OP[f] == "eq0" and T.SORT[T.ARG[f]] != "B":
            x = T.ARG[f]
            m[T.lt0(x)] = T.FALSE
            m[T.lt0(T.neg(x))] = T.FALSE
            m[T.le0(x)] = T.TRUE
            m[T.le0(T.neg(x))] = T.TRUE
    for k in (T.TRUE, T.FALSE):
        m.pop(k, None)
    if not m:
        return t
    return T.subst(t, m)

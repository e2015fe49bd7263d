"""Path exploration and the context handed to harnesses."""
import random
import time
from fractions import Fraction as F

import numpy as np

from . import solver as S
from . import terms as T


class PathEnd(BaseException):
    """this path is infeasible / pruned"""


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Violation(Exception):
    def __init__(self, name, model, choices, detail=""):
        super().__init__(name)
        self.name, self.model, self.choices, self.detail = name, model, choices, detail


CUR = None  # current symbolic path context


def cur():
    return CUR


NS = 192  # numeric sample points used to show feasibility cheaply


class SymCtx:
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.facts = set()
        self.bounds = {}  # linear form with leading coefficient 1 -> [lower, strict, upper, strict]
        self.env = {}
        self.memo = {}
        self.alive = np.ones(NS, bool)
        self.rng = np.random.RandomState(ex.seed)
        self.inputs = {}  # name -> tensor of ids etc.
        self.pending_checks = []
        self.reached = set()

    # ---------------------------------------------------------------- inputs
    def _newvar(self, name, sort, sampler):
        v = T.var(name, sort)
        if v not in self.env:
            self.env[v] = sampler()
        return v

    def _sampler(self, lo, hi, sort):
        r = self.rng
        a = -3.0 if lo is None else float(lo)
        b = 3.0 if hi is None else float(hi)
        if sort == "I":
            return lambda: r.randint(int(a), int(b) + 1, NS).astype(float)
        if sort == "B":
            return lambda: r.rand(NS) < 0.5

        def f():
            x = r.rand(NS) * (b - a) + a
            # some simple fractions and ties
            k = NS // 4
            x[:k] = np.clip(np.round(x[:k] * 2) / 2, a, b)
            return x

        return f

    def real_ids(self, name, n, lo=None, hi=None, strict=False, sort="R"):
        ids = []
        for i in range(n):
            v = self._newvar(f"{name}[{i}]", sort, self._sampler(lo, hi, sort))
            ids.append(v)
            if lo is not None:
                self.assume_id(T.lt(T.const(F(lo)), v) if strict else T.le(T.const(F(lo)), v))
            if hi is not None:
                self.assume_id(T.lt(v, T.const(F(hi))) if strict else T.le(v, T.const(F(hi))))
        return ids

    # ---------------------------------------------------------------- path condition
    def _samples(self, c):
        try:
            r = T.evalv(c, self.env, self.memo)
        except KeyError:
            return None
        r = np.broadcast_to(np.asarray(r, bool), (NS,))
        return r

    def _push(self, c):
        for x in T.ARG[c] if T.OP[c] == "and" else (c,):
            if x not in self.facts:
                self.facts.add(x)
                self.pc.append(x)
                self._bound(x)
        s = self._samples(c)
        if s is not None:
            self.alive = self.alive & s
        else:
            self.alive = np.zeros(NS, bool)

    @staticmethod
    def _form(x):
        """x = k0 * form + c"""
        c, its = T._lin_parts(x)
        if not its:
            return None
        k0 = its[0][1]
        return tuple((t, k / k0) for t, k in its), k0, c

    def _bound(self, a):
        """record the bound that the atom a gives for its linear form"""
        op = T.OP[a]
        if op not in ("le0", "lt0", "eq0") or T.SORT[T.ARG[a]] == "B":
            return
        f = self._form(T.ARG[a])
        if f is None:
            return
        key, k0, c = f
        b = self.bounds.setdefault(key, [None, False, None, False])
        v, strict = -c / k0, op == "lt0"
        if (op == "eq0" or k0 > 0) and (b[2] is None or v < b[2] or (v == b[2] and strict)):
            b[2], b[3] = v, strict
        if (op == "eq0" or k0 < 0) and (b[0] is None or v > b[0] or (v == b[0] and strict)):
            b[0], b[1] = v, strict

    def _range(self, t):
        """[lower, strict, upper, strict] of an atom of a linear form"""
        lo, ls, hi, hs = self.bounds.get(((t, 1),), (None, False, None, False))
        if lo is None or lo < 0 or (lo == 0 and not ls):
            if T.OP[t] == "f" and T.ARG[t][0] in ("sqrt", "exp", "abs"):
                pos = T.ARG[t][0] == "exp"
                if T.ARG[t][0] == "sqrt":
                    f = self._form(T.ARG[t][1])
                    if f is not None:
                        pos = self._positive(f)
                lo, ls = 0, bool(pos)
        return lo, ls, hi, hs

    def _positive(self, f):
        """is k0 * form + c > 0, from the bound of the form alone?"""
        key, k0, c = f
        lo, ls, hi, hs = self.bounds.get(key, (None, False, None, False))
        b, bs = (lo, ls) if k0 > 0 else (hi, hs)
        return b is not None and (k0 * b + c > 0 or (k0 * b + c == 0 and bs))

    def _cmp(self, x, strict):
        """decide x < 0 (strict) or x <= 0 from the recorded bounds"""
        f = self._form(x)
        if f is None:
            return None
        key, k0, c = f
        lo, ls, hi, hs = self.bounds.get(key, (None, False, None, False))
        if k0 < 0:
            lo, ls, hi, hs = hi, hs, lo, ls
        L = None if lo is None else (k0 * lo + c, ls)
        U = None if hi is None else (k0 * hi + c, hs)
        for M in (self._sum(x), None):
            if U is not None and (U[0] < 0 or (U[0] == 0 and (U[1] or not strict))):
                return True
            if L is not None and (L[0] > 0 or (L[0] == 0 and (L[1] or strict))):
                return False
            if M is None:
                break
            L, U = M
        return None

    def _sum(self, x):
        """bounds of a sum from the bounds of its terms"""
        c, its = T._lin_parts(x)
        L, U = (c, False), (c, False)
        for t, k in its:
            lo, ls, hi, hs = self._range(t)
            if k < 0:
                lo, ls, hi, hs = hi, hs, lo, ls
            L = None if L is None or lo is None else (L[0] + k * lo, L[1] or ls)
            U = None if U is None or hi is None else (U[0] + k * hi, U[1] or hs)
            if L is None and U is None:
                break
        return L, U

    def known(self, c):
        if c == T.TRUE or c in self.facts:
            return True
        if c == T.FALSE or T.not_(c) in self.facts:
            return False
        op = T.OP[c]
        if op == "and":
            ks = [self.known(x) for x in T.ARG[c]]
            if False in ks:
                return False
            return True if all(k is True for k in ks) else None
        if op == "or":
            ks = [self.known(x) for x in T.ARG[c]]
            if True in ks:
                return True
            return False if all(k is False for k in ks) else None
        if op == "le0":
            x = T.ARG[c]
            if T.lt0(x) in self.facts or T.eq0(x) in self.facts:
                return True
        if op == "lt0":
            x = T.ARG[c]
            if T.lt0(T.neg(x)) in self.facts or T.eq0(x) in self.facts:
                return False
        if op == "eq0":
            x = T.ARG[c]
            if T.SORT[x] != "B" and (T.lt0(x) in self.facts or T.lt0(T.neg(x)) in self.facts):
                return False
            if T.SORT[x] != "B" and (self._cmp(x, False) is False or self._cmp(x, True) is True):
                return False
        if op in ("le0", "lt0"):
            return self._cmp(T.ARG[c], op == "lt0")
        return None

    def assume_id(self, c):
        k = self.known(c)
        if k is True:
            return
        if k is False:
            raise PathEnd("assumption false")
        self._push(c)

    def feasible(self, c):
        """True/False; unknown counts as feasible"""
        s = self._samples(c)
        if s is not None and bool((s & self.alive).any()):
            return True
        self.ex.n_feas += 1
        qn = S.quick_nf(c, self.pc)
        if qn is not None and not qn:
            return False
        cons = S.with_norm(S.slice_pc(self.pc, T.variables(c)) + [c], self.pc)
        if S._is_linear(cons):
            r, m = S.check_sat(cons, self.ex.feas_ms, True)
        else:
            r, m = S.check_sat(cons, self.ex.feas_ms, True)
            if r == "unknown":
                # a second chance on the denominator-free form
                cons2 = [S.clear_dens(x) for x in cons]
                r, m = S.check_sat(cons2, self.ex.feas_ms, True, "nlsat")
        if r == "unknown":
            self.ex.n_feas_unknown += 1
        return r != "unsat"

    def branch(self, c):
        k = self.known(c)
        if k is None:
            # selections whose condition is decided on this path
            m = {}
            for u in T.reach([c]):
                if T.OP[u] == "ite" and T.ARG[u][0] not in m:
                    d = self.known(T.ARG[u][0])
                    if d is not None:
                        m[T.ARG[u][0]] = T.TRUE if d else T.FALSE
            if m:
                c = T.subst(c, m)
                k = c == T.TRUE if c in (T.TRUE, T.FALSE) else self.known(c)
        if k is not None:
            return k
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self._push(c if v else T.not_(c))
            return v
        self.ex.n_branch += 1
        if time.time() > self.ex.deadline:
            raise Budget("time budget exhausted during path exploration")
        ft = self.feasible(c)
        ff = self.feasible(T.not_(c))
        if not ft and not ff:
            raise PathEnd("infeasible")
        if ft and ff:
            if self.ex.prefer is not None:
                v = bool(self.ex.prefer(self))
            else:
                v = True
            self.ex.stack.append(self.taken + [not v])
        else:
            v = ft
        self.taken.append(v)
        self._push(c if v else T.not_(c))
        return v

    def choose_int(self, t, lo=None, hi=None):
        """concretise an integer term by forking over its feasible values"""
        if T.is_const(t):
            return int(T.cval(t))
        # a compound index: decide its conditions and rounding operations one after the other, then it is a constant
        for _ in range(64):
            sub = None
            for u in T.reach([t]):
                op = T.OP[u]
                if op == "ite":
                    cnd = T.ARG[u][0]
                    if any(T.OP[w] == "f" and T.ARG[w][0] == "floor" for w in T.reach([cnd])):
                        fl = next(w for w in T.reach([cnd]) if T.OP[w] == "f" and T.ARG[w][0] == "floor")
                        sub = {fl: T.const(self.choose_int(fl))}
                    else:
                        sub = {cnd: T.TRUE if self.branch(cnd) else T.FALSE}
                    break
                if u != t and op == "f" and T.ARG[u][0] == "floor":
                    sub = {u: T.const(self.choose_int(u))}
                    break
            if sub is None:
                break
            t = T.subst(t, sub)
            if T.is_const(t):
                return int(T.cval(t))
        tried = 0
        while True:
            # candidate value from samples or the solver
            v = None
            try:
                s = np.broadcast_to(np.asarray(T.evalv(t, self.env, self.memo), float), (NS,))
                a = s[self.alive]
                a = a[np.isfinite(a)]
                if len(a):
                    v = int(np.floor(a[0] + 1e-9))
            except KeyError:
                pass
            if v is None:
                z = T.var(f"__pick{tried}", "I")
                r, m = S.sat_portfolio(self.pc + [T.eq(z, t)], self.ex.feas_ms * 4)
                if r != "sat":
                    if r == "unsat":
                        raise PathEnd("infeasible")
                    raise Unsupported("cannot concretise integer")
                v = int(m[z])
            c = T.eq(t, T.const(v))
            if self.branch(c):
                return v
            tried += 1
            if tried > 200:
                raise Unsupported("integer with more than 200 values")

    def pick(self, name, options):
        """nondeterministic choice of one option (a symbolic integer variable)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self._newvar(f"pick:{name}", "I", self._sampler(0, len(options) - 1, "I"))
        self.env.pop(v, None)
        k = len(options) - 1
        for j in range(len(options) - 1):  # the variable is unconstrained: every value is feasible
            i = len(self.taken)
            if i < len(self.prefix):
                val = self.prefix[i]
            else:
                self.ex.n_branch += 1
                if time.time() > self.ex.deadline:
                    raise Budget("time budget exhausted during path exploration")
                val = True
                self.ex.stack.append(self.taken + [False])
            self.taken.append(val)
            if val:
                k = j
                break
        self.env[v] = np.full(NS, float(k))
        self._push(T.eq(v, T.const(k)))
        return options[k]


class Explorer:
    def __init__(self, seed=1, max_paths=100000, deadline=None, feas_ms=1500, prove_ms=8000, max_splits=400):
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = deadline or (time.time() + 600)
        self.feas_ms = feas_ms
        self.prover = S.Prover(prove_ms, max_splits)
        self.stack = [[]]
        self.n_paths = self.n_pruned = self.n_branch = 0
        self.n_feas = self.n_feas_unknown = 0
        self.n_checks = 0
        self.n_unknown = 0
        self.n_spurious = 0
        self.unknown_names = []
        self.prefer = None
        self.names = {}
        self.exhausted = False

    def run(self, fn, on_path=None):
        """fn(ctx) is executed once per feasible path."""
        global CUR
        while self.stack:
            if self.n_paths + self.n_pruned >= self.max_paths:
                return
            if time.time() > self.deadline:
                raise Budget("time budget exhausted")
            prefix = self.stack.pop()
            ctx = SymCtx(self, prefix)
            CUR = ctx
            try:
                fn(ctx)
                self.n_paths += 1
                if on_path:
                    on_path(ctx)
            except PathEnd:
                self.n_pruned += 1
            finally:
                CUR = None
        self.exhausted = True

    # ------------------------------------------------------------ deciding
    def decide(self, ctx, name, goal, detail=None):
        self.n_checks += 1
        self.names[name] = self.names.get(name, 0) + 1
        r, m = self.prover.prove(ctx.pc, goal)
        if r == "proved":
            return
        if r == "refuted" and spurious(ctx.pc, goal, m):
            self.n_spurious += 1
            r = "unknown"
        if r == "unknown":
            # refutation search: fix the inputs to sampled values satisfying the path condition, let the solver decide
            r2, m2 = self.search_model(ctx, goal)
            if r2:
                raise Violation(name, m2, list(ctx.taken), detail or T.show(goal, 4))
            self.n_unknown += 1
            self.unknown_names.append((name, T.show(goal, 3)[:300]))
            return
        m = self.improve(ctx, goal, m)
        raise Violation(name, m, list(ctx.taken), detail or T.show(goal, 4)[:400])

    def improve(self, ctx, goal, m):
        """prefer a model with a clear margin (so that it also shows in floating point)"""
        neg = T.not_(goal)
        best = m
        r2, m2 = self.search_model(ctx, goal, margin=1e-2)
        if r2:
            return m2
        marg = margin_form(neg, F(1, 100))
        if marg is not None:
            r, mm = S.sat_portfolio(ctx.pc + [marg], 4000)
            if r == "sat":
                best = mm
        return self.complete(ctx, best)

    def complete(self, ctx, m):
        m = dict(m or {})
        # variables outside the slice: satisfy the rest of the pc
        missing = [v for v in ctx.env if v not in m]
        if missing:
            fixed = [T.eq(v, T.const(x)) for v, x in m.items() if not isinstance(x, bool) and T.SORT[v] != "B"]
            r, mm = S.sat_portfolio(ctx.pc + fixed, 4000)
            if r == "sat":
                for v in missing:
                    if v in mm:
                        m[v] = mm[v]
        for v in ctx.env:
            if v not in m:
                a = ctx.env[v]
                i = int(np.argmax(ctx.alive)) if ctx.alive.any() else 0
                m[v] = bool(a[i]) if T.SORT[v] == "B" else F(float(a[i])).limit_denominator(1000)
        return m

    def search_model(self, ctx, goal, margin=None):
        try:
            neg = T.not_(goal)
            test = neg
            if margin is not None:
                t2 = margin_form(neg, F(margin))
                if t2 is not None:
                    test = t2
            s = ctx._samples(test)
        except Exception:
            return False, None
        if s is None:
            return False, None
        idx = np.nonzero(s & ctx.alive)[0]
        for i in idx[:6]:
            vs = set(T.variables(neg))
            for c in ctx.pc:
                vs |= T.variables(c)
            vs |= set(ctx.env)
            m = {}
            sub = {}
            ok = True
            for v in vs:
                if v not in ctx.env:
                    ok = False
                    break
                x = ctx.env[v][i]
                if T.SORT[v] == "B":
                    m[v] = bool(x)
                    sub[v] = T.TRUE if x else T.FALSE
                else:
                    fx = F(int(round(float(x)))) if T.SORT[v] == "I" else F(float(x)).limit_denominator(10**6)
                    m[v] = fx
                    sub[v] = T.const(fx)
            if not ok:
                return False, None
            cons = [T.subst(c, sub) for c in ctx.pc] + [T.subst(neg, sub)]
            r, _ = S.check_sat(cons, 3000)
            if r == "sat" or (r == "unknown" and margin is not None):
                return True, m
        return False, None


TRANS = ("exp", "log", "sin", "cos", "acos", "atan2", "tanh", "pow", "erf")


def spurious(pc, goal, m):
    """the model relies on wrong values of transcendental functions (they are only axiomatised for the solver)"""
    nodes = T.reach(list(pc) + [goal])
    if not any(T.OP[u] == "f" and T.ARG[u][0] in TRANS for u in nodes):
        return False
    env = {}
    for u in nodes:
        if T.OP[u] == "v":
            x = (m or {}).get(u)
            env[u] = np.float64(0) if x is None else (np.bool_(x) if isinstance(x, bool) else np.float64(float(x)))
    try:
        memo = {}
        if bool(T.evalv(goal, env, memo)):
            return True
        # near-equality counts as satisfied
        if T.OP[goal] == "eq0" and T.SORT[T.ARG[goal]] != "B" and abs(float(memo[T.ARG[goal]])) < 1e-7:
            return True
    except Exception:
        return False
    return False


def margin_form(neg, eps):
    """a stronger version of a violated comparison"""
    op = T.OP[neg]
    e = T.const(eps)
    if op == "not" and T.OP[T.ARG[neg]] == "eq0" and T.SORT[T.ARG[T.ARG[neg]]] != "B":
        x = T.ARG[T.ARG[neg]]
        return T.or_(T.lt(e, x), T.lt(x, T.neg(e)))
    if op == "lt0":
        return T.lt(T.ARG[neg], T.neg(e))
    if op == "le0":
        return T.lt(T.ARG[neg], T.neg(e))
    if op == "or":
        xs = [margin_form(x, eps) for x in T.ARG[neg]]
        xs = [x for x in xs if x is not None]
        return T.or_(*xs) if xs else None
    if op == "and":
        xs = [margin_form(x, eps) or x for x in T.ARG[neg]]
        return T.and_(*xs)
    return None

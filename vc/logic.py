"""Fold symbols (closed forms of loops), arithmetic axioms and the prover."""
import os
import time
import z3
from .values import *

# ---------------------------------------------------------------- functions
INV = z3.Function("inv", R, R)
_UF = {}


def uf(name, *sorts):
    key = (name, tuple(s.name() for s in sorts))
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


SQRT = uf("sqrt", R, R)


def sqrt(x):
    x = simp(to_real(x))
    if z3.is_rational_value(x):
        import math
        fr = x.as_fraction()
        if fr >= 0:
            n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if n * n == fr.numerator and d * d == fr.denominator:
                return z3.Q(n, d)
    return SQRT(x)


def fdiv(a, b):
    a, b = to_real(a), simp(to_real(b))
    if z3.is_rational_value(b):
        fr = b.as_fraction()
        if fr != 0:
            return a * z3.Q(fr.denominator, fr.numerator)
    # ite in the denominator is pushed outwards
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = b.children()
        return z3.If(c, fdiv(a, x), fdiv(a, y))
    # 1/(x*y) = 1/x * 1/y  (also with the convention 1/0 = 0, see axioms)
    if z3.is_mul(b):
        r = a
        for x in b.children():
            r = fdiv(r, x)
        return r
    if z3.is_app(b) and b.decl().name() == "inv" and b.num_args() == 1:
        return a * b.arg(0)
    return a * INV(b)


def floor_i(x):
    x = to_real(x)
    return z3.ToInt(x)


def trunc_i(x):
    x = to_real(x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


# -------------------------------------------------------------------- folds
class FoldDef:
    def __init__(self, kind, decl, k, params, step, acc=None, init=None):
        self.kind, self.decl, self.k, self.params, self.step = kind, decl, k, params, step
        self.acc, self.init = acc, init

    def at(self, app, kval):
        """step term of this application at index kval"""
        pairs = [(self.k, kval)] + list(zip(self.params, app.children()[1:]))
        return z3.substitute(self.step, *pairs)

    def at_acc(self, app, kval, acc):
        pairs = [(self.k, kval), (self.acc, acc)] + list(zip(self.params, app.children()[1:]))
        return z3.substitute(self.step, *pairs)

    def init_of(self, app):
        pairs = list(zip(self.params, app.children()[1:]))
        return z3.substitute(self.init, *pairs) if pairs else self.init


FOLDS = {}       # decl name -> FoldDef
_FOLDKEY = {}
_KEEP = []


def _sortname(s):
    return {"Int": "I", "Real": "R", "Bool": "B"}.get(s.name(), s.name())


def _ordered_consts(t):
    out, seen = [], set()

    def rec(x):
        stack = [x]
        while stack:
            y = stack.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_quantifier(y):
                stack.append(y.body())
            elif z3.is_app(y):
                if y.num_args() == 0:
                    if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.append(y)
                else:
                    stack.extend(reversed(y.children()))
    rec(t)
    return out


UNROLL = 8


def orient(t, k):
    """equations with the index on the left (so that equal steps get the same name)"""
    pairs = []
    seen, st = set(), [t]
    while st:
        a = st.pop()
        if a.get_id() in seen:
            continue
        seen.add(a.get_id())
        if z3.is_quantifier(a):
            st.append(a.body())
        elif z3.is_app(a):
            st.extend(a.children())
            if z3.is_eq(a):
                l, r = a.children()
                if _kfree(l, k) and not _kfree(r, k):
                    pairs.append((a, r == l))
    # innermost equations only: nested ones do not occur in conditions on indices
    return z3.substitute(t, *pairs) if pairs else t


SORTED = False      # (a proof may ask for it)


def connectives(t):
    """conjunctions and disjunctions in an order that does not depend on when their terms were made"""
    import re
    memo, names = {}, {}

    def name(x):
        if x.get_id() not in names:
            names[x.get_id()] = re.sub(r"[~!][0-9]+", "", x.sexpr())
        return names[x.get_id()]

    def rec(x):
        if not z3.is_app(x) or x.num_args() == 0:
            return x
        if x.get_id() not in memo:
            ch = [rec(c) for c in x.children()]
            if z3.is_and(x) or z3.is_or(x):
                ch.sort(key=name)
                r = z3.And(*ch) if z3.is_and(x) else z3.Or(*ch)
            elif all(c.eq(d) for c, d in zip(ch, x.children())):
                r = x
            elif x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and len(ch) != 2:
                r = (z3.Sum if x.decl().kind() == z3.Z3_OP_ADD else z3.Product)(ch)
            else:
                r = x.decl()(*ch)
            memo[x.get_id()] = r
        return memo[x.get_id()]
    return rec(t)


def _mkfold(kind, n, k, step, acc=None, init=None):
    n = simp(to_int(n))
    step = simp(step)
    if z3.is_int_value(n) and n.as_long() <= UNROLL:
        r = init if kind == "rec" else (rv(0) if step.sort() == R else iv(0))
        for i in range(n.as_long()):
            if kind == "rec":
                r = simp(z3.substitute(step, (k, iv(i)), (acc, r)))
            else:
                r = r + z3.substitute(step, (k, iv(i)))
        return simp(r)
    # the steps are those with 0 <= k < n
    pr = simp(z3.substitute(step, (simp(k >= 0), z3.BoolVal(True)), (n <= k, z3.BoolVal(False)), (k >= n, z3.BoolVal(False))))
    if not pr.eq(step):
        return _sum(n, pr, k, 0) if kind == "sum" else _mkfold(kind, n, k, pr, acc, init)
    step = orient(step, k)
    if SORTED:
        step = connectives(step)
    if init is not None:
        init = simp(init)
    probe = step if init is None else z3.Function("pair!", step.sort(), init.sort(), B)(step, init)
    bound = {k.get_id()} | ({acc.get_id()} if acc is not None else set())
    ps = [c for c in _ordered_consts(probe) if c.get_id() not in bound]
    canon = []
    pairs = [(k, z3.Const("k!", I))]
    if acc is not None:
        pairs.append((acc, z3.Const("acc!", acc.sort())))
    for i, p in enumerate(ps):
        c = z3.Const(f"p{i}!{_sortname(p.sort())}", p.sort())
        canon.append(c)
        pairs.append((p, c))
    cstep = z3.substitute(step, *pairs)
    cinit = z3.substitute(init, *pairs) if init is not None else None
    key = (kind, cstep.get_id(), cinit.get_id() if cinit is not None else None)
    if key not in _FOLDKEY:
        name = f"{kind}!{len(_FOLDKEY)}"
        decl = z3.Function(name, I, *[p.sort() for p in ps], step.sort())
        fd = FoldDef(kind, decl, pairs[0][1], canon, cstep,
                     pairs[1][1] if acc is not None else None, cinit)
        FOLDS[name] = fd
        _FOLDKEY[key] = fd
        _KEEP.append((cstep, cinit, probe))
    fd = _FOLDKEY[key]
    return fd.decl(n, *ps)


def _kfree(t, k):
    return not contains(t, [k])


def SUM(n, f, k=None):
    """sum_{0<=k<n} f(k); f a python function or (term, k)."""
    if k is None:
        k = z3.FreshConst(I, "k")
        t = f(k)
    else:
        t = f
    t = simp(to_int(t) if t.sort() == B else t)
    n = simp(to_int(n))
    return _sum(n, t, k, 0)


def _whole(t):
    """the integer form of a real term that is an if-then-else of whole numbers, or None"""
    if z3.is_rational_value(t):
        q = t.as_fraction()
        return iv(q.numerator) if q.denominator == 1 else None
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = _whole(t.arg(1)), _whole(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    return None


def _sum(n, t, k, depth):
    if t.sort() == R and not z3.is_rational_value(t):
        w = _whole(t)
        if w is not None:
            return to_real(_sum(n, w, k, depth))
    zero = rv(0) if t.sort() == R else iv(0)
    if t.eq(zero):
        return zero
    npos = z3.If(n > 0, n, iv(0))
    if _kfree(t, k):
        m = to_real(npos) if t.sort() == R else npos
        return t * m
    if z3.is_app(t) and depth < 12:
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_ADD:
            r = None
            for c in ch:
                s = _sum(n, c, k, depth + 1)
                r = s if r is None else r + s
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -_sum(n, ch[0], k, depth + 1)
        if kd == z3.Z3_OP_SUB:
            r = _sum(n, ch[0], k, depth + 1)
            for c in ch[1:]:
                r = r - _sum(n, c, k, depth + 1)
            return r
        if kd == z3.Z3_OP_MUL:
            fr = [c for c in ch if _kfree(c, k)]
            bd = [c for c in ch if not _kfree(c, k)]
            if fr and bd:
                b = bd[0] if len(bd) == 1 else z3.Product(*bd)
                r = _sum(n, simp(b), k, depth + 1)
                for c in fr:
                    r = c * r
                return r
        if kd == z3.Z3_OP_ITE:
            c, a, b = ch
            if _kfree(c, k):
                return z3.If(c, _sum(n, a, k, depth + 1), _sum(n, b, k, depth + 1))
            d = _delta(c, a, b, k)
            if d is not None:
                e, c2, a2, b2 = d
                z = rv(0) if t.sort() == R else iv(0)
                return _sum(n, b2, k, depth + 1) + z3.If(simp(z3.And(e >= 0, e < n, c2)), simp(a2 - b2), z)
        if kd == z3.Z3_OP_TO_REAL:
            return to_real(_sum(n, ch[0], k, depth + 1))
    return _mkfold("sum", n, k, t)


def _delta(c, a, b, k):
    """If(c, a, b) differs from a k-free b only at k = e: (e, rest of c at e, a at e, b)"""
    if z3.is_not(c):
        return _delta(c.arg(0), b, a, k)
    if z3.is_or(c):
        return _delta(simp(z3.And(*[Not(x) for x in c.children()])), b, a, k)
    cs = c.children() if z3.is_and(c) else [c]
    if not _kfree(b, k):
        return None
    for x in cs:
        if z3.is_eq(x) and x.arg(0).sort() == I:
            for l, r in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if l.eq(k) and _kfree(r, k):
                    s = lambda t: simp(z3.substitute(t, (k, r)))
                    return r, s(z3.And(*cs)), s(a), b
    return None


def MINF(n, f, init):
    return _fold2("min", n, f, init)


def MAXF(n, f, init):
    return _fold2("max", n, f, init)


def _fold2(kind, n, f, init):
    k = z3.FreshConst(I, "k")
    t = f(k) if callable(f) else f
    t, init = coerce2(t, init)
    acc = z3.FreshConst(t.sort(), "acc")
    step = z3.If(t < acc, t, acc) if kind == "min" else z3.If(t > acc, t, acc)
    return RECF(n, step, k, acc, init)


def RECF(n, step, k, acc, init):
    """acc_0 = init, acc_{i+1} = step(acc_i, i); value acc_n."""
    return _mkfold("rec", n, k, step, acc, init)


def unfold(t):
    """folds of literal length replaced by their value"""
    for _ in range(20):
        todo = [a for a in apps_of(t, is_fold_app) if z3.is_int_value(simp(a.arg(0))) and simp(a.arg(0)).as_long() <= UNROLL]
        if not todo:
            return t
        a = todo[0]
        fd = FOLDS[a.decl().name()]
        n = simp(a.arg(0)).as_long()
        if fd.kind == "rec":
            r = fd.init_of(a)
            for i in range(n):
                r = fd.at_acc(a, iv(i), r)
        else:
            r = rv(0) if a.sort() == R else iv(0)
            for i in range(n):
                r = r + fd.at(a, iv(i))
        t = _replace_app(t, a, r)
    return t


def _replace_app(t, a, r):
    """replace a (which may sit under binders, with bound variables in it) by r"""
    if not z3.is_app(t) and not z3.is_quantifier(t):
        return t
    if t.eq(a):
        return r
    if z3.is_quantifier(t):
        vs = [z3.FreshConst(t.var_sort(i), t.var_name(i)) for i in range(t.num_vars())]
        body = z3.substitute_vars(t.body(), *reversed(vs))
        sub = list(reversed(vs))
        a2, r2 = z3.substitute_vars(a, *sub), z3.substitute_vars(r, *sub)
        nb = _replace_app(body, a2, r2)
        if nb.eq(body):
            return t
        return z3.ForAll(vs, nb) if t.is_forall() else z3.Exists(vs, nb)
    ch = [_replace_app(c, a, r) for c in t.children()]
    return t.decl()(*ch) if ch else t


def is_fold_app(x):
    return x.decl().name() in FOLDS


_SYMS = {}


def fold_syms(name):
    """names of the functions applied in the definition of a fold (through nested folds)"""
    if name not in _SYMS or _SYMS[name][0] is not FOLDS[name]:
        fd = FOLDS[name]
        out = set()
        for t in (fd.step, fd.init):
            if t is not None:
                for a in apps_of(t, lambda x: True):
                    nm = a.decl().name()
                    out.add(nm)
                    if nm in FOLDS:
                        out |= fold_syms(nm)
        _SYMS[name] = (fd, out)
    return _SYMS[name][1]


def deep_apps(t, name):
    """applications of the function in t, those inside the definitions of folds included"""
    out = list(apps_of(t, lambda x: x.decl().name() == name))
    for a in apps_of(t, is_fold_app):
        if name in fold_syms(a.decl().name()):
            fd = FOLDS[a.decl().name()]
            k = z3.FreshConst(I, "dk")
            if fd.kind == "rec":
                acc = z3.FreshConst(fd.acc.sort(), "dacc")
                out += deep_apps(fd.at_acc(a, k, acc), name) + deep_apps(fd.init_of(a), name)
            else:
                out += deep_apps(fd.at(a, k), name)
    return out


def deep_subst(t, pairs=(), funs=()):
    """substitution that also reaches the definitions of folds"""
    names = {f.name() for f, _ in funs} | {a.decl().name() for a, _ in pairs if a.num_args()}

    def go(x):
        if pairs:
            x = z3.substitute(x, *pairs)
        if funs:
            x = z3.substitute_funs(x, *funs)
        for _ in range(200):
            todo = [a for a in apps_of(x, is_fold_app) if fold_syms(a.decl().name()) & names]
            if not todo:
                return x
            a = min(todo, key=_size)
            fd = FOLDS[a.decl().name()]
            k = z3.FreshConst(I, "dk")
            if fd.kind == "rec":
                acc = z3.FreshConst(fd.acc.sort(), "dacc")
                r = RECF(a.arg(0), go(fd.at_acc(a, k, acc)), k, acc, go(fd.init_of(a)))
            else:
                r = SUM(a.arg(0), go(fd.at(a, k)), k)
            x = _replace_app(x, a, r)
        raise RuntimeError("substitution in folds does not end")
    return go(t)


# ------------------------------------------------------------------- prover
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backends = {}


STATS = Stats()


def arith_axioms(terms):
    """Ground instances of the axioms of inv and sqrt for the given terms."""
    out, done = [], set()
    work = list(terms)
    while work:
        t = work.pop()
        for a in apps_of(t, lambda x: x.decl().name() in ("inv", "sqrt", "cos", "sin", "exp", "acos", "atan2") and x.get_id() not in done):
            if _bad_bound_vars(a):
                continue                         # (under a quantifier)
            done.add(a.get_id())
            x = a.arg(0)
            nm = a.decl().name()
            if nm == "inv":
                # 1/0 is unconstrained except for being a fixed value
                out.append(z3.Implies(x != 0, x * a == 1))
                out.append(z3.Implies(x > 0, a > 0))
                out.append(z3.Implies(x < 0, a < 0))
            elif nm == "sqrt":
                out.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
            elif nm == "exp":
                out.append(a > 0)
            elif nm in ("cos", "sin"):
                c, s = uf("cos", R, R)(x), uf("sin", R, R)(x)
                out.append(c * c + s * s == 1)
                done.add(c.get_id())
                done.add(s.get_id())
            for o in out[-3:]:
                work.append(o)
    return out


DEADLINE = [float("inf")]       # end of the time for the obligation in hand


def _check(assertions, timeout, logic=None):
    STATS.queries += 1
    t0 = time.time()
    timeout = min(timeout, DEADLINE[0] - t0)
    if timeout <= 0.02:
        return z3.unknown, None
    if logic == "nra":
        s = z3.Tactic("qfnra-nlsat").solver()
    elif logic == "ematch":
        s = z3.SimpleSolver()
        s.set("mbqi", False)
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for a in assertions:
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        STATS.time += time.time() - t0
        return z3.unknown, None
    STATS.time += time.time() - t0
    m = None
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return r, m


_qcache = {}


def quick(pc, goal, timeout=0.5):
    """Cheap entailment test used during symbolic execution."""
    goal = simp(goal)
    if is_true(goal):
        return True
    if is_false(goal):
        return False
    key = (tuple(sorted(p.get_id() for p in pc)), goal.get_id())
    if key in _qcache:
        return _qcache[key][0]
    r, _ = _check(list(pc) + [z3.Not(goal)], timeout)
    _qcache[key] = (r == z3.unsat, pc, goal)
    return r == z3.unsat


def poly_zero(t):
    t = z3.simplify(t, som=True, flat=True)
    return (z3.is_rational_value(t) or z3.is_int_value(t)) and t.as_fraction() == 0 \
        if z3.is_rational_value(t) else (z3.is_int_value(t) and t.as_long() == 0)


def abstract_apps(terms):
    """Replace uninterpreted applications and ToInt by fresh constants
    (innermost-outermost congruent), giving pure polynomial arithmetic."""
    cache = {}
    extra = []

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i][1]
        if not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            k = x.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED or k in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                key = (x.decl().name(),) + tuple(simp(c).get_id() for c in ch)
                if key not in cache:
                    cache[key] = (x, z3.FreshConst(R if x.sort() == I else x.sort(), "ab"), ch)
                    if k == z3.Z3_OP_TO_INT:
                        v = cache[key][1]
                        c0 = ch[0]
                        extra.append(v <= c0)
                        extra.append(c0 < v + 1)
                r = cache[key][1]
                if k == z3.Z3_OP_TO_REAL:
                    c0 = ch[0]
                    if c0.sort() == R:
                        r = c0
            else:
                srt = [c.sort() for c in ch]
                r = x.decl()(*ch) if all(a.eq(b) for a, b in zip(ch, x.children())) else _rebuild(x, ch)
        cache[i] = (x, r)
        return r
    out = []
    for t in terms:
        if z3.is_quantifier(t):
            continue
        try:
            out.append(go(t))
        except Exception:
            return None
    return out + extra


def _rebuild(x, ch):
    k = x.decl().kind()
    if any(c.sort() == R for c in ch) and k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ,
                                                z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE):
        ch = [to_real(c) if c.sort() == I else c for c in ch]
        if k == z3.Z3_OP_LE:
            return ch[0] <= ch[1]
        if k == z3.Z3_OP_LT:
            return ch[0] < ch[1]
        if k == z3.Z3_OP_GE:
            return ch[0] >= ch[1]
        if k == z3.Z3_OP_GT:
            return ch[0] > ch[1]
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return ch[0] != ch[1]
        if k == z3.Z3_OP_ADD:
            r = ch[0]
            for c in ch[1:]:
                r = r + c
            return r
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
            return r
        if k == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            return r
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        if k == z3.Z3_OP_ITE:
            return z3.If(ch[0], ch[1], ch[2])
    return x.decl()(*ch)


def relevant(pc, goal):
    """Hypotheses transitively sharing symbols with the goal (sound weakening)."""
    def syms(t):
        s, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ("inv", "sqrt"):
                    s.add(x.decl().name())
                st.extend(x.children())
        return s
    cur = syms(goal)
    rest = [(p, syms(p)) for p in pc]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for p, s in rest:
            if s & cur or not s:
                out.append(p)
                cur |= s
                ch = True
            else:
                nr.append((p, s))
        rest = nr
    return out


def _side(h, g):
    g = simp(g)
    r = relevant(h, g)
    return quick(r + arith_axioms(r + [g]), g, 0.5)


class Result:
    def __init__(self, status, backend="", model=None, note=""):
        self.status, self.backend, self.model, self.note = status, backend, model, note


TIMEOUT = float(os.environ.get("VERIF_SOLVER_TIMEOUT", "8"))


def divsplit(u, m):
    """u = c*m + r by collecting the monomials of u that contain m"""
    u = z3.simplify(u, som=True, flat=True)
    ms = u.children() if z3.is_add(u) else [u]
    fm = [m] if not z3.is_mul(m) else m.children()
    c, r = [], []
    for x in ms:
        fs = list(x.children()) if z3.is_mul(x) else [x]
        ok = True
        for f in fm:
            for i, y in enumerate(fs):
                if y.eq(f):
                    del fs[i]
                    break
            else:
                ok = False
                break
        if ok:
            c.append(z3.Product(*fs) if len(fs) > 1 else fs[0] if fs else iv(1))
        else:
            r.append(x)
    if not c:
        return None
    return simp(z3.Sum(c)), simp(z3.Sum(r)) if r else iv(0)


def divnorm(pc, goal):
    """rewrite (c*m + r) div m -> c and mod -> r where 0 <= r < m follows"""
    seen, st = set(), [goal]
    hq = None
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(x.arg(1)) and not _bad_bound_vars(x):
            cr = divsplit(x.arg(0), x.arg(1))
            if cr is not None:
                c, r = cr
                if hq is None:
                    hq = [p for p in pc if not _has_quant(p)]
                g = z3.And(r >= 0, r < x.arg(1))
                if _side(hq, g):
                    return simp(z3.substitute(goal, (x, c if kd == z3.Z3_OP_IDIV else r)))
        st.extend(x.children())
    return None


def prove(pc, goal, timeout=None, depth=0, lemmas=()):
    """Is pc |= goal valid?  Returns Result(proved|refuted|unknown)."""
    r = _prove(pc, goal, timeout, depth, lemmas)
    if r.status == "unknown" and depth < 3:
        g2 = congruence(pc, simp(goal), depth)
        if g2 is not None:
            r1 = _prove(pc, g2, timeout, depth + 1, lemmas)
            if r1.status == "proved":
                return r1
    return r


def _prove(pc, goal, timeout=None, depth=0, lemmas=()):
    timeout = timeout or TIMEOUT
    goal = simp(goal)
    if is_true(goal):
        return Result("proved", "simplify")
    if z3.is_and(goal):
        bk = []
        for g in goal.children():
            r = prove(pc, g, timeout, depth, lemmas)
            if r.status != "proved":
                return r
            bk.append(r.backend)
        return Result("proved", bk[-1])
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.FreshConst(goal.var_sort(i), goal.var_name(i)) for i in range(goal.num_vars())]
        return prove(pc, simp(z3.substitute_vars(goal.body(), *reversed(vs))), timeout, depth, lemmas)
    if z3.is_implies(goal):
        return prove(list(pc) + [goal.arg(0)], goal.arg(1), timeout, depth, lemmas)
    if z3.is_or(goal):
        # the disjunct with folds or equations is the conclusion, the rest are hypotheses
        ds = goal.children()
        pick = [d for d in ds if not z3.is_not(d) and (z3.is_eq(d) or apps_of(d, is_fold_app))]
        if len(pick) == 1:
            rest = [simp(z3.Not(d)) for d in ds if not d.eq(pick[0])]
            return prove(list(pc) + rest, pick[0], timeout, depth, lemmas)
    if z3.is_eq(goal) and goal.arg(0).sort() in (R, I):
        a, b = goal.children()
        if poly_zero(a - b):
            return Result("proved", "polynomial normal form")
        from . import poly
        if poly.equal([p for p in pc if not _has_quant(p)], a, b, _side):
            return Result("proved", "rational-function normal form")
    pc = [p for p in pc if not is_true(p)]
    if depth < 5:
        g2 = divnorm(pc, goal)
        if g2 is not None:
            return prove(pc, g2, timeout, depth, lemmas)
    # the length of a sum depends on a case: split before comparing sums
    if depth < 6:
        for a in apps_of(goal, is_fold_app):
            c = _pick_ite(a.arg(0)) if a.num_args() and not _bad_bound_vars(a) else None
            if c is not None:
                r1 = prove(list(pc) + [c], simp(z3.substitute(goal, (c, TRUE))), timeout, depth + 1, lemmas)
                if r1.status != "proved":
                    return r1
                r2 = prove(list(pc) + [z3.Not(c)], simp(z3.substitute(goal, (c, FALSE))), timeout, depth + 1, lemmas)
                return Result("proved", "z3 (case split)") if r2.status == "proved" else r2
    # equalities between fold applications, by pointwise comparison
    facts = list(lemmas)
    if len([a for a in apps_of(goal, is_fold_app) if not _bad_bound_vars(a)]) > 1:
        # without comparing the folds
        rel = relevant(list(pc) + facts, goal)
        if _check(rel + arith_axioms(rel + [goal]) + [z3.Not(goal)], 0.5, "ematch")[0] == z3.unsat:
            return Result("proved", "z3")
    if depth < 4:
        facts += fold_facts(pc, goal, timeout, depth)
    allp = list(pc) + facts
    rel = relevant(allp, goal)
    ax = arith_axioms(rel + [goal])
    quant = any(z3.is_quantifier(p) or _has_quant(p) for p in rel)
    if quant:
        lin = linearised(rel + ax + [z3.Not(goal)])
        if lin is not None and _check(lin, min(timeout, 1.5))[0] == z3.unsat:
            return Result("proved", "z3")
    r, m = _check(rel + ax + [z3.Not(goal)], min(timeout, 2.5))
    if r == z3.unsat:
        return Result("proved", "z3")
    if r == z3.sat:
        if len(rel) < len(allp) and _check([x for x in allp if not _has_quant(x)] + [z3.Not(goal)], 1)[0] == z3.unsat:
            return Result("proved", "z3")
        return Result("refuted", "z3", m)
    # only quantified hypotheses about the functions of the goal; products of integers as opaque numbers
    fns = {a.decl().name() for a in apps_of(goal, lambda x: True)}
    loc = [h for h in rel if not _has_quant(h) or any(a.decl().name() in fns for a in apps_of(h, lambda x: True))]
    for hs in ([loc, rel] if len(loc) < len(rel) else [rel]):
        lin = linearised(hs + ax + [z3.Not(goal)])
        if lin is None and hs is not rel:
            lin = hs + ax + [z3.Not(goal)]
        if lin is not None and _check(lin, min(timeout, 2.5))[0] == z3.unsat:
            return Result("proved", "z3")
    # polynomial abstraction to nlsat
    ab = abstract_apps(rel + ax + [z3.Not(goal)])
    if ab is not None:
        r2, m2 = _check(ab, timeout, "nra")
        if r2 == z3.unsat:
            return Result("proved", "z3-nlsat (uninterpreted terms abstracted)")
    # case split on the conditions of if-then-else terms
    if depth < 6:
        c = _pick_ite(goal)
        if c is not None:
            r1 = prove(list(pc) + [c], simp(z3.substitute(goal, (c, TRUE))), timeout, depth + 1, facts)
            if r1.status == "proved":
                r2 = prove(list(pc) + [z3.Not(c)], simp(z3.substitute(goal, (c, FALSE))), timeout, depth + 1, facts)
                if r2.status == "proved":
                    return Result("proved", "z3 (case split)")
                return r2
            return r1
    r, m = _check(rel + ax + [z3.Not(goal)], timeout)
    if r == z3.unsat:
        return Result("proved", "z3")
    if r == z3.sat:
        return Result("refuted", "z3", m)
    r3 = _cvc5(rel + ax + [z3.Not(goal)], timeout)
    if r3 == "unsat":
        return Result("proved", "cvc5")
    return Result("unknown", note="solver gave up")


def linearised(terms):
    """the terms with every ground nonlinear product replaced by a constant (weaker), None if there is none"""
    prods = {}
    is_num = lambda c: z3.is_int_value(c) or z3.is_rational_value(c)
    terms = [t if z3.is_quantifier(t) else z3.simplify(t, som=True) for t in terms]
    for t in terms:
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_MUL and not _bad_bound_vars(x):
                    ch = [c for c in x.children() if not is_num(c)]
                    if len(ch) > 1:
                        prods[x.get_id()] = (x, ch)
                st.extend(x.children())
    if not prods:
        return None
    names, pairs = {}, []
    for x, ch in sorted(prods.values(), key=lambda p: -_size(p[0])):
        key = tuple(sorted(c.get_id() for c in ch))
        v = names.setdefault(key, z3.FreshConst(x.sort(), "prod"))
        co = [c for c in x.children() if is_num(c)]
        pairs.append((x, z3.Product(*co, v) if co else v))
    return [z3.substitute(t, *pairs) for t in terms]


def _size(t):
    n, st, seen = 0, [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        st.extend(x.children())
    return n


def congruence(pc, goal, depth):
    """Merge applications of the same function whose arguments are provably equal."""
    changed, tries, bad = False, 0, set()
    while tries < 10:
        apps = sorted([a for a in apps_of(goal, lambda x: x.decl().name() not in ("inv", "sqrt") and not is_fold_app(x))
                       if not _bad_bound_vars(a)], key=_size)
        pair = None
        for i, a in enumerate(apps):
            for b in apps[:i]:
                if a.decl().eq(b.decl()) and (a.get_id(), b.get_id()) not in bad:
                    pair = (a, b)
                    break
            if pair:
                break
        if pair is None:
            break
        a, b = pair
        tries += 1
        if all(x.eq(y) or prove(pc, x == y, 1, depth + 1).status == "proved" for x, y in zip(a.children(), b.children())):
            goal = simp(z3.substitute(goal, (a, b)))
            changed = True
        else:
            bad.add((a.get_id(), b.get_id()))
            _KEEP.append((a, b))
    return goal if changed else None


def _cvc5(assertions, timeout):
    timeout = min(timeout, DEADLINE[0] - time.time())
    if timeout <= 0.5:
        return None
    import subprocess
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run(["cvc5", f"--tlimit={int(timeout*1000)}", "--nl-ext-tplanes", "-"], input=txt,
                           capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split("\n")[0]
    except Exception:
        out = "unknown"
    STATS.time += time.time() - t0
    STATS.queries += 1
    return out


def _has_quant(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


def _pick_ite(t):
    st, seen = [t], set()
    while st:
        x = st.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() != B:
                c = x.arg(0)
                if _pick_ite_free(c):
                    return c
            st.extend(x.children())
    return None


def _pick_ite_free(c):
    return True


def _bad_bound_vars(x):
    # a fold application below a quantifier mentions de Bruijn variables
    st = [x]
    while st:
        y = st.pop()
        if z3.is_var(y):
            return True
        if z3.is_app(y):
            st.extend(y.children())
    return False


_foldcache = {}


def fold_facts(pc, goal, timeout, depth):
    apps = [a for a in apps_of(goal, is_fold_app) if not _bad_bound_vars(a)]
    out = []
    used = set()
    for i in range(len(apps)):
        a = apps[i]
        fa = FOLDS[a.decl().name()]
        n = a.arg(0)
        # empty fold
        empty = fa.init_of(a) if fa.kind == "rec" else (rv(0) if a.sort() == R else iv(0))
        out.append(z3.Implies(n <= 0, a == empty))
        for j in range(i + 1, len(apps)):
            b = apps[j]
            if a.sort() != b.sort():
                continue
            fb = FOLDS[b.decl().name()]
            if fa.kind != fb.kind:
                continue
            key = (tuple(sorted(p.get_id() for p in pc)), a.get_id(), b.get_id())
            if key in _foldcache:
                ok = _foldcache[key][0]
            else:
                ok = _fold_equal(pc, a, fa, b, fb, timeout, depth)
                _foldcache[key] = (ok, list(pc), a, b)
            if ok:
                out.append(a == b)
            elif fa.kind == "sum":
                f = _sum_shift(pc, a, fa, b, fb, timeout, depth)
                if f is None:
                    f = _sum_shift(pc, b, fb, a, fa, timeout, depth)
                if f is not None:
                    out.append(f)
    return out


def _sum_shift(pc, a, fa, b, fb, timeout, depth):
    """a has c more terms than b (c a small constant): a = b + the c last terms,
    or the c first terms + b"""
    c = z3.simplify(a.arg(0) - b.arg(0), som=True)
    if not z3.is_int_value(c) or not 0 < c.as_long() <= 3:
        return None
    c = c.as_long()
    k = z3.FreshConst(I, "sk")
    n = b.arg(0)
    hyp = list(pc) + [k >= 0, k < n]
    if prove(hyp, fa.at(a, k) == fb.at(b, k), min(timeout, 2), depth + 1).status == "proved":
        ext = [fa.at(a, n + q) for q in range(c)]
    elif prove(hyp, fa.at(a, k + c) == fb.at(b, k), min(timeout, 2), depth + 1).status == "proved":
        ext = [fa.at(a, iv(q)) for q in range(c)]
    else:
        return None
    r = b
    for e in ext:
        r = r + e
    return z3.Implies(n >= 0, a == r)


def _same_count(pc, n, m, timeout, depth):
    """are the lengths of two folds equal?  (most are not: decide that cheaply)"""
    if n.eq(m):
        return True
    d = z3.simplify(n - m, som=True)
    if z3.is_int_value(d):
        return d.as_long() == 0
    qf = [h for h in pc if not _has_quant(h)]
    r, _ = _check(relevant(qf, n == m) + [n != m], 1)
    if r == z3.unsat:
        return True
    fns = {x.decl().name() for x in apps_of(n == m, lambda x: x.num_args() > 0)}
    if r == z3.sat and not any(_has_quant(h) and any(x.decl().name() in fns for x in apps_of(h, lambda x: True)) for h in pc):
        return False
    g = n == m
    if divnorm(pc, g) is not None or depth < 1 and _pick_ite(g) is not None:
        return prove(pc, g, min(timeout, 2), depth + 1).status == "proved"
    rel = relevant(pc, g)
    return _check(rel + arith_axioms(rel + [g]) + [n != m], 1)[0] == z3.unsat


def _fold_equal(pc, a, fa, b, fb, timeout, depth):
    if not _same_count(pc, a.arg(0), b.arg(0), timeout, depth):
        return False
    k = z3.FreshConst(I, "fk")
    hyp = list(pc) + [k >= 0, k < a.arg(0)]
    if fa.kind == "sum":
        return prove(hyp, fa.at(a, k) == fb.at(b, k), timeout, depth + 1).status == "proved"
    acc = z3.FreshConst(a.sort(), "facc")
    if prove(pc, fa.init_of(a) == fb.init_of(b), timeout, depth + 1).status != "proved":
        return False
    return prove(hyp, fa.at_acc(a, k, acc) == fb.at_acc(b, k, acc), timeout, depth + 1).status == "proved"


def nonneg_sum_fact(app):
    fd = FOLDS[app.decl().name()]
    k = z3.FreshConst(I, "nk")
    return fd, k

"""The loop rule.

A loop with concrete bounds is unrolled.  Otherwise the locations its body
modifies are found by running the body, and their values after k iterations are
given in closed form:
   x' = x + c            ->  x0 + c*k
   x' = x + d(k)         ->  x0 + SUM_{i<k} d(i)
   x' = t(k)             ->  t(k-1)   (k > 0)
   a[f(k)] = v(k), f affine  -> a'[j] = v(f^-1(j)) inside the range, a0[j] outside
   x' = g(x, k)          ->  REC fold
   anything else         ->  a fresh function G(k) constrained by G(0)=x0, G(k+1)=body(G(k))
Every rule is the exact semantics of the recurrence (the inductive argument is
the definition of the fold), so no invariant has to be guessed and nothing is
bounded.  Loops leaving early (break / return / throw) get the index of the
first exiting iteration F, with the facts that no earlier iteration exits.
"""
import z3
from .values import *
from .logic import *
from .logic import _check
from . import races


class Abort(Exception):
    pass


class Ctx:
    def __init__(self):
        self.noexit = False
        self.exitflags = ()
        self.pcbase = 0
        self.exits = []
        self.facts = []
        self.obls = []


class Leaf:
    __slots__ = ("key", "ph", "js", "init", "new", "sort", "isarr", "garbage")


def run(ex, cond, body, inc, fr):
    races.capture(ex)
    with races.paused(ex):
        run_(ex, cond, body, inc, fr)


def run_(ex, cond, body, inc, fr):
    brk = ex.alloc(FALSE, "brk").loc
    cont = ex.alloc(FALSE, "cont").loc
    if not hasattr(ex, "_brk"):
        ex._brk = []
    if not hasattr(ex, "_cont"):
        ex._cont = []
    snap = ex.st.copy()
    no, nf = len(ex.obls), len(ex.facts)
    cl = [(c, len(c.facts), len(c.obls), len(c.exits)) for c in ex.loops]
    ex._brk.append(brk)
    ex._cont.append(cont)
    ex.flags += [brk]
    try:
        try:
            if races.watched(ex) or races.capturing(ex):
                raise Abort()
            unroll(ex, cond, body, inc, brk, cont, 0, 0)
        except Abort:
            ex.st = snap
            del ex.obls[no:]
            del ex.facts[nf:]
            for c, a, b, e in cl:
                del c.facts[a:]
                del c.obls[b:]
                del c.exits[e:]
            summarise(ex, cond, body, inc, brk, cont, fr)
    finally:
        ex.flags.remove(brk)
        ex._brk.pop()
        ex._cont.pop()
    if not ex.st.dead:
        ex.st.mem[brk] = FALSE


def one(ex, body, cont):
    ex.flags.append(cont)
    body()
    ex.flags.remove(cont)
    if not ex.st.dead:
        ex.st.mem[cont] = FALSE


def unroll(ex, cond, body, inc, brk, cont, it, symc):
    from .exec import UNROLL
    if ex.st.dead:
        return
    c = simp(cond())
    if not is_true(c) and not is_false(c):
        if ex.quick(Not(c)):
            c = FALSE
        elif it == 0 or symc > 8:
            raise Abort()
    if is_false(c):
        return
    if it >= UNROLL or (it >= 2 and getattr(cond, "endless", False)):
        raise Abort()

    def step():
        one(ex, body, cont)
        if ex.st.dead:
            return
        s = ex.stopped()
        if is_true(s):
            return
        if is_false(s):
            inc()
            unroll(ex, cond, body, inc, brk, cont, it + 1, symc + (0 if is_true(c) else 1))
            return
        if not ex.feasible(s):
            for f in ex.flags:
                ex.st.mem[f] = FALSE
            inc()
            unroll(ex, cond, body, inc, brk, cont, it + 1, symc)
            return
        saved = ex.st.copy()
        n = len(saved.pc)
        saved.pc.append(s)
        ex.st.pc.append(Not(s))
        for f in ex.flags:
            ex.st.mem[f] = FALSE
        inc()
        unroll(ex, cond, body, inc, brk, cont, it + 1, symc)
        ex.st = ex.merge(s, saved, ex.st, n)
    if is_true(c):
        step()
    else:
        ex.branch(c, step)


# ---------------------------------------------------------------- havoc / leaves
def havoc(v, key, idx, leaves, fixed, js, empty=False):
    """value with every scalar leaf replaced by a placeholder (or its closed form)"""
    if is_z3(v):
        lf = leaves.get(key)
        if lf is None:
            lf = Leaf()
            lf.key, lf.sort, lf.isarr = key, v.sort(), bool(idx)
            lf.garbage = empty                      # (an element of an empty array)
            if idx:
                lf.js = js
                lf.ph = z3.Function(f"H~{uid()}", *([I] * len(idx)), v.sort())
                lf.init = v
            else:
                lf.js = []
                lf.ph = z3.Const(f"h~{uid()}", v.sort())
                lf.init = v
            leaves[key] = lf
        if key in fixed:
            t = fixed[key]
            return z3.substitute(t, *zip(lf.js, idx)) if idx else t
        return lf.ph(*idx) if idx else lf.ph
    if isinstance(v, Struct):
        ma = "nest" in v.f and "flat" in v.f       # (a model array's shape does not change in a loop: checked in collect)
        return Struct(v.cls, {n: x if ma and n == "shape" else havoc(x, key + (n,), idx, leaves, fixed, js, empty) for n, x in v.f.items()})
    if single(v, key):
        e = havoc(v.get(iv(0)), key + ("#0",), idx, leaves, fixed, js)
        return Arr(v.n, lambda x: e, v.ety)
    if isinstance(v, Arr):
        n = havoc(v.n, key + ("#n",), idx, leaves, fixed, js)
        d = len(idx)
        j = z3.Const(f"j!{d}", I)
        proto = v.fn(j)
        if proto is UNDEF:
            return Arr(n, v.fn, v.ety)
        # register leaves with the canonical index variables
        havoc(proto, key + ("#e",), list(js) + [j] if False else [z3.Const(f"j!{q}", I) for q in range(d + 1)],
              leaves, fixed, [z3.Const(f"j!{q}", I) for q in range(d + 1)], empty or (not idx and is_zero(v.n)))

        def fn(x, key=key, idx=idx, proto=proto):
            return havoc(proto, key + ("#e",), idx + [x], leaves, fixed, None)
        return Arr(n, fn, v.ety)
    if isinstance(v, Ptr) and v.path and not isinstance(v.path[-1], str):
        return Ptr(v.loc, v.path[:-1] + (havoc(v.path[-1], key + ("#p",), idx, leaves, fixed, js),))
    return v


def is_zero(n):
    n = simp(n)
    return z3.is_int_value(n) and n.as_long() == 0


def single(v, key):
    """the one copy of a thread-local object"""
    last = key[-1][-1:] if isinstance(key[-1], tuple) else key[-1:]
    return last == ("items",) and isinstance(v, Arr) and z3.is_int_value(simp(v.n)) and simp(v.n).as_long() == 1


def collect(new, old, key, idx, leaves, out):
    """terms of the leaves after one iteration"""
    if is_z3(old):
        if not is_z3(new):
            raise Unsupported(f"loop changes the shape of {key}")
        lf = leaves[key]
        if new.sort() != lf.sort:
            if lf.sort == R:
                new = to_real(new)
            elif lf.sort == I and new.sort() == B:
                new = to_int(new)
            else:
                raise Unsupported(f"loop changes the sort of {key}")
        out[key] = new
        return
    if isinstance(old, Struct):
        if not isinstance(new, Struct) or new.f.keys() != old.f.keys():
            raise Unsupported(f"loop changes the shape of {key}")
        for n in old.f:
            if n == "shape" and "nest" in old.f and "flat" in old.f:
                if not same(old.f[n], new.f[n]) and not same_list(old.f[n], new.f[n]):
                    raise Unsupported(f"loop changes the dimensions of the array {key}")
                continue
            collect(new.f[n], old.f[n], key + (n,), idx, leaves, out)
        return
    if single(old, key):
        if not single(new, key):
            raise Unsupported(f"loop changes the number of thread-local copies {key}")
        collect(new.get(iv(0)), old.get(iv(0)), key + ("#0",), idx, leaves, out)
        return
    if isinstance(old, Arr):
        if not isinstance(new, Arr):
            raise Unsupported(f"loop changes the shape of {key}")
        collect(new.n, old.n, key + ("#n",), idx, leaves, out)
        j = z3.Const(f"j!{len(idx)}", I)
        oe = old.fn(j)
        if oe is UNDEF:
            out[key + ("#u",)] = (new, j)
            return
        collect(new.fn(j), oe, key + ("#e",), idx + [j], leaves, out)
        return
    if isinstance(old, Ptr) and isinstance(new, Ptr) and old.loc == new.loc and old.path and not isinstance(old.path[-1], str):
        collect(new.path[-1], old.path[-1], key + ("#p",), idx, leaves, out)
        return
    if old is UNDEF:
        out[key + ("#undef",)] = new
        return
    if same(old, new) or old is new:
        return
    raise Unsupported(f"loop modifies a {type(old).__name__} at {key}")


def rebuild(v, key, idx, closed, undefs):
    """value after the loop: leaves replaced by their closed forms"""
    if is_z3(v):
        t = closed[key]
        if idx:
            return z3.substitute(t, *[(z3.Const(f"j!{q}", I), x) for q, x in enumerate(idx)])
        return t
    if isinstance(v, Struct):
        return Struct(v.cls, {n: x if n == "shape" and "nest" in v.f and "flat" in v.f else rebuild(x, key + (n,), idx, closed, undefs) for n, x in v.f.items()})
    if single(v, key):
        e = rebuild(v.get(iv(0)), key + ("#0",), idx, closed, undefs)
        return Arr(v.n, lambda x: e, v.ety)
    if isinstance(v, Arr):
        n = rebuild(v.n, key + ("#n",), idx, closed, undefs)
        proto = v.fn(z3.Const(f"j!{len(idx)}", I))
        if proto is UNDEF:
            if key + ("#u",) in undefs:
                a, j, tr = undefs[key + ("#u",)]
                return Arr(n, lambda x: map_value(a.fn(x), tr), v.ety)
            return Arr(n, v.fn, v.ety)
        return Arr(n, lambda x: rebuild(proto, key + ("#e",), idx + [x], closed, undefs), v.ety)
    if isinstance(v, Ptr) and v.path and not isinstance(v.path[-1], str):
        return Ptr(v.loc, v.path[:-1] + (rebuild(v.path[-1], key + ("#p",), idx, closed, undefs),))
    if v is UNDEF and key + ("#undef",) in undefs:
        return undefs[key + ("#undef",)]
    return v


def same_list(a, b):
    """two short vectors of literal length with equal elements"""
    n, m = simp(a.n), simp(b.n)
    if not z3.is_int_value(n) or not n.eq(m):
        return False
    return all(simp(a.get(iv(q))).eq(simp(b.get(iv(q)))) for q in range(n.as_long()))


def get_at(st, ent):
    v = st.mem[ent[0]]
    for x in ent[1]:
        if not isinstance(v, Struct):
            return v
        v = v.f[x]
    return v


def set_at(ex, ent, val):
    ex.st.mem[ent[0]] = ex._update(ex.st.mem[ent[0]], ent[1], val)


def covered(ent, mods):
    return any(m[0] == ent[0] and ent[1][:len(m[1])] == m[1] for m in mods)


def linear(f, k):
    """f = f0 + c*k with integer constant c, else None"""
    f0 = simp(z3.substitute(f, (k, iv(0))))
    c = simp(z3.substitute(f, (k, k + 1)) - f)
    c = z3.simplify(c, som=True)
    if z3.is_int_value(c):
        # (linearity: f - c*k must not mention k)
        r = z3.simplify(f - c * k, som=True)
        if not contains(r, [k]):
            return r, c.as_long()
        if z3.is_int_value(z3.simplify(r - f0, som=True)):
            return f0, c.as_long()
    return None


def trip(ex, c, k):
    """number of iterations for which the condition c(k) holds from k = 0 on"""
    c = simp(c)
    if is_false(c):
        return iv(0)
    if not contains(c, [k]):
        return None
    if z3.is_and(c):
        ns = [trip(ex, x, k) for x in c.children()]
        if any(n is None for n in ns):
            return None
        r = ns[0]
        for n in ns[1:]:
            r = z3.If(n < r, n, r)
        return r
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != I:
        return None
    f = c.arg(0) - c.arg(1)
    kd = c.decl().kind()
    ops = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!="}
    if kd not in ops:
        return None
    op = ops[kd]
    if neg:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
    lin = linear(f, k)
    if lin is None:
        return None
    f0, cc = lin
    if op in (">", ">="):
        f0, cc = simp(-f0), -cc
        op = "<" if op == ">" else "<="
    if op == "<=":
        f0, op = simp(f0 - 1), "<"
    if op == "<":
        if cc == 1:
            m = simp(-f0)
        elif cc > 1:
            m = simp((-f0 + (cc - 1)) / cc)
        else:
            return None
        if known(ex, m >= 0):
            return m
        return z3.If(m > 0, m, iv(0))
    if op == "!=":
        if abs(cc) != 1:
            return None
        m = simp(-f0 * cc)
        ex.oblige(f"loop with != condition terminates in {ex.cur()}", m >= 0)
        return m
    return None


def known(ex, g):
    """does the goal follow from what is known here, quantified facts included?"""
    if ex.quick(g):
        return True
    if not apps_of(g, lambda a: a.num_args() > 0 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not is_fold_app(a)):
        return False
    hs = relevant(ex.hyps(), g)
    return _check(hs + [z3.Not(g)], 0.3, "ematch")[0] == z3.unsat


def kappa(t, js, k):
    """candidate inverses of the written index, with the equalities giving them"""
    out = {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x):
            continue
        if z3.is_eq(x) and x.arg(0).sort() == I and contains(x, [k]) and contains(x, js):
            lin = linear(x.arg(0) - x.arg(1), k)
            if lin is not None and abs(lin[1]) == 1:
                kp = z3.simplify(-lin[0] * lin[1], som=True)
                if contains(kp, js):
                    out.setdefault(kp.get_id(), (kp, []))[1].append(x)
        st.extend(x.children())
    return list(out.values())


def blocks(t, js, k):
    """guards  0 <= a(k) < m  with a(k) = u - m*k:  the block of k is k = u div m"""
    lows, highs = {}, {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.sort() == B and x.num_args() == 2 and x.arg(0).sort() == I and contains(x, [k]) and contains(x, js):
            kd = x.decl().kind()
            if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                # d >= 0 form
                d = {z3.Z3_OP_LE: x.arg(1) - x.arg(0), z3.Z3_OP_LT: x.arg(1) - x.arg(0) - 1,
                     z3.Z3_OP_GE: x.arg(0) - x.arg(1), z3.Z3_OP_GT: x.arg(0) - x.arg(1) - 1}[kd]
                d = z3.simplify(d, som=True)
                lows[x.get_id()] = (x, d)
                # the negation: -d - 1 >= 0
                highs[x.get_id()] = (z3.Not(x), z3.simplify(-d - 1, som=True))
        st.extend(x.children())
    out = []
    atoms = list(lows.values()) + list(highs.values())
    for c1, a in atoms:
        m = z3.simplify(a - z3.substitute(a, (k, k + 1)), som=True)
        if contains(m, [k]) or contains(m, js) or z3.is_int_value(m):
            continue
        u = z3.simplify(a + m * k, som=True)
        if contains(u, [k]):
            continue
        for c2, b in atoms:
            if z3.simplify(a + b + 1 - m, som=True).eq(iv(0)):
                out.append((u / m, m, (c1, c2)))
    return out


def set_cond(t, c, val):
    """t with the condition c (an atom or its negation) taken as val"""
    if z3.is_not(c):
        return z3.substitute(t, (c.arg(0), FALSE if val else TRUE))
    return z3.substitute(t, (c, TRUE if val else FALSE))


def point_shape(t, ph, js, k):
    """[(kp, extra guard, value term with k free)] when t only changes ph at iteration kp"""
    out = []
    for kp, eqs in kappa(t, js, k):
        t2 = simp(z3.substitute(t, *[(e, FALSE) for e in eqs]))
        if t2.eq(ph):
            out.append((kp, TRUE, simp(z3.substitute(t, *[(e, TRUE) for e in eqs]))))
    for kp, m, (c1, c2) in blocks(t, js, k):
        if simp(set_cond(t, c1, False)).eq(ph) and simp(set_cond(t, c2, False)).eq(ph):
            out.append((kp, m > 0, simp(set_cond(set_cond(t, c1, True), c2, True))))
    return out


class View:
    """What a loop invariant sees: the state before iteration k."""

    def __init__(self, ex, fr, k):
        self.ex, self.fr, self.k = ex, fr, k

    def ptr(self, name):
        f = self.fr
        while f is not None:
            for d, p in reversed(list(f.vars.items())):
                if isinstance(p, Ptr) and (p.loc.split("#")[0] == name or self.ex.refnames.get(d) == name):
                    return p
            f = f.parent
        raise Unsupported(f"invariant: no variable {name}")

    def __getitem__(self, name):
        return self.ex.read(self.ptr(name))

    def becomes(self, name, new):
        """after a loop: a value proved to be this one is replaced by it (arrays: on their elements)"""
        p = self.ptr(name) if isinstance(name, str) else name
        old = self.ex.read(p)
        x = z3.FreshConst(I, "x")

        def cmp(a, b, pre):
            if is_z3(a):
                a, b = coerce2(a, b)
                g = z3.Implies(pre, a == b)
                self.ex.oblige(f"loop leaves {name} as given in {self.ex.cur()}", z3.ForAll([x], g) if contains(g, [x]) else g, "inv")
            elif isinstance(a, Struct):
                for q in a.f:
                    cmp(a.f[q], b.f[q], pre)
            elif isinstance(a, Arr) and is_true(pre):
                cmp(a.n, b.n, pre)
                cmp(a.get(x), b.get(x), z3.And(x >= 0, x < b.n))
            else:
                raise Unsupported("value after the loop")
        cmp(old, new, TRUE)
        if isinstance(old, Arr) and new.ety is None:
            new = Arr(new.n, new.fn, old.ety)
        self.ex.write(p, new)

    @property
    def this(self):
        f = self.fr
        while f is not None and f.this is None:
            f = f.parent
        return f.this


def after(ex, fr, N, lead, F=None, E=None):
    """what the contract says about the state after this loop: proved, then used"""
    f, fns = fr, []
    while f is not None:
        if f.fn is not None:
            fns += ex.posts.get(f.fn.get("name"), [])
        f = f.parent
    for post in fns:
        v = View(ex, fr, N)
        v.depth, v.nest = len(ex.loopk), len(ex._brk) - 1
        # is the number of iterations known in closed form?
        v.F = F                                     # the iteration that leaves the loop early
        # (instances of the loop's own facts: iterations before F do not leave it)
        v.stays = lambda t: ex.fact(lead(z3.Implies(z3.And(t >= 0, t < F), Not(E(t)))))


        def forget(mine=len(ex.facts)):
            # (fewer hypotheses: what is known about the iteration F, and what this function has added, is no longer needed)
            mine = {t.get_id() for t in ex.facts[mine:]}
            about = (lambda t: False) if F is None else (lambda t: contains(t, [F])) if F.num_args() == 0 else (lambda t: uses_fn(t, [F.decl()]))
            for l in [ex.facts, ex.st.pc] + [c.facts for c in ex.loops]:
                l[:] = [t for t in l if t.get_id() not in mine and not about(t)]
        v.forget = forget

        def drop(*fns):
            # (fewer hypotheses: those that mention these functions)
            for l in [ex.facts, ex.st.pc] + [c.facts for c in ex.loops]:
                l[:] = [t for t in l if not uses_fn(t, fns)]
        v.drop = drop
        v.counted = N is not None and not (z3.is_app(N) and N.decl().name().startswith("N~"))
        g = post(v)
        if g is not None:
            g = simp(g)
            ex.oblige(f"after the loop: {getattr(post, '__name__', 'post')} in {ex.cur()}", g, "inv")
            ex.fact(lead(g))


def invariants(ex, fr, k, N, closed, leaves, news, S, defs, ctx, state, body_at, early=False):

    """Contract-given invariants of this loop: established, preserved, then used."""
    from .exec import Obl
    f = fr
    fns = []
    while f is not None:
        if f.fn is not None:
            fns += ex.invariants.get(f.fn.get("name"), [])
        f = f.parent
    nest = len(ex.loopk)
    before = []                     # (when the loop may be left early: invariants already stated, at the same iteration)
    for inv in fns:
        view = View(ex, fr, k)
        view.depth = nest
        view.nest = len(ex._brk) - 1
        saved = ex.st
        try:
            ex.st = state(closed)
            cur = inv(view)
            if cur is None:
                continue
            cur = simp(cur)
            nm = getattr(inv, "__name__", "inv")
            goal0 = simp(unfold(z3.substitute(cur, (k, iv(0)))))
            nxt = {kk: S(news[kk]) for kk in leaves if kk in news}
            for kk in leaves:
                nxt.setdefault(kk, closed[kk])
            view.k = k + 1
            ex.st = state(nxt)
            goal1 = simp(inv(view))
        finally:
            ex.st = saved
        pc0, body_ = ex.hyps() + defs, body_at
        if getattr(view, "without", None):          # (fewer hypotheses: those that mention these functions)
            pc0, body_ = [[h for h in hs if not apps_of(h, lambda a: a.decl().name() in view.without)] for hs in (pc0, body_)]
        rng = z3.And(k >= 0, k < N)
        for o in (Obl(f"loop invariant {nm} established in {ex.cur()}", pc0, goal0, "inv", ""),
                  Obl(f"loop invariant {nm} preserved in {ex.cur()}", pc0 + [rng, cur] + before + body_, goal1, "inv", "")):
            ex.obls.append(o)
            for l in ex.loops:
                l.obls.append(o)
        if early:
            before.append(cur)
        yield cur


def summarise(ex, cond, body, inc, brk, cont, fr):
    base = ex.st
    k = z3.Const(f"k~{uid()}", I)
    mods = []
    fixed = {}
    N = None
    no, nf = len(ex.obls), len(ex.facts)
    cl = [(c, len(c.facts), len(c.obls), len(c.exits)) for c in ex.loops]
    exitflags = [f for f in ex.flags]
    last_unres = None
    for rnd in range(14):
        del ex.obls[no:]
        del ex.facts[nf:]
        for c, a, b, e in cl:
            del c.facts[a:]
            del c.obls[b:]
            del c.exits[e:]
        ex.st = base.copy()
        leaves = {}
        for m in mods:
            v0 = get_at(base, m)
            set_at(ex, m, havoc(v0, m, [], leaves, fixed, []))
        start = ex.st.copy()
        ctx = Ctx()
        ctx.noexit = True
        ctx.exitflags = exitflags
        ex.loopk.append(k)
        ex.loops.append(ctx)
        ex.st.pc.append(k >= 0)
        if N is not None:
            ex.st.pc.append(k < N)
        ctx.pcbase = len(ex.st.pc)
        log = {}
        outer_w = ex.writes
        ex.writes = (outer_w or []) + [log]
        try:
            c = simp(cond())
            ex.st.pc.append(c)
            if N is None:
                ctx.pcbase = len(ex.st.pc) - 1
            else:
                ctx.pcbase = len(ex.st.pc)
            one(ex, body, cont)
            if not ex.st.dead:
                inc()
        finally:
            ex.writes = outer_w
            ex.loopk.pop()
            ex.loops.pop()
        added = False
        for ent in log:
            if ent[0] not in base.mem or ent[0] in (brk, cont):
                continue
            if not covered(ent, mods):
                mods = [m for m in mods if not (m[0] == ent[0] and m[1][:len(ent[1])] == ent[1])]
                mods.append(ent)
                added = True
        if added:
            fixed = {}
            N = None
            continue
        endst = ex.st
        if endst.dead:
            # every iteration leaves the loop
            endst = start
        news = {}
        for m in mods:
            collect(get_at(endst, m), get_at(start, m), m, [], leaves, news)
        if not fixed:
            races.captured(ex, leaves, news, resolve, k)
            raw = (leaves, news, list(ctx.facts))
        res = resolve(ex, leaves, news, fixed, k, N)
        closed, unres, undefs = res
        S = substituter(leaves, closed)
        progressed = False
        if N is None:
            n1 = trip(ex, S(c), k)
            if n1 is not None:
                N = simp(n1)
                progressed = True
        newfixed = {kk: v for kk, v in closed.items() if kk not in unres}
        if N is not None:
            for kk in newfixed:
                if kk not in fixed:
                    newfixed[kk] = tidy(newfixed[kk], k, N)
        if set(newfixed) != set(fixed):
            progressed = True
        if progressed and rnd < 12:
            fixed = newfixed
            continue
        break
    # -- trip count ---------------------------------------------------------------
    defs = []
    # what is known about the loop is known where the loop is reached
    guard = simp(And(*base.pc)) if base.pc else TRUE
    reached = (lambda t: t) if is_true(guard) else (lambda t: z3.Implies(guard, t))
    endless = False
    if N is None:
        N = ex.fresh("N", I)
        i = z3.FreshConst(I, "ki")
        ck = S(c)
        defs.append(N >= 0)
        endless = is_true(simp(ck))
        if endless:
            # only left through return, break or throw: it is assumed to be left (partial correctness)
            if not ctx.exits:
                raise Unsupported("endless loop")
        else:
            defs.append(reached(Not(z3.substitute(ck, (k, N)))))
        if contains(ck, [k]):
            defs.append(reached(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.substitute(ck, (k, i))))))
        else:
            defs.append(reached(z3.Implies(N > 0, ck)))
    # -- recurrences that have no closed form: exact recursive definition -------------
    if unres:
        if __import__("os").environ.get("VCDBG"): print("UNRES", ex.cur(), [(kk, simp(S(news[kk]))) for kk in unres])
        for kk in unres:
            lf = leaves[kk]
            G = z3.Function(f"G~{uid()}", *([I] * (len(ex.loopk) + 1 + len(lf.js))), lf.sort)
            closed[kk] = G(*ex.loopk, k, *lf.js)
        S = substituter(leaves, closed)
        for kk in unres:
            lf = leaves[kk]
            t = S(news[kk])
            g = closed[kk]
            vs = list(lf.js)
            f0 = z3.substitute(g, (k, iv(0))) == lf.init
            f1 = z3.Implies(z3.And(k >= 0, k < N), z3.substitute(g, (k, k + 1)) == t)
            defs.append(z3.ForAll(vs, f0) if vs else f0)
            defs.append(z3.ForAll([k] + vs, f1))
    # -- facts and obligations of the body ---------------------------------------------
    rng = z3.And(k >= 0, k < N)
    for o in ctx.obls:
        o.pc = [S(p) for p in o.pc] + [rng] + defs
        o.goal = S(o.goal)
    lift = []
    for f in ctx.facts:
        g = S(f)
        if contains(g, [k]):
            g = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= N), g))
        lift.append(g)
    del ex.facts[nf:]
    for c_, a, b, e in cl:
        del c_.facts[a:]
    for f in lift + defs:
        ex.fact(f)
    # -- the state after the loop --------------------------------------------------------
    E = S(simp(Or(*ctx.exits))) if ctx.exits else FALSE
    E = simp(E)
    if not is_false(E) and never(ex.facts + base.pc + defs, rng, E):
        E = FALSE
    invs = []
    if ex.invariants:
        def state(cl_):
            ex.st = base.copy()
            for m in mods:
                set_at(ex, m, rebuild(get_at(base, m), m, [], cl_, {}))
            return ex.st
        ex.st = base.copy()
        bodyfacts = [S(f) for f in ctx.facts] + ([simp(Not(E))] if not is_false(E) else [])
        for cur in invariants(ex, fr, k, N, closed, leaves, news, S, defs, ctx, state, bodyfacts, not is_false(E)):
            invs.append(cur)
            if is_false(E):
                # (nothing reads k in the surrounding facts)
                ex.fact(reached(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= N), cur)) if contains(cur, [k]) else cur))
                if contains(cur, [k]):
                    ex.fact(reached(simp(z3.substitute(cur, (k, N)))))
        for o in ctx.obls:
            o.pc = o.pc + invs

    if races.watched(ex):
        ex.st = base.copy()
        # (the effect of an iteration on an arbitrary state)
        lv, nw, rf = raw
        T = substituter(lv, {q: closed[q] for q in closed if q in lv})
        rf = races.tried(T, rf)
        for f in rf:
            ex.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), f)) if contains(f, [k]) else f)
        races.check(ex, lv, nw, closed, T, k, N, at_index, mentions, push_sub,
                    rf + invs + ([simp(Not(E))] if not is_false(E) else []))

    def state_at(n):
        st = base.copy()
        ex.st = st
        sub = lambda t: simp(z3.substitute(t, (k, n)))
        cn = {kk: sub(v) for kk, v in closed.items()}
        un = {}
        for kk, v in undefs.items():
            if kk[-1] == "#u":
                a, j = v
                un[kk] = (a, j, lambda t: simp(z3.substitute(S(t), (k, n - 1))))
            else:
                un[kk] = map_value(v, lambda t: simp(z3.substitute(S(t), (k, n - 1))))
        for m in mods:
            set_at(ex, m, rebuild(get_at(base, m), m, [], cn, un))
        return ex.st
    if is_false(E):
        state_at(N)
        after(ex, fr, N, reached)
        return
    if not is_false(E) and not ex.loopk and False:
        pass
    F = ex.fresh("F", I)
    i = z3.FreshConst(I, "fi")
    ex.fact(z3.And(F >= 0, F <= N))
    if endless:
        ex.fact(reached(F < N))
    for cur in invs:
        # (up to the iteration that leaves the loop)
        if contains(cur, [k]):
            ex.fact(reached(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= F), cur))))
        ex.fact(reached(simp(z3.substitute(cur, (k, F)))))
    Ei = z3.substitute(E, (k, i))
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < F), Not(Ei))) if contains(E, [k]) else z3.Implies(F > 0, Not(E)))
    ex.fact(z3.Implies(F < N, z3.substitute(E, (k, F))))
    if not endless:
        full = state_at(N).copy()
        n = len(full.pc)
        full.pc.append(F == N)
    st = state_at(F)
    st.pc.append(F < N)
    st.pc.append(z3.substitute(E, (k, F)))
    ex.st = st
    ex.st.mem[brk] = FALSE
    cond()
    one(ex, body, cont)
    if not ex.st.dead:
        ex.st.mem[brk] = FALSE
    if not endless:
        ex.st = ex.merge(F < N, ex.st, full, n)
    # (the exit branch kept an extra hypothesis; merge turns it into an implication)
    if not ex.st.dead:
        after(ex, fr, None, reached, F, lambda t: z3.substitute(E, (k, t)))


def tidy(t, k, N):
    """sums over earlier iterations: their index is below N"""
    Ns = [N]
    if z3.is_app(N) and N.decl().kind() == z3.Z3_OP_ITE:
        Ns += N.children()[1:]
    for a in apps_of(t, is_fold_app):
        fd = FOLDS[a.decl().name()]
        if fd.kind != "sum" or not a.arg(0).eq(k):
            continue
        i = z3.FreshConst(I, "ti")
        d = fd.at(a, i)
        d2 = z3.substitute(d, *[p for n in Ns for p in ((n <= i, FALSE), (simp(n <= i), FALSE), (simp(i < n), TRUE), (simp(i >= 0), TRUE))])
        if not d2.eq(d):
            t = z3.substitute(t, (a, SUM(k, simp(d2), i)))
    return t


def never(hyps, rng, E):
    """is the loop provably never left early?"""
    g = z3.Not(z3.And(rng, E))
    hs = relevant(hyps, g)
    return _check(hs + [rng, E], 0.5, "ematch")[0] == z3.unsat


def substituter(leaves, closed):
    pairs = []
    funs = []
    for kk, t in closed.items():
        lf = leaves[kk]
        if lf.isarr:
            vs = [z3.Var(q, I) for q in range(len(lf.js))]
            funs.append((lf.ph, z3.substitute(t, *zip(lf.js, vs))))
        else:
            pairs.append((lf.ph, t))

    return lambda t: deep_subst(t, pairs, funs)


def resolve(ex, leaves, news, fixed, k, N):
    closed = {}
    undefs = {kk: v for kk, v in news.items() if kk[-1] in ("#u", "#undef")}
    unres = []
    for kk, lf in leaves.items():
        if kk in fixed:
            closed[kk] = fixed[kk]
        else:
            unres.append(kk)
    progress = True
    while progress and unres:
        progress = False
        S = substituter(leaves, {q: closed[q] for q in closed})
        for kk in list(unres):
            if kk not in news:
                closed[kk] = leaves[kk].init
                unres.remove(kk)
                progress = True
                continue
            r = solve(ex, leaves, kk, S, news, unres, k)
            if r is not None:
                closed[kk] = r
                unres.remove(kk)
                progress = True
                break
    return closed, unres, undefs


def mentions(t, leaves, keys):
    consts = {leaves[q].ph.get_id() for q in keys if not leaves[q].isarr}
    names = {leaves[q].ph.name() for q in keys if leaves[q].isarr}
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.get_id() in consts:
                    return True
            elif x.decl().name() in names or (names and is_fold_app(x) and fold_syms(x.decl().name()) & names):
                return True
            st.extend(x.children())
    return False


def solve(ex, leaves, kk, S, news, unres, k):
    new = news[kk]
    lf = leaves[kk]
    t = simp(S(new))
    ph = lf.ph(*lf.js) if lf.isarr else lf.ph
    if lf.isarr:
        t = simp(at_index(t, lf))
    if t.eq(ph):
        return lf.init
    others = [q for q in unres if q != kk]
    if lf.isarr:
        # point writes: index js changes in iteration kp(js) only, so what the
        # iteration reads at the same index is still the initial value
        for kp, g, v in point_shape(t, ph, lf.js, k):
            pairs = [(ph, lf.init)]
            for q in others:
                lq = leaves[q]
                if not lq.isarr or len(lq.js) != len(lf.js) or q not in news:
                    continue
                pq = lq.ph(*lq.js)
                tq = simp(S(news[q]))
                if any(z3.simplify(kq - kp, som=True).eq(iv(0)) for kq, gq, vq in point_shape(tq, pq, lq.js, k)):
                    pairs.append((pq, lq.init))
            v0 = v
            v = simp(z3.substitute(v, (k, kp)))
            v = deep_subst(v, pairs)
            if mentions(v, leaves, unres):
                r = scan(leaves, lf, kk, k, kp, v0, pairs, unres)
                if r is None:
                    continue
                v = r
            return z3.If(And(g, kp >= 0, kp < k), v, lf.init)
    if mentions(t, leaves, others):
        return None
    own = mentions(t, leaves, [kk])
    if lf.sort in (I, R):
        d = simp(t - ph)
        if mentions(d, leaves, [kk]):
            # push the difference into if-then-else
            d = simp(push_sub(t, ph))
        if not mentions(d, leaves, [kk]):
            if not contains(d, [k]):
                return simp(lf.init + d * (to_real(k) if lf.sort == R else k))
            return lf.init + sum_upto(k, d)
    if not own:
        u = simp(z3.substitute(t, (k, k - 1)))
        at0 = simp(unfold(z3.substitute(u, (k, iv(0)))))
        if lf.garbage or at0.eq(simp(lf.init)):
            return u
        return z3.If(k <= 0, lf.init, u)
    if lf.isarr:
        for a in deep_apps(t, lf.ph.name()):
            if not a.eq(ph):
                return None
    # the same element is overwritten in every iteration:  If(c, u(k), old)  with c the same in all of them
    def over(x):
        if x.eq(ph):
            return lf.init
        if not mentions(x, leaves, [kk]):
            return z3.If(k <= 0, lf.init, simp(z3.substitute(x, (k, k - 1))))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not contains(x.arg(0), [k]) and not mentions(x.arg(0), leaves, unres):
            a, b = over(x.arg(1)), over(x.arg(2))
            return None if a is None or b is None else z3.If(x.arg(0), a, b)
        return None
    r = over(t)
    if r is not None:
        return simp(r)
    if __import__("os").environ.get("VCDBG"): print("RECF", ex.cur(), kk, t)
    acc = z3.FreshConst(lf.sort, "acc")
    i = z3.FreshConst(I, "ri")
    step = z3.substitute(deep_subst(t, [(ph, acc)]), (k, i))
    return RECF(k, step, i, acc, lf.init)


def scan(leaves, lf, kk, k, kp, v, pairs, unres):
    """a[k+c] = a[k+c-1] + d(k):  a'[j] = a0[c-1] + SUM_{i <= j-c} d(i)"""
    if len(lf.js) != 1 or lf.sort not in (I, R):
        return None
    j = lf.js[0]
    c = z3.simplify(j - kp, som=True)
    if contains(c, [j, k]):
        return None
    v = deep_subst(v, pairs)
    v = simp(z3.substitute(v, (j, k + c)))
    prev = lf.ph(simp(k + c - 1))
    for a in deep_apps(v, lf.ph.name()):
        if not z3.simplify(a.arg(0) - (k + c - 1), som=True).eq(iv(0)):
            return None
        if not a.eq(prev):
            v = z3.substitute(v, (a, prev))
    d = simp(v - prev)
    if mentions(d, leaves, unres):
        return None
    i = z3.FreshConst(I, "si")
    return z3.substitute(lf.init, (j, simp(c - 1))) + SUM(kp + 1, z3.substitute(d, (k, i)), i)


def at_index(t, lf, env=()):
    """If(j == x, f(H(x)), ..) read as If(j == x, f(H(j)), ..); env: equations (q, x) that hold"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
        return t
    c, a, b = t.children()
    while z3.is_not(c) or (z3.is_or(c) and any(z3.is_not(x) and z3.is_eq(x.arg(0)) for x in c.children())):
        # If(!p, a, b) read as If(p, b, a)
        c, a, b = (c.arg(0) if z3.is_not(c) else z3.And(*[x.arg(0) if z3.is_not(x) else z3.Not(x) for x in c.children()])), b, a
    eqs = {}
    for q, r in env:
        eqs.setdefault(q, []).append(r)
    for x in (c.children() if z3.is_and(c) else [c]):
        if z3.is_eq(x):
            for l, r in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                for q, j in enumerate(lf.js):
                    if l.eq(j):
                        eqs.setdefault(q, []).append(r)
    if eqs:
        pairs = []
        for app in apps_of(a, lambda y: y.decl().name() == lf.ph.name()):
            if all(y.eq(j) or any(y.eq(e) for e in eqs.get(q, [])) for q, (y, j) in enumerate(zip(app.children(), lf.js))):
                pairs.append((app, lf.ph(*lf.js)))
        if pairs:
            a = z3.substitute(a, *pairs)
    return z3.If(c, at_index(a, lf, [(q, r) for q, rs in eqs.items() for r in rs]), at_index(b, lf, env))


def sum_upto(k, d):
    i = z3.FreshConst(I, "si")
    return SUM(k, z3.substitute(d, (k, i)), i)


def push_sub(t, ph):
    if t.eq(ph):
        return rv(0) if ph.sort() == R else iv(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), push_sub(t.arg(1), ph), push_sub(t.arg(2), ph))
    return z3.simplify(t - ph, som=False)

"""Iterations of a parallel loop do not interfere.

The body of util::forLoopWrapper / forLoopWrapper2D runs on chunks [b, e) in any
number of threads.  For the loop over the chunk, with the iteration k executed
from an arbitrary state, the effect of the iteration is the symbolic term of every
location it may change.  What has to hold for every pair of different iterations:
  * an element of shared memory written by one is neither written nor read by the
    other;
  * shared scalars (lengths of shared arrays included) are not written at all;
  * shared memory is not written outside the loop over the chunk;
  * what an iteration takes from the private variables of its chunk is what a chunk
    starting at this very iteration would have there (so the result does not depend
    on where the range is cut);
  * thread-local numbers are only added to (so that the sum over the threads does
    not depend on which thread ran which iteration).
Each becomes an obligation."""
import z3
from .values import *
from .logic import *

NAME = "iterations do not interfere"


class Par:
    pass


def ptr_locs(v, out, items, inside=False, seen=None):
    """locations pointed to from v: in `items` when only from inside thread-local copies"""
    if isinstance(v, PIte):
        ptr_locs(v.a, out, items, inside)
        ptr_locs(v.b, out, items, inside)
    elif isinstance(v, Ptr):
        (items if inside else out).add(v.loc)
    elif isinstance(v, Struct):
        for n, x in v.f.items():
            ptr_locs(x, out, items, inside or n == "items")
    elif isinstance(v, Arr):
        try:
            ptr_locs(v.fn(iv(0)), out, items, inside)
        except Exception:
            pass


def thread_local(mem):
    frm = {}
    roots = {}
    for loc, v in mem.items():
        o, it = set(), set()
        ptr_locs(v, o, it)
        roots[loc] = o
        frm[loc] = it
    local = set().union(*frm.values()) if frm else set()
    while True:
        new = set(local)
        for loc in local:
            new |= roots[loc] if loc in roots else set()
        # (pointed to from anywhere else: shared)
        new -= {x for loc, o in roots.items() if loc not in new for x in o}
        if new == local:
            return local
        local = new


def enter(ex, depths, call, b, e):
    """run `call` (the body on the whole range) under observation"""
    if not ex.dynamic.get("interference"):
        call(b)
        return
    par = Par()
    par.base = len(ex.loopk)
    par.levels = depths
    par.shared = set(ex.st.mem)
    par.local = thread_local(ex.st.mem)
    par.inits = None
    par.b0 = b
    par.cap = None
    par.loops = 0
    par.log = {}
    par.where = ex.cur()
    old = getattr(ex, "par", None)
    # what the private variables are when a chunk starts at iteration x, and what its loop does
    x = z3.Const(f"chunk~{uid()}", I)
    st, no, nf, nx = ex.st.copy(), len(ex.obls), len(ex.facts), [(c, len(c.facts), len(c.obls), len(c.exits)) for c in ex.loops]
    stacks = {n: list(v) for n, v in vars(ex).items() if n in ("flags", "_brk", "_cont", "loopk", "loops", "_fnstack")}
    outer = ex.writes
    ex.par = par
    par.mode, par.chunk = "capture", x
    ex.loopk.append(x)
    par.base += 1
    par.raw, par.capfacts = None, []
    par.nf = nf
    try:
        ex.fact(z3.And(x >= to_int(b), x <= to_int(e)))
        call(x)
    except Captured:
        pass
    if par.cap is None:
        ex.loopk.remove(x)
        par.base -= 1
    for n, v in stacks.items():
        getattr(ex, n)[:] = v
    ex.writes = outer
    ex.st = st
    del ex.obls[no:]
    del ex.facts[nf:]
    for c, a, o, t in nx:
        del c.facts[a:]
        del c.obls[o:]
        del c.exits[t:]
    for f in par.capfacts:
        if not f.eq(par.capfacts[0]):
            ex.fact(z3.ForAll([x], z3.Implies(z3.And(x >= to_int(b), x <= to_int(e)), f)) if contains(f, [x]) else f)
    par.mode = "check"
    outer = ex.writes
    ex.writes = (outer or []) + [par.log]
    try:
        call(b)
    finally:
        ex.writes = outer
        ex.par = old
    for loc, path in par.log:
        if loc in par.shared and loc not in par.local and "items" not in path and not internal(ex, loc):
            ex.oblige(f"{NAME}: {loc.split('#')[0]}{''.join('.' + str(y) for y in path)} is not written outside the loop over the chunk in {par.where}", FALSE, "post")
    ex.oblige(f"{NAME}: the body in {par.where} is a loop over its range", z3.BoolVal(par.loops > 0), "post")


def internal(ex, loc):
    return loc == "THROW" or loc in ex.flags or loc.split("#")[0] in ("brk", "cont", "ret", "retflag")


def capture(ex):
    """at the start of the loop over the chunk, in the dry run"""
    par = getattr(ex, "par", None)
    if par is not None and par.mode == "capture" and par.cap is None and len(ex.loopk) == par.base:
        par.cap = [(l, ex.st.mem[l]) for l in ex.st.mem if l not in par.shared]
        par.capfacts = ex.facts[par.nf:]
        ex.loopk.remove(par.chunk)
        par.base -= 1


class Captured(Exception):
    pass


def captured(ex, leaves, news, resolve, k):
    """the effect of one iteration is known in the dry run"""
    par = getattr(ex, "par", None)
    if par is not None and par.mode == "capture" and par.cap is not None and len(ex.loopk) == par.base:
        closed, unres, _ = resolve(ex, leaves, news, {}, k, None)
        par.raw = (leaves, news, closed, unres, k)
        raise Captured()


def capturing(ex):
    par = getattr(ex, "par", None)
    return par is not None and par.mode == "capture" and par.cap is not None and len(ex.loopk) == par.base


def watched(ex):
    par = getattr(ex, "par", None)
    return par is not None and par.mode == "check" and par.base <= len(ex.loopk) < par.base + par.levels


class paused:
    """what the watched loop writes is judged there"""

    def __init__(self, ex):
        self.ex = ex

    def __enter__(self):
        ex = self.ex
        self.old = ex.writes
        if watched(ex) and len(ex.loopk) == ex.par.base and ex.writes is not None:
            ex.writes = [w for w in ex.writes if w is not ex.par.log]

    def __exit__(self, *a):
        self.ex.writes = self.old


def written(t, ph, at_index, lf):
    """condition under which the element is written"""
    t = simp(at_index(t, lf)) if lf.isarr else t

    def nz(d):
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
            a, b = nz(d.arg(1)), nz(d.arg(2))
            return Or(And(d.arg(0), a), And(Not(d.arg(0)), b))
        if z3.is_rational_value(d) or z3.is_int_value(d):
            return z3.BoolVal(not simp(d == 0).eq(TRUE))
        return TRUE

    def go(t):
        if t.eq(ph):
            return FALSE
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            return simp(Or(And(c, go(t.arg(1))), And(Not(c), go(t.arg(2)))))
        if z3.is_add(t) and any(x.eq(ph) for x in t.children()):
            rest = [x for x in t.children() if not x.eq(ph)]
            if len(rest) == t.num_args() - 1:
                return simp(Or(*[nz(x) for x in rest]))
        return simp(t != ph)
    return go(t)


def reads(t, name, own, guard, out, seen):
    """(guard, application) of the array in t, under the conditions of the enclosing if-then-else"""
    if len(out) > 400:
        raise Unsupported("too many reads")
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        reads(t.arg(0), name, own, guard, out, seen)
        reads(t.arg(1), name, own, And(guard, t.arg(0)), out, seen)
        reads(t.arg(2), name, own, And(guard, Not(t.arg(0))), out, seen)
        return
    key = (t.get_id(), guard.get_id())
    if key in seen:
        return
    seen[key] = (t, guard)
    if z3.is_app(t) and t.decl().name() == name:
        if own is None or not t.eq(own):
            out.append((guard, t))
        for c in t.children():
            reads(c, name, own, guard, out, seen)
        return
    if z3.is_app(t) and is_fold_app(t) and name in fold_syms(t.decl().name()):
        fd = FOLDS[t.decl().name()]
        i = z3.FreshConst(I, "rk")
        g = And(guard, i >= 0, i < t.arg(0))
        if fd.kind == "rec":
            acc = z3.FreshConst(fd.acc.sort(), "racc")
            reads(fd.at_acc(t, i, acc), name, own, g, out, seen)
            reads(fd.init_of(t), name, own, guard, out, seen)
        else:
            reads(fd.at(t, i), name, own, g, out, seen)
    if z3.is_quantifier(t):
        vs = [z3.FreshConst(t.var_sort(q), "rq") for q in range(t.num_vars())]
        reads(z3.substitute_vars(t.body(), *reversed(vs)), name, own, guard, out, seen)
        return
    for c in t.children():
        reads(c, name, own, guard, out, seen)


def check(ex, leaves, news, closed, S, k, N, at_index, mentions, push_sub, bodyfacts):
    """obligations for the loop over the chunk (called where its effect is known)"""
    par = ex.par
    par.loops += 1
    level = len(ex.loopk) - par.base
    k2 = z3.Const(f"k2~{uid()}", I)
    rng = z3.And(k >= 0, k < N, k2 >= 0, k2 < N, k != k2)
    bodyfacts = [f for f in bodyfacts if not z3.is_quantifier(f)]
    bf = And(*[f for f in bodyfacts if not z3.is_quantifier(f)]) if bodyfacts else TRUE
    both = And(rng, bf, z3.substitute(bf, (k, k2)))
    W, shared, private, tls = {}, [], [], []
    for kk, new in news.items():
        if kk not in leaves or kk[-1] in ("#u", "#undef"):
            if kk[0] in par.shared and not internal(ex, kk[0]):
                ex.oblige(f"{NAME}: what is written to {nm(kk, ex)} is known in {par.where}", FALSE, "post")
            continue
        lf = leaves[kk]
        ph = lf.ph(*lf.js) if lf.isarr else lf.ph
        if internal(ex, kk[0]):
            continue
        if kk[0] not in par.shared:
            private.append(kk)
            continue
        if kk[0] in par.local or "items" in str(kk):
            tls.append(kk)
            continue
        if simp(new).eq(ph):
            continue
        shared.append(kk)
        W[kk] = S(written(simp(new), ph, at_index, lf)) if lf.isarr else simp(S(new) != S(ph))
    for kk in shared:
        lf = leaves[kk]
        w = W[kk]
        if not lf.isarr:
            ex.oblige(f"{NAME}: {nm(kk, ex)} is not written in {par.where}", z3.Implies(both, Not(w)), "post")
            continue
        w2 = z3.substitute(w, (k, k2))
        ex.oblige(f"{NAME}: no element of {nm(kk, ex)} is written twice in {par.where}",
                  z3.Implies(And(both, *[j >= 0 for j in lf.js]), Not(And(w, w2))), "post")
        out = []
        for k3, new in news.items():
            if k3 in leaves and not internal(ex, k3[0]):
                own = lf.ph(*lf.js) if k3 == kk else None
                t = simp(new)
                t = simp(at_index(t, leaves[k3])) if leaves[k3].isarr else t
                reads(t, lf.ph.name(), own, TRUE, out, {})
        done = set()
        for g, a in out:
            w3 = z3.substitute(w2, *zip(lf.js, a.children()))
            goal = simp(z3.Implies(And(both, S(g)), Not(S(w3))))
            if goal.get_id() in done or is_true(goal):
                continue
            done.add(goal.get_id())
            ex.oblige(f"{NAME}: {nm(kk, ex)} is not read where another writes it in {par.where}", goal, "post")
    # private variables of the chunk
    cap = {}
    if par.cap is not None and level == 0:
        mine = [l for l in ex.st.mem if l not in par.shared]
        theirs = par.cap
        for l, (l2, v2) in zip(mine, theirs):
            if l.split("#")[0] == l2.split("#")[0]:
                cap[l] = v2
    todo = list(shared) + tls
    raw = None
    if level == 0 and par.raw is not None:
        # (locations of the two runs correspond one to one)
        lo = dict(zip([l for l, _ in par.cap], [l for l in ex.st.mem if l not in par.shared]))
        rl, rn, rc, ru, rk = par.raw
        ren = lambda q: (lo.get(q[0], q[0]),) + tuple(q[1:])
        raw = ({ren(q): v for q, v in rl.items()}, {ren(q): v for q, v in rn.items()}, {ren(q): v for q, v in rc.items()}, [ren(q) for q in ru], rk)
    good = {}
    for kk in sorted(private, key=str):
        if level > 0 or not any(mentions(news[q], leaves, [kk]) for q in todo):
            continue                    # (the inner loop of a 2D range: its variables start afresh in every row)
        lf = leaves[kk]
        v = cap.get(kk[0])
        for y in kk[1]:
            v = v.f.get(y) if isinstance(v, Struct) else None
        v = leaf_of(v, kk[2:], lf.js)
        goal = FALSE
        if v is not None and is_z3(v):
            goal = closed[kk] == z3.substitute(v, (par.chunk, to_int(par.b0) + k))
        good[kk] = simp(z3.Implies(z3.And(k >= 0, k < N), goal))
    for kk in todo:
        if level > 0:
            break
        mine = [q for q in good if mentions(news[kk], leaves, [q])]
        if raw is None or kk not in raw[1]:
            ex.oblige(f"{NAME}: {nm(kk, ex)} does not depend on where the chunk starts in {par.where}", FALSE, "post")
            continue
        if not contains(raw[1][kk], [par.chunk]) and not any(is_false(good[q]) or refuted(ex, good[q]) for q in mine):
            for q in mine:
                ex.oblige(f"{NAME}: {nm(q, ex)} is as in a chunk starting at this iteration in {par.where}", good[q], "post")
            continue
        # the effect of iteration x + k of the chunk starting at x, and of the chunk starting at x + k
        rl, rn, rc, ru, rk = raw
        from .loops import substituter
        pr = {q: rc[q] for q in rc if q[0] not in par.shared and q in rl}
        t = substituter({q: rl[q] for q in pr}, pr)(rn[kk])
        goal = FALSE if any(mentions(rn[kk], rl, [q]) for q in ru if q[0] not in par.shared) else \
            t == z3.substitute(t, (par.chunk, par.chunk + rk), (rk, iv(0)))
        ex.oblige(f"{NAME}: {nm(kk, ex)} does not depend on where the chunk starts in {par.where}",
                  z3.Implies(z3.And(rk >= 0, par.chunk >= to_int(par.b0), rk + par.chunk < to_int(par.b0) + N), goal), "post")
    for kk in tls:
        lf = leaves[kk]
        ph = lf.ph(*lf.js) if lf.isarr else lf.ph
        t = simp(news[kk])
        if lf.isarr:
            t = simp(at_index(t, lf))
        if lf.sort not in (I, R) or kk[-1] in ("#n", "#p") or "NeighborBond" in str(kk) or "flat" not in str(kk) and "nest" not in str(kk):
            # (lists of results: appended to, gathered and sorted afterwards)
            bad = any(mentions(news[q], leaves, [kk]) for q in shared)
            ex.oblige(f"{NAME}: thread-local {nm(kk, ex)} does not reach shared memory in {par.where}", z3.BoolVal(not bad), "post")
            continue
        d = simp(push_sub(t, ph))
        ex.oblige(f"{NAME}: thread-local {nm(kk, ex)} is only added to in {par.where}", z3.BoolVal(not mentions(d, leaves, tls)), "post")


def owner(v, loc, at=""):
    """name of the member pointing to the location"""
    if isinstance(v, Ptr) and v.loc == loc:
        return at
    if isinstance(v, Struct):
        for n, x in v.f.items():
            r = owner(x, loc, n)
            if r:
                return r
    return None


def tried(f, ts):
    """the facts that can be rewritten (fewer facts: weaker hypotheses)"""
    out = []
    for t in ts:
        try:
            out.append(f(t))
        except RuntimeError:
            pass
    return out


def refuted(ex, g):
    from .logic import _check
    hs = [h for h in ex.hyps() if not z3.is_quantifier(h)]
    return not is_true(g) and _check(relevant(hs, g) + [z3.Not(g)], 0.5, "")[0] == z3.sat and not quick_all(ex, g)


def quick_all(ex, g):
    from .loops import known
    return known(ex, g)


def leaf_of(v, rest, js):
    d = 0
    for x in rest:
        if x == "#n":
            return v.n if isinstance(v, Arr) else None
        if x in ("#e", "#0"):
            if not isinstance(v, Arr):
                return None
            v = v.get(iv(0) if x == "#0" else js[d])
            d += x == "#e"
        elif x == "#p":
            return v.path[-1] if isinstance(v, Ptr) and v.path else None
        else:
            v = v.f.get(x) if isinstance(v, Struct) else None
    return v


def nm(kk, ex):
    out = str(kk[0]).split("#")[0]
    if out in ("heap", "t"):
        own = sorted(o for o in (owner(v, kk[0]) for v in ex.st.mem.values()) if o)
        out = own[0] if own else out
    for x in list(kk[1]) + list(kk[2:]):
        x = str(x)
        out += {"#e": "[]", "#n": ".size", "#p": ".position", "#0": ""}.get(x, "." + x)
    return out

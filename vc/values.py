"""Symbolic values, memory and logical primitives of the verifier."""
import itertools
import z3

_cnt = itertools.count()


class Unsupported(Exception):
    """The code uses something outside the verifier's subset."""


I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def iv(n):
    return z3.IntVal(n)


def rv(x):
    return z3.RealVal(x)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def simp(t):
    return z3.simplify(t)


def uid():
    return next(_cnt)


def And(*a):
    a = [x for x in a if not is_true(x)]
    if any(is_false(x) for x in a):
        return FALSE
    if not a:
        return TRUE
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not is_false(x)]
    if any(is_true(x) for x in a):
        return TRUE
    if not a:
        return FALSE
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if is_true(a):
        return FALSE
    if is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def to_real(t):
    if t.sort() == I:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if t.sort() == B:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def to_int(t):
    if t.sort() == B:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def to_bool(t):
    if t.sort() == B:
        return t
    return simp(t != 0)


# -- structured values --------------------------------------------------------
class Struct:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def set(self, name, v):
        f = dict(self.f)
        f[name] = v
        return Struct(self.cls, f)

    def __repr__(self):
        return f"{self.cls}{{{', '.join(f'{k}={v!r}' for k, v in self.f.items())}}}"


class Arr:
    """Functional array: n elements (z3 Int), fn(index) -> value."""
    __slots__ = ("n", "fn", "ety")

    def __init__(self, n, fn, ety=None):
        self.n = n
        self.fn = fn
        self.ety = ety

    def get(self, i):
        return self.fn(i)

    def set(self, i, v):
        fn = self.fn

        def g(j, i=i, v=v, fn=fn):
            c = simp(j == i)
            if is_true(c):
                return v
            if is_false(c):
                return fn(j)
            return ite(c, v, fn(j))
        return Arr(self.n, g, self.ety)

    def resized(self, n):
        return Arr(n, self.fn, self.ety)

    def __repr__(self):
        return f"Arr(n={self.n})"


class Ptr:
    """Pointer / reference / smart pointer to an lvalue (loc, path)."""
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc = loc
        self.path = tuple(path)

    def __repr__(self):
        return f"Ptr({self.loc},{self.path})"


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Null:
    def __repr__(self):
        return "Null"


NULL = Null()


class Closure:
    __slots__ = ("node", "frame", "copies")

    def __init__(self, node, frame, copies):
        self.node, self.frame, self.copies = node, frame, copies


class PyFn:
    """A callable supplied by a contract (abstract function argument)."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="pyfn"):
        self.fn, self.name = fn, name


class Undef:
    def __repr__(self):
        return "Undef"


UNDEF = Undef()


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def coerce2(a, b):
    if a.sort() == b.sort():
        return a, b
    if R in (a.sort(), b.sort()):
        return to_real(a), to_real(b)
    return to_int(a), to_int(b)


class MaTag:
    """Which of its two views (row-major or nested) holds a model array's data.
    Copies share the tag; merging two values unifies their tags."""

    def __init__(self, mode=None):
        self.mode, self.parent = mode, None

    def find(self):
        t = self
        while t.parent is not None:
            t = t.parent
        return t

    def decide(self, mode):
        t = self.find()
        if t.mode is None:
            t.mode = mode
        return t.mode

    def unify(self, o):
        a, b = self.find(), o.find()
        if a is not b:
            if a.mode is not None and b.mode is not None and a.mode != b.mode:
                raise Unsupported("arrays with different views meet")
            if a.mode is None:
                a.parent = b
            else:
                b.parent = a
        return self


def same(a, b):
    if a is b:
        return True
    if isinstance(a, MaTag) and isinstance(b, MaTag):
        a.unify(b)
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.loc == b.loc and len(a.path) == len(b.path) and all(
            (x == y) if isinstance(x, str) or isinstance(y, str) else x.eq(y)
            for x, y in zip(a.path, b.path))
    if isinstance(a, Struct) and isinstance(b, Struct):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    return False


def ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, MaTag) and isinstance(b, MaTag):
        return a.unify(b)
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if is_z3(a) and is_z3(b):
        if a.eq(b):
            return a
        a, b = coerce2(a, b)
        if a.sort() == B:
            if is_true(a) and is_false(b):
                return c
            if is_false(a) and is_true(b):
                return Not(c)
            if is_true(a):
                return Or(c, b)
            if is_false(a):
                return And(Not(c), b)
            if is_true(b):
                return Or(Not(c), a)
            if is_false(b):
                return And(c, a)
        return z3.If(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.f.keys() != b.f.keys():
            raise Unsupported(f"merge of different structs {a.cls} {b.cls}")
        return Struct(a.cls, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Arr) and isinstance(b, Arr):
        fa, fb = a.fn, b.fn
        if fa is fb:
            return Arr(ite(c, a.n, b.n), fa, a.ety)
        # (an empty side contributes no elements)
        if z3.is_int_value(a.n) and a.n.as_long() == 0:
            return Arr(ite(c, a.n, b.n), fb, b.ety)
        if z3.is_int_value(b.n) and b.n.as_long() == 0:
            return Arr(ite(c, a.n, b.n), fa, a.ety)
        return Arr(ite(c, a.n, b.n), lambda j: ite(c, fa(j), fb(j)), a.ety or b.ety)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if same(a, b):
            return a
        if a.loc == b.loc and len(a.path) == len(b.path):
            p = []
            for x, y in zip(a.path, b.path):
                if isinstance(x, str) or isinstance(y, str):
                    if x != y:
                        return PIte(c, a, b)
                    p.append(x)
                else:
                    p.append(ite(c, x, y))
            return Ptr(a.loc, p)
        return PIte(c, a, b)
    if isinstance(a, (Ptr, PIte, Null)) and isinstance(b, (Ptr, PIte, Null)):
        if isinstance(a, Null) and isinstance(b, Null):
            return a
        return PIte(c, a, b)
    if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node and a.frame is b.frame:
        return a
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


def free_consts(t, acc=None, seen=None):
    """Uninterpreted 0-ary constants of a term."""
    if acc is None:
        acc, seen = {}, set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc[i] = x
            else:
                stack.extend(x.children())
    return acc


def contains(t, consts):
    ids = {c.get_id() for c in consts}
    return any(i in ids for i in free_consts(t))


def uses_fn(t, decls):
    """Does the term apply one of the given function declarations?"""
    names = {d.name() for d in decls}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            stack.extend(x.children())
    return False


def apps_of(t, pred):
    out = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x):
                out[x.get_id()] = x
            stack.extend(x.children())
    return list(out.values())


def subst(t, pairs):
    if not pairs:
        return t
    return z3.substitute(t, *pairs)


def map_value(v, f):
    """Apply a term transformer to every scalar leaf of a value."""
    if is_z3(v):
        return f(v)
    if isinstance(v, Struct):
        return Struct(v.cls, {k: map_value(x, f) for k, x in v.f.items()})
    if isinstance(v, Arr):
        fn = v.fn
        # the index is kept symbolic during the substitution
        def g(j, fn=fn):
            q = z3.FreshConst(I, "jj")
            r = map_value(fn(q), f)
            return map_value(r, lambda t: z3.substitute(t, (q, j)))
        return Arr(f(v.n), g, v.ety)
    if isinstance(v, Ptr):
        return Ptr(v.loc, tuple(x if isinstance(x, str) else f(x) for x in v.path))
    if isinstance(v, PIte):
        return PIte(f(v.c), map_value(v.a, f), map_value(v.b, f))
    return v

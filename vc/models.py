"""Contracts assumed for what lies outside the repository (standard library,
TBB, SSE intrinsics) and the contract of util::ManagedArray / forLoopWrapper
that callers are checked against (proved separately, property P04/P24)."""
import z3
from . import cxxast as A
from .values import *
from .logic import *


def _X():
    from . import exec as X
    return X


COS, SIN, ACOS, EXP, LOG = (uf(n, R, R) for n in ("cos", "sin", "acos", "exp", "log"))
ATAN2 = uf("atan2", R, R, R)
POW = uf("pow", R, R, R)
CBRT = uf("cbrt", R, R)


def _neg(x):
    """(the term without its leading minus sign, True) when it has one"""
    x = z3.simplify(x, som=True)
    t = x.arg(0) if z3.is_add(x) else x
    if z3.is_mul(t) and z3.is_rational_value(t.arg(0)) and t.arg(0).as_fraction() < 0 or z3.is_rational_value(t) and t.as_fraction() < 0:
        return simp(z3.simplify(-x, som=True)), True
    return x, False


def cos_(x):
    """cos, an uninterpreted even function"""
    return COS(simp(_neg(simp(x))[0]))


def sin_(x):
    """sin, an uninterpreted odd function"""
    y, n = _neg(simp(x))
    return -SIN(simp(y)) if n else SIN(simp(y))


def cx(re, im, t="complex<float>"):
    re = rv(re) if isinstance(re, (int, float)) else re
    im = rv(im) if isinstance(im, (int, float)) else im
    return Struct(t, {"re": to_real(re), "im": to_real(im)})


def is_cx(v):
    return isinstance(v, Struct) and "re" in v.f and "im" in v.f and len(v.f) == 2


def cmul(a, b):
    return cx(a.f["re"] * b.f["re"] - a.f["im"] * b.f["im"], a.f["re"] * b.f["im"] + a.f["im"] * b.f["re"], a.cls)


def cdiv(a, b):
    d = b.f["re"] * b.f["re"] + b.f["im"] * b.f["im"]
    n = cmul(a, cx(b.f["re"], -b.f["im"]))
    bi = simp(b.f["im"])
    if z3.is_rational_value(bi) and bi.as_fraction() == 0:
        return cx(fdiv(a.f["re"], b.f["re"]), fdiv(a.f["im"], b.f["re"]), a.cls)
    return cx(fdiv(n.f["re"], d), fdiv(n.f["im"], d), a.cls)


def as_cx(v):
    return v if is_cx(v) else cx(v, rv(0))


def carith(op, a, b):
    if op == "*":
        if not is_cx(a):
            return cx(to_real(a) * b.f["re"], to_real(a) * b.f["im"], b.cls)
        if not is_cx(b):
            return cx(a.f["re"] * to_real(b), a.f["im"] * to_real(b), a.cls)
        return cmul(a, b)
    if op == "/":
        if not is_cx(b):
            return cx(fdiv(a.f["re"], b), fdiv(a.f["im"], b), a.cls)
        return cdiv(as_cx(a), b)
    a, b = as_cx(a), as_cx(b)
    if op == "+":
        return cx(a.f["re"] + b.f["re"], a.f["im"] + b.f["im"], a.cls)
    if op == "-":
        return cx(a.f["re"] - b.f["re"], a.f["im"] - b.f["im"], a.cls)
    if op == "==":
        return And(a.f["re"] == b.f["re"], a.f["im"] == b.f["im"])
    raise Unsupported("complex " + op)


# ------------------------------------------------------------------ install
def install(ex):
    X = _X()
    ex.type_models = {}
    ex.ctor_models = {}
    ex.method_models = {}
    ex.repo_models = {}
    ex.iter_models = {}
    ex.global_models = {"M_PI": X.PI}
    T = ex.type_models

    def empty_arr(e, t):
        a = X.targs(t)
        et = a[0] if a else None
        return Arr(iv(0), lambda j, et=et: e.zero(et), et)
    for b in ("vector", "deque", "concurrent_vector"):
        T[b] = empty_arr
    for b in ("shared_ptr", "unique_ptr"):
        T[b] = lambda e, t: NULL
    T["complex"] = lambda e, t: cx(0, 0, "complex<" + (X.targs(t)[0] if X.targs(t) else "float") + ">")
    T["pair"] = lambda e, t: Struct(t, {"first": e.zero(X.targs(t)[0]), "second": e.zero(X.targs(t)[1])})
    T["array"] = lambda e, t: X.const_arr(iv(int(X.targs(t)[1].rstrip("UL"))), e.zero(X.targs(t)[0]), X.targs(t)[0])
    T["function"] = lambda e, t: UNDEF
    T["ManagedArray"] = lambda e, t: ma_new(e, t, [iv(0)])
    for b in ("basic_ostringstream", "ostringstream", "basic_string", "string", "basic_stringstream", "mt19937", "exception",
              "invalid_argument", "runtime_error", "out_of_range", "stringstream"):
        T[b] = lambda e, t: Struct("str", {})
        ex.ctor_models[b] = lambda e, t, a, n, fr: Struct("str", {})
    for b in ("basic_string", "string"):
        T[b] = lambda e, t: Struct("str", {"n": iv(0)})
        ex.ctor_models[b] = lambda e, t, a, n, fr: Struct("str", {} if a else {"n": iv(0)})
    ets_t = lambda e, t: ets_new(e, t, None)
    T["enumerable_thread_specific"] = ets_t
    T["combinable"] = ets_t

    C = ex.ctor_models
    for b in ("vector", "deque"):
        C[b] = vector_ctor
    for b in ("shared_ptr", "unique_ptr"):
        C[b] = lambda e, t, a, n, fr: e.rvx(a[0], fr) if a else NULL
    C["complex"] = complex_ctor
    C["pair"] = pair_ctor
    C["tuple"] = tuple_ctor
    C["function"] = lambda e, t, a, n, fr: e.rvx(a[0], fr) if a else UNDEF
    C["array"] = lambda e, t, a, n, fr: e.rvx(a[0], fr) if a else T["array"](e, t)
    C["ManagedArray"] = ma_ctor
    C["enumerable_thread_specific"] = lambda e, t, a, n, fr: ets_new(e, t, e.rvx(a[0], fr) if a else None)
    ex.ctor_models["__gnu_cxx::__normal_iterator"] = lambda e, t, a, n, fr: e.rvx(a[0], fr)
    C["__normal_iterator"] = lambda e, t, a, n, fr: e.rvx(a[0], fr)
    C["blocked_range"] = lambda e, t, a, n, fr: Struct("blocked_range", {"b": e.rvx(a[0], fr), "e": e.rvx(a[1], fr)})
    C["allocator"] = lambda e, t, a, n, fr: Struct("str", {})
    C["atomic"] = lambda e, t, a, n, fr: e.rvx(a[0], fr)

    M = ex.method_models
    for nm in ("operator()", "operator[]", "size", "shape", "data", "reset", "getIndex", "copy", "operator="):
        M[("ManagedArray", nm)] = (lambda nm: lambda e, p, a, fr, n: ma_method(e, p, nm, a, fr, n))(nm)
    ex.repo_models["forLoopWrapper"] = for_wrapper
    ex.repo_models["forLoopWrapper2D"] = for_wrapper2d


def use_real_managed_array(ex):
    """For the proof of ManagedArray itself: run its real code."""
    for k in list(ex.method_models):
        if k[0] == "ManagedArray":
            del ex.method_models[k]
    ex.ctor_models.pop("ManagedArray")
    ex.type_models.pop("ManagedArray")


# ---------------------------------------------------------- parallel wrappers
def for_wrapper(ex, a, fn):
    b, e, body = ex.rd(a[0]), ex.rd(a[1]), a[2]
    hook = ex.dynamic.get("parallel_hook")
    if hook is not None:
        hook(ex, b, e, body)
    ex.assumed.add("freud::util::forLoopWrapper")
    from . import races
    races.enter(ex, 1, lambda lo, hi=e: ex.call_value(body, [lo, hi]), b, e)
    return None


def for_wrapper2d(ex, a, fn):
    v = [ex.rd(x) for x in a[:4]]
    ex.assumed.add("freud::util::forLoopWrapper2D")
    from . import races
    races.enter(ex, 2, lambda lo, hi=v[1]: ex.call_value(a[4], [lo, hi, v[2], v[3]]), v[0], v[1])
    return None


# -------------------------------------------------------------- ManagedArray
# value: Struct("ManagedArray<T>", shape=Arr, flat=Arr, nest=Arr, touched=str)
def ma_new(ex, t, shape, fill=None):
    X = _X()
    et = X.targs(t)[0]
    z = fill if fill is not None else ex.zero(et)
    n = iv(1)
    for s in shape:
        n = simp(n * s)
    nest = z
    for s in reversed(shape):
        nest = X.const_arr(s, nest, et)
    return Struct(t, {"shape": X.from_list(shape, "unsigned long"), "flat": X.const_arr(n, z, et), "nest": nest, "tag": MaTag()})


def arr_list(a):
    if not z3.is_int_value(simp(a.n)):
        raise Unsupported("vector of symbolic length where a literal one is needed")
    return [a.get(iv(i)) for i in range(simp(a.n).as_long())]


def ma_ctor(ex, t, args, n, fr):
    if not args or args[0].get("kind") == "CXXDefaultArgExpr":
        return ma_new(ex, t, [iv(0)])
    v = ex.rvx(args[0], fr)
    return ma_make(ex, t, [v])


def ma_make(ex, t, vals):
    if not vals or vals[0] is _X().DEFAULT:
        return ma_new(ex, t, [iv(0)])
    v = vals[0]
    if isinstance(v, (Ptr, PIte)):
        v = ex.read(v)
    if isinstance(v, Arr):
        return ma_new(ex, t, [to_int(x) for x in arr_list(v)])
    if isinstance(v, Struct):
        return v
    return ma_new(ex, t, [to_int(v)])


def ma_rank(v):
    return len(arr_list(v.f["shape"]))


def ma_method(ex, p, nm, args, fr, n):
    X = _X()
    if isinstance(p, PIte):
        return ex.ite_eval(p.c, lambda: ma_method(ex, p.a, nm, args, fr, n), lambda: ma_method(ex, p.b, nm, args, fr, n))
    if isinstance(args, list) and args and isinstance(args[0], dict):
        vals = [ex.rvx(a, fr) for a in args]
    else:
        vals = list(args or [])
    if nm == "operator()":
        vals = [simp(ex.to_integral(x, "unsigned long")) if is_z3(x) and x.sort() == R else x for x in vals]
    v = ex.read(p)
    if "shape" not in v.f:
        return NotImplemented
    ex.assumed.add("freud::util::ManagedArray::" + nm)
    if nm == "size":
        return v.f["flat"].n
    if nm == "shape":
        return ex.sub(p, "shape")
    if nm == "data":
        if ma_rank(v) > 1:
            raise Unsupported("raw data pointer of a multi-dimensional array")
        return Ptr(p.loc, p.path + ("flat", iv(0)))
    if nm == "reset":
        z = ma_new(ex, v.cls, [to_int(x) for x in arr_list(v.f["shape"])])
        for k in ("flat", "nest"):
            ex.write(Ptr(p.loc, p.path + (k,)), z.f[k])
        return None
    if nm == "copy":
        return v
    if nm == "operator=":
        o = vals[0]
        ex.write(p, ex.read(o) if isinstance(o, (Ptr, PIte)) else o)
        return p
    if nm in ("operator()", "getIndex") and len(vals) == 1 and isinstance(vals[0], Arr):
        idx = arr_list(vals[0])
        flat = iv(0)
        for s, i in zip(arr_list(v.f["shape"]), idx):
            flat = simp(flat * s + i)
        if nm == "getIndex":
            for s, i in zip(arr_list(v.f["shape"]), idx):
                ex.oblige(f"getIndex argument in range in {ex.cur()}", z3.And(i >= 0, i <= s))
            return flat
        vals = idx if ma_rank(v) > 1 else [flat]
    if nm in ("operator[]", "operator()") and len(vals) == 1:
        i = simp(to_int(vals[0]))
        if ma_rank(v) > 1 and nm == "operator()":
            raise Unsupported("short index")
        ex.oblige(f"ManagedArray index in range in {ex.cur()}", z3.And(i >= 0, i < v.f["flat"].n))
        if ma_rank(v) > 1 and v.f["tag"].decide("flat") == "nest":
            sh, idx = arr_list(v.f["shape"]), []
            m = iv(1)
            for q in range(len(sh) - 1, -1, -1):
                d = simp(i / m) if q < len(sh) - 1 else i
                idx.insert(0, simp(d % sh[q]) if q else d)
                m = simp(m * sh[q])
            return Ptr(p.loc, p.path + ("nest",) + tuple(idx))
        return Ptr(p.loc, p.path + ("flat", i))
    if nm == "operator()":
        sh = arr_list(v.f["shape"])
        if len(sh) != len(vals):
            raise Unsupported("index rank mismatch")
        if v.f["tag"].decide("nest") == "flat" or len(sh) == 1:
            flat = iv(0)
            for s, i in zip(sh, vals):
                i = simp(to_int(i))
                ex.oblige(f"ManagedArray index in range in {ex.cur()}", z3.And(i >= 0, i < s))
                flat = simp(flat * s + i)
            return Ptr(p.loc, p.path + ("flat", flat))
        path = p.path + ("nest",)
        for s, i in zip(sh, vals):
            i = simp(to_int(i))
            ex.oblige(f"ManagedArray index in range in {ex.cur()}", z3.And(i >= 0, i < s))
            path = path + (i,)
        return Ptr(p.loc, path)
    return NotImplemented


# ------------------------------------------------------- thread-local storage
def ets_new(ex, t, init):
    """One item (the executing thread's); n items when a contract asks for it."""
    X = _X()
    et = X.targs(t)[0] if X.targs(t) else None
    if init is None:
        v = ex.default(et, zero=True)
    elif isinstance(init, (Closure, PyFn)):
        v = ex.call_value(init, [])
        if isinstance(v, (Ptr, PIte)):
            v = ex.read(v)
    else:
        v = init
    # each thread owns its own copy of heap data reachable from the item
    v = deep_copy(ex, v)
    return Struct(t, {"items": X.from_list([v], et)})


def deep_copy(ex, v):
    if isinstance(v, Ptr) and not v.path:
        obj = ex.st.mem.get(v.loc)
        if isinstance(obj, Struct) and obj.cls.startswith("ManagedArray"):
            return ex.alloc(obj, "heap")
        return v
    if isinstance(v, Struct):
        return Struct(v.cls, {k: deep_copy(ex, x) for k, x in v.f.items()})
    return v


# ------------------------------------------------------------- constructors
def vector_ctor(ex, t, args, n, fr):
    X = _X()
    et = X.targs(t)[0]
    args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    if not args:
        return ex.type_models["vector"](ex, t)
    ct = (n.get("ctorType") or {}).get("qualType", "")
    vals = [ex.rvx(a, fr) for a in args]
    return vector_make(ex, t, et, vals)


def vector_make(ex, t, et, vals):
    X = _X()
    v = vals[0]
    if isinstance(v, Arr):
        return v
    if isinstance(v, (Ptr, PIte)) and len(vals) >= 2 and isinstance(vals[1], (Ptr, PIte)):
        cnt = ex.ptr_op("-", vals[1], v)
        base = Ptr(v.loc, v.path[:-1])
        a = ex.read(base)
        o = v.path[-1]
        return Arr(cnt, lambda j, a=a, o=o: a.get(simp(o + j)), et)
    if is_z3(v):
        if len(vals) >= 2 and not (isinstance(vals[1], Struct) and vals[1].cls == "str"):
            fv = ex.conv_to(vals[1], et)
            return X.const_arr(to_int(v), fv, et)
        return X.const_arr(to_int(v), ex.zero(et), et)
    raise Unsupported("vector constructor")


def complex_ctor(ex, t, args, n, fr):
    vals = [ex.rvx(a, fr) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    if not vals:
        return cx(0, 0, t)
    if is_cx(vals[0]):
        return vals[0]
    return cx(vals[0], vals[1] if len(vals) > 1 else 0, t)


def pair_ctor(ex, t, args, n, fr):
    X = _X()
    vals = [ex.rvx(a, fr) for a in args]
    if len(vals) == 2:
        ta = X.targs(t)
        vals = [ex.conv_to(x, y) if is_z3(x) else x for x, y in zip(vals, ta)]
        return Struct(t, {"first": vals[0], "second": vals[1]})
    if len(vals) == 1 and isinstance(vals[0], Struct):
        return Struct(t, vals[0].f)
    return ex.type_models["pair"](ex, t)


def tuple_ctor(ex, t, args, n, fr):
    vals = [ex.rvx(a, fr) for a in args]
    return Struct(t, {str(i): v for i, v in enumerate(vals)})


# ------------------------------------------------------------- member calls
def std_method(ex, p, ot, nm, args, fr, n):
    X = _X()
    if ot.startswith("const "):
        ot = ot[6:]
    b = X.tbase(ot)
    if b in ("basic_ostringstream", "basic_string", "basic_stringstream", "basic_ostream", "__cxx11", "string"):
        o = ex.read(p) if isinstance(p, Ptr) else p
        if isinstance(o, Struct) and "n" in o.f and nm in ("empty", "size", "length", "substr"):
            # strings are known by their lengths
            ln = o.f["n"]
            if nm == "empty":
                return simp(ln == 0)
            if nm != "substr":
                return ln
            a = [to_int(ex.rvx(x, fr)) for x in args if x.get("kind") != "CXXDefaultArgExpr"]
            if a and z3.is_int_value(simp(a[0])) and simp(a[0]).as_long() == 0:
                return Struct("str", {"n": ln if len(a) == 1 else simp(z3.If(a[1] <= ln, a[1], ln))})
        return Struct("str", {}) if nm not in ("empty", "size", "length") else ex.fresh("strq", I)
    if isinstance(p, PIte):
        return ex.ite_eval(p.c, lambda: std_method(ex, p.a, ot, nm, args, fr, n), lambda: std_method(ex, p.b, ot, nm, args, fr, n))
    obj = ex.read(p) if isinstance(p, Ptr) else p
    if isinstance(obj, (Ptr, PIte)) and b not in ("shared_ptr", "unique_ptr"):
        obj = ex.read(obj)
    if isinstance(obj, Arr):
        return arr_method(ex, p, obj, nm, args, fr, n, ot)
    if b in ("shared_ptr", "unique_ptr"):
        if nm == "get":
            return obj
        if nm == "operator bool":
            return Not(ex.ptr_eq(obj, NULL))
        if nm == "reset":
            ex.write(p, NULL)
            return None
        if nm == "operator=":
            v = ex.rvx(args[0], fr)
            ex.write(p, v)
            return p
    if is_cx(obj):
        if nm == "real":
            return obj.f["re"]
        if nm == "imag":
            return obj.f["im"]
    if isinstance(obj, Struct) and "items" in obj.f:
        items = obj.f["items"]
        if nm == "local":
            tid = ex.dynamic.get("tid", iv(0))
            return ex.sub(ex.sub(p, "items"), tid)
        if nm == "begin":
            return Ptr(p.loc, p.path + ("items", iv(0)))
        if nm == "end":
            return Ptr(p.loc, p.path + ("items", items.n))
        if nm == "size":
            return items.n
        if nm == "operator=":
            v = ex.rvx(args[0], fr)
            ex.write(p, Struct(v.cls, {"items": Arr(v.f["items"].n, _deep_items(ex, v.f["items"]), v.f["items"].ety)}))
            return p
    if isinstance(obj, Struct) and obj.cls == "blocked_range":
        return obj.f["b"] if nm == "begin" else obj.f["e"]
    if nm == "operator=":
        v = ex.rvx(args[0], fr)
        ex.write(p, v)
        return p
    if is_z3(obj):       # atomic
        if nm.startswith("operator "):
            return obj
        if nm == "load":
            return obj
        if nm == "store":
            ex.write(p, ex.rvx(args[0], fr))
            return None
    h = ex.dynamic.get("std_method")
    if h is not None:
        r = h(ex, p, ot, nm, args, fr, n)
        if r is not NotImplemented:
            return r
    raise Unsupported(f"library method {ot}.{nm}")


def _deep_items(ex, items):
    v = [deep_copy(ex, x) for x in arr_list(items)]
    return _X().from_list(v).fn


def arr_method(ex, p, a, nm, args, fr, n, ot):
    X = _X()
    et = a.ety or (X.targs(ot)[0] if X.targs(ot) else None)
    if nm == "size":
        return a.n
    if nm == "empty":
        return simp(a.n == 0)
    if nm in ("begin", "cbegin", "data"):
        return Ptr(p.loc, p.path + (iv(0),))
    if nm in ("end", "cend"):
        return Ptr(p.loc, p.path + (simp(a.n),))
    if nm in ("operator[]", "at"):
        i = simp(to_int(ex.rvx(args[0], fr)))
        ex.oblige(f"in-bounds access in {ex.cur()}", z3.And(i >= 0, i < a.n))
        return Ptr(p.loc, p.path + (i,))
    if nm == "back":
        return Ptr(p.loc, p.path + (simp(a.n - 1),))
    if nm == "front":
        return Ptr(p.loc, p.path + (iv(0),))
    if nm in ("push_back", "emplace_back"):
        vals = [ex.rvx(x, fr) for x in args]
        if nm == "emplace_back" and not (len(vals) == 1 and (is_z3(vals[0]) or isinstance(vals[0], (Arr, Ptr)) or
                                         (isinstance(vals[0], Struct) and vals[0].cls == et))):
            v = make_obj(ex, et, vals)
        else:
            v = vals[0]
        if is_z3(v) and et:
            v = ex.conv_to(v, et)
        ex.write(p, push(a, v, et))
        return Ptr(p.loc, p.path + (simp(a.n),))
    if nm in ("reserve", "shrink_to_fit"):
        for x in args:
            ex.rvx(x, fr)
        return None
    if nm in ("resize", "assign"):
        vals = [ex.rvx(x, fr) for x in args if x.get("kind") != "CXXDefaultArgExpr"]
        if nm == "assign":
            ex.write(p, vector_make(ex, ot, et, vals))
            return None
        m = simp(to_int(vals[0]))
        z = ex.conv_to(vals[1], et) if len(vals) > 1 else ex.zero(et)
        old = a
        if z3.is_int_value(simp(old.n)) and simp(old.n).as_long() == 0:
            ex.write(p, X.const_arr(m, z, et))
        else:
            ex.write(p, Arr(m, lambda j: ite(simp(j < old.n), old.get(j), z), et))
        return None
    if nm == "clear":
        ex.write(p, Arr(iv(0), lambda j: ex.zero(et), et))
        return None
    if nm == "fill":
        ex.write(p, X.const_arr(a.n, ex.conv_to(ex.rvx(args[0], fr), et), et))
        return None
    if nm == "pop_back":
        ex.write(p, a.resized(simp(a.n - 1)))
        return None
    if nm == "operator=":
        v = ex.rvx(args[0], fr)
        if isinstance(v, Arr):
            ex.write(p, Arr(v.n, v.fn, et))
        else:
            raise Unsupported("vector assignment")
        return p
    if nm == "insert":
        pos = ex.rvx(args[0], fr)
        at = pos.path[-1]
        vals = [ex.rvx(x, fr) for x in args[1:]]
        if len(vals) == 1:
            v = ex.conv_to(vals[0], et) if is_z3(vals[0]) else vals[0]
            one = iv(1)
            cnt, g = one, (lambda j: v)
        elif isinstance(vals[0], Ptr):
            cnt = simp(ex.ptr_op("-", vals[1], vals[0]))
            src = ex.read(Ptr(vals[0].loc, vals[0].path[:-1]))
            o = vals[0].path[-1]
            g = lambda j: src.get(simp(o + j))
        else:
            raise Unsupported("vector insert")
        if z3.is_int_value(simp(a.n)) and z3.is_int_value(simp(at)) and z3.is_int_value(simp(cnt)):
            old = arr_list(a)
            k = simp(at).as_long()
            new = old[:k] + [g(iv(i)) for i in range(simp(cnt).as_long())] + old[k:]
            ex.write(p, X.from_list(new, et))
        else:
            ex.write(p, Arr(simp(a.n + cnt), lambda j: ite(simp(j < at), a.get(j), ite(simp(j < at + cnt), g(simp(j - at)), a.get(simp(j - cnt)))), et))
        return None
    if nm == "erase":
        pos = ex.rvx(args[0], fr)
        at = pos.path[-1]
        if len(args) == 1:
            ex.write(p, Arr(simp(a.n - 1), lambda j: ite(simp(j < at), a.get(j), a.get(simp(j + 1))), et))
            return pos
    raise Unsupported(f"library method vector.{nm}")


def push(a, v, et):
    n = simp(a.n)
    X = _X()
    if z3.is_int_value(n) and n.as_long() < 64:
        return X.from_list(arr_list(a) + [v], et)
    fn = a.fn

    def g(j):
        c = simp(j == n)
        if is_true(c):
            return v
        if is_false(c):
            return fn(j)
        return ite(c, v, fn(j))
    return Arr(simp(n + 1), g, et)


def make_obj(ex, et, vals):
    """T(args...) for already evaluated arguments."""
    X = _X()
    if ex.sort_of(et) is not None:
        return ex.conv_to(vals[0], et)
    b = X.tbase(et)
    if b == "ManagedArray" and "ManagedArray" in ex.ctor_models:
        return ma_make(ex, et, vals)
    if b == "vector":
        vals = [ex.read(v) if isinstance(v, Ptr) and not v.path else v for v in vals]
        return vector_make(ex, et, X.targs(et)[0], vals) if vals else ex.type_models["vector"](ex, et)
    if b == "pair":
        return Struct(et, {"first": vals[0], "second": vals[1]})
    if b == "complex":
        return cx(vals[0], vals[1] if len(vals) > 1 else 0, et)
    if len(vals) == 1 and isinstance(vals[0], Struct) and vals[0].cls == A.strip_cvref(et):
        return vals[0]
    tu, c = ex.cls_node(et)
    if c is None:
        raise Unsupported(f"construction of {et}")
    best = None
    for m in c.get("inner", []):
        if m.get("kind") == "CXXConstructorDecl" and not m.get("isImplicit") and not ex._is_copy(m, et):
            ps = A.params(m)
            req = [q for q in ps if not ex._has_default(q)]
            if len(req) <= len(vals) <= len(ps) and all(_compat(ex, q, v) for q, v in zip(ps, vals)):
                best = tu.definition(m["id"]) or ex.other_definition(m) or m
                break
    if best is None:
        if not vals:
            return ex.agg_default(et)
        raise Unsupported(f"constructor of {et}")
    q = tu.qual.get(best["id"], "")
    cc = ex.contract_for(q, best)
    if cc is not None:
        ex.assumed.add(q)
        return cc(ex, vals, None)
    # a pointer passed where the constructor takes a reference to the pointer
    vals = [ex.alloc(v, "tmp") if isinstance(v, (Ptr, PIte)) and A.qt(q_).rstrip().endswith("&") and (
        X.tbase(A.strip_cvref(A.qt(q_))) in ("shared_ptr", "unique_ptr") or A.strip_cvref(A.qt(q_)).endswith("*")) else v
        for v, q_ in zip(vals, A.params(best))] + list(vals[len(A.params(best)):])
    return ex.construct(et, vals, best)


def _compat(ex, q, v):
    t = A.strip_cvref(A.qt(q))
    if is_z3(v):
        return ex.sort_of(t) is not None
    if isinstance(v, Struct):
        return ex.sort_of(t) is None and not t.endswith("*") and _X().tbase(t) not in ("shared_ptr", "vector")
    if isinstance(v, Arr):
        return _X().tbase(t) in ("vector", "array")
    return ex.sort_of(t) is None


# ---------------------------------------------------------------- operators
def std_operator(ex, nm, args, fr, n, d):
    X = _X()
    op = nm[len("operator"):]
    if op == "<<":
        for a in args:
            try:
                ex.rv_discard(a, fr)
            except Unsupported:
                pass
        return ex.alloc(Struct("str", {}), "os")
    t0 = A.strip_cvref(A.qt(args[0]))
    b0 = X.tbase(t0)
    if op == "=":
        v = ex.rvx(args[1], fr)
        p = None
        if b0 == "_Bit_reference":               # the element of a vector<bool>, by value: denotes the element
            p = ex.rv(args[0], fr)
            if isinstance(v, (Ptr, PIte)):
                v = ex.read(v)
            if not isinstance(p, (Ptr, PIte)):
                raise Unsupported("assignment to a copied vector<bool> reference")
        p = p if p is not None else ex.lvrv(args[0], fr)
        if b0 == "complex" and not is_cx(v):
            v = cx(v, 0, t0)
        o = ex.read(p) if isinstance(p, Ptr) else None
        if isinstance(o, Struct) and "items" in o.f:
            v = Struct(v.cls, {"items": Arr(v.f["items"].n, _deep_items(ex, v.f["items"]), v.f["items"].ety)})
        if isinstance(o, Arr) and isinstance(v, Arr) and v.ety is None:
            v = Arr(v.n, v.fn, o.ety)
        if is_z3(v) and is_z3(o):
            v = coerce2(v, o)[0]
        ex.write(p, v)
        return p
    if op in ("+=", "-=", "*=", "/="):
        if op == "+=" and b0 in ("basic_string", "string"):
            p = ex.lvrv(args[0], fr)
            o, v = ex.read(p), ex.rvx(args[1], fr)
            if isinstance(o, Struct) and "n" in o.f:
                m = str_len(ex, v)
                ex.write(Ptr(p.loc, p.path + ("n",)), simp(o.f["n"] + m))
            return p
        p = ex.lvrv(args[0], fr)
        v = ex.rvx(args[1], fr)
        o = ex.read(p)
        if is_cx(o):
            ex.write(p, carith(op[0], o, v))
        elif isinstance(o, (Ptr, PIte)):
            ex.write(p, ex.padd(o, v if op == "+=" else simp(-v)))
        elif is_z3(o):
            ex.write(p, ex.arith(op[0], o, v, ""))
        else:
            raise Unsupported(f"operator {op}")
        return p
    if op in ("++", "--"):
        p = ex.lvrv(args[0], fr)
        o = ex.read(p)
        dlt = iv(1 if op == "++" else -1)
        nv = ex.padd(o, dlt) if isinstance(o, (Ptr, PIte)) else simp(o + dlt)
        ex.write(p, nv)
        return o if len(args) > 1 else p
    if op == "[]":
        p = ex.lvrv(args[0], fr)
        o = ex.read(p) if isinstance(p, (Ptr, PIte)) else p
        i = ex.rvx(args[1], fr)
        if isinstance(o, Arr):
            i = simp(to_int(i))
            ex.oblige(f"in-bounds access in {ex.cur()}", z3.And(i >= 0, i < o.n))
            return ex.sub(p, i)
        if isinstance(o, (Ptr, PIte)):
            return ex.padd(o, i, access=True)
        h = ex.dynamic.get("std_operator")
        if h is not None:
            return h(ex, nm, p, i, n)
        raise Unsupported(f"operator[] on {t0}")
    if op in ("*", "->") and len(args) == 1:
        v = ex.rvx(args[0], fr)
        if isinstance(v, (Ptr, PIte)):
            if op == "*" and n.get("valueCategory") == "prvalue" and not A.qt(n).endswith("reference"):
                return ex.read(v)                # iterators that return elements by value (vector<bool>)
            if op == "*" and "_Bit_const_iterator" in t0:
                return ex.read(v)
            return v
        if isinstance(v, Null):
            raise Unsupported("null dereference")
        raise Unsupported(f"operator{op} on {t0}: {type(v).__name__} {str(v)[:80]}")
    if op == "()":
        p = ex.lvrv(args[0], fr)
        f = ex.read(p)
        if isinstance(f, (Closure, PyFn)) or (isinstance(f, Struct) and f.cls == "fnref"):
            return ex.call_value(f, [ex.lvrv(a, fr) if a.get("valueCategory") == "lvalue" else ex.rvx(a, fr) for a in args[1:]])
        h = ex.dynamic.get("std_call_op")
        if h is not None:
            return h(ex, f, [ex.rvx(a, fr) for a in args[1:]], n)
        raise Unsupported(f"operator() on {t0}")
    vals = [ex.rvx(a, fr) for a in args]
    if len(vals) == 1:
        if op == "-" and is_cx(vals[0]):
            return cx(-vals[0].f["re"], -vals[0].f["im"], vals[0].cls)
        if op == "!":
            return Not(to_bool(vals[0]))
        raise Unsupported(f"unary operator{op}")
    a, b = vals
    if is_cx(a) or is_cx(b):
        if op == "!=":
            return Not(carith("==", a, b))
        return carith(op, a, b)
    if isinstance(a, (Ptr, PIte, Null)) or isinstance(b, (Ptr, PIte, Null)):
        return ex.ptr_op(op, a, b)
    if isinstance(a, Struct) and a.cls == "str":
        return Struct("str", {}) if op == "+" else ex.fresh("strcmp", B)
    if is_z3(a) and is_z3(b):
        return ex.binop(op, a, b, A.qt(n))
    if isinstance(a, Arr) and isinstance(b, Arr) and op in ("==", "!="):
        x, y = arr_list(a), arr_list(b)
        r = z3.BoolVal(len(x) == len(y))
        if len(x) == len(y):
            r = And(*[simp(p == q) for p, q in zip(x, y)])
        return r if op == "==" else Not(r)
    raise Unsupported(f"library operator{op} on {t0}")


# ---------------------------------------------------------------- functions
def std_call(ex, nm, vals, args, fr, d, n=None):
    X = _X()
    if vals is None:
        if nm in ("move", "forward", "as_const", "ref", "cref"):
            return ex.lvrv(args[0], fr)
        if nm in ("swap",):
            p, q = ex.lvrv(args[0], fr), ex.lvrv(args[1], fr)
            a, b = ex.read(p), ex.read(q)
            ex.write(p, b)
            ex.write(q, a)
            return None
        if nm in ("min", "max") and len(args) >= 2:
            pass
        if nm == "get":
            p = ex.lvrv(args[0], fr)
            o = ex.read(p)
            qn = d.get("type", {}).get("qualType", "")
            import re
            m = re.search(r"tuple_element<(\d+)", qn) or re.search(r"get<(\d+)", qn)
            if m is None:
                raise Unsupported("std::get")
            return ex.sub(p, list(o.f)[int(m.group(1))])
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        vals = [ex.rvx(a, fr) for a in args]
    h = ex.dynamic.get("std_call")
    if h is not None:
        r = h(ex, nm, vals, d, n)
        if r is not NotImplemented:
            return r
    v = vals
    real = lambda i: to_real(v[i])
    if nm in ("sqrt", "sqrtf"):
        return sqrt(real(0))
    if nm in ("cos", "cosf"):
        return cos_(real(0))
    if nm in ("cyl_bessel_j", "cyl_bessel_jf"):
        return uf("cyl_bessel_j", R, R, R)(real(0), real(1))
    if nm in ("sin", "sinf"):
        return sin_(real(0))
    if nm in ("acos", "acosf"):
        return ACOS(simp(real(0)))
    if nm == "exp":
        if is_cx(v[0]):
            re, im = simp(v[0].f["re"]), simp(v[0].f["im"])
            e = rv(1) if z3.is_rational_value(re) and re.as_fraction() == 0 else EXP(re)
            return cx(e * cos_(im), e * sin_(im), v[0].cls)
        return EXP(simp(real(0)))
    if nm == "expf":
        return EXP(simp(real(0)))
    if nm in ("log", "logf"):
        return LOG(simp(real(0)))
    if nm in ("cbrtf", "cbrt"):
        return CBRT(simp(real(0)))
    if nm == "atan2":
        return ATAN2(simp(real(0)), simp(real(1)))
    if nm in ("floor", "floorf"):
        return to_real(z3.ToInt(real(0)))
    if nm in ("ceil", "ceilf"):
        for f in ex.dynamic.get("ceil", ()):             # (a contract may name the result)
            r = f(real(0))
            if r is not None:
                return r
        return -to_real(z3.ToInt(-real(0)))
    if nm in ("round", "roundf"):
        x = real(0)
        return z3.If(x >= 0, to_real(z3.ToInt(x + z3.Q(1, 2))), -to_real(z3.ToInt(-x + z3.Q(1, 2))))
    if nm in ("fmod", "fmodf"):
        a, b = real(0), real(1)
        q = simp(fdiv(a, b))
        return a - b * to_real(trunc_i(q))
    if nm in ("pow", "powf"):
        e = simp(v[1])
        if z3.is_int_value(e) or (z3.is_rational_value(e) and e.as_fraction().denominator == 1):
            k = e.as_long() if z3.is_int_value(e) else e.as_fraction().numerator
            if 0 <= k <= 8:
                r = rv(1)
                for _ in range(k):
                    r = r * real(0)
                return r
        return POW(simp(real(0)), simp(to_real(e)))
    if nm in ("abs", "fabs", "fabsf"):
        if is_cx(v[0]):
            return sqrt(v[0].f["re"] * v[0].f["re"] + v[0].f["im"] * v[0].f["im"])
        return z3.If(v[0] >= 0, v[0], -v[0])
    if nm == "norm":
        return v[0].f["re"] * v[0].f["re"] + v[0].f["im"] * v[0].f["im"]
    if nm == "arg":
        return ATAN2(simp(v[0].f["im"]), simp(v[0].f["re"]))
    if nm == "conj":
        return cx(v[0].f["re"], -v[0].f["im"], v[0].cls)
    if nm == "real":
        return v[0].f["re"]
    if nm == "imag":
        return v[0].f["im"]
    if nm == "polar":
        th = simp(real(1))
        return cx(real(0) * cos_(th), real(0) * sin_(th))
    if nm in ("min", "max") and len(v) == 2:
        a, b = coerce2(v[0], v[1])
        # std::min(a,b) = (b<a)?b:a ; std::max(a,b) = (a<b)?b:a
        return ite(simp(b < a), b, a) if nm == "min" else ite(simp(a < b), b, a)
    if nm in ("min", "max") and len(v) == 1 and isinstance(v[0], Arr):
        L = arr_list(v[0])
        r = L[0]
        for x in L[1:]:
            r = ite(simp(x < r), x, r) if nm == "min" else ite(simp(r < x), x, r)
        return r
    if nm == "infinity":
        return X.INF
    if nm == "max" and not v:
        t = A.strip_cvref(A.qt(n)) if n else ""
        if t in X.INTS:
            w, s = X.INTS[t]
            return iv((1 << (w - 1)) - 1 if s else (1 << w) - 1)
        return X.INF
    if nm == "isnan":
        return FALSE
    if nm in ("isfinite",):
        return TRUE
    if nm == "make_shared" or nm == "make_unique":
        rt = A.qt(n)
        t = X.targs(rt)[0]
        if t.startswith("_NonArray<"):
            t = X.targs(t)[0]
        # arguments are evaluated by reference where the constructor wants one
        return ex.alloc(make_obj(ex, A.strip_cvref(t), vals), "heap")
    if nm in ("make_pair",):
        return Struct("pair", {"first": v[0], "second": v[1]})
    if nm == "make_tuple":
        return Struct("tuple", {str(i): x for i, x in enumerate(v)})
    if nm == "transform":
        return transform(ex, v)
    if nm == "accumulate":
        return accumulate(ex, v)
    if nm == "fill":
        cnt = simp(ex.ptr_op("-", v[1], v[0]))
        fill_range(ex, v[0], cnt, lambda j: v[2])
        return None
    if nm == "fill_n":
        fill_range(ex, v[0], simp(v[1]), lambda j: v[2])
        return None
    if nm == "copy":
        cnt = simp(ex.ptr_op("-", v[1], v[0]))
        src = ex.read(Ptr(v[0].loc, v[0].path[:-1]))
        o = v[0].path[-1]
        fill_range(ex, v[2], cnt, lambda j: src.get(simp(o + j)))
        return ex.padd(v[2], cnt)
    if nm == "memset":
        p = v[0]
        sz = simp(v[2])
        so = z3.Const("sizeof", I)
        cnt = None
        if sz.eq(so):
            cnt = iv(1)
        elif z3.is_mul(sz):
            ch = [c for c in sz.children() if not c.eq(so)]
            if len(ch) == len(sz.children()) - 1:
                cnt = ch[0] if len(ch) == 1 else z3.Product(*ch)
        if cnt is None:
            raise Unsupported("memset size")
        a = ex.read(Ptr(p.loc, p.path[:-1]))
        z = ex.zero(a.ety)
        fill_range(ex, p, simp(cnt), lambda j: z)
        return p
    if nm in ("memcpy",):
        raise Unsupported("memcpy")
    if nm == "iota":
        cnt = simp(ex.ptr_op("-", v[1], v[0]))
        fill_range(ex, v[0], cnt, lambda j: simp(v[2] + j))
        return None
    if nm in ("sort", "parallel_sort", "stable_sort"):
        return sort_model(ex, v)
    if nm == "flatten2d":
        return flatten_model(ex, v)
    if nm in ("count", "count_if"):
        cnt = simp(ex.ptr_op("-", v[1], v[0]))
        src = ex.read(Ptr(v[0].loc, v[0].path[:-1]))
        o = v[0].path[-1]
        if nm == "count_if":
            hit = lambda x: to_bool(ex.call_value(v[2], [x]))
        else:
            hit = lambda x: to_bool(x) == to_bool(v[2]) if B in (x.sort(), v[2].sort()) else x == v[2]
        return SUM(cnt, lambda k: z3.If(hit(src.get(simp(o + k))), iv(1), iv(0)))
    if nm in ("max_element", "min_element") and len(v) == 2:
        return extreme(ex, v, nm == "max_element")
    if nm in ("distance",):
        return ex.ptr_op("-", v[1], v[0])
    if nm == "_mm_load_ss":
        return Struct("m128", {"0": ex.read(v[0])})
    if nm == "_mm_cvtt_ss2si":
        return ex.to_integral(v[0].f["0"], "int")
    if nm in ("to_string",):
        return Struct("str", {"n": str_len(ex, None, 1)})
    raise Unsupported(f"library function {nm}")


def str_len(ex, v, least=0):
    """the length of a string; of one that is not tracked at least that"""
    if isinstance(v, Ptr):
        v = ex.read(v)
    if isinstance(v, Struct) and "n" in v.f:
        return v.f["n"]
    f = z3.Function(f"strlen~{uid()}", *([I] * (len(ex.loopk) + 1)))
    n = f(*ex.loopk) if ex.loopk else ex.fresh("strlen", I)
    ex.fact(n >= least)
    return n


def extreme(ex, v, largest):
    """std::max_element / min_element: the first largest (smallest) element, the end of an empty range"""
    cnt = simp(ex.ptr_op("-", v[1], v[0]))
    src = ex.read(Ptr(v[0].loc, v[0].path[:-1]))
    o = v[0].path[-1]
    m = ex.fresh("extreme", I)
    i = z3.FreshConst(I, "i")
    a = lambda j: src.get(simp(o + j))
    le = (lambda x, y: x <= y) if largest else (lambda x, y: x >= y)
    ex.fact(z3.If(cnt > 0, z3.And(m >= 0, m < cnt), m == 0))
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cnt), le(a(i), a(m)))))
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), Not(a(i) == a(m)))))
    return ex.padd(v[0], m)


def fill_range(ex, p, cnt, g):
    base = Ptr(p.loc, p.path[:-1])
    a = ex.read(base)
    o = p.path[-1]
    X = _X()
    if isinstance(a, Arr):
        ex.oblige(f"range write in bounds in {ex.cur()}", Or(simp(cnt <= 0), z3.And(o >= 0, o + cnt <= a.n)))
        ex.write(base, Arr(a.n, lambda j: ite(simp(z3.And(j >= o, j < o + cnt)), g(simp(j - o)), a.get(j)), a.ety))
    else:
        raise Unsupported("fill of a non-array")


def transform(ex, v):
    X = _X()
    cnt = simp(ex.ptr_op("-", v[1], v[0]))
    i = ex.alloc(iv(0), "ti")
    two = len(v) == 5
    out = v[3] if two else v[2]
    f = v[-1]

    def body():
        k = ex.read(i)
        a = [ex.padd(v[0], k, access=True)]
        if two:
            a.append(ex.padd(v[2], k, access=True))
        r = ex.call_value(f, a)
        if isinstance(r, (Ptr, PIte)) and not isinstance(ex.read(ex.padd(out, k)), (Ptr, PIte, Null)):
            r = ex.read(r)
        q = ex.padd(out, k, access=True)
        ex.write(q, r)
    ex.loop(lambda: simp(ex.read(i) < cnt), body, lambda: ex.write(i, simp(ex.read(i) + 1)), X.Frame())
    return ex.padd(out, cnt)


def accumulate(ex, v):
    cnt = simp(ex.ptr_op("-", v[1], v[0]))
    src = ex.read(Ptr(v[0].loc, v[0].path[:-1]))
    o = v[0].path[-1]
    if len(v) > 3:
        op = v[3]
        name = op.cls if isinstance(op, Struct) else ""
        if z3.is_int_value(cnt):
            r = v[2]
            for k in range(cnt.as_long()):
                x = src.get(simp(o + k))
                r = simp(r * x) if "multiplies" in name else ex.call_value(op, [r, x])
            return r
        raise Unsupported("accumulate with an operation")
    if z3.is_int_value(cnt):
        r = v[2]
        for k in range(cnt.as_long()):
            r = r + src.get(simp(o + k))
        return r
    return v[2] + SUM(cnt, lambda k: src.get(simp(o + k)))


def flatten_model(ex, v):
    """tbb::flatten2d of thread-local vectors: what the threads collected, in an arbitrary order (the loop that filled
    them ran as one call on the whole range: any other division only changes the order)"""
    ets = ex.read(v[0]) if isinstance(v[0], (Ptr, PIte)) else v[0]
    items = ets.f["items"]
    if not (z3.is_int_value(simp(items.n)) and simp(items.n).as_long() == 1):
        raise Unsupported("flatten2d")
    a = items.get(iv(0))
    ex.perms.append(a_perm(ex, a.n))
    p, q = ex.perms[-1]
    return Arr(a.n, lambda j: a.get(p(j)), a.ety)


def a_perm(ex, cnt):
    """an arbitrary permutation of [0, cnt) and its inverse"""
    nm = f"perm~{uid()}"
    P = z3.Function(nm, *([I] * (len(ex.loopk) + 1)), I)
    Q = z3.Function(nm + "inv", *([I] * (len(ex.loopk) + 1)), I)
    ctx = list(ex.loopk)
    p = lambda j: P(*ctx, j)
    q = lambda j: Q(*ctx, j)
    j = z3.FreshConst(I, "sj")
    rng = z3.And(j >= 0, j < cnt)
    ex.fact(z3.ForAll([j], z3.Implies(rng, z3.And(p(j) >= 0, p(j) < cnt, q(p(j)) == j)), patterns=[p(j)]))
    ex.fact(z3.ForAll([j], z3.Implies(rng, z3.And(q(j) >= 0, q(j) < cnt, p(q(j)) == j)), patterns=[q(j)]))
    return p, q


def sort_model(ex, v):
    cnt = simp(ex.ptr_op("-", v[1], v[0]))
    base = Ptr(v[0].loc, v[0].path[:-1])
    a = ex.read(base)
    o = v[0].path[-1]
    if not (z3.is_int_value(simp(o)) and simp(o).as_long() == 0):
        raise Unsupported("partial sort")
    p, q = a_perm(ex, cnt)
    ex.perms.append((p, q))
    new = Arr(a.n, lambda j: a.get(p(j)), a.ety)
    j = z3.FreshConst(I, "sj")
    k = z3.FreshConst(I, "sk")
    if len(v) > 2:
        t1 = ex.alloc(new.get(k), "s1")
        t2 = ex.alloc(new.get(j), "s2")
        npc = len(ex.st.pc)
        ex.st.pc.append(z3.And(j >= 0, j < cnt, k >= 0, k < cnt))     # (the elements compared are those of the range)
        less = ex.call_value(v[2], [t1, t2])
        del ex.st.pc[npc:]
    else:
        less = new.get(k) < new.get(j)
    ex.fact(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < cnt), Not(to_bool(less)))))
    ex.write(base, new)
    return None

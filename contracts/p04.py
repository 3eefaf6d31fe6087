"""P04: histogram binning and array indexing."""
from .lib import *

TU = "driver:drv_hist.cc"
ASSUMPTIONS = ["bin limits satisfy min < max and there is at least one bin (Python constructors reject or never create others)",
               "values are real numbers (NaN: bounded runtime contracts only)"]
MA = "ManagedArray<float>"
MU = "ManagedArray<unsigned int>"


def dims(p, n, nm="n"):
    d = [p.int(f"{nm}{i}") for i in range(n)]
    for x in d:
        p.require(x >= 1)
    return d


def marray(p, shape, cls=MA):
    """an array made by its real constructor"""
    ex = p.ex
    use_real_managed_array(ex)
    return ex.new(cls, from_list(shape, "unsigned long"), typ="vector")


def rowmajor(shape, idx):
    f = iv(0)
    for s, i in zip(shape, idx):
        f = f * s + i
    return f


def indices(p, shape, nm="i"):
    idx = [p.int(f"{nm}{k}") for k in range(len(shape))]
    for i, s in zip(idx, shape):
        p.require(z3.And(i >= 0, i < s))
    return idx


def prod(xs):
    r = iv(1)
    for x in xs:
        r = r * x
    return r


def mkindex(n):
    def f(p):
        ex = p.ex
        shape = dims(p, n)
        a = marray(p, shape)
        idx = indices(p, shape)
        jdx = indices(p, shape, "j")
        size = ex.method(a, "size", nparams=0)
        p.ensure("size is the product of the shape", size == prod(shape))
        j = p.int("j")
        p.ensure("a new array is zero", z3.Implies(z3.And(j >= 0, j < size), ex.read(Ptr(a.loc, ("m_data", j))) == 0))
        v = from_list(idx, "unsigned long")
        g = ex.method(a, "getIndex", ex.alloc(v), nparams=1)
        flat = rowmajor(shape, idx)
        p.ensure("getIndex is the row-major position", g == flat)
        # in range, and different indices have different positions: peel one dimension at a time
        for k in range(n):
            f = rowmajor(shape[:k + 1], idx[:k + 1])
            p.lemma(f"position in range after dimension {k}", z3.And(f >= 0, f < prod(shape[:k + 1])) if k == 0 else
                    z3.And(f >= 0, f <= (prod(shape[:k]) - 1) * shape[k] + shape[k] - 1))
        p.lemma("position in range", z3.And(flat >= 0, flat < prod(shape)))
        p.ensure("getIndex accepts it", Not(p.thrown()))
        r = ex.method(a, "operator()", ex.alloc(v), typ="vector")
        p.not_thrown("no exception for indices in range")
        ex.write(r, p.real("val"))
        p.ensure("operator() addresses the row-major position", ex.read(Ptr(a.loc, ("m_data", flat))) == p.real("val"))
        p.ensure("and only that one", z3.Implies(z3.And(j >= 0, j < size, j != flat), ex.read(Ptr(a.loc, ("m_data", j))) == 0))
        q = ex.method(a, "operator[]", flat)
        p.ensure("operator[] reads the same element", ex.read(q) == p.real("val"))
        p.reach()
    f.__name__ = f"index_{n}d"
    f.__doc__ = f"ManagedArray of rank {n}: constructor, getIndex, operator(), operator[]"
    return f


for n in (1, 2, 3, 4):
    proof(TU)(mkindex(n))


@proof(TU)
def index_injective(p):
    """row-major positions of different multi-indices differ (ranks 2 and 3; rank 4 follows by the same step)"""
    n0, n1 = dims(p, 2)
    i0, i1, j0, j1 = [p.int(x) for x in ("i0", "i1", "j0", "j1")]
    p.require(z3.And(i1 >= 0, i1 < n1, j1 >= 0, j1 < n1))
    # the step: a*n + b = a'*n + b' with 0 <= b, b' < n gives a = a' and b = b'
    p.lemma("a < a' impossible", z3.Implies(z3.And(i0 < j0), i0 * n1 + i1 < j0 * n1 + j1))
    p.lemma("a > a' impossible", z3.Implies(z3.And(i0 > j0), i0 * n1 + i1 > j0 * n1 + j1))
    p.ensure("equal positions have equal indices", z3.Implies(i0 * n1 + i1 == j0 * n1 + j1, z3.And(i0 == j0, i1 == j1)))


@proof(TU, sizes=["N"])
def copy_reset(p):
    ex = p.ex
    use_real_managed_array(ex)
    N = p.size("N", 1)
    a = ex.new(MA, N, typ="(size_t)")
    for k in ("m_data",):
        ex.write(Ptr(a.loc, (k,)), ex.sym_array("d", N, "float"))
    c = ex.method(a, "copy")
    cp = ex.alloc(c)
    j = p.int("j")
    inr = z3.And(j >= 0, j < N)
    d = ex.sym_array("d", N, "float").get(j)
    p.ensure("copy has the elements", z3.Implies(inr, ex.read(Ptr(cp.loc, ("m_data", j))) == d))
    p.ensure("copy has the size", ex.read(Ptr(cp.loc, ("m_size",))) == N)
    c2 = ex.new(MA, a, typ="const ManagedArray")
    p.ensure("copy constructor has the elements", z3.Implies(inr, ex.read(Ptr(c2.loc, ("m_data", j))) == d))
    ex.method(a, "reset")
    p.ensure("reset zeroes every element", z3.Implies(inr, ex.read(Ptr(a.loc, ("m_data", j))) == 0))
    p.ensure("reset keeps the copy", z3.Implies(inr, ex.read(Ptr(cp.loc, ("m_data", j))) == d))
    p.not_thrown()
    p.reach()


@proof(TU)
def out_of_range(p):
    """operator[] outside the array throws instead of touching memory"""
    ex = p.ex
    a = marray(p, dims(p, 1))
    i = p.nat("i")
    ex.method(a, "operator[]", i)
    p.ensure("throws exactly outside", p.thrown() == (i >= p.int("n0")))


def axis(p, nm=""):
    ex = p.ex
    n, lo, hi = p.int("nb" + nm), p.real("lo" + nm), p.real("hi" + nm)
    p.require(z3.And(n >= 1, lo < hi))
    return ex.new("RegularAxis", n, lo, hi), n, lo, hi


@proof(TU)
def axis_edges(p):
    ex = p.ex
    a, n, lo, hi = axis(p)
    e = ex.method(a, "getBinEdges")
    c = ex.method(a, "getBinCenters")
    i = p.int("i")
    p.ensure("n + 1 edges", e.n == n + 1)
    p.ensure("edges equally spaced", z3.Implies(z3.And(i >= 0, i <= n), n * (e.get(i) - lo) == i * (hi - lo)))
    p.ensure("n centres", c.n == n)
    p.ensure("centres are midpoints", z3.Implies(z3.And(i >= 0, i < n), 2 * c.get(i) == e.get(i) + e.get(i + 1)))
    p.ensure("size", ex.method(a, "size") == n)
    p.ensure("limits", z3.And(ex.method(a, "getMin") == lo, ex.method(a, "getMax") == hi))
    p.reach()


OVF = 0xffffffff


@proof(TU)
def axis_bin(p):
    """bin(v) is the bin whose edges enclose v, or the overflow marker"""
    ex = p.ex
    a, n, lo, hi = axis(p)
    v = p.real("v")
    e = ex.read(Ptr(a.loc, ("m_bin_edges",)))
    b = ex.method(a, "bin", ex.alloc(v))
    p.ensure("outside the range: overflow", z3.Implies(z3.Or(v < lo, v >= hi), b == OVF))
    inr = z3.And(lo <= v, v < hi)
    w = (hi - lo) / z3.ToReal(n)
    p.lemma("bin width", z3.And(w > 0, w * z3.ToReal(n) == hi - lo))
    p.require(inr)
    p.ensure("inside: a valid bin", z3.And(b >= 0, b < n))
    p.ensure("lower edge", e.get(b) <= v)
    p.ensure("upper edge", v < e.get(b + 1))
    p.reach()


def histo(p, n, cls="Histogram<unsigned int>"):
    ex = p.ex
    use_real_managed_array(ex)
    ax = [axis(p, str(k)) for k in range(n)]
    h = ex.new(cls, from_list([a[0] for a in ax], "std::shared_ptr<Axis>"), typ="vector")
    return h, ax


def counts_ptr(ex, h):
    return ex.read(Ptr(h.loc, h.path + ("m_bin_counts",)))


def mkhist(n):
    def f(p):
        ex = p.ex
        h, ax = histo(p, n)
        bc = counts_ptr(ex, h)
        size = ex.method(h, "size")
        shape = [a[1] for a in ax]
        p.ensure("one bin per combination of axis bins", size == prod(shape))
        j = p.int("j")
        p.ensure("starts at zero", z3.Implies(z3.And(j >= 0, j < size), ex.read(Ptr(bc.loc, ("m_data", j))) == 0))
        # arbitrary counts from earlier
        old = ex.sym_array("cnt", size, "unsigned int")
        ex.write(Ptr(bc.loc, ("m_data",)), old)
        v = [p.real(f"v{k}") for k in range(n)]
        bins = [ex.method(ax[k][0], "bin", ex.alloc(v[k])) for k in range(n)]
        for k in range(n):
            p.require(z3.And(ax[k][1] < 0x7fffffff))
        inr = z3.And(*[z3.And(ax[k][2] <= v[k], v[k] < ax[k][3]) for k in range(n)])
        # (from axis_bin)
        for k in range(n):
            p.require(z3.Implies(z3.And(ax[k][2] <= v[k], v[k] < ax[k][3]), z3.And(bins[k] >= 0, bins[k] < ax[k][1])))
            p.require((bins[k] == OVF) == Not(z3.And(ax[k][2] <= v[k], v[k] < ax[k][3])))
        flat = rowmajor(shape, bins)
        b = ex.method(h, "bin", from_list(v, "float"))
        p.ensure("bin of a tuple in range is the row-major combination", z3.Implies(inr, b == flat))
        p.ensure("bin of a tuple out of range is the marker", z3.Implies(Not(inr), b == OVF))
        p.require(z3.Implies(inr, z3.And(flat >= 0, flat < size)))      # (index_*d)
        p.require(prod(shape) <= OVF)
        ex.method(h, "operator()", *v)
        p.not_thrown()
        new = lambda q: ex.read(Ptr(bc.loc, ("m_data", q)))
        p.ensure("its bin is incremented by one", z3.Implies(inr, new(flat) == old.get(flat) + 1))
        p.ensure("no other bin changes", z3.Implies(z3.And(j >= 0, j < size, Not(z3.And(inr, j == flat))), new(j) == old.get(j)))
        p.reach()
    f.__name__ = f"histogram_{n}d"
    f.__doc__ = f"{n}-dimensional histogram: constructor, bin, operator()"
    return f


for n in (1, 2, 3):
    proof(TU)(mkhist(n))


@proof(TU)
def histogram_increment(p):
    """increment, reset, weighted increment, wrong number of values"""
    ex = p.ex
    h, ax = histo(p, 1)
    bc = counts_ptr(ex, h)
    size = ex.method(h, "size")
    old = ex.sym_array("cnt", size, "unsigned int")
    ex.write(Ptr(bc.loc, ("m_data",)), old)
    i, j = p.nat("i"), p.int("j")
    p.require(z3.Or(i < size, i == OVF))
    p.require(size <= OVF)
    ex.method(h, "increment", i)
    p.not_thrown()
    new = lambda q: ex.read(Ptr(bc.loc, ("m_data", q)))
    p.ensure("increment adds one to bin i only", z3.Implies(z3.And(j >= 0, j < size), new(j) == old.get(j) + z3.If(z3.And(i == j), 1, 0)))
    p.ensure("getBinCounts is the array", z3.BoolVal(same(ex.method(h, "getBinCounts"), bc)))
    ex.method(h, "reset")
    p.ensure("reset zeroes", z3.Implies(z3.And(j >= 0, j < size), new(j) == 0))
    p.reach()
    ex.method(h, "bin", from_list([p.real("a"), p.real("b")], "float"))
    p.ensure("wrong number of values throws", p.thrown())


def threads(p, T, size, nm="th", cls="Histogram<unsigned int>", ety="unsigned int", mcls=MU):
    """enumerable_thread_specific with T items, each its own array of `size` counts"""
    ex = p.ex
    f = z3.Function(nm, I, I, I if ety == "unsigned int" else R)
    arr = ex.alloc(Arr(T, lambda t: Struct(mcls, {"m_data": Arr(size, lambda j: f(t, j), ety),
                                                  "m_shape": from_list([size], "unsigned long"), "m_size": size})), "locals")
    items = Arr(T, lambda t: Struct(cls, {"m_axes": from_list([], "std::shared_ptr<Axis>"), "m_bin_counts": Ptr(arr.loc, (t,))}))
    return ex.alloc(Struct(cls + "::ThreadLocalHistogram", {"m_local_histograms": Struct("tbb::enumerable_thread_specific", {"items": items})})), f, arr


@proof(TU, sizes=["N", "T"])
def thread_reduction(p):
    """reduceOverThreads: each bin becomes the sum of the threads' bins, for any number of threads"""
    ex = p.ex
    use_real_managed_array(ex)
    N, T = p.size("N", 1), p.size("T")
    p.require(N <= OVF)
    h = ex.new("Histogram<unsigned int>", from_list([], "std::shared_ptr<Axis>"), typ="vector")
    bc = ex.new(MU, N, typ="(size_t)")
    ex.write(Ptr(bc.loc, ("m_data",)), ex.sym_array("before", N, "unsigned int"))
    ex.write(Ptr(h.loc, ("m_bin_counts",)), bc)
    th, f, arr = threads(p, T, N)
    ex.method(h, "reduceOverThreads", th)
    p.not_thrown()
    i, t = p.int("i"), p.int("t")
    p.ensure("bin i is the sum over threads", z3.Implies(z3.And(i >= 0, i < N), ex.read(Ptr(bc.loc, ("m_data", i))) == SUM(T, lambda q: f(q, i))))
    p.ensure("the threads' arrays are unchanged", z3.Implies(z3.And(i >= 0, i < N, t >= 0, t < T), ex.read(Ptr(arr.loc, (t, "m_data", i))) == f(t, i)))
    ex.method(th, "reset")
    p.ensure("reset zeroes every thread's array", z3.Implies(z3.And(i >= 0, i < N, t >= 0, t < T), ex.read(Ptr(arr.loc, (t, "m_data", i))) == 0))
    p.reach()

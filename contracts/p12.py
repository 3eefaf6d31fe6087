"""P12: local density."""
from .lib import *

TU = "density/LocalDensity.cc"
ASSUMPTIONS = ["the neighbour list path of loopOverNeighborsIterator; the query path calls the same function on the same bonds (P09)"]


@proof(TU)
def constructor(p):
    """bad parameters are rejected"""
    ex = p.ex
    r, d = p.real("r_max"), p.real("diameter")
    o = ex.new("LocalDensity", r, d)
    p.ensure("throws exactly on bad parameters", p.thrown() == Not(z3.And(r > 0, d >= 0)))


@proof(TU, sizes=["nl_bonds", "nqp"])
def compute(p):
    """number of neighbours with the overlap weight, density as that number over the ball's size"""
    ex = p.ex
    use_nlist(ex)
    r, d = p.real("r_max"), p.real("diameter")
    p.require(z3.And(r > 0, d >= 0))
    o = ex.new("LocalDensity", r, d)
    p.not_thrown("constructor accepts it")
    nl = neighbor_list(p)
    use_cursor(p, nl)
    nq = neighbor_query(p)
    nqp = p.size("nqp")
    ex.write(Ptr(o.loc, ("m_box",)), ex.symbolic("earlier_box", "freud::box::Box"))
    ex.method(o, "compute", ex.alloc(nq.ptr), NULL, nqp, ex.alloc(nl.ptr), ex.alloc(UNDEF))
    p.not_thrown()
    i = p.int("i")
    p.require(z3.And(i >= 0, i < nqp))

    def w(k):
        x = nl.distance(nl.seg(i) + k)
        return z3.If(x < r - d / 2, rv(1), z3.If(x < r + d / 2, 1 + fdiv(r - (x + d / 2), d), rv(0)))
    num = SUM(nl.cnt(i), w)
    p.ensure("one entry per query point", z3.And(at(ex, at(ex, o, "m_num_neighbors_array"), "shape", iv(0)) == nqp, at(ex, at(ex, o, "m_density_array"), "shape", iv(0)) == nqp))
    p.ensure("number of neighbours", at(ex, at(ex, o, "m_num_neighbors_array"), "flat", i) == num)
    size = z3.If(nq.box.f["m_2d"], PI * r * r, z3.Q(4, 3) * PI * r * r * r)
    p.ensure("density", at(ex, at(ex, o, "m_density_array"), "flat", i) * size == num)
    p.ensure("getters give these arrays", z3.BoolVal(same(ex.method(o, "getDensity"), at(ex, o, "m_density_array")) and same(ex.method(o, "getNumNeighbors"), at(ex, o, "m_num_neighbors_array"))))
    p.eq("box", at(ex, o, "m_box"), nq.box)
    p.reach()

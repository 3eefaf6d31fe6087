"""P05: accumulation, reset and reading of the histogram computes.

compute(reset=False) calls accumulate; compute(reset=True) calls reset first; every property calls
reduce through reduceAndReturn.  The contracts of these functions are those of P10, P11, P14 and P20,
discharged here again; what they give for whole histories of calls is `pooled`.
"""
from .lib import *
from .lib import borrow

ASSUMPTIONS = ["the neighbour list path of loopOverNeighbors; the query path calls the same function on the same bonds (P09)",
               "the Python layer calls reset/accumulate/getters in the order of the user's calls (explored)"]
WHAT = ("accumulate", "reduce", "reset")
for _m, _c in (("p10", "RDF"), ("p11", "CorrelationFunction"), ("p14", "PMFT"), ("p20", "BondOrder")):
    borrow(_m, _c, *WHAT)


@proof("density/RDF.cc", sizes=["T"])
def pooled(p):
    """what a reduction reads, the sum over threads, grows by a frame's contribution whichever thread
    executes each of its bonds: a frame adds d(t) on thread t, in any order of the frames"""
    ex = p.ex
    T, t0 = p.size("T"), p.int("t0")
    c = z3.Function("c", I, I)
    x, y = p.int("x"), p.int("y")
    p.require(z3.And(t0 >= 0, t0 < T))
    up = lambda f, t, d: lambda k: f(k) + z3.If(k == t, d, iv(0))
    t1 = p.int("t1")
    p.require(z3.And(t1 >= 0, t1 < T))
    f = lambda k: c(k)
    p.ensure("one bond's addition on any thread is added to the total", SUM(T, up(f, t0, x)) == SUM(T, f) + x)
    p.ensure("two additions, whatever the threads and the order",
             SUM(T, up(up(f, t0, x), t1, y)) == SUM(T, f) + x + y)

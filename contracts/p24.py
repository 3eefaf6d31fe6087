"""P24: iterations of the parallel loops do not interfere."""
from .lib import *
from vc import api
from vc.races import NAME

ASSUMPTIONS = ["tbb::parallel_for calls its body on consecutive chunks covering the range, each iteration once; tbb::enumerable_thread_specific gives each thread its own copy",
               "floating-point addition treated as associative (the statement excludes summation order)",
               "a location is shared when it exists before the parallel loop and is not reached through a thread-local copy; copies of shared objects made by the body are its own",
               "concurrent DisjointSets::unite, the annealing replicates of Cubatic::compute, GaussianDensity, SphereVoxelization (all iterations write the same 1) and LinkCell's neighbour cache are explored by running with several thread counts",
               "the contracts of the borrowed proofs"]


def watch(mod, *names):
    """the proofs of another contract module run again, with the parallel loops under observation"""
    n0 = len(api.PROOFS)
    borrow(mod, mod, *names)
    for x in api.PROOFS[n0:]:
        x["timeout"] = 150
        x["fn"] = observed(x["fn"], mod)


def observed(fn, mod):
    def run(p):
        p.ex.dynamic["interference"] = True
        fn(p)
        p.ex.obls[:] = [o for o in p.ex.obls if o.name.startswith(NAME) or o.kind == "cover"]
    run.__doc__ = fn.__doc__
    run.__module__ = fn.__module__
    return run


watch("p01", "array_", "unwrap_array")
watch("p02", "distances_array", "all_distances", "contains", "center_points")
watch("p04", "thread_reduction")
watch("p06", "from_bonds", "sort_by_point", "sort_by_distance", "all_pairs_with_self")
watch("p09", "list_of_query")
watch("p10", "accumulate", "reduce")
watch("p11", "accumulate", "reduce")
watch("p12", "compute")
watch("p14", "accumulate_", "reduce_")
watch("p18", "sann", "rad_closed_radii", "rad_open_radii")
watch("p19", "neighbors", "global_", "projections")
watch("p20", "accumulate_", "reduce")
watch("p21", "hexatic", "rotational_", "tensors", "global_tensor")
watch("p22", "accumulate", "reduce")

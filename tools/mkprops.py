"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(obs), hook_needed=None)))
F = "freud/"
prop("P01", "Box coordinate transforms, wrapping, images and unwrapping",
     "For every valid 2D or 3D (tilted) box and every vector, make_absolute gives the box corner plus the fractions of the lattice vectors and make_fractional is its inverse; wrap moves a vector by a whole lattice vector into the primary cell along periodic directions only (leaving non-periodic fractional coordinates alone). get_images returns the index of the cell a vector is in, unwrap adds image times lattice vectors, and unwrapping a wrapped vector with its images gives the vector back. Array calls give element by element the scalar result and leave their inputs unchanged.",
     ["inputs"], "all boxes (edge lengths, tilts, 2D/3D, periodicity flags), all vectors and array lengths",
     "The tests use a handful of boxes and points; the identities are statements over all reals and all array lengths.",
     [F + "box/Box.h", F + "box.py", F + "util/utils.h", F + "util/VectorMath.h"],
     [("Box::makeAbsolute / makeFractional / wrap / getImage / unwrap", F + "box/Box.h"), ("util::modulusPositive", F + "util/utils.h")],
     [("m_L, m_lo, m_xy, m_xz, m_yz, m_periodic, m_2d", "box geometry", F + "box/Box.h")], ["freud.box.Box"])
prop("P02", "Box distances, containment and centre of mass",
     "compute_distances and compute_all_distances return, for every pair, the length of the wrapped separation vector (row-major over query points and points), which is symmetric, zero for equal points and unchanged when either point moves by lattice vectors along periodic directions. contains is true exactly for points whose cell image is zero. center_of_mass is the mass-weighted circular mean in fractional coordinates along each axis (uniform masses when none are given), and center shifts all points by minus that vector and wraps them.",
     ["inputs"], "all boxes, all point sets, all mass arrays",
     "Tests check a few point pairs; the statement covers every pair, box and mass array.",
     [F + "box/Box.h", F + "box.py"],
     [("Box::computeDistance(s), computeAllDistances, contains, centerOfMass, center", F + "box/Box.h")], (), ["freud.box.Box"])
prop("P03", "Box geometry, invariants and constructor round trips",
     "Volume (area in 2D), lattice vectors, inverse lengths and nearest-plane distances of a box are those of its lattice, a 2D box always has Lz = 0, and changing a parameter through a setter leaves the box as if it had been constructed with the new value. from_box, from_matrix/to_matrix, to_dict, to_box_params and from_box_lengths_and_angles/to_box_lengths_and_angles reproduce the same lengths, tilt factors and dimensionality, equality is equality of all parameters and periodic flags, and scaling a box multiplies its lengths only.",
     ["inputs"], "all box parameters, all setter sequences, all accepted box-like inputs",
     "Round trips are checked on fixed examples only.",
     [F + "box/Box.h", F + "box.py"],
     [("Box::setL, getVolume, getLatticeVector, getNearestPlaneDistance", F + "box/Box.h"), ("Box.from_box, from_matrix, ...", F + "box.py")], (), ["freud.box.Box"])
prop("P04", "Histogram binning and array indexing",
     "A value is counted in exactly the bin whose edges enclose it (lower edge inclusive), values outside the axis range (or NaN) are counted nowhere, and every bin of an n-dimensional histogram has its own distinct position in the row-major count array. Bin edges are equally spaced from the lower to the upper bound, bin centres are the midpoints, and the number of counted values is the number of in-range values.",
     ["inputs"], "all axis bounds, bin counts, dimensions and values",
     "Tests histogram fixed samples and never probe bin edges or the index arithmetic for all shapes.",
     [F + "util/Histogram.h", F + "util/ManagedArray.h"],
     [("RegularAxis::bin, Histogram::bin, Histogram::operator()", F + "util/Histogram.h"), ("ManagedArray::getIndex", F + "util/ManagedArray.h")],
     (), ["bin_counts, bin_edges, bin_centers of freud's histogram classes"])
prop("P05", "Accumulation and reset of histogram computes",
     "For the histogram-based computes (RDF, CorrelationFunction, BondOrder, PMFTs), computing frames with reset=False gives the result of all frames pooled (bin counts add; densities average over frames), in any order of frames, and compute with reset=True gives the result of a fresh object. Reading a result is repeatable and does not disturb later accumulation.",
     ["histories", "inputs"], "all sequences of compute calls, resets and result reads",
     "Tests accumulate the same frame a few times; interleavings of reset, compute and reads of different frames are not covered.",
     [F + "locality/BondHistogramCompute.h", F + "util/ThreadStorage.h", F + "density/RDF.cc", F + "density/CorrelationFunction.cc", F + "environment/BondOrder.cc", F + "pmft/PMFT.h"],
     [("BondHistogramCompute::accumulateGeneral / reset / getBinCounts", F + "locality/BondHistogramCompute.h"), ("ThreadLocalHistogram::reduceInto / reset", F + "util/Histogram.h")],
     [("m_local_histograms, m_histogram, m_frame_counter, m_reduce", "per-thread and reduced counts", F + "locality/BondHistogramCompute.h")], ["bin_counts, rdf, correlation, bond_order, pmft"])
prop("P06", "NeighborList invariants and operations",
     "A NeighborList's segments and neighbor_counts always describe its bonds: counts add up to the number of bonds, segment i is the first bond of query point i, and find_first_index agrees. filter and filter_r keep exactly the selected bonds in their original order with all their fields, sort orders bonds by query point and then by point or by distance while keeping the same bonds, and copy gives an equal independent list. from_arrays accepts exactly the inputs that satisfy its documented requirements and all_pairs lists every pair (without self pairs when asked).",
     ["inputs", "histories"], "all bond lists (empty ones and query points without bonds included), all sequences of operations",
     "Tests work on lists from ordinary queries; empty lists, gaps and operation sequences are sampled, not settled.",
     [F + "locality/NeighborList.h", F + "locality/NeighborList.cc", F + "locality/NeighborBond.h", F + "locality.py"],
     [("NeighborList::filter, filter_r, sort, copy, updateSegmentCounts, bisection_search", F + "locality/NeighborList.cc")],
     [("m_neighbors, m_distances, m_vectors, m_weights, m_segments, m_counts, m_segments_counts_updated", "bonds and derived index", F + "locality/NeighborList.h")], ["freud.locality.NeighborList"])
prop("P07", "Ball queries find exactly the bonds within range",
     "For points and query points inside the box and r_max below half the smallest distance between periodic faces, a ball query through AABBQuery, LinkCell, CellQuery or raw points returns every pair with r_min <= distance < r_max exactly once and no other pair (self pairs i==i left out when exclude_ii is set). The result does not depend on the engine, on its cell width, or on the order of query points, and AABBQuery, CellQuery and raw-point queries reject r_max beyond half that distance.",
     ["inputs", "configurations"], "all periodic 2D and 3D boxes, in-box points and query points, r_max, r_min, exclude_ii, engines",
     "Tests compare engines on random systems of a few sizes; completeness and uniqueness are universal over positions and boxes.",
     [F + "locality/AABBQuery.cc", F + "locality/AABBTree.h", F + "locality/AABB.h", F + "locality/LinkCell.cc", F + "locality/LinkCell.h", F + "locality/CellQuery.cc", F + "locality/CellQuery.h", F + "locality/NeighborQuery.h", F + "locality/RawPoints.h", F + "locality.py"],
     [("AABBQueryBallIterator, LinkCellQueryBallIterator, CellQueryBallIterator", F + "locality")], (), ["query(...).toNeighborList()"])
prop("P08", "Nearest-neighbour queries return the k nearest points",
     "For in-box points, a nearest query (in tilted boxes: as long as the k-th distance is below half the smallest distance between periodic faces) with num_neighbors=k returns for every query point its min(k, available) nearest points in order of distance, where available counts points within r_max and at least r_min away, without duplicates and without i==i when exclude_ii is set. The result is the same for all engines and all values of r_guess and scale.",
     ["inputs", "configurations"], "all systems, k, r_min, r_max, r_guess, scale, exclude_ii, engines",
     "Tests compare sorted distances for a few k on random systems.",
     [F + "locality/AABBQuery.cc", F + "locality/LinkCell.cc", F + "locality/CellQuery.cc", F + "locality/NeighborQuery.h"],
     [("AABBQueryIterator, LinkCellQueryIterator, NeighborQuery::validateQueryArgs", F + "locality")], (), ["query(...)"])
prop("P09", "Bond fields, and equality of precomputed lists and live queries",
     "Every bond reported by any query or neighbour list carries a vector from query point to a periodic image of point (the wrapped one whenever that is shorter than half the smallest distance between periodic faces), its length as distance, weight 1 and valid indices. A compute given the neighbour list of a query returns the same result as the compute given the equivalent query arguments, for every compute class, and iterating a query yields the same bonds as converting it to a list.",
     ["inputs", "configurations"], "all systems, query arguments and pair computes",
     "Tests compare the two routes for individual classes on one random system.",
     [F + "locality/NeighborComputeFunctional.h", F + "locality/NeighborComputeFunctional.cc", F + "locality/NeighborPerPointIterator.h", F + "locality/NeighborQuery.h", F + "locality/NeighborBond.h", F + "locality.py"],
     [("loopOverNeighbors, loopOverNeighborsIterator, makeDefaultNlist", F + "locality/NeighborComputeFunctional.h")], (), ["compute(neighbors=...)"])
prop("P10", "Radial distribution function is the normalised pair histogram",
     "RDF bin counts are the number of bonds per distance bin, rdf(r) is that count divided by the number of query points, the frame count, the shell volume (area in 2D) and the number density of points (optionally with the finite-size correction of the chosen mode), and n_r is the cumulative number of points per query point up to each bin's upper edge.",
     ["inputs", "histories"], "all systems, bins, r_min, r_max, normalisation modes, frame sequences, 2D and 3D",
     "Tests use ideal gases with statistical tolerances and fixed lattices.",
     [F + "density/RDF.cc", F + "density/RDF.h", F + "density.py"],
     [("RDF::reduce, RDF::accumulate", F + "density/RDF.cc")], (), ["rdf, n_r, bin_counts"])
prop("P11", "Correlation function is the bond average of products",
     "CorrelationFunction gives in each distance bin the average over bonds in it of the conjugate of the point's value times the query point's value, real or complex, over all accumulated frames, and zero in bins without bonds; bin counts are the bond counts.",
     ["inputs", "histories"], "all systems, value arrays, bins and frame sequences",
     "Tests use constant or random values on one box.",
     [F + "density/CorrelationFunction.cc", F + "density/CorrelationFunction.h", F + "density.py"],
     [("CorrelationFunction::accumulate, reduce", F + "density/CorrelationFunction.cc")], (), ["correlation, bin_counts"])
prop("P12", "Local density counts neighbours with the documented overlap weight",
     "LocalDensity reports for each query point the sum over its neighbours of 1 when the distance d is below r_max - D/2 for diameter D, the linear weight 1 + (r_max - (d + D/2))/D from there up to r_max + D/2, and 0 beyond, and the density is that number divided by the area (2D) or volume (3D) of the r_max ball.",
     ["inputs"], "all systems, r_max, diameters, dimensions",
     "Tests check one random and one lattice system.",
     [F + "density/LocalDensity.cc", F + "density.py"], [("LocalDensity::compute", F + "density/LocalDensity.cc")], (), ["density, num_neighbors"])
prop("P13", "Grid densities and voxelisations sum or mark the points in range",
     "For orthorhombic periodic boxes and points inside them, GaussianDensity gives at every grid cell within range the sum over points of value times the normalised Gaussian of the minimum-image distance (cut off at r_max; along non-periodic directions there are no images), and SphereVoxelization marks exactly the grid cells whose minimum-image distance to some point is below r_max. Grid shape, orientation and box follow the width argument and the input box.",
     ["inputs"], "all widths, r_max, sigma, points, values, 2D and 3D",
     "Tests check sums and one rolled example.",
     [F + "density/GaussianDensity.cc", F + "density/SphereVoxelization.cc", F + "density.py"],
     [("GaussianDensity::compute", F + "density/GaussianDensity.cc"), ("SphereVoxelization::compute", F + "density/SphereVoxelization.cc")], (), ["density, voxels"])
prop("P14", "PMFTs histogram bonds in the documented local frame",
     "Each PMFT counts every bond exactly once, in the bin given by the bond's coordinates in the documented (orientation-rotated) frame - r and the two angles for R12, x, y and relative angle for XYT, rotated x, y for XY, and rotated x, y, z for every equivalent orientation for XYZ. The PCF is the count over its bin volume (Jacobian), number density, query points and frames, and the PMFT is minus the logarithm of the PCF.",
     ["inputs", "histories"], "all systems, orientations, equivalent orientations, bin numbers and bounds",
     "Tests place a few bonds in fixed orientations.",
     [F + "pmft/PMFTR12.cc", F + "pmft/PMFTXYT.cc", F + "pmft/PMFTXY.cc", F + "pmft/PMFTXYZ.cc", F + "pmft/PMFT.h", F + "pmft.py"],
     [("PMFT*::accumulate, reduce", F + "pmft")], (), ["bin_counts, pmft"])
prop("P15", "Clusters are the connected components of the bond graph",
     "Two points get the same cluster index exactly when they are connected by a chain of bonds; cluster indices are 0..n-1 without gaps, ordered by decreasing size, num_clusters is their number, and cluster_keys lists exactly the keys (or indices) of the members of each cluster.",
     ["inputs"], "all systems, neighbour lists and key arrays",
     "Tests use well-separated clumps and lattice points.",
     [F + "cluster/Cluster.cc", F + "cluster.py", "extern/dset/dset.h"], [("Cluster::compute", F + "cluster/Cluster.cc")], (), ["cluster_idx, num_clusters, cluster_keys"])
prop("P16", "Cluster properties are the mass-weighted moments of each cluster",
     "For every assignment of points to clusters (in any order) ClusterProperties reports each cluster's size, total mass, periodic geometric and mass-weighted centres, and gyration and inertia tensors and radius of gyration computed from the wrapped displacements of exactly that cluster's points about its centre(s).",
     ["inputs"], "all cluster index arrays, masses, boxes and points",
     "Tests use clusters stored contiguously or equal masses.",
     [F + "cluster/ClusterProperties.cc", F + "cluster.py"], [("ClusterProperties::compute", F + "cluster/ClusterProperties.cc")], (), ["centers, centers_of_mass, gyrations, inertia_tensors, sizes, cluster_masses, radii_of_gyration"])
prop("P17", "Periodic buffer holds exactly the images inside the padded box",
     "PeriodicBuffer returns exactly the periodic images (not the originals, unless include_input_points) of the input points that lie inside the box padded by the buffer distances, or in images mode the requested number of images, each displaced from its original by a lattice vector; buffer_ids names the original of every buffer point and buffer_box is the padded box.",
     ["inputs"], "all boxes, points, buffer sizes, modes",
     "Tests check counts on a few boxes.",
     [F + "locality/PeriodicBuffer.cc", F + "locality.py"], [("PeriodicBuffer::compute", F + "locality/PeriodicBuffer.cc")], (), ["buffer_points, buffer_ids, buffer_box"])
prop("P18", "SANN and RAD filters keep exactly the bonds their definitions select",
     "FilterSANN keeps for each query point its m nearest neighbours with m the smallest number satisfying the SANN shell condition, and FilterRAD keeps exactly the neighbours not blocked by a nearer one under the open or closed RAD rule. A filtered list is a sub-list of the unfiltered one with identical bond fields and the same numbers of query points and points, also for empty lists and points without neighbours.",
     ["inputs"], "all neighbour lists, both RAD modes, allow_incomplete_shell",
     "Tests use a few perfect crystals.",
     [F + "locality/FilterSANN.cc", F + "locality/FilterRAD.cc", F + "locality/Filter.h", F + "locality.py"], [("FilterSANN::compute, FilterRAD::compute", F + "locality")], (), ["filtered_nlist"])
prop("P19", "Angular separations and local bond projections",
     "AngularSeparationNeighbor and AngularSeparationGlobal give, for each bond or each pair (orientation, global orientation), the smallest rotation angle between the two orientations over all equivalent orientations, which is zero for equal orientations when the identity is among them, invariant under a common rotation and, for sets of equivalent orientations closed under negation, in [0, pi] and unchanged by q -> -q. LocalBondProjection gives for each bond and projection vector the largest projection of the bond, in the point's own frame, over all equivalent vectors, and the normalised projection divides by the bond length (projection vectors are used as given).",
     ["inputs"], "all orientations, equivalent orientation sets, neighbour lists and projection vectors",
     "Tests check single quaternions with equal numbers of points and query points.",
     [F + "environment/AngularSeparation.cc", F + "environment/LocalBondProjection.cc", F + "environment.py", F + "util/VectorMath.h"],
     [("computeMinSeparationAngle, AngularSeparationNeighbor::compute, LocalBondProjection::compute", F + "environment")], (), ["angles, projections, normed_projections"])
prop("P20", "Bond order diagrams bin every bond direction on the sphere",
     "BondOrder counts every bond once in the bin of its azimuthal and polar angle in the frame of the chosen mode (lab, point frame, relative orientation or both), and the bond order is the count divided by the solid angle of the bin and the number of frames.",
     ["inputs", "histories"], "all systems, orientations, modes, bin numbers, frames",
     "Tests check array sums and a few bins.",
     [F + "environment/BondOrder.cc", F + "environment.py"], [("BondOrder::accumulate, reduce", F + "environment/BondOrder.cc")], (), ["bond_order, bin_counts"])
prop("P21", "Hexatic, cubatic and rotational order parameters follow their definitions",
     "Hexatic gives for each point the (optionally weighted) neighbour average of exp(i k theta) of the bond angles, RotationalAutocorrelation gives the normalised hyperspherical-harmonic character of each rotation between reference and current orientation and its mean real part, with value 1 for unchanged orientations. Cubatic's global tensor is the average of the particles' quartic tensors minus the isotropic tensor and its order parameter follows from the returned cubatic tensor (each particle's from its own orientation's tensor), with identical results for a given seed.",
     ["inputs"], "all systems, orientations, k, l, weights and seeds",
     "Tests check perfect crystals and single rotations.",
     [F + "order/HexaticTranslational.cc", F + "order/RotationalAutocorrelation.cc", F + "order/Cubatic.cc", F + "order.py"],
     [("Hexatic::compute, RotationalAutocorrelation::compute, Cubatic::compute", F + "order")], (), ["particle_order, order, global_tensor, cubatic_tensor"])
prop("P22", "Debye static structure factor is the Debye sum",
     "StaticStructureFactorDebye gives at every k the sum over all point/query-point pairs of sin(kr)/(kr) (the Bessel function J0(kr) in 2D) of the wrapped distance r divided by N_total (by default the number of query points), averaged over accumulated frames; k values are equally spaced from k_min to k_max and min_valid_k is the least 4 pi / L_min over the frames.",
     ["inputs", "histories"], "all systems, k ranges, bin numbers, partial structure factors, frame sequences",
     "Tests compare against a reference on one random system.",
     [F + "diffraction/StaticStructureFactorDebye.cc", F + "diffraction/StaticStructureFactor.h", F + "diffraction.py"], [("StaticStructureFactorDebye::accumulate, reduce", F + "diffraction/StaticStructureFactorDebye.cc")], (), ["S_k, k_values, min_valid_k"])
prop("P23", "Mean squared displacement is the average over particles (and windows)",
     "MSD in direct mode is the particle average of the squared displacement from the first frame and in window mode the average over particles and over all window starts for each lag, for trajectories unwrapped with the given images; particle_msd holds the per-particle values, and accumulated calls average over all particles seen.",
     ["inputs", "histories"], "all trajectories, image arrays, modes and accumulation sequences",
     "Tests check linear motion and a small random trajectory.",
     [F + "msd.py"], [("MSD.compute, _autocorrFFT", F + "msd.py")], (), ["msd, particle_msd"])
prop("P24", "Results do not depend on the number of threads",
     "Every parallel compute gives the same result for any number of threads and any division of its loop among them (up to floating-point summation order), because concurrently executed iterations never write the same element or lose an update.",
     ["schedules", "inputs"], "all partitions of the iteration range and all interleavings of the loop bodies",
     "Tests run with the default thread count; races and partition dependence do not show on demand.",
     [F + "parallel.py", F + "util/utils.h", F + "locality/NeighborComputeFunctional.h", F + "util/ThreadStorage.h"],
     [("util::forLoopWrapper, loopOverNeighbors*, ThreadStorage", F + "util")], (), ["every compute under freud.parallel.NumThreads"])
prop("P25", "Results need a compute, inputs are validated and never modified",
     "Reading any result before compute raises an AttributeError, a compute never changes the caller's arrays, accepts every array-like of the right shape (any dtype, memory order or stride) with the same result, and rejects arrays of the wrong shape or length with an error instead of computing. Computing again with reset never alters arrays returned earlier.",
     ["inputs", "histories"], "all compute classes, array layouts and call orders",
     "Tests check a few classes and the default memory layout.",
     [F + "util.py", F + "locality.py", F + "util/ManagedArray.h"], [("_Compute.__getattribute__, _convert_array", F + "util.py")], (), ["all compute classes"])
prop("P26", "Unit cells, random systems and interfaces",
     "UnitCell.generate_system tiles the basis over exactly nx*ny*nz lattice cells (in the box of that size, wrapped, with scale and Gaussian noise as documented and reproducible for a seed) and from_box/lattice constructors give the documented cells; make_random_system gives points inside the box reproducible for a seed. InterfaceMeasure reports exactly the points of either set that have a neighbour in the other one within range.",
     ["inputs"], "all unit cells, replica numbers, scales, seeds, point sets",
     "Tests check a few lattices and one interface.",
     [F + "data.py", F + "interface.py"], [("UnitCell.generate_system, make_random_system", F + "data.py"), ("InterfaceMeasure.compute", F + "interface.py")], (), ["freud.data, freud.interface"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

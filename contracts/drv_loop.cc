// Instantiation driver: only names the specialisations to be verified; the
// definitions all come from the repository's headers.
#include "NeighborComputeFunctional.h"
namespace freud_verif_driver {
using namespace freud::locality;
// an arbitrary pair / per-point function (contracts give them abstract meaning)
struct PairFn { void operator()(const NeighborBond& nb) const; };
struct PointFn { void operator()(size_t i, const std::shared_ptr<NeighborPerPointIterator>& it) const; };
inline void use(const std::shared_ptr<NeighborQuery>& nq, const std::shared_ptr<NeighborList>& nl, const vec3<float>* q, unsigned int n,
                QueryArgs a, const PairFn& f, const PointFn& g, NeighborQueryIterator& it, NeighborListPerPointIterator& c, const NeighborBond& b)
{
    loopOverNeighbors(nq, q, n, a, nl, f, true);
    loopOverNeighborsIterator(nq, q, n, a, nl, g, true);
    loopOverNeighborListIterator(nl, g, true);
    (void) it.next();
    (void) it.toNeighborList(true);
    NeighborListPerPointIterator made(nl, n);
    (void) c.next();
    (void) c.end();
    (void) (b == b);
    NeighborBond x(n, n, 0.0F, vec3<float>());
    NeighborBond y(n, n, 0.0F, 0.0F, vec3<float>());
}
}

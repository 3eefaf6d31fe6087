// Instantiation driver: only names the specialisations to be verified; the
// definitions all come from the repository's headers.
#include "Histogram.h"
#include "ThreadStorage.h"
namespace freud_verif_driver {
using namespace freud::util;
inline void use(Histogram<unsigned int>& h, Histogram<float>& hf, Histogram<unsigned int>::ThreadLocalHistogram& t,
                Histogram<float>::ThreadLocalHistogram& tf, ManagedArray<float>& m, ManagedArray<unsigned int>& mu,
                ThreadStorage<float>& ts, size_t i, float x)
{
    h(x);
    h(x, x);
    h(x, x, x);
    hf(x, Weight<float>(x));
    h.increment(i);
    hf.increment(i, x);
    Histogram<unsigned int> made(h.getAxes());
    Histogram<float> madef(h.getAxes());
    Histogram<unsigned int>::ThreadLocalHistogram tl(h);
    (void) h.bin({x});
    (void) h.getAxes();
    (void) h.shape();
    h.reset();
    (void) h.getBinEdges();
    (void) h.getBinCenters();
    (void) h.getBounds();
    (void) h.getAxisSizes();
    h.reduceOverThreads(t);
    hf.reduceOverThreads(tf);
    t(x, x);
    t.increment(i);
    t.reset();
    tf.reset();
    (void) h[i];
    (void) h.size();
    (void) h.getBinCounts();
    (void) m(i);
    (void) m(i, i);
    (void) m(i, i, i);
    (void) m(i, i, i, i);
    (void) m[i];
    (void) mu[i];
    (void) m.getIndex({i});
    (void) ManagedArray<float>::getMultiIndex({i}, i);
    (void) m.copy();
    ManagedArray<float> c(m);
    ManagedArray<float> sized(i);
    ManagedArray<unsigned int> sizedu(i);
    m.reset();
    ts.reduceInto(m);
    ts.reset();
    ts.resize(i);
    ThreadStorage<float> ts2(i);
    RegularAxis a(i, x, x);
    (void) a.bin(x);
    (void) a.getBinCenters();
    (void) a.getBinEdges();
}
}

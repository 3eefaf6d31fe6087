// Instantiation driver: only names the specialisations to be verified; the
// definitions all come from the repository's headers.
#include "Box.h"
namespace freud_verif_driver {
inline void use(const freud::box::Box& b, vec3<float> v, quat<float> q, quat<float> p)
{
    (void) b.wrap(v);
    (void) dot(v, v);
    (void) cross(v, v);
    (void) rotate(q, v);
    (void) conj(q);
    (void) (q * p);
    (void) (q * v);
    (void) norm2(q);
    (void) freud::util::modulusPositive(v.x, 1.0F);
}
}

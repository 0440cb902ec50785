// Examples the index kind rules are tried on: those called bad must be
// reported and no others.
#include <vector>
#include "core/mesh.hpp"
#include "core/coarse_data.hpp"
#include "core/xs_mesh.hpp"
#include "core/position.hpp"
#include "common.hpp"

namespace ref {
namespace index {
real_t bad_swapped(const CoarseData &d, const Mesh &m, const XSMesh &x)
{
    real_t s = 0.0;
    for (int is = 0; is < (int)m.n_surf(); is++) {
        for (int ig = 0; ig < (int)x.n_group(); ig++) {
            s += d.current(ig, is);
        }
    }
    return s;
}
real_t bad_range(const CoarseData &d, const Mesh &m, const XSMesh &x)
{
    real_t s = 0.0;
    for (int is = 0; is < (int)m.n_pin(); is++) {
        for (int ig = 0; ig < (int)x.n_group(); ig++) {
            s += d.current(is, ig);
        }
    }
    return s;
}
int bad_argument(const Mesh &m, int ix, int iy)
{
    Position p(ix, iy, 0);
    return m.coarse_surf(m.coarse_surf(m.coarse_cell(p), Surface::EAST), Surface::WEST);
}
void bad_extent(const CoarseData &d, const Mesh &m)
{
    ArrayB1 a(m.n_pin());
    for (int is = 0; is < (int)m.n_surf(); is++) {
        a(is) = d.current(is, 0);
    }
}
real_t bad_view(const CoarseData &d, const Mesh &m)
{
    ArrayB1 a = d.flux(blitz::Range::all(), 0);
    real_t s  = 0.0;
    for (int is = 0; is < (int)m.n_surf(); is++) {
        s += a(is);
    }
    return s;
}
real_t bad_beyond(const CoarseData &d, const Mesh &m)
{
    int n    = m.n_surf();
    real_t s = 0.0;
    std::vector<real_t> v(n);
    for (int is = 0; is <= n; is++) {
        s += d.current(is, 3);
    }
    return s;
}
real_t bad_first(const CoarseData &d, const Mesh &m, int ig)
{
    real_t s = 0.0;
    for (int is = 1; is < (int)m.n_surf(); is++) {
        s += d.current(is, ig);
    }
    return s;
}
real_t bad_last(const CoarseData &d, const Mesh &m, int ig)
{
    real_t s = 0.0;
    for (int is = 0; is < (int)m.n_surf() - 1; is++) {
        s += d.current(is, ig);
    }
    return s;
}
real_t fine_sum(const CoarseData &d, const Mesh &m, const XSMesh &x)
{
    real_t s = 0.0;
    for (int is = 0; is < (int)m.n_surf(); is++) {
        for (int ig = 0; ig < (int)x.n_group(); ig++) {
            s += d.current(is, ig);
        }
    }
    return s;
}
real_t at(const ArrayB1 &a, int i)
{
    return a(i);
}
real_t fine_helper(const CoarseData &d, const Mesh &m)
{
    ArrayB1 a = d.flux(blitz::Range::all(), 0);
    ArrayB1 b = d.current(blitz::Range::all(), 0);
    real_t s  = 0.0;
    for (int i = 0; i < (int)m.n_pin(); i++) {
        s += at(a, i);
    }
    for (int i = 0; i < (int)m.n_surf(); i++) {
        s += at(b, i);
    }
    return s;
}
real_t fine_reused(const CoarseData &d, const Mesh &m)
{
    int i;
    real_t s = 0.0;
    for (i = 0; i < (int)m.n_pin(); i++) {
        s += d.flux(i, 0);
    }
    for (i = 0; i < (int)m.n_surf(); i++) {
        s += d.current(i, 0);
    }
    return s;
}
real_t fine_differences(const CoarseData &d, const Mesh &m, int ig)
{
    real_t s = 0.0;
    for (int is = 1; is < (int)m.n_surf(); is++) {
        s += d.current(is, ig) - d.current(is - 1, ig);
    }
    return s;
}
int fine_compared(const Mesh &m)
{
    if (m.n_surf() == m.n_pin()) {
        return m.n_pin();
    }
    return 0;
}
}
}

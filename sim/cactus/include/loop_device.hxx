/* Stand-in for CarpetX's Loop thorn: data-parallel loops whose point order the simulator chooses. */
#ifndef SIM_LOOP_HXX
#define SIM_LOOP_HXX
#include "cctk.h"
#include <array>
namespace Arith {
template <typename T, int D> struct vect {
  T v[D];
  T &operator[](int i) { return v[i]; }
  const T &operator[](int i) const { return v[i]; }
  friend vect operator+(vect a, const vect &b) { for (int i = 0; i < D; i++) a.v[i] += b.v[i]; return a; }
  friend vect operator-(vect a, const vect &b) { for (int i = 0; i < D; i++) a.v[i] -= b.v[i]; return a; }
  friend vect operator-(vect a) { for (int i = 0; i < D; i++) a.v[i] = -a.v[i]; return a; }
  friend vect operator*(T s, vect a) { for (int i = 0; i < D; i++) a.v[i] *= s; return a; }
  friend vect operator*(vect a, T s) { return s * a; }
};
} // namespace Arith
namespace Loop {
constexpr int dim = 3;
typedef Arith::vect<int, 3> ivect;
struct PointDesc {
  ivect I, DI[3];
  int i, j, k;
  CCTK_REAL x, y, z, dx, dy, dz;
  Arith::vect<CCTK_REAL, 3> X, DX;
};
template <typename T> struct GFx {
  T *ptr;
  const cGH *gh;
  T &operator()(const ivect &I) const {
    for (int d = 0; d < 3; d++)
      if (I[d] < 0 || I[d] >= gh->cctk_lsh[d])
        SimError("grid function", d, "access outside the component: index %d %d %d of %d %d %d", I[0], I[1], I[2], gh->cctk_lsh[0], gh->cctk_lsh[1], gh->cctk_lsh[2]);
    return ptr[CCTK_GFINDEX3D(gh, I[0], I[1], I[2])];
  }
  T &operator()(int i, int j, int k) const { return (*this)(ivect{{i, j, k}}); }
};
template <typename T> using GF3D2 = GFx<T>;
struct GridDescBaseDevice {
  std::array<int, 3> nghostzones, lsh, gsh, lbnd;
  const cGH *gh;
  GridDescBaseDevice(const cGH *g) : gh(g) { for (int d = 0; d < 3; d++) nghostzones[d] = g->cctk_nghostzones[d], lsh[d] = g->cctk_lsh[d], gsh[d] = g->cctk_gsh[d], lbnd[d] = g->cctk_lbnd[d]; }
  PointDesc point(int i, int j, int k) const {
    PointDesc p;
    int q[3] = {i, j, k};
    for (int d = 0; d < 3; d++) {
      p.I[d] = q[d];
      p.DX[d] = gh->cctk_delta_space[d];
      p.X[d] = gh->cctk_origin_space[d] + (gh->cctk_lbnd[d] + q[d]) * gh->cctk_delta_space[d];
      for (int e = 0; e < 3; e++) p.DI[d][e] = d == e;
    }
    p.i = i, p.j = j, p.k = k, p.x = p.X[0], p.y = p.X[1], p.z = p.X[2], p.dx = p.DX[0], p.dy = p.DX[1], p.dz = p.DX[2];
    return p;
  }
  template <typename F> void box(const int *lo, const int *hi, bool onlybnd, const F &f) const {
    int n[3];
    for (int d = 0; d < 3; d++) n[d] = hi[d] - lo[d];
    if (n[0] <= 0 || n[1] <= 0 || n[2] <= 0) return;
    unsigned N = (unsigned)n[0] * n[1] * n[2], s, st = SimPerm(N, &s), q = s;
    for (unsigned c = 0; c < N; c++, q = (q + st) % N) {
      int i = lo[0] + q % n[0], j = lo[1] + q / n[0] % n[1], k = lo[2] + q / n[0] / n[1];
      if (onlybnd) {
        int w[3] = {i, j, k};
        bool b = false;
        for (int d = 0; d < 3; d++) b |= (gh->cctk_bbox[2 * d] && w[d] < gh->cctk_nghostzones[d]) || (gh->cctk_bbox[2 * d + 1] && w[d] >= gh->cctk_lsh[d] - gh->cctk_nghostzones[d]);
        if (!b) continue;
      }
      f(point(i, j, k));
    }
  }
  template <int CI, int CJ, int CK, typename F> void loop_all_device(const std::array<int, 3> &, const F &f) const { int lo[3] = {0, 0, 0}, hi[3] = {lsh[0], lsh[1], lsh[2]}; box(lo, hi, false, f); }
  template <int CI, int CJ, int CK, typename F> void loop_int_device(const std::array<int, 3> &, const F &f) const {
    int lo[3], hi[3];
    for (int d = 0; d < 3; d++) lo[d] = nghostzones[d], hi[d] = lsh[d] - nghostzones[d];
    box(lo, hi, false, f);
  }
  template <int CI, int CJ, int CK, typename F> void loop_bnd_device(const std::array<int, 3> &, const F &f) const { int lo[3] = {0, 0, 0}, hi[3] = {lsh[0], lsh[1], lsh[2]}; box(lo, hi, true, f); }
  template <int CI, int CJ, int CK, typename F> void loop_all(const std::array<int, 3> &g, const F &f) const { loop_all_device<CI, CJ, CK>(g, f); }
  template <int CI, int CJ, int CK, typename F> void loop_int(const std::array<int, 3> &g, const F &f) const { loop_int_device<CI, CJ, CK>(g, f); }
  template <int CI, int CJ, int CK, typename F> void loop_bnd(const std::array<int, 3> &g, const F &f) const { loop_bnd_device<CI, CJ, CK>(g, f); }
};
} // namespace Loop
#endif

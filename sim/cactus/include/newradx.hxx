#ifndef SIM_NEWRADX
#define SIM_NEWRADX
#include "loop_device.hxx"
namespace NewRadX {
inline void NewRadX_Apply(const cGH *gh, const Loop::GFx<const CCTK_REAL> var, const Loop::GFx<CCTK_REAL> rhs, CCTK_REAL var0, CCTK_REAL v0, CCTK_REAL radpower) { NewRad_Apply(gh, var.ptr, rhs.ptr, var0, v0, radpower); }
} // namespace NewRadX
#endif

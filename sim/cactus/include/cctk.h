/* Stand-in for the Cactus flesh: what generated thorns include. */
#ifndef SIM_CCTK_H
#define SIM_CCTK_H
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#define restrict __restrict__
#define CCTK_RESTRICT __restrict__
#include <cassert>
#include <cmath>
using namespace std;
#define SIM_C extern "C"
#else
#define CCTK_RESTRICT restrict
#define SIM_C extern
#endif
typedef double CCTK_REAL;
typedef double REAL;
typedef double CCTK_REAL8;
typedef int CCTK_INT;
typedef int CCTK_INT4;
typedef int CCTK_BOOLEAN;
typedef const char *CCTK_STRING;
typedef const char *CCTK_KEYWORD;
typedef void *CCTK_POINTER;
typedef const void *CCTK_POINTER_TO_CONST;
typedef struct cGH_ {
  int cctk_dim, cctk_iteration;
  int cctk_lsh[3], cctk_ash[3], cctk_gsh[3], cctk_lbnd[3], cctk_ubnd[3], cctk_bbox[6], cctk_nghostzones[3], cctk_levfac[3], cctk_from[3], cctk_to[3];
  int cctk_timefac, cctk_convlevel;
  double cctk_time, cctk_delta_time, cctk_delta_space[3], cctk_origin_space[3];
  double **data;
  int comp;
} cGH;
#define CCTK_ARGUMENTS cGH *cctkGH
#define CCTK_PASS_CTOC cctkGH
#define CCTK_GFINDEX3D(GH, i, j, k) ((i) + (GH)->cctk_ash[0] * ((j) + (GH)->cctk_ash[1] * (k)))
#define CCTK_DELTA_SPACE(d) (cctkGH->cctk_delta_space[d] / cctkGH->cctk_levfac[d])
#define CCTK_ORIGIN_SPACE(d) (cctkGH->cctk_origin_space[d])
#define CCTK_DELTA_TIME (cctkGH->cctk_delta_time)
#define CCTK_ATTRIBUTE_UNUSED __attribute__((unused))
#define CCTK_ATTRIBUTE_ALWAYS_INLINE
#define CCTK_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ALL_FACES 63
#define CCTK_EQUALS(a, b) (!strcasecmp((a), (b)))
#ifdef __cplusplus
extern "C" {
#endif
int strcasecmp(const char *, const char *);
void SimError(const char *file, int line, const char *fmt, ...);
int CCTK_GroupIndex(const char *);
int CCTK_VarIndex(const char *);
const void *CCTK_ParameterGet(const char *name, const char *thorn, int *type);
CCTK_INT MoLRegisterEvolvedGroup(CCTK_INT, CCTK_INT);
CCTK_INT MoLRegisterConstrainedGroup(CCTK_INT);
CCTK_INT MoLRegisterSaveAndRestoreGroup(CCTK_INT);
CCTK_INT Boundary_SelectVarForBC(CCTK_POINTER_TO_CONST, CCTK_INT, CCTK_INT, CCTK_INT, CCTK_STRING, CCTK_STRING);
CCTK_INT Boundary_SelectGroupForBC(CCTK_POINTER_TO_CONST, CCTK_INT, CCTK_INT, CCTK_INT, CCTK_STRING, CCTK_STRING);
CCTK_INT Driver_SelectVarForBC(CCTK_POINTER_TO_CONST, CCTK_INT, CCTK_INT, CCTK_INT, CCTK_STRING, CCTK_STRING);
CCTK_INT Driver_SelectGroupForBC(CCTK_POINTER_TO_CONST, CCTK_INT, CCTK_INT, CCTK_INT, CCTK_STRING, CCTK_STRING);
CCTK_INT ExtrapolateGammas(CCTK_POINTER_TO_CONST, CCTK_REAL *);
CCTK_INT NewRad_Apply(CCTK_POINTER_TO_CONST, const CCTK_REAL *, CCTK_REAL *, CCTK_REAL, CCTK_REAL, CCTK_REAL);
int SetCartSymVN(const cGH *, int *, const char *);
int Einstein_RegisterSlicing(const char *);
unsigned SimPerm(unsigned n, unsigned *start);
#ifdef __cplusplus
}
#endif
#define CCTK_ERROR(...) SimError(__FILE__, __LINE__, __VA_ARGS__)
#define CCTK_VERROR(...) SimError(__FILE__, __LINE__, __VA_ARGS__)
#define CCTK_VParamWarn(...) ((void)0)
#define CCTK_PARAMWARN(...) ((void)0)
#define CCTK_WARN(l, ...) ((l) == 0 ? SimError(__FILE__, __LINE__, __VA_ARGS__) : (void)0)
#define CCTK_VWARN(l, ...) ((l) == 0 ? SimError(__FILE__, __LINE__, __VA_ARGS__) : (void)0)
#define CCTK_INFO(...) ((void)0)
#define CCTK_VINFO(...) ((void)0)
#endif

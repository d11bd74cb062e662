/* Simulated Cactus flesh, driver, MoL, Boundary, NewRad: interprets a linear script of scheduled actions.
   The order of everything, the decomposition, padding, poison and faults are chosen by the script. */
#include "cctk.h"
#include <stdarg.h>
#include <stdint.h>
#include "sim_table.h" /* generated: NVAR, NGRP, VARS[], FUNCS[], PARS[] */

#define MAXC 64
static cGH G[MAXC];
static cGH META;
static int nc, gsh[3], ng, ncut[3], cut[3][16], pad[2], poison = 1;
static double org[3], dx[3], dt, now;
static int iter;
static double *ybase[NVAR + 1], *acc[NVAR + 1]; /* per var: MoL scratch, all components concatenated (index via off) */
static int evol_of[NVAR + 1]; /* rhs var of an evolved var, or -1 */
static int nreg, failreg = -1, slack = 32;
static double fillv = 0.0;
static FILE *out;
static struct { int var, width, none; } sel[4 * NVAR + 4];
static int nsel;
static struct { int set, width, none; } drv[NVAR + 1]; /* boundary conditions registered with the driver (PreSync) */
static int presync;
static uint64_t rs = 1;
static const char *cur = "";

static double qnan(void) { return __builtin_nan(""); }
void SimError(const char *file, int line, const char *fmt, ...) {
  va_list a;
  va_start(a, fmt);
  printf("CCTK_ERROR in %s: ", cur);
  vprintf(fmt, a);
  printf("\n");
  fflush(stdout);
  exit(86);
}
static void die(const char *m, const char *x) {
  printf("HARNESS: %s %s\n", m, x);
  fflush(stdout);
  exit(99);
}
unsigned SimPerm(unsigned n, unsigned *start) {
  if (!rs) { *start = 0; return 1; }
  rs = rs * 6364136223846793005ull + 1442695040888963407ull;
  if (n < 3) { *start = 0; return 1; }
  *start = (unsigned)((rs >> 20) % n);
  unsigned st = 1 + (unsigned)((rs >> 33) % (n - 1));
  for (;; st = st % (n - 1) + 1) {
    unsigned a = n, b = st;
    while (b) { unsigned t = a % b; a = b; b = t; }
    if (a == 1) return st;
  }
}
static int split(const char *full, char *impl) { const char *p = strstr(full, "::"); if (!p) return -1; memcpy(impl, full, p - full); impl[p - full] = 0; return (int)(p + 2 - full); }
int CCTK_VarIndex(const char *n) {
  char im[200];
  int k = split(n, im);
  if (k < 0) return -1;
  for (int v = 0; v < NVAR; v++) if (!strcasecmp(VARS[v].name, n + k) && !strcasecmp(VARS[v].impl, im)) return v;
  return -1;
}
int CCTK_GroupIndex(const char *n) {
  char im[200];
  int k = split(n, im);
  if (k < 0) return -1;
  for (int v = 0; v < NVAR; v++) if (!strcasecmp(VARS[v].group, n + k) && !strcasecmp(VARS[v].impl, im)) return VARS[v].gi;
  return -1;
}
const void *CCTK_ParameterGet(const char *n, const char *t, int *type) {
  for (int i = 0; PARS[i].name; i++) if (!strcmp(PARS[i].name, n) && !strcasecmp(PARS[i].thorn, t)) { if (type) *type = PARS[i].type; return PARS[i].p; }
  return NULL;
}
static int reg_fails(void) { return nreg++ == failreg; }
CCTK_INT MoLRegisterEvolvedGroup(CCTK_INT e, CCTK_INT r) {
  if (reg_fails() || e < 0 || r < 0) return -1;
  int a[NVAR], b[NVAR], na = 0, nb = 0;
  for (int v = 0; v < NVAR; v++) { if (VARS[v].gi == e) a[na++] = v; if (VARS[v].gi == r) b[nb++] = v; }
  if (na != nb) return -1;
  for (int i = 0; i < na; i++) evol_of[a[i]] = b[i];
  return 0;
}
CCTK_INT MoLRegisterConstrainedGroup(CCTK_INT g) { return g < 0 || reg_fails() ? -1 : 0; }
CCTK_INT MoLRegisterSaveAndRestoreGroup(CCTK_INT g) { return g < 0 || reg_fails() ? -1 : 0; }
static int select_bc(int v, int w, const char *bc) {
  if (v < 0 || reg_fails()) return -1;
  if (strcasecmp(bc, "none") && strcasecmp(bc, "flat")) return -2;
  int n = 0;
  while (n < nsel && sel[n].var != v) n++;
  sel[n].var = v, sel[n].width = w, sel[n].none = !strcasecmp(bc, "none");
  if (n == nsel) nsel++;
  return 0;
}
CCTK_INT Boundary_SelectVarForBC(CCTK_POINTER_TO_CONST g, CCTK_INT f, CCTK_INT w, CCTK_INT t, CCTK_STRING n, CCTK_STRING bc) { return f != CCTK_ALL_FACES ? -4 : select_bc(CCTK_VarIndex(n), w, bc); }
CCTK_INT Boundary_SelectGroupForBC(CCTK_POINTER_TO_CONST g, CCTK_INT f, CCTK_INT w, CCTK_INT t, CCTK_STRING n, CCTK_STRING bc) {
  int gi = CCTK_GroupIndex(n), r = gi < 0 ? -1 : 0;
  for (int v = 0; v < NVAR && !r; v++) if (VARS[v].gi == gi) r = select_bc(v, w, bc);
  return r;
}
static int driver_bc(int v, int w, const char *bc) {
  if (v < 0 || reg_fails()) return -1;
  if (strcasecmp(bc, "none") && strcasecmp(bc, "flat")) return -2;
  drv[v].set = 1, drv[v].width = w, drv[v].none = !strcasecmp(bc, "none");
  return 0;
}
CCTK_INT Driver_SelectVarForBC(CCTK_POINTER_TO_CONST g, CCTK_INT f, CCTK_INT w, CCTK_INT t, CCTK_STRING n, CCTK_STRING bc) { return f != CCTK_ALL_FACES ? -4 : driver_bc(CCTK_VarIndex(n), w, bc); }
CCTK_INT Driver_SelectGroupForBC(CCTK_POINTER_TO_CONST g, CCTK_INT f, CCTK_INT w, CCTK_INT t, CCTK_STRING n, CCTK_STRING bc) {
  int gi = CCTK_GroupIndex(n), r = gi < 0 ? -1 : 0;
  for (int v = 0; v < NVAR && !r; v++) if (VARS[v].gi == gi) r = driver_bc(v, w, bc);
  return r;
}
int SetCartSymVN(const cGH *g, int *sym, const char *n) { return CCTK_VarIndex(n) < 0 ? -1 : 0; }
int Einstein_RegisterSlicing(const char *n) { return 0; }

/* ---- geometry */
#define EACH(g, i, j, k) for (int k = 0; k < (g)->cctk_lsh[2]; k++) for (int j = 0; j < (g)->cctk_lsh[1]; j++) for (int i = 0; i < (g)->cctk_lsh[0]; i++)
static int depth(const cGH *g, int d, int i) { /* how far outside the interior across an outer face: <0 lower, >0 upper, 0 not */
  if (g->cctk_bbox[2 * d] && i < ng) return i - ng;
  if (g->cctk_bbox[2 * d + 1] && i >= g->cctk_lsh[d] - ng) return i - (g->cctk_lsh[d] - ng) + 1;
  return 0;
}
static int owned(const cGH *g, int i, int j, int k) {
  int q[3] = {i, j, k};
  for (int d = 0; d < 3; d++) if (q[d] < g->cctk_from[d] || q[d] >= g->cctk_to[d]) return 0;
  return 1;
}
static int interior(const cGH *g, int i, int j, int k) {
  int q[3] = {i, j, k};
  for (int d = 0; d < 3; d++) if (q[d] < ng || q[d] >= g->cctk_lsh[d] - ng) return 0;
  return 1;
}
static long total(const cGH *g) { return (long)g->cctk_ash[0] * g->cctk_ash[1] * g->cctk_lsh[2] + slack; }
CCTK_INT NewRad_Apply(CCTK_POINTER_TO_CONST gh, const CCTK_REAL *var, CCTK_REAL *rhs, CCTK_REAL var0, CCTK_REAL v0, CCTK_REAL radpower) {
  const cGH *g = gh;
  for (int dep = 1; dep <= ng; dep++)
    EACH(g, i, j, k) {
      int q[3] = {i, j, k}, in[3], m = 0;
      if (!owned(g, i, j, k)) continue;
      for (int d = 0; d < 3; d++) { int e = depth(g, d, q[d]); in[d] = q[d] + (e < 0) - (e > 0); if (abs(e) > m) m = abs(e); }
      if (m != dep) continue;
      double r = 1e-10, r1 = 1e-10, s = 0;
      int c = CCTK_GFINDEX3D(g, i, j, k), ci = CCTK_GFINDEX3D(g, in[0], in[1], in[2]), st[3] = {1, g->cctk_ash[0], g->cctk_ash[0] * g->cctk_ash[1]};
      double X[3];
      for (int d = 0; d < 3; d++) { X[d] = org[d] + (g->cctk_lbnd[d] + q[d]) * dx[d]; r += X[d] * X[d]; double w = org[d] + (g->cctk_lbnd[d] + in[d]) * dx[d]; r1 += w * w; }
      r = sqrt(r), r1 = sqrt(r1);
      for (int d = 0; d < 3; d++) {
        int e = depth(g, d, q[d]);
        double D = e < 0 ? (var[c + st[d]] - var[c]) / dx[d] : e > 0 ? (var[c] - var[c - st[d]]) / dx[d] : (var[c + st[d]] - var[c - st[d]]) / (2 * dx[d]);
        s += X[d] / r * D;
      }
      rhs[c] = -v0 * s - v0 * (var[c] - var0) / r + 0.1 * rhs[ci] * r1 / r;
    }
  return 0;
}
CCTK_INT ExtrapolateGammas(CCTK_POINTER_TO_CONST gh, CCTK_REAL *var) {
  const cGH *g = gh;
  for (int dep = 1; dep <= ng; dep++)
    EACH(g, i, j, k) {
      int q[3] = {i, j, k}, a[3], m = 0;
      for (int d = 0; d < 3; d++) { int e = depth(g, d, q[d]); a[d] = q[d] + (e < 0) - (e > 0); if (abs(e) > m) m = abs(e); }
      if (m == dep) var[CCTK_GFINDEX3D(g, i, j, k)] = var[CCTK_GFINDEX3D(g, a[0], a[1], a[2])];
    }
  return 0;
}
static void flat(const cGH *g, double *v, int w) {
  EACH(g, i, j, k) {
    int q[3] = {i, j, k}, a[3], b = 0;
    for (int d = 0; d < 3; d++) {
      a[d] = q[d];
      if (g->cctk_bbox[2 * d] && a[d] < w) a[d] = w, b = 1;
      if (g->cctk_bbox[2 * d + 1] && a[d] >= g->cctk_lsh[d] - w) a[d] = g->cctk_lsh[d] - w - 1, b = 1;
    }
    if (b) v[CCTK_GFINDEX3D(g, i, j, k)] = v[CCTK_GFINDEX3D(g, a[0], a[1], a[2])];
  }
}
static double *glob;
static long gidx(const cGH *g, int i, int j, int k) { return (g->cctk_lbnd[0] + i) + (long)gsh[0] * ((g->cctk_lbnd[1] + j) + (long)gsh[1] * (g->cctk_lbnd[2] + k)); }
static void gather(int v) { for (int c = 0; c < nc; c++) { cGH *g = &G[c]; EACH(g, i, j, k) if (owned(g, i, j, k)) glob[gidx(g, i, j, k)] = g->data[v][CCTK_GFINDEX3D(g, i, j, k)]; } }
static void scatter(int v, int all) { for (int c = 0; c < nc; c++) { cGH *g = &G[c]; EACH(g, i, j, k) if (all || !owned(g, i, j, k)) g->data[v][CCTK_GFINDEX3D(g, i, j, k)] = glob[gidx(g, i, j, k)]; } }
static void spoil(int v, int what, double val) { /* 0 non-owned, 1 outside the interior, 2 everything, 3 non-owned and outer boundary */
  for (int c = 0; c < nc; c++) {
    cGH *g = &G[c];
    if (what == 2) { for (long n = 0; n < total(g); n++) g->data[v][n] = val; continue; }
    EACH(g, i, j, k) if (what == 0 ? !owned(g, i, j, k) : what == 1 ? !interior(g, i, j, k) : what == 4 ? interior(g, i, j, k) : (!owned(g, i, j, k) || depth(g, 0, i) || depth(g, 1, j) || depth(g, 2, k))) g->data[v][CCTK_GFINDEX3D(g, i, j, k)] = val;
  }
}
static double dummy[4];
static double *fakes[NVAR + 1];
static void build(void) { /* allocate the components of the current decomposition */
  for (int c = 0; c < nc; c++) { for (int v = 0; v < NVAR; v++) free(G[c].data[v]); free(G[c].data); }
  nc = 0;
  for (int a = 0; a < ncut[2]; a++) for (int b = 0; b < ncut[1]; b++) for (int e = 0; e < ncut[0]; e++) {
    int p[3] = {e, b, a};
    cGH *g = &G[nc];
    if (nc >= MAXC) die("too many components", "");
    memset(g, 0, sizeof *g);
    g->cctk_dim = 3, g->comp = nc++;
    for (int d = 0; d < 3; d++) { /* cut[d][p]: first interior point (global, without boundary) of block p */
      int lo = cut[d][p[d]], hi = cut[d][p[d] + 1];
      g->cctk_lbnd[d] = lo - ng, g->cctk_lsh[d] = hi - lo + 2 * ng, g->cctk_ubnd[d] = g->cctk_lbnd[d] + g->cctk_lsh[d] - 1;
      g->cctk_bbox[2 * d] = p[d] == 0, g->cctk_bbox[2 * d + 1] = p[d] == ncut[d] - 1;
      g->cctk_from[d] = p[d] == 0 ? 0 : ng, g->cctk_to[d] = p[d] == ncut[d] - 1 ? g->cctk_lsh[d] : g->cctk_lsh[d] - ng;
      g->cctk_ash[d] = g->cctk_lsh[d] + (d < 2 ? pad[d] : 0), g->cctk_gsh[d] = gsh[d], g->cctk_nghostzones[d] = ng, g->cctk_levfac[d] = 1;
      g->cctk_delta_space[d] = dx[d], g->cctk_origin_space[d] = org[d];
    }
    g->cctk_timefac = 1, g->cctk_delta_time = dt, g->cctk_time = now, g->cctk_iteration = iter;
    g->data = calloc(NVAR + 1, sizeof(double *));
    for (int v = 0; v < NVAR; v++) {
      g->data[v] = malloc(total(g) * sizeof(double));
      for (long n = 0; n < total(g); n++) g->data[v][n] = fillv;
    }
  }
  META = G[0];
  META.data = fakes;
  for (int d = 0; d < 3; d++) META.cctk_lsh[d] = META.cctk_ash[d] = 0;
  free(glob);
  glob = calloc((long)gsh[0] * gsh[1] * gsh[2], sizeof(double));
  for (int v = 0; v < NVAR; v++) { free(ybase[v]); free(acc[v]); ybase[v] = acc[v] = NULL; }
}
static int V(const char *im, const char *n) { for (int v = 0; v < NVAR; v++) if (!strcasecmp(VARS[v].impl, im) && !strcasecmp(VARS[v].name, n)) return v; return -1; }
static void sim_coords(const char *im) {
  const char *N[3] = {"x", "y", "z"};
  for (int d = 0; d < 3; d++) {
    int v = V(im, N[d]);
    if (v < 0) continue;
    for (int c = 0; c < nc; c++) { cGH *g = &G[c]; EACH(g, i, j, k) { int q[3] = {i, j, k}; g->data[v][CCTK_GFINDEX3D(g, i, j, k)] = org[d] + (g->cctk_lbnd[d] + q[d]) * dx[d]; } }
  }
}
static void sim_adm(const char *im) { /* smooth, non-trivial ADM data */
  const char *N[] = {"gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "kxx", "kxy", "kxz", "kyy", "kyz", "kzz", "alp", "betax", "betay", "betaz", "dtbetax", "dtbetay", "dtbetaz", "dtalp"};
  for (int n = 0; n < 20; n++) {
    int v = V(im, N[n]);
    if (v < 0) continue;
    for (int c = 0; c < nc; c++) {
      cGH *g = &G[c];
      EACH(g, i, j, k) {
        double x = org[0] + (g->cctk_lbnd[0] + i) * dx[0], y = org[1] + (g->cctk_lbnd[1] + j) * dx[1], z = org[2] + (g->cctk_lbnd[2] + k) * dx[2];
        double b = (n == 0 || n == 3 || n == 5 || n == 12) ? 1.0 : 0.0;
        g->data[v][CCTK_GFINDEX3D(g, i, j, k)] = b + 0.05 * sin((1 + 0.1 * n) * x + 0.3 * n) * cos((1.3 - 0.02 * n) * y - 0.2 * n) * sin((0.7 + 0.05 * n) * z + 1 + n);
      }
    }
  }
}
static void sim_tmunu(const char *im, const char *adm) { /* matter that follows the metric, as a hydro thorn would set it */
  const char *N[] = {"eTtt", "eTtx", "eTty", "eTtz", "eTxx", "eTxy", "eTxz", "eTyy", "eTyz", "eTzz"};
  const char *A[] = {"alp", "betax", "betay", "betaz", "gxx", "gxy", "gxz", "gyy", "gyz", "gzz"};
  for (int n = 0; n < 10; n++) {
    int v = V(im, N[n]), a = V(adm, A[n]);
    if (v < 0 || a < 0) continue;
    for (int c = 0; c < nc; c++) { cGH *g = &G[c]; EACH(g, i, j, k) { int q = CCTK_GFINDEX3D(g, i, j, k); g->data[v][q] = 0.01 * (n + 1) * g->data[a][q]; } }
  }
}
static struct { double *g; } saved[NVAR + 1];

int main(int ac, char **av) {
  FILE *f = fopen(av[1], "r");
  out = fopen(av[2], "wb");
  if (!f || !out) die("cannot open", av[1]);
  for (int v = 0; v < NVAR; v++) evol_of[v] = -1, fakes[v] = NULL;
  static char line[20000];
  while (fgets(line, sizeof line, f)) {
    char *sv, *op = strtok_r(line, " \n", &sv), *t;
    if (!op) continue;
#define NEXT (t = strtok_r(NULL, " \n", &sv))
    if (!strcmp(op, "grid")) {
      for (int d = 0; d < 3; d++) gsh[d] = atoi(NEXT);
      ng = atoi(NEXT);
      for (int d = 0; d < 3; d++) org[d] = atof(NEXT);
      for (int d = 0; d < 3; d++) dx[d] = atof(NEXT);
      dt = atof(NEXT);
    } else if (!strcmp(op, "decomp")) {
      for (int d = 0; d < 3; d++) { ncut[d] = atoi(NEXT); for (int i = 0; i <= ncut[d]; i++) cut[d][i] = atoi(NEXT); }
    } else if (!strcmp(op, "pad")) { pad[0] = atoi(NEXT); pad[1] = atoi(NEXT);
    } else if (!strcmp(op, "seed")) { rs = strtoull(NEXT, 0, 10);
    } else if (!strcmp(op, "fill")) { NEXT; fillv = !strcmp(t, "nan") ? qnan() : atof(t);
    } else if (!strcmp(op, "failreg")) { failreg = atoi(NEXT); nreg = 0;
    } else if (!strcmp(op, "build")) { build();
    } else if (!strcmp(op, "time")) {
      iter = atoi(NEXT); now = atof(NEXT);
      for (int c = 0; c < nc; c++) G[c].cctk_time = now, G[c].cctk_iteration = iter;
      META.cctk_time = now, META.cctk_iteration = iter;
    } else if (!strcmp(op, "call")) {
      int fi = atoi(NEXT), any = 0;
      cur = FUNCS[fi].name;
      while (NEXT) { FUNCS[fi].f(&G[atoi(t)]); any = 1; }
      if (!any) die("call without component", cur);
      cur = "";
    } else if (!strcmp(op, "once")) { int fi = atoi(NEXT); cur = FUNCS[fi].name; FUNCS[fi].f(&META); cur = "";
    } else if (!strcmp(op, "presync")) { presync = 1;
    } else if (!strcmp(op, "sync")) {
      while (NEXT) {
        int v = atoi(t);
        gather(v);
        scatter(v, 0);
        if (presync && !drv[v].set) SimError("", 0, "synchronising %s::%s: no boundary condition is registered with the driver", VARS[v].impl, VARS[v].name);
        if (presync && !drv[v].none) for (int c = 0; c < nc; c++) flat(&G[c], G[c].data[v], drv[v].width);
      }
    } else if (!strcmp(op, "bc")) { while (NEXT) for (int c = 0; c < nc; c++) flat(&G[c], G[c].data[atoi(t)], ng);
    } else if (!strcmp(op, "applybcs")) {
      for (int i = 0; i < nsel; i++) if (!sel[i].none && !presync) for (int c = 0; c < nc; c++) flat(&G[c], G[c].data[sel[i].var], sel[i].width);
      nsel = 0;
    } else if (!strcmp(op, "spoil")) { int w = atoi(NEXT); NEXT; double val = !strcmp(t, "nan") ? qnan() : atof(t); while (NEXT) spoil(atoi(t), w, val);
    } else if (!strcmp(op, "reg")) { int e = atoi(NEXT); evol_of[e] = atoi(NEXT);
    } else if (!strcmp(op, "save") || !strcmp(op, "stage")) {
      double a = 0, b = 0;
      int last = 0, sv_ = !strcmp(op, "save");
      if (!sv_) { a = atof(NEXT); b = atof(NEXT); last = atoi(NEXT); }
      for (int v = 0; v < NVAR; v++) if (evol_of[v] >= 0) {
        long N = 0, o = 0;
        for (int c = 0; c < nc; c++) N += total(&G[c]);
        if (!ybase[v]) ybase[v] = malloc(N * sizeof(double)), acc[v] = malloc(N * sizeof(double));
        for (int c = 0; c < nc; c++) {
          double *y = G[c].data[v], *r = G[c].data[evol_of[v]];
          long n = total(&G[c]);
          for (long i = 0; i < n; i++)
            if (sv_) ybase[v][o + i] = acc[v][o + i] = y[i];
            else { acc[v][o + i] += b * dt * r[i]; y[i] = last ? acc[v][o + i] : ybase[v][o + i] + a * dt * r[i]; }
          o += n;
        }
      }
    } else if (!strcmp(op, "nevol")) { int n = 0; for (int v = 0; v < NVAR; v++) n += evol_of[v] >= 0; if (!n) { printf("MoL: no evolved variables are registered\n"); fflush(stdout); return 87; }
    } else if (!strcmp(op, "coords")) { sim_coords(NEXT);
    } else if (!strcmp(op, "adm")) { sim_adm(NEXT);
    } else if (!strcmp(op, "tmunu")) { char *a = NEXT; sim_tmunu(a, NEXT);
    } else if (!strcmp(op, "ckpt")) { while (NEXT) { int v = atoi(t); gather(v); long n = (long)gsh[0] * gsh[1] * gsh[2] * sizeof(double); free(saved[v].g); saved[v].g = malloc(n); memcpy(saved[v].g, glob, n); }
    } else if (!strcmp(op, "crash")) { for (int v = 0; v < NVAR; v++) evol_of[v] = -1, drv[v].set = 0; nsel = 0;
    } else if (!strcmp(op, "recover")) { for (int v = 0; v < NVAR; v++) if (saved[v].g) { memcpy(glob, saved[v].g, (long)gsh[0] * gsh[1] * gsh[2] * sizeof(double)); scatter(v, 1); }
    } else if (!strcmp(op, "dump")) {
      while (NEXT) { gather(atoi(t)); fwrite(glob, sizeof(double), (long)gsh[0] * gsh[1] * gsh[2], out); }
    } else die("unknown op", op);
  }
  fclose(f);
  fclose(out);
  printf("DONE nreg=%d\n", nreg);
  return 0;
}

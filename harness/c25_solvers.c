/* C25: iterative linear solvers and Newton */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include <malloc.h>
#include <errno.h>
/* count live blocks exactly, those of the libraries too */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t); extern void __libc_free(void *);
static volatile long live;
void *malloc(size_t n) { void *p = __libc_malloc(n); if(p) live++; return p; }
void *calloc(size_t m, size_t n) { void *p = __libc_calloc(m, n); if(p) live++; return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if(!q && p) live++; if(q && !n) live--; return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if(p) live++; return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); if(p) live++; return p; }
int posix_memalign(void **q, size_t a, size_t n) { void *p = __libc_memalign(a, n); if(!p) return ENOMEM; live++; *q = p; return 0; }
void free(void *p) { if(p) { live--; __libc_free(p); } }
typedef void (*top)(tVarList *, tVarList *, tVarList *, tVarList *);
typedef int (*tsol)(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, top, top);
#define NM 8
static tGrid *G; static int NB, NV, ND[2][3], N;
static tVarList *vx, *vb, *vr, *vc, *vw, *vF;
static double K[NM][NM], Q[NM], C[NM], RHS[NM];
static char tag[300];
static double *at(tVarList *v, int l) { int b = 0, p; while(l >= G->box[b]->nnodes*v->n) l -= G->box[b++]->nnodes*v->n; p = l/v->n; return G->box[b]->v[v->index[l % v->n]]+p; }
static double *gat(tVarList *v, int l) { tGrid *g = v->grid; int b = 0, p; while(l >= g->box[b]->nnodes*v->n) l -= g->box[b++]->nnodes*v->n; p = l/v->n; return g->box[b]->v[v->index[l % v->n]]+p; }
static void lop(tVarList *F, tVarList *x, tVarList *c1, tVarList *c2)
{ double t[NM]; int i, j; (void)c1; (void)c2; for(i = 0; i < N; i++) t[i] = *gat(x, i); for(i = 0; i < N; i++) { double s = 0; for(j = 0; j < N; j++) s += K[i][j]*t[j]; *gat(F, i) = s; } }
static void mkgrid(void)
{
  int b, i; const char *n[] = {"sx", "sb", "sr", "sw", "sF", "sc"}; tVarList **l[] = {&vx, &vb, &vr, &vw, &vF, &vc};
  vg_begin(NB); for(b = 0; b < NB; b++) { vg_box(b, ND[b][0], ND[b][1], ND[b][2], "ChebExtrema", "Fourier", "ChebExtrema"); vg_lim(b, b, b+1, 0, 1, 0, 1); vg_bpar(b, "Coordinates", "Cartesian"); }
  vg_par("GridIterators_verbose", "no"); vg_libs();
  for(i = 0; i < 6; i++) AddVar((char*)n[i], i == 5 || NV == 1 ? "" : "i", "");
  G = vg_make();
  for(i = 0; i < 6; i++) { char s[10]; int c, m = i == 5 ? 1 : NV; sprintf(s, "%s%s", n[i], i == 5 || NV == 1 ? "" : "x"); enablevar(G, Ind(s)); *l[i] = vlalloc(G); for(c = 0; c < m; c++) vlpushone(*l[i], Ind(s)+c); }
  N = 0; forallboxes(G, b) N += G->box[b]->nnodes*NV;
}
static uint64_t enabled(void) { uint64_t h = 5; int b, i; forallboxes(G, b) for(i = 0; i < G->nvariables; i++) { char e = G->box[b]->v[i] != NULL; long q = i; if(e) { h = vh_hash(&q, sizeof q, h); h = vh_hash(&b, sizeof b, h); } } return h; }
/* independent elimination: solves A x = r, 0 if singular */
static int gauss(double (*A)[NM], double *r, double *x)
{
  double m[NM][NM+1]; int i, j, k;
  for(i = 0; i < N; i++) { for(j = 0; j < N; j++) m[i][j] = A[i][j]; m[i][N] = r[i]; }
  for(k = 0; k < N; k++)
  {
    int p = k; for(i = k+1; i < N; i++) if(fabs(m[i][k]) > fabs(m[p][k])) p = i;
    if(!(fabs(m[p][k]) > 1e-12)) return 0;
    for(j = k; j <= N; j++) { double t = m[p][j]; m[p][j] = m[k][j]; m[k][j] = t; }
    for(i = 0; i < N; i++) if(i != k) { double f = m[i][k]/m[k][k]; for(j = k; j <= N; j++) m[i][j] -= f*m[k][j]; }
  }
  for(k = 0; k < N; k++) x[k] = m[k][N]/m[k][k];
  return 1;
}
static double det(void) { double m[NM][NM], d = 1; int i, j, k; for(i = 0; i < N; i++) for(j = 0; j < N; j++) m[i][j] = K[i][j]; for(k = 0; k < N; k++) { int p = k; for(i = k; i < N; i++) if(fabs(m[i][k]) > fabs(m[p][k])) p = i; if(fabs(m[p][k]) < 1e-12) return 0; if(p != k) { d = -d; for(j = 0; j < N; j++) { double t = m[p][j]; m[p][j] = m[k][j]; m[k][j] = t; } } d *= m[k][k]; for(i = k+1; i < N; i++) { double f = m[i][k]/m[k][k]; for(j = k; j < N; j++) m[i][j] -= f*m[k][j]; } } return d; }
static int spd(void)
{ /* symmetric and all leading minors positive */
  int i, j, k, n; for(i = 0; i < N; i++) for(j = 0; j < i; j++) if(K[i][j] != K[j][i]) return 0;
  { double m[NM][NM]; for(i = 0; i < N; i++) for(j = 0; j < N; j++) m[i][j] = K[i][j]; for(k = 0; k < N; k++) { if(!(m[k][k] > 1e-9)) return 0; for(i = k+1; i < N; i++) { double f = m[i][k]/m[k][k]; for(j = k; j < N; j++) m[i][j] -= f*m[k][j]; } } }
  (void)n; return 1;
}
enum { BICG, BICG_JAC, BICG_BLOCK, BICG_BLOCKQR, BICG_UMF, BICG_SOR, WT, SOR, NS };
static struct { const char *n; tsol f; int norm; } W[NS];
static void solvers(void)
{
  static const struct { const char *n; tsol f; int norm; } w[NS] = {{"bicgstab", bicgstab, 0}, {"bicgstab_with_Jacobi_precon", bicgstab_with_Jacobi_precon, 0}, {"bicgstab_with_BlockJacobi_precon", bicgstab_with_BlockJacobi_precon, 0}, {"bicgstab_with_BlockJacobi_precon(SPQR)", bicgstab_with_BlockJacobi_precon, 0}, {"bicgstab_with_fd_UMFPACK_precon", bicgstab_with_fd_UMFPACK_precon, 0}, {"bicgstab_with_SOR_precon", bicgstab_with_SOR_precon, 0}, {"WTsolver", WTsolver, 0}, {"SOR_Iterator", SOR_Iterator, 1}};
  memcpy(W, w, sizeof w);
}
static double norm(int kind, double *scale)
{ int i, j; double s = 0, m = 0; for(i = 0; i < N; i++) { double r = *at(vb, i); m = fmax(m, fabs(r)); for(j = 0; j < N; j++) { r -= K[i][j]**at(vx, j); m = fmax(m, fabs(K[i][j]**at(vx, j))); } s += r*r; } if(scale) *scale = m; return kind ? sqrt(s) : sqrt(s/N); }
static double worstdrift;
static void one(int w, int itmax, double tol, const double *x0, int guaranteed, int regular)
{
  volatile int tr = 0, ret = -777; double nr = -5, true0, tru, sc, sc0, drift; int i; long m0, m1; uint64_t e0, e1;
  for(i = 0; i < N; i++) { *at(vx, i) = x0[i]; *at(vb, i) = RHS[i]; *at(vr, i) = 33; *at(vw, i) = 44+i; }
  *at(vc, 0) = 8;
  true0 = norm(W[w].norm, &sc0); vh_trans++;
  fflush(NULL); e0 = enabled(); m0 = live;
  VH_TRY { ret = W[w].f(vx, vb, vr, vc, vc, itmax, tol, &nr, lop, Preconditioner_I); VH_END; } else tr = 1;
  m1 = live; e1 = enabled();
  for(i = 0; i < N; i++) if(*at(vb, i) != RHS[i] || *at(vw, i) != 44+i) { vh_fail("side-effect", "%s: %s changes the right hand side or another variable", tag, W[w].n); return; }
  if(tr)
  { /* gives up with a message: only where no preconditioner or sweep exists */
    int zd = 0; for(i = 0; i < N; i++) if(!K[i][i]) zd = 1;
    Sets("GridIterators_Preconditioner_type", "fd UMFPACK"); bicgstab(vx, vb, vr, vc, vc, 2, 1e-9, &nr, lop, Preconditioner_I); /* frees what the jump out of the solver left */
    if(((w == SOR || w == BICG_SOR) && zd) || (w == BICG_UMF && !regular)) return;
    vh_fail("aborts", "%s: %s aborts", tag, W[w].n); return;
  }
  tru = norm(W[w].norm, &sc); if(sc0 > sc) sc = sc0; vh_evals++;
  if(ret >= 0 && ret <= itmax)
  {
    drift = fabs(tru-nr)/(sc+1e-300); if(drift > worstdrift && isfinite(drift)) worstdrift = drift;
    if(!(nr <= tol)) vh_fail("success-norm", "%s: %s returns %d but reports the residual %g for tolerance %g", tag, W[w].n, ret, nr, tol);
    else if(!(tru <= tol+1e-11*sc) || !(fabs(tru-nr) <= 1e-11*sc)) vh_fail("success-residual", "%s: %s returns %d and reports the residual %g but it is %g (tolerance %g)", tag, W[w].n, ret, nr, tru, tol);
    if(w == BICG && true0 <= tol*(1-1e-9)) { if(ret) vh_fail("start-exact", "%s: %s returns %d although the start is a solution", tag, W[w].n, ret); else for(i = 0; i < N; i++) if(*at(vx, i) != x0[i]) { vh_fail("start-exact", "%s: %s changes a start that is a solution", tag, W[w].n); break; } }
  }
  else
  {
    if(nr <= tol && tru <= tol) vh_fail("converged-as-failure", "%s: %s returns %d (limit %d) although the residual %g is within the tolerance %g", tag, W[w].n, ret, itmax, tru, tol);
    if(guaranteed) vh_fail("no-convergence", "%s: %s returns %d (limit %d), residual %g", tag, W[w].n, ret, itmax, tru);
    /* the start is replaced by zero while the matrix is set up */
    if(w == WT) { double z = 0; for(i = 0; i < N; i++) z += RHS[i]*RHS[i]; z = sqrt(z/N); if(true0 < z) true0 = z; }
    if(w == WT && !(tru <= true0*(1+1e-9)+1e-12*sc)) vh_fail("residual-grows", "%s: %s: residual %g grows to %g", tag, W[w].n, true0, tru);
  }
  if(e0 != e1) vh_fail("storage-enabled", "%s: %s returns %d and changes which variables have storage", tag, W[w].n, ret);
  else if(m1 > m0)
  { /* the first call may fill a cache: a leak grows with every call */
    int n; long m2 = m1, m3 = m1;
    for(n = 0; n < 4; n++) { if(n == 2) { fflush(NULL); m2 = live; } for(i = 0; i < N; i++) *at(vx, i) = x0[i]; W[w].f(vx, vb, vr, vc, vc, itmax, tol, &nr, lop, Preconditioner_I); }
    fflush(NULL); m3 = live;
    if(m2 > m1 && m3 > m2) vh_fail("storage-leak", "%s: %s returns %d and 2 more calls leave %ld more blocks allocated", tag, W[w].n, ret, (long)(m3-m2));
  }
}
static void warm(void)
{ /* variables and caches that the first call makes */
  int w, i, j, k; double z[NM] = {0}, nr;
  for(i = 0; i < N; i++) { RHS[i] = 1; for(j = 0; j < N; j++) K[i][j] = i == j ? 3 : 1; }
  for(k = 0; k < 2; k++) for(w = 0; w < NS; w++) { Sets("GridIterators_Preconditioner_type", w == BICG_BLOCKQR ? "spectral SPQR" : "fd UMFPACK"); for(i = 0; i < N; i++) { *at(vx, i) = z[i]; *at(vb, i) = 1; } W[w].f(vx, vb, vr, vc, vc, 5, 1e-9, &nr, lop, Preconditioner_I); }
}
static int shape, part, nparts;
static void linear(void *a)
{
  static const int SH[][2][3] = {{{2, 1, 1}}, {{3, 1, 1}}, {{2, 1, 1}, {2, 1, 1}}, {{2, 1, 1}}, {{2, 2, 1}}}; static const int nb[] = {1, 1, 2, 1, 1}, nv[] = {1, 1, 1, 2, 1};
  static const double V2[] = {-2, -1, 0, 1, 3, 0.5}, V3[] = {-1, 0, 2}; static const int IT[] = {0, 1, 2, 400}; static const double TOL[] = {1e-8, 2.5, 0};
  long k, q; int i, j, w, it, r, s, t; (void)a;
  NB = nb[shape]; NV = nv[shape]; memcpy(ND, SH[shape], sizeof ND); solvers(); mkgrid(); warm();
  q = shape == 0 ? 1296 : shape == 1 ? 19683 : 59049;
  for(k = part; k < q; k += nparts)
  {
    double sol[NM]; int reg, sp, dd; long m = k;
    if(shape < 2) for(i = 0; i < N*N; i++) { int b = shape == 0 ? 6 : 3; K[i/N][i%N] = shape == 0 ? V2[m % b] : V3[m % b]; m /= b; }
    else { /* symmetric four dimensional matrices, the last six digits; diagonal from the first four, lower triangle changed for odd numbers */
      static const double D4[] = {2, 3, 1}; for(i = 0; i < 4; i++) { K[i][i] = D4[m % 3]; m /= 3; } for(i = 0; i < 4; i++) for(j = 0; j < i; j++) { K[i][j] = K[j][i] = (m % 3)-1; m /= 3; } if(k % 5 == 1) K[3][0] += 1; }
    if(!vh_thorough && shape >= 1 && vh_hash(&k, sizeof k, 3) % (shape == 1 ? 4 : 16)) { if(shape == 1 || !spd() || vh_hash(&k, sizeof k, 3) % 7) continue; }
    reg = det() != 0; sp = spd(); vh_states++;
    for(dd = 1, i = 0; i < N; i++) { double o = 0; for(j = 0; j < N; j++) if(i != j) o += fabs(K[i][j]); if(!(fabs(K[i][i]) > o)) dd = 0; }
    for(r = 0; r < (shape ? 2 : vh_thorough ? 4 : 3); r++) for(s = 0; s < 3; s++)
    {
      double x0[NM];
      for(i = 0; i < N; i++) RHS[i] = r == 0 ? 1+i : r == 1 ? (i == 0) : r == 2 ? 0 : (i == 1);
      if(s == 2) { if(!reg || !gauss(K, RHS, sol)) continue; } 
      for(i = 0; i < N; i++) x0[i] = s == 0 ? 0 : s == 1 ? 2-3*i : sol[i];
      for(w = 0; w < NS; w++)
      {
        int nvar = w == BICG_BLOCK || w == BICG_BLOCKQR ? 2 : w == SOR ? 2 : 1, v;
        if(!vh_thorough && shape && w >= BICG_JAC && w <= BICG_SOR && ((k+r+s) % 3)) continue;
        for(v = 0; v < nvar; v++)
        {
          Sets("GridIterators_Preconditioner_type", w == BICG_BLOCKQR ? (v ? "spectral SPQR" : "fd SPQR") : v ? "spectral UMFPACK" : "fd UMFPACK");
          Sets("GridIterators_Preconditioner_BlockJacobi_nsb1", v && w != SOR ? "2" : "1");
          Sets("GridIterators_SOR_omega", w == SOR && v ? "1" : "1.5"); Sets("GridIterators_SOR_matrix", (k & 1) ? "SetMatrixLines_forSortedVars_slowly" : "SetMatrixLines_slowly");
          for(it = 0; it < 4; it++) for(t = 0; t < (it == 3 && s < 2 ? 2 : 1); t++)
          {
            int g = it == 3 && sp && w == BICG;
            if(it == 3 && reg && (w == BICG_UMF || ((w == BICG_BLOCK || w == BICG_BLOCKQR) && !v && NB == 1 && NV == 1))) g = 1; /* the preconditioner is the inverse */
            if(it == 3 && dd && w == SOR && v) g = 1;
            if(w == WT && it == 3) { if(s || r > 1) continue; }
            if(it && it < 3 && s == 2) continue;
            if(!vh_thorough && (it == 1 || it == 2) && ((k+w+r) % 3)) continue;
            sprintf(tag, "%d unknowns (%d boxes, %d variables), matrix %ld, right hand side %d, start %d, limit %d, tol %g%s%s", N, NB, NV, k, r, s, IT[it], TOL[t], v ? ", variant " : "", v ? "1" : ""); vh_at("%s %s", W[w].n, tag);
            one(w, w == WT && it == 3 ? 30 : IT[it], TOL[t], x0, g && t == 0, reg);
          }
        }
      }
    }
    if(vh_fails > 100) return;
  }
  if(getenv("VH_VERBOSE")) printf("worst drift %g\n", worstdrift);
}
/* ---- Newton ---- */
/* F_i = sum_j K_ij u_j + Q_i u_i^2 - C_i */
static int nF, nJ, nBefore, nAfter; static const char *ev; static double LIN[NM];
static void FF(tVarList *F, tVarList *u, tVarList *c1, tVarList *c2) { double t[NM]; int i, j; (void)c1; (void)c2; nF++; for(i = 0; i < N; i++) t[i] = *gat(u, i); for(i = 0; i < N; i++) { double s = Q[i]*t[i]*t[i]-C[i]; for(j = 0; j < N; j++) s += K[i][j]*t[j]; *gat(F, i) = s; LIN[i] = 2*Q[i]*t[i]; } }
/* the linearisation about the solution that F was called with last, like the elliptic modules do it: vu holds u */
static tVarList *vu;
static void JJ(tVarList *J, tVarList *du, tVarList *c1, tVarList *c2) { double t[NM]; int i, j; (void)c1; (void)c2; nJ++; for(i = 0; i < N; i++) t[i] = *gat(du, i); for(i = 0; i < N; i++) { double s = 2*Q[i]**at(vu, i)*t[i]; for(j = 0; j < N; j++) s += K[i][j]*t[j]; *gat(J, i) = s; } }
static double fnorm(double *u) { int i, j; double s = 0; for(i = 0; i < N; i++) { double f = Q[i]*u[i]*u[i]-C[i]; for(j = 0; j < N; j++) f += K[i][j]*u[j]; s += f*f; } return sqrt(s/N); }
static void ffun(double *u, double *f) { int i, j; for(i = 0; i < N; i++) { f[i] = Q[i]*u[i]*u[i]-C[i]; for(j = 0; j < N; j++) f[i] += K[i][j]*u[j]; } }
static int script[8], scriptpos, nscript;
/* a linear solver that follows a script: 0 exact, 1 fails, 2 stops at its limit with half the solution, 3 fails after writing rubbish */
static int scripted(tVarList *x, tVarList *b, tVarList *r, tVarList *c1, tVarList *c2, int itmax, double tol, double *nr, top op, top pre)
{
  double A[NM][NM], f[NM], d[NM]; int i, j, s = scriptpos < nscript ? script[scriptpos++] : 0; (void)r; (void)tol; (void)op; (void)pre; (void)c1; (void)c2;
  for(i = 0; i < N; i++) { f[i] = *gat(b, i); for(j = 0; j < N; j++) A[i][j] = K[i][j]; A[i][i] += 2*Q[i]**at(vu, i); }
  *nr = 0;
  if(s == 1) return -1;
  if(s == 3) { for(i = 0; i < N; i++) *gat(x, i) = 1e10; return -5; }
  if(!gauss(A, f, d)) return -3;
  for(i = 0; i < N; i++) *gat(x, i) = s == 2 ? d[i]/2 : d[i];
  return s == 2 ? itmax+1 : 1;
}
static int before(tGrid *g, tNewtonResults in, tNewtonArgPointers out) { (void)g; (void)in; if(!out.linSolver || !*out.linSolver) vh_fail("hook", "%s: the solver is not passed", tag); nBefore++; return 0; }
static int after(tVarList *F, tVarList *u, tVarList *c1, tVarList *c2) { (void)F; (void)c1; (void)c2; if(u != vu) vh_fail("hook", "%s: wrong solution list", tag); nAfter++; return 0; }
extern int (*Newton_do_before_linSolver)(tGrid *, tNewtonResults, tNewtonArgPointers);
extern int (*Newton_do_after_step)(tVarList *, tVarList *, tVarList *, tVarList *);
static int NPROB;
static void problem(int k)
{ /* 24 problems: linear, quadratic with and without roots, coupled */
  int i, j; for(i = 0; i < N; i++) { for(j = 0; j < N; j++) K[i][j] = 0; Q[i] = 0; C[i] = 1+i; }
  for(i = 0; i < N; i++) K[i][i] = 2+i;
  if(k & 1) for(i = 0; i < N; i++) K[i][(i+1) % N] += 1;
  if(k & 2) for(i = 0; i < N; i++) Q[i] = 1;
  if(k & 4) { Q[0] = -1; C[0] = 3; }             /* 2 u - u^2 = 3 has no root when decoupled */
  if(k & 8) { K[0][0] = 0; Q[0] = 1; C[0] = 4; } /* the Jacobian vanishes at u=0 */
  if(k & 16) for(i = 0; i < N; i++) C[i] = 0;    /* the start 0 is a root */
}
/* what Newton has to do with full steps and a scripted solver */
static int model(double *u, int itmax, double tol, double *nr, int quit)
{
  int it, i, j, sp = 0; double f[NM], d[NM], A[NM][NM];
  for(it = 0; it < itmax; it++)
  {
    int s; *nr = fnorm(u); if(*nr <= tol) break;
    s = sp < nscript ? script[sp++] : 0; ffun(u, f);
    for(i = 0; i < N; i++) { for(j = 0; j < N; j++) A[i][j] = K[i][j]; A[i][i] += 2*Q[i]*u[i]; }
    if(s == 1 || s == 3 || !gauss(A, f, d)) { if(quit) it = itmax; continue; }
    for(i = 0; i < N; i++) u[i] -= s == 2 ? d[i]/2 : d[i];
  }
  if(it >= itmax) *nr = fnorm(u);
  return it;
}
static int scr;
static void newton(void *a)
{
  static const double X0[][NM] = {{0, 0, 0, 0}, {1, 2, -1, 0.5}, {-3, 1, 4, 2}, {1, 1, 1, 1}}; static const char *LM[] = {"donothing", "quit", "escapeMin", "AltLinSolver"}; static const char *ST[] = {"full", "backtrack", "backtrack optimal"}; static const double TOL[] = {1e-10, 0.5};
  int k, s, it, t, m, st, i, h, rep; (void)a;
  NB = 1; NV = shape ? 2 : 1; ND[0][0] = 2; ND[0][1] = ND[0][2] = 1; mkgrid(); vu = vx;
  { long q = scr; nscript = vh_thorough ? 5 : 4; for(i = 0; i < nscript; i++) { script[i] = q % 4; q /= 4; } }
  for(k = 0; k < 32; k++) for(s = 0; s < 4; s++) for(st = 0; st < 3; st++) for(m = 0; m < 4; m++) for(t = 0; t < 2; t++) for(it = 0; it <= 7; it++)
  {
    double u0[NM], u[NM], un[NM], wnr = -1, nr = -2, tn; volatile int tr; int ret, want = 0, done; uint64_t e0, e1; long m0, m1;
    if(!vh_thorough && ((it == 2 || it == 4 || it == 6) || (t && it != 7) || (st == 2 && it < 5))) continue;
    if(m == 2 && it != 7) continue;
    problem(k); for(i = 0; i < N; i++) u0[i] = X0[s][i];
    Sets("GridIterators_Newtonstep", (char*)ST[st]); Sets("GridIterators_Newton_atlocalMin", (char*)LM[m]); Sets("GridIterators_Newton_linSolvers", "LAPACK_dgesv_wrapper UMFPACK_solve_wrapper");
    sprintf(tag, "%d unknowns, problem %d, start %d, %s, %s, tol %g, limit %d, solver script %d", N, k, s, ST[st], LM[m], TOL[t], it, scr); vh_at("%s", tag);
    for(rep = 0; rep < 2; rep++)
    {
    for(i = 0; i < N; i++) { *at(vx, i) = u0[i]; *at(vb, i) = 0; *at(vr, i) = 3; *at(vF, i) = 5; *at(vw, i) = 44+i; }
    h = nBefore = nAfter = nF = nJ = 0; scriptpos = 0; Newton_do_before_linSolver = before; Newton_do_after_step = after;
    tr = 0; ret = -777; e0 = enabled(); fflush(NULL); m0 = live;
    VH_TRY { ret = Newton(FF, JJ, vx, vF, vc, vc, it, TOL[t], &nr, 0, scripted, Preconditioner_I, vb, vr, vc, vc, 10, 0.1, 1e-12); VH_END; } else tr = 1;
    m1 = live; e1 = enabled();
    if(tr) break;
    if(rep == 0 && (st || m == 3)) continue; /* the first call may make variables */
    break;
    }
    vh_trans++; vh_evals += 4;
    if(tr) { /* a listed direct solver stops the program for a singular Jacobian */ if(m != 3) vh_fail("newton-aborts", "%s: Newton aborts", tag); continue; }
    for(i = 0; i < N; i++) u[i] = *at(vx, i);
    tn = fnorm(u); done = ret >= 0 && ret < it;
    if(it == 0 && ret != 0) vh_fail("newton-count", "%s: Newton returns %d", tag, ret);
    if(!(fabs(tn-nr) <= 1e-9*(1+tn)) && (isfinite(tn) || isfinite(nr))) vh_fail("newton-norm", "%s: Newton returns %d and reports the residual %g but it is %g", tag, ret, nr, tn);
    if(done && !(tn <= TOL[t]*(1+1e-9))) vh_fail("newton-success", "%s: Newton returns %d with the residual %g", tag, ret, tn);
    if(ret < 0) vh_fail("newton-count", "%s: Newton returns %d", tag, ret);
    for(i = 0; i < N; i++) if(*at(vw, i) != 44+i) { vh_fail("newton-side-effect", "%s: Newton changes another variable", tag); break; }
    if(it && nBefore) for(i = 0; i < N; i++) if(*at(vb, i) != 0) { vh_fail("newton-du", "%s: the correction is not reset at the end", tag); break; }
    if(nBefore != nAfter || (done && nAfter != ret) || (!done && m != 1 && nAfter != it)) vh_fail("newton-hooks", "%s: Newton returns %d after %d calls before and %d calls after a step", tag, ret, nBefore, nAfter);
    if(e0 != e1) vh_fail("newton-storage", "%s: Newton returns %d and changes which variables have storage", tag, ret);
    else if(m1 > m0)
    {
      int n; long m2 = m1, m3 = m1;
      for(n = 0; n < 4; n++) { if(n == 2) { fflush(NULL); m2 = live; } for(i = 0; i < N; i++) { *at(vx, i) = u0[i]; *at(vb, i) = 0; } scriptpos = 0; Newton(FF, JJ, vx, vF, vc, vc, it, TOL[t], &tn, 0, scripted, Preconditioner_I, vb, vr, vc, vc, 10, 0.1, 1e-12); }
      fflush(NULL); m3 = live; nBefore = 0; nAfter = 0;
      if(m2 > m1 && m3 > m2) vh_fail("newton-leak", "%s: Newton returns %d and 2 more calls leave %ld more blocks allocated", tag, ret, (long)(m3-m2));
    }
    if(st == 0 && m < 2)
    {
      for(i = 0; i < N; i++) un[i] = u0[i]; want = model(un, it, TOL[t], &wnr, m == 1); vh_traces++;
      if(m == 1 && want > it) want = it+1;
      { double big = 1, near = 0; for(i = 0; i < N; i++) { big = fmax(big, fabs(un[i])); near = fmax(near, fabs(un[i]-u[i])); }
        if(!isfinite(big) || big > 1e6) continue;
        if(ret != want) vh_fail("newton-steps", "%s: Newton returns %d instead of %d", tag, ret, want);
        else if(!(near <= 1e-6*big)) vh_fail("newton-solution", "%s: the solution differs by %g from that of the Newton iteration", tag, near); }
    }
    (void)h; (void)ev;
    if(vh_fails > 60) return;
  }
}
/* real solvers in Newton and the line search version */
static void combos(void *a)
{
  static const struct { const char *n; tsol f; } L[] = {{"LAPACK_dgesv_wrapper", LAPACK_dgesv_wrapper}, {"UMFPACK_solve_wrapper", UMFPACK_solve_wrapper}, {"SuiteSparseQR_solve_wrapper", SuiteSparseQR_solve_wrapper}, {"bicgstab", bicgstab}, {"bicgstab_with_fd_UMFPACK_precon", bicgstab_with_fd_UMFPACK_precon}, {"bicgstab_with_Jacobi_precon", bicgstab_with_Jacobi_precon}, {"bicgstab_with_BlockJacobi_precon", bicgstab_with_BlockJacobi_precon}, {"bicgstab_with_SOR_precon", bicgstab_with_SOR_precon}};
  static const double X0[][NM] = {{0.5, 0.25, 0.5, 1}, {1, 2, 3, 0.5}, {3, 1, 4, 2}};
  int k, s, w, it, i, st; (void)a;
  NB = shape == 2 ? 2 : 1; NV = shape == 1 ? 2 : 1; ND[0][0] = ND[1][0] = 2; ND[0][1] = ND[0][2] = ND[1][1] = ND[1][2] = 1; solvers(); mkgrid(); vu = vx; warm();
  for(w = 0; w < 8; w++) if(strcmp(L[w].n, "bicgstab_with_BlockJacobi_precon") && get_linSolver_by_name((char*)L[w].n) != L[w].f) vh_fail("solver-name", "get_linSolver_by_name(\"%s\") returns another solver", L[w].n);
  Sets("GridIterators_Preconditioner_type", "spectral UMFPACK"); Sets("GridIterators_SOR_omega", "1");
  for(k = 0; k < 32; k++) for(s = 0; s < 3; s++) for(w = 0; w < 8; w++) for(st = 0; st < 2; st++) for(it = 1; it <= 25; it += 8)
  {
    double u[NM], nr = -3, tn; volatile int tr = 0, ret = -777; int done;
    problem(k); if(!vh_thorough && it == 9) continue;
    Sets("GridIterators_Newtonstep", st ? "backtrack" : "full"); Sets("GridIterators_Newton_atlocalMin", "donothing");
    for(i = 0; i < N; i++) { *at(vx, i) = X0[s][i]; *at(vb, i) = 0; *at(vr, i) = 3; *at(vF, i) = 5; }
    Newton_do_before_linSolver = NULL; Newton_do_after_step = NULL;
    sprintf(tag, "%d unknowns (%d boxes), problem %d, start %d, %s, limit %d, %s", N, NB, k, s, st ? "backtrack" : "full", it, L[w].n); vh_at("%s", tag); vh_trans++; vh_evals++;
    VH_TRY { ret = Newton(FF, JJ, vx, vF, vc, vc, it, 1e-9, &nr, 0, L[w].f, Preconditioner_I, vb, vr, vc, vc, 100, 1e-3, 1e-12); VH_END; } else tr = 1;
    if(tr) { if((k & 12) == 0) vh_fail("combo-aborts", "%s: %s aborts", tag, "Newton"); continue; }
    for(i = 0; i < N; i++) u[i] = *at(vx, i);
    tn = fnorm(u); done = ret < it;
    if(done && !(tn <= 1e-9*(1+1e-6))) vh_fail("combo-success", "%s: %s returns %d with the residual %g", tag, "Newton", ret, tn);
    if(!(fabs(tn-nr) <= 1e-9*(1+tn)) && (isfinite(tn) || isfinite(nr))) vh_fail("combo-norm", "%s: %s returns %d and reports the residual %g but it is %g", tag, "Newton", ret, nr, tn);
    if(it >= 17 && (k & 12) == 0 && !done && w != 3) vh_fail("combo-no-convergence", "%s: %s returns %d with the residual %g", tag, "Newton", ret, tn);
    if(vh_fails > 60) return;
  }
}
int main(int argc, char **argv)
{
  vh_init(argc, argv);
  for(shape = 0; shape < 5; shape++) for(nparts = shape ? 16 : 4, part = 0; part < nparts; part++) if(vh_unit("linear:%d:%d", shape, part)) vh_fork(linear, NULL);
  for(shape = 0; shape < 2; shape++) for(scr = 0; scr < (vh_thorough ? 1024 : 256); scr++)
  {
    if(!vh_thorough && shape && scr % 7) continue;
    if(vh_unit("newton:%d:%d", shape, scr)) vh_fork(newton, NULL);
  }
  for(shape = 0; shape < 3; shape++) if(vh_unit("combos:%d", shape)) vh_fork(combos, NULL);
  return vh_done();
}

/* C36: the Poisson modules.  The residual is the stated equation at every inner
   point and the stated condition at every boundary point, for every pair of
   monomials; the linearised operator is the derivative of the residual, column
   by column (the residual is a polynomial of degree at most 3 in the unknowns,
   so that differences are exact); the solution found with every linear solver
   makes the residual vanish and is the known solution. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#undef exit
#define P4 tVarList *, tVarList *, tVarList *, tVarList *
void F_Poisson(P4), J_Poisson(P4), F_Poisson2(P4), J_Poisson2(P4), F_Poisson3(P4), J_Poisson3(P4);
static FILE *NF(void) { static FILE *f; if(!f) { f = fopen("/tmp/c36.note", "a"); setlinebuf(f); } return f; }
#define P2 "6.28318530717958647692"
static tGrid *g; static int M; static char cfg[300];
static tVarList *U, *F, *A, *L, *J, *LA, *RH;      /* unknowns, residual, derivatives, direction, J, its derivatives, sources (module 1) */
static tVarList *list(const char *fmt, ...)
{ va_list ap; const char *s; char nm[100]; tVarList *v = vlalloc(g); va_start(ap, fmt); for(s = fmt; s; s = va_arg(ap, const char *)) { sprintf(nm, s, M == 1 ? "" : M == 2 ? "2" : "3"); vlpush(v, Ind(nm)); } va_end(ap); enablevarlist(v); return v; }
static const char *mod(void) { return M == 1 ? "Poisson" : M == 2 ? "Poisson2" : "Poisson3"; }
static void lists(void)
{
  U = list("Poisson%s_Psi", "Poisson%s_Chi", NULL);
  if(M == 1) { A = list("Poisson%s_Psix", "Poisson%s_Psixx", "Poisson%s_Chix", "Poisson%s_Chixx", NULL); RH = list("Poisson%s_rh1", "Poisson%s_rh2", NULL); F = AddDuplicateEnable(U, "_c36F"); }
  else { A = list("Poisson%s_Psi", "Poisson%s_Psix", "Poisson%s_Psixx", "Poisson%s_Chi", "Poisson%s_Chix", "Poisson%s_Chixx", "Poisson%s_rh1", "Poisson%s_rh2", NULL); RH = list("Poisson%s_rh1", "Poisson%s_rh2", NULL); F = AddDuplicateEnable(U, "_c36F"); }
  L = AddDuplicateEnable(U, "_c36l"); J = AddDuplicateEnable(U, "_c36J"); LA = AddDuplicateEnable(A, "_c36l");
}
static void evF(tVarList *f, tVarList *u) { vh_evals++; if(M == 1) F_Poisson(f, u, A, RH); else if(M == 2) F_Poisson2(f, u, A, LA); else F_Poisson3(f, u, A, LA); }
static void evJ(void) { vh_evals++; if(M == 1) J_Poisson(J, L, LA, U); else if(M == 2) J_Poisson2(J, L, A, LA); else J_Poisson3(J, L, A, LA); }
static void place(tBox *x, int p, double *v) { int c; for(c = 0; c < 3; c++) v[c] = x->v[Ind("x")] ? x->v[Ind("x")+c][p] : x->v[Ind("X")+c][p]; }
/* grids: kind 0 one Cartesian box, 1/2/3: two boxes side by side in x/y/z, 4: shell, 5: cubed spheres (13/26 boxes), 6: Ansorg, 7: overlapping boxes */
typedef struct { int m, kind, n[3], opt; } tG;
static void mk(const tG *q)
{
  int b, k = q->kind, nb = k == 0 || k == 4 ? 1 : k == 5 ? (q->opt ? 26 : 13) : k == 6 ? 4 : k == 8 ? 6 : 2; const int *n = q->n;
  M = q->m; snprintf(cfg, 299, "%s grid %d n=%d,%d,%d option %d", mod(), q->kind, n[0], n[1], n[2], q->opt);
  vg_begin(nb); vg_par("physics", "%s", mod()); vg_par("GridIterators_verbose", "no"); vg_par("Poisson2_grid", k == 4 ? "SphericalDF" : "none");
  vg_par("Poisson_grid", k == 4 ? "SphericalDF" : k == 6 ? "AnsorgNS" : k == 8 ? "4ABphi_2xyz" : "none"); vg_par("Poisson3_grid", k == 5 ? "CubedSpheres" : "");
  if(k == 5) { vg_par("n1", "%d", n[0]); vg_par("n2", "%d", n[1]); vg_par("n3", "%d", n[2]); }
  for(b = 0; b < nb; b++)
  {
    if(k == 4) { vg_box(b, n[0], n[1], n[2], "ChebExtrema", "Fourier", "Fourier"); vg_bpar(b, "Coordinates", "SphericalDF"); vg_bpar(b, "min1", "1"); vg_bpar(b, "max1", "2"); vg_bpar(b, "min2", "0"); vg_bpar(b, "max2", P2); vg_bpar(b, "min3", "0"); vg_bpar(b, "max3", P2); }
    else if(k == 5) vg_box(b, n[0], n[1], n[2], "ChebExtrema", "ChebExtrema", "ChebExtrema");
    else if(k == 8 && b > 3)
    { int m = n[0] < 6 ? n[0] : 6; vg_box(b, m, m+(b == 5), m, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_bpar(b, "Coordinates", "Cartesian"); if(b == 4) vg_lim(b, -1.3, -0.7, -0.3, 0.3, -0.3, 0.3); else vg_lim(b, 0.7, 1.3, -0.3, 0.3, -0.3, 0.3); }
    else if(k == 6 || k == 8)
    { int o = q->opt; const char *B1 = o & 1 || b == 1 || b == 2 ? "ChebExtrema" : "ChebZeros", *B2 = o & 2 ? "ChebExtrema" : "ChebZeros";
      vg_box(b, n[0], n[1], n[2], B1, B2, "Fourier"); vg_bpar(b, "Coordinates", "AnsorgNS%d", b); vg_bpar(b, "min1", "0"); vg_bpar(b, "max1", k == 8 && (b == 0 || b == 3) ? "0.5" : "1"); vg_bpar(b, "min2", "0"); vg_bpar(b, "max2", "1"); vg_bpar(b, "min3", "0"); vg_bpar(b, "max3", P2); }
    else
    { double lo[3] = {-1, -0.5, 0.25}, hi[3] = {1, 0.75, 1.5}; int d = k == 7 ? 0 : k-1; if(k && (d < 3)) { double mid = 0.3; if(k == 7) { if(b) lo[d] = -0.2; else hi[d] = 0.4; } else if(b) lo[d] = mid; else hi[d] = mid; }
      vg_box(b, n[0]+b, n[1], n[2]+b, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]); vg_bpar(b, "Coordinates", "Cartesian"); }
  }
  if(k == 6 || k == 8) vg_par("Poisson_regularization", q->opt & 8 ? "regularity_on_axis_at_center" : q->opt & 4 ? "regularity_on_axis" : "none"), vg_par("Poisson_guess", "exact");
  vg_libs(); g = vg_make(); vg_coords(g); RunFun(PRE_INITIALDATA, g);
}
/* monomials up to degree 2 (third entry: derivatives needed) */
static const int MON[10][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{2,0,0},{1,1,0},{1,0,1},{0,2,0},{0,1,1},{0,0,2}};
static double mono(int k, const double *x, int d1, int d2)
{ int e[3], c, j; double f = 1; for(c = 0; c < 3; c++) e[c] = MON[k][c]; if(d1 >= 0) { f *= e[d1]; e[d1]--; } if(d2 >= 0) { f *= e[d2] > 0 ? e[d2] : 0; e[d2]--; } if(f == 0) return 0; for(c = 0; c < 3; c++) for(j = 0; j < e[c]; j++) f *= x[c]; return f; }
static double rnd(int b, int p, int s) { uint64_t h = (uint64_t)(b*7919+p)*0x9E3779B97F4A7C15ULL+(uint64_t)s*0xD1B54A32D192ED03ULL; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32; return (double)(h % 2000001)/1000000.0-1; }
static int *mark[64];   /* 1: only outer patches, 2: some patch between boxes */
static void marks(void)
{
  int b, fi, q, p; forallboxes(g, b)
  { tBox *x = g->box[b]; mark[b] = calloc(x->nnodes, sizeof(int));
    if(M == 3) forallbfaces(x, fi) forPointList_inbox(x->bface[fi]->fpts, x, q, p) mark[b][p] |= x->bface[fi]->ob >= 0 ? 2 : x->bface[fi]->outerbound ? 1 : 0; }
}
static double outer(int c, const double *v) { double r = sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); return c ? 1 : erf(r)/(4*PI*r); }
static double *val(tVarList *l, int c, int b) { return g->box[b]->v[l->index[c]]; }
static void residual(void *a)
{
  int k1, k2, b, p, c, s; tG *q = a; double tol = q->kind == 4 ? 2e-8 : 1e-9; mk(q); lists(); marks(); vh_distinct++;
  if(vh_samples < 2) vh_sample("residual of %s for all pairs of monomials", cfg);
  for(k1 = 0; k1 < 10; k1++) for(k2 = 0; k2 < 10; k2++) for(s = 0; s < 2; s++)
  {
    double al = s ? -0.7 : 1, be = s ? 1.3 : 1, ga = s ? 0.4 : 0; int bad = 0; vh_states++; vh_at("%s monomials %d %d", cfg, k1, k2);
    forallboxes(g, b) { tBox *x = g->box[b]; forallpoints(x, p) { double v[3]; place(x, p, v); val(U, 0, b)[p] = al*mono(k1, v, -1, -1)+ga*v[0]; val(U, 1, b)[p] = be*mono(k2, v, -1, -1)+ga; val(RH, 0, b)[p] = rnd(b, p, 1+s); val(RH, 1, b)[p] = rnd(b, p, 3+s); val(F, 0, b)[p] = val(F, 1, b)[p] = 9e9; } }
    evF(F, U);
    forallboxes(g, b) { tBox *x = g->box[b]; forallpoints(x, p) for(c = 0; c < 2 && !bad; c++)
    {
      double v[3], d1[3], d2[3], e2[3], w, chi, r = val(RH, c, b)[p]; int j, i = p % x->n1, edge = q->kind == 4 && (i == 0 || i == x->n1-1); place(x, p, v); chi = be*mono(k2, v, -1, -1)+ga;
      if(mark[b][p] & 2) continue; vh_trans++;
      for(j = 0; j < 3; j++) { d1[j] = al*mono(k1, v, j, -1)+(j == 0)*ga; d2[j] = al*mono(k1, v, j, j); e2[j] = be*mono(k2, v, j, j); }
      if(edge) w = val(U, c, b)[p]-(i ? 0.5 : 1.0)*(c+1);
      else if(mark[b][p]) w = val(U, c, b)[p]-outer(c, v);
      else if(M < 3) w = c ? e2[0]+e2[1]+e2[2]-r : d2[0]+d2[1]+d2[2]-r;
      else w = c ? e2[0]+d1[0]*e2[1]+e2[2]-r : chi*d2[0]+d2[1]+chi*chi*d2[2]-r;
      if(!(fabs(val(F, c, b)[p]-w) <= tol*(10+fabs(w)))) { bad = 1; vh_fail("residual", "%s: residual of equation %d in box %d at point %d (%.4g %.4g %.4g) is %.12g, expected %.12g (Psi: %g times monomial %d %d %d + %g x, Chi: %g times monomial %d %d %d + %g)%s", cfg, c+1, b, p, v[0], v[1], v[2], val(F, c, b)[p], w, al, MON[k1][0], MON[k1][1], MON[k1][2], ga, be, MON[k2][0], MON[k2][1], MON[k2][2], ga, mark[b][p] || edge ? " [boundary]" : ""); }
    } }
    if(bad && vh_fails > 20) return;
  }
}
/* J times every unit vector */
static struct { tG q; int part, parts; } *W;
static void state(int s)
{ int b, p; forallboxes(g, b) { tBox *x = g->box[b]; forallpoints(x, p) { double v[3]; place(x, p, v); val(U, 0, b)[p] = s == 0 ? rnd(b, p, 11) : s == 1 ? 0.3+0.5*v[0]-v[1]*v[2]+v[2]*v[2]*v[0] : s == 2 ? 0 : 0.2*v[1]+rnd(b, p, 12); val(U, 1, b)[p] = s == 0 ? 0.9 : s == 1 ? 1.5-v[2]*v[1]+0.3*v[1]*v[1]*v[1] : s == 2 ? rnd(b, p, 13) : rnd(b, p, 14); val(RH, 0, b)[p] = rnd(b, p, 15); val(RH, 1, b)[p] = rnd(b, p, 16); } } }
static void jac(void *a)
{
  int s, c, b, p, N = 0, col = 0, b2, p2, c2, j; double *E[4], *U0, h; (void)a; mk(&W->q); lists(); vh_distinct++;
  forallboxes(g, b) N += 2*g->box[b]->nnodes;
  for(j = 0; j < 4; j++) E[j] = malloc(N*sizeof(double)); U0 = malloc(N*sizeof(double));
  for(s = 0; s < (M == 3 ? 4 : 1); s++)
  {
    col = 0; state(s); h = 0.5;
    { int i = 0; for(c = 0; c < 2; c++) forallboxes(g, b) forallpoints(g->box[b], p) U0[i++] = val(U, c, b)[p]; }
    for(c = 0; c < 2; c++) forallboxes(g, b) forallpoints(g->box[b], p)
    {
      double sc = 1, bad = 0, w = 0, got = 0, u0; int i, B = 0, P = 0, C = 0;
      if(col++ % W->parts != W->part) continue;
      vh_states++; vh_at("%s column %d %d %d", cfg, c, b, p); u0 = val(U, c, b)[p];
      for(j = 0; j < 4; j++)
      {
        val(U, c, b)[p] = u0+h*(j == 0 ? 1 : j == 1 ? -1 : j == 2 ? 2 : -2);
        forallboxes(g, b2) for(c2 = 0; c2 < 2; c2++) memset(val(F, c2, b2), 0x55, g->box[b2]->nnodes*sizeof(double));
        evF(F, U); for(i = 0, c2 = 0; c2 < 2; c2++) forallboxes(g, b2) forallpoints(g->box[b2], p2) E[j][i++] = val(F, c2, b2)[p2];
      }
      val(U, c, b)[p] = u0; evF(F, U);     /* the derivatives of the state are used by J */
      forallboxes(g, b2) for(c2 = 0; c2 < 2; c2++) { memset(val(L, c2, b2), 0, g->box[b2]->nnodes*sizeof(double)); memset(val(J, c2, b2), 0x55, g->box[b2]->nnodes*sizeof(double)); }
      val(L, c, b)[p] = 1; evJ();
      for(i = 0; i < N; i++) for(j = 0; j < 4; j++) if(fabs(E[j][i]) > sc) sc = fabs(E[j][i]);
      for(i = 0, c2 = 0; c2 < 2; c2++) forallboxes(g, b2) forallpoints(g->box[b2], p2)
      { double D1 = (E[0][i]-E[1][i])/(2*h), D2 = (E[2][i]-E[3][i])/(4*h), D = (4*D1-D2)/3, v = val(J, c2, b2)[p2]; vh_trans++; i++; if(!(fabs(v-D) <= bad)) { bad = fabs(v-D); w = D; got = v; B = b2; P = p2; C = c2; if(!(bad == bad)) bad = 1e300; } }
      if(!(bad <= 1e-10*sc)) vh_fail("linearisation", "%s: changing unknown %d at point %d of box %d: linearised equation %d at point %d of box %d gives %.12g, the residual changes by %.12g (state %d, scale %g)", cfg, c+1, p, b, C+1, P, B, got, w, s, sc);
      { int k = 0; for(c2 = 0; c2 < 2; c2++) forallboxes(g, b2) forallpoints(g->box[b2], p2) { if(val(U, c2, b2)[p2] != U0[k]) { vh_fail("state", "%s: the unknowns were changed by the evaluation", cfg); return; } k++; } }
      if(vh_fails > 30) return;
    }
  }
}
/* boundary rows on Ansorg grids for a function that is smooth everywhere and vanishes at infinity */
static double smooth(const double *v) { double r2 = (v[0]-0.3)*(v[0]-0.3)+(v[1]+0.2)*(v[1]+0.2)+(v[2]-0.1)*(v[2]-0.1)+1; return r2 < 1e20 ? 1/sqrt(r2) : 0; }
static void rows(void *a)
{
  tG *q = a; int b, p, c, f; double mx[6][7]; mk(q); lists(); vh_distinct++; memset(mx, 0, sizeof mx);
  forallboxes(g, b) forallpoints(g->box[b], p) { double v[3]; place(g->box[b], p, v); val(U, 0, b)[p] = smooth(v); if(!(val(U, 0, b)[p] == val(U, 0, b)[p])) val(U, 0, b)[p] = 0; val(U, 1, b)[p] = -2*val(U, 0, b)[p]; val(RH, 0, b)[p] = val(RH, 1, b)[p] = 0; }
  evF(F, U);
  forallboxes(g, b) { tBox *x = g->box[b]; forallpoints(x, p) for(c = 0; c < 2; c++)
  { int i[3] = {p % x->n1, p/x->n1 % x->n2, p/x->n1/x->n2}, n[3] = {x->n1, x->n2, x->n3}, k; for(f = 6, k = 2; k >= 0; k--) if(k < 2 || b > 3) if(i[k] == 0 || i[k] == n[k]-1) f = 2*k+(i[k] > 0); if(!(fabs(val(F, c, b)[p]) <= mx[b][f])) mx[b][f] = fabs(val(F, c, b)[p]); } }
  forallboxes(g, b) for(f = 0; f < 6; f++)
  {
    int o = q->opt, out = b == 0 || b == 3; double tol = b > 3 ? 1e-3 : f == 0 ? (q->kind == 8 && !(out && (o & 1)) ? 2e-2 : 1e-5) : 1e-3;
    if(b < 4 && (f > 3 || ((f == 2 || f == 3) && !(o & 6)) || (f == 1 && out && q->kind == 6 && !((o & 1) && (o & ~1))))) continue;
    vh_evals++; if(!(mx[b][f] < tol)) vh_fail("boundary rows of box %d, face %d (%s): the residual of a smooth function that vanishes at infinity is %g", b, f, cfg, mx[b][f]);
  }
}
/* solution with every linear solver */
typedef struct { const char *s, *pc, *type; } tS;
static const tS SOL[] = { {"UMFPACK", "I", "spectral"}, {"LAPACK", "I", "spectral"}, {"bicgstab", "fd_UMFPACK", "fd"}, {"bicgstab_with_fd_UMFPACK_precon", "I", "fd"} };
static struct { tG q; int s; double f, e[2], an; int rc; } *R;
static void solve1(void *a)
{
  int b, p, c, rc = 1; char nm[100]; double f = 0; const tS *S = &SOL[R->s]; (void)a; R->rc = 1;
  sprintf(nm, "%s_linSolver", R->q.m == 1 ? "Poisson" : R->q.m == 2 ? "Poisson2" : "Poisson3"); vg_par(nm, "%s", S->s); strcat(nm, "_Precon"); vg_par(nm, "%s", S->pc);
  sprintf(nm, "%s_linSolver_itmax", R->q.m == 1 ? "Poisson" : R->q.m == 2 ? "Poisson2" : "Poisson3"); vg_par(nm, "2000");
  sprintf(nm, "%s_linSolver_tolFac", R->q.m == 1 ? "Poisson" : R->q.m == 2 ? "Poisson2" : "Poisson3"); vg_par(nm, "1e-4");
  vg_par("GridIterators_Preconditioner_type", "%s", S->type); vg_par("GridIterators_GMRES_restart", "max"); vg_par("1doutput", ""); vg_par("outdir", ".");
  mk(&R->q); 
  VH_TRY { RunFun(INITIALDATA, g); RunFun(ANALYZE, g); VH_END; rc = 0; } else rc = 1;
  R->rc = rc; if(rc) return;
  lists(); 
  R->e[0] = R->e[1] = R->an = 0;
  forallboxes(g, b) forallpoints(g->box[b], p) for(c = 0; c < 2; c++)
  {
    double v[3], r, w, d, an; const char *en; place(g->box[b], p, v); r = sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); w = M == 3 ? outer(c, v) : (c+1)/r; if(r == 0) w = 1/(2*PI*sqrt(PI)); d = val(U, c, b)[p]-w;
    if(!(fabs(d) <= R->e[c])) R->e[c] = d == d ? fabs(d) : 1e300;
    /* the error reported by the module */
    en = M == 3 ? (c ? "Poisson3_Err_Chi" : "Poisson3_Err_Psi") : c ? "Poisson2_Chi_Err" : "Poisson2_Psi_Err";
    if(M > 1 && r > 0) { an = g->box[b]->v[Ind((char*)en)] ? fabs(g->box[b]->v[Ind((char*)en)][p]-d) : 1e300; if(!(an <= R->an)) R->an = an; }
  }
  evF(F, U); forallboxes(g, b) forallpoints(g->box[b], p) for(c = 0; c < 2; c++) if(!(fabs(val(F, c, b)[p]) <= f)) f = fabs(val(F, c, b)[p]);
  R->f = f;
}
static void solve(tG q, int s)
{
  double tf = 1e-4, te;
  R->q = q; R->s = s; vh_fork(solve1, NULL); vh_states++; vh_distinct++; vh_traces++;
  M = q.m; snprintf(cfg, 299, "%s grid %d n=%d,%d,%d solver %s", mod(), q.kind, q.n[0], q.n[1], q.n[2], SOL[s].s);
  if(getenv("VH_NOTE")) fprintf(NF(), "%s: rc %d F %g errors %g %g analyze %g\n", cfg, R->rc, R->f, R->e[0], R->e[1], R->an);
  if(R->rc) { vh_fail("solve", "%s: the program ended", cfg); return; }
  if(!(R->f <= tf)) vh_fail("solve", "%s: the residual of the solution is %g", cfg, R->f);
  te = q.kind == 4 ? (q.n[0] == 6 ? 2e-4 : q.n[0] == 7 ? 3e-5 : 6e-6) : q.kind == 5 ? 5e-3 : 4e-4;
  if(!(R->e[0] <= te)) vh_fail("solution", "%s: the solution differs from the exact one by %g (Psi)", cfg, R->e[0]);
  if(!(R->e[1] <= (q.m == 3 ? 1e-5 : te))) vh_fail("solution", "%s: the solution differs from the exact one by %g (Chi)", cfg, R->e[1]);
  if(!(R->an <= 1e-12)) vh_fail("analyze", "%s: the error computed by the module differs by %g from the difference to the exact solution", cfg, R->an);
}
int main(int argc, char **argv)
{
  int i, m, k, o, s, part; char *env[1] = {NULL}; (void)env; vh_init(argc, argv);
  W = mmap(NULL, sizeof(*W), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); R = mmap(NULL, sizeof(*R), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  for(m = 1; m <= 3; m++) for(k = 0; k < 8; k++) for(o = 3; o <= (vh_thorough ? 7 : 5); o++)
  {
    tG q = {m, k, {o, o+(k == 4 ? 5 : 0), o+1+(k == 4 ? 4 : 0)}, 0}; if(k == 5 || k == 6 || (m < 3 && k > 0 && k != 4) || (m == 3 && k == 4)) continue;
    if(k == 4) q.n[1] = 8+2*(o%2), q.n[2] = 7+o;
    if(vh_unit("residual:%d/%d/%d", m, k, o)) vh_fork(residual, &q);
  }
  { static const tG JG[] = { {1,0,{3,4,3},0}, {1,4,{3,6,5},0}, {1,4,{4,8,7},0}, {2,0,{3,3,4},0}, {2,4,{3,6,5},0}, {2,4,{4,8,6},0}, {3,0,{3,3,3},0}, {3,0,{4,3,5},0}, {3,1,{4,3,4},0}, {3,2,{3,4,3},0}, {3,3,{3,3,4},0}, {3,7,{4,3,3},0}, {1,6,{3,4,4},0}, {1,6,{4,4,4},1}, {1,6,{4,4,4},2}, {1,6,{4,4,4},3}, {1,6,{4,4,4},4}, {1,6,{4,4,4},5}, {1,6,{4,4,4},8}, {1,6,{4,4,4},9}, {1,6,{4,4,4},12}, {3,5,{3,3,3},0}, {3,5,{4,4,4},0}, {1,8,{3,4,4},3}, {1,8,{4,3,4},0}, {1,8,{4,4,2},5}, {1,8,{4,4,4},7} };
    for(i = 0; i < (int)(sizeof(JG)/sizeof(JG[0])); i++) for(part = 0; part < 8; part++) { if(i == 22 && !vh_thorough) continue; if(vh_unit("jacobian:%d/%d", i, part)) { W->q = JG[i]; W->part = part; W->parts = 8; vh_fork(jac, NULL); } } }
  for(k = 6, o = 18; k <= 8; k += 2) for(i = 0; i < 12; i++) { tG q = {1, k, {o, o, 8}, i}; if(vh_unit("rows:%d/%d/%d", k, i, o)) vh_fork(rows, &q); }
  for(m = 1; m <= 3; m++) for(s = 0; s < (int)(sizeof(SOL)/sizeof(SOL[0])); s++) for(k = 0; k < 8; k++) for(o = 0; o < (vh_thorough ? 6 : 3); o++)
  { tG q = {m, m < 3 ? 4 : k, {6+o%3, 8+2*(o/3), 5+2*(o%2)}, 0}; if((m < 3 && k) || k == 4 || k == 6) continue;
    if(m == 3) q.n[0] = 5+o%2, q.n[1] = 4+o%3, q.n[2] = 5+o/2%2; if(k == 5) { if(o || s) continue; q.n[0] = q.n[1] = q.n[2] = 4; }
    if(vh_unit("solve:%d/%d/%d/%d", m, s, k, o)) solve(q, s); }
  return vh_done();
}

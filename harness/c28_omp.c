/* C28: parallel loops under a controlled OpenMP runtime */
#define _GNU_SOURCE 1
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#undef exit
#include "vh_omp.h"
#include "vh_sys.h"
#include "vh_spec.h"
void __real_exit(int);
static char tag[300];
/* ---- results of one execution, in shared memory ---- */
#define NRES 6000000
typedef struct { long n, napprox; int bad; double exact[NRES], approx[1000], scale[1000]; } tRes;
static tRes *ref, *res;
static void put(double x) { if(res->n < NRES) res->exact[res->n++] = x; else res->bad = 1; }
static void about(double x, double sc) { if(res->napprox < 1000) { res->approx[res->napprox] = x; res->scale[res->napprox++] = sc; } else res->bad = 1; }
static void putgrid(tGrid *g)
{ int b, v, p; forallboxes(g, b) for(v = 0; v < g->nvariables; v++) if(g->box[b]->v[v]) forallpoints(g->box[b], p) put(g->box[b]->v[v][p]); }
static int cmpent(const void *a, const void *b) { const double *x = a, *y = b; return x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : x[1] < y[1] ? -1 : x[1] > y[1]; }
static void putmat(tSparseVector **A, int n)
{
  int i, j; put(n);
  for(i = 0; i < n; i++)
  {
    double *e = malloc(16*(A[i]->entries+1)); put(A[i]->entries);
    for(j = 0; j < A[i]->entries; j++) { e[2*j] = A[i]->pos[j]; e[2*j+1] = A[i]->val[j]; }
    qsort(e, A[i]->entries, 16, cmpent); for(j = 0; j < 2*A[i]->entries; j++) put(e[j]);
    free(e);
  }
}
/* ---- running a scenario ---- */
typedef void (*fscen)(void *);
static fscen scen; static void *scenarg;
static int failed; static int isfile;
static void child(void)
{
  pid_t p; int st;
  res->n = res->napprox = 0; res->bad = 0; vo->nchoice = 0; vo->overflow = vo->deadlock = 0; vo->regions = vo->accesses = vo->races = vo->syncs = vo->checked = 0; vo->race[0] = vo->rsig[0] = 0;
  fflush(NULL); p = fork();
  if(p == 0) { alarm(120); vo_budget_left = vo->budget; vo_on = 1; scen(scenarg); vo_on = 0; fflush(vh_out); _exit(0); }
  waitpid(p, &st, 0);
  vh_trans++; 
  if(WIFSIGNALED(st)) { res->bad = 1000+WTERMSIG(st); } else if(WEXITSTATUS(st)) res->bad = 2000+WEXITSTATUS(st);
}
static const char *PN[] = {"one thread after the other", "one thread after the other, last first", "switching at every access", "one preemption", "chosen order of synchronisations"};
static int judge(void)
{
  long i; char how[200];
  sprintf(how, "%d threads, %s", vo->T, PN[vo->policy]);
  if(vo->policy == VO_PREEMPT) sprintf(how+strlen(how), " of thread %d at its access %ld", vo->first, vo->at);
  if(vo->policy == VO_CHOICES) { strcat(how, ":"); for(i = 0; i < vo->nchoice && i < 25; i++) sprintf(how+strlen(how), "%d", vo->choice[i]); }
  vh_evals += vo->checked; 
  if(vo->deadlock) { vh_fail("deadlock", "%s: %s: deadlock", tag, how); return 0; }
  if(vo->races) { vh_fail(vo->rsig, "%s: %s: %s; %ld unordered accesses", tag, how, vo->race, vo->races); return 0; }
  if(res->bad) { vh_fail("crash", "%s: %s: ends with %s %d", tag, how, res->bad > 2000 ? "exit status" : "signal", res->bad % 1000); return 0; }
  if(res->n != ref->n || res->napprox != ref->napprox) { vh_fail("result", "%s: %s: %ld results instead of %ld", tag, how, res->n, ref->n); return 0; }
  for(i = 0; i < res->n; i++) if(memcmp(&res->exact[i], &ref->exact[i], 8) && !(isnan(res->exact[i]) && isnan(ref->exact[i])))
  { vh_fail("result", "%s: %s: number %ld of the results is %.17g, with one thread it is %.17g", tag, how, i, res->exact[i], ref->exact[i]); return 0; }
  for(i = 0; i < res->napprox; i++) if(!(fabs(res->approx[i]-ref->approx[i]) <= 1e-13*ref->scale[i]) && !(isnan(res->approx[i]) && isnan(ref->approx[i])))
  { vh_fail("result", "%s: %s: result %.17g, with one thread %.17g", tag, how, res->approx[i], ref->approx[i]); return 0; }
  return 1;
}
/* T1 runs once as the reference, then the schedules */
static void explore(fscen f, void *arg, int maxT, int budget, int preempt, const char *fmt, ...)
{
  va_list ap; int T, p; long n; tRes *t;
  va_start(ap, fmt); vsnprintf(tag, 299, fmt, ap); va_end(ap);
  scen = f; scenarg = arg; vh_at("%s", tag); vh_distinct++;
  res = ref; vo->T = 1; vo->policy = VO_ASC; child();
  if(ref->bad) { vh_fail("crash", "%s: one thread: ends with %s %d", tag, ref->bad > 2000 ? "exit status" : "signal", ref->bad % 1000); return; }
  if(ref->n + ref->napprox == 0) { vh_fail("vacuous", "%s: no results", tag); return; }
  t = ref; res = ref+1;
  for(T = 2; T <= maxT; T = T < 4 ? T+1 : T*2-1)
  {
    if(T > VO_MAXT) T = VO_MAXT;
    vo->T = T; memset(vo->rsync, 0, sizeof vo->rsync);
    for(p = VO_ASC; p <= VO_RR; p++)
    {
      vo->policy = p; vh_at("%s T=%d policy %d", tag, T, p); child(); vh_states++;
      if(!judge()) return;
      if(!vo->regions) { vh_fail("vacuous", "%s: no parallel region", tag); return; }
    }
    /* all orders of the synchronisations, within the bound of preemptions */
    if(T <= 3)
    {
      long cnt = 0; int k;
      vo->policy = VO_CHOICES; vo->budget = T == 2 ? budget : budget > 1 ? 1 : budget; vo->npre = 0;
      for(;;)
      {
        if(cnt >= (vh_thorough ? 20000 : 600))
        { /* too many: fewer preemptions */
          if(vo->budget > 0) { vo->budget--; vo->npre = 0; cnt = 0; fprintf(vh_out, "@STAT reduced_preemption_bounds 1\n"); continue; }
          fprintf(vh_out, "@STAT capped_enumerations 1\n"); break;
        }
        vh_at("%s T=%d schedule %ld", tag, T, cnt); child(); vh_states++; cnt++;
        if(!judge()) return;
        for(k = vo->nchoice-1; k >= 0 && vo->choice[k]+1 >= vo->nopt[k]; k--) ;
        if(k < 0) break;
        vo->choice[k]++; vo->npre = k+1;
      }
    }
    /* every single preemption */
    if(T == 2 && preempt) for(vo->first = 0; vo->first < 2; vo->first++) for(n = 1; ; n++)
    {
      vo->policy = VO_PREEMPT; vo->at = n; vh_at("%s preempt %d at %ld", tag, vo->first, n); child(); vh_states++;
      if(!judge()) return;
      if(n*2 > vo->accesses || n >= preempt) break;
    }
  }
  (void)t;
  vh_sample("%s: %ld accesses, %ld synchronisations, up to %d threads", tag, vo->checked, vo->syncs, maxT);
}
static double data(int v, int p) { return sin(0.7*p + 1.3*v*v + 0.1) + 0.3*cos(2.1*p*(v+1)); }
static void fill(tGrid *g, const char *first, int n, int off)
{ int b, v, p, i0 = Ind((char*)first); forallboxes(g, b) for(v = 0; v < n; v++) if(g->box[b]->v[i0+v]) forallpoints(g->box[b], p) g->box[b]->v[i0+v][p] = data(v+off+5*b, p); }
/* ---- variable lists ---- */
static tGrid *G; static tBox *B; static int op;
static tVarList *L[3];
static void s_varlist(void *a)
{
  (void)a;
  switch(op)
  {
    case 0: vlsetconstant(L[0], 2.5); break;
    case 1: vlcopy(L[0], L[1]); break;
    case 2: vlswap(L[0], L[1]); break;
    case 3: vlaverage(L[0], L[1], L[2]); break;
    case 4: vlsubtract(L[0], L[1], L[2]); break;
    case 5: vladd(L[0], 0, NULL, 0, NULL); break;
    case 6: vladd(L[0], 0, NULL, 3, L[2]); break;
    case 7: vladd(L[0], 2, L[1], 0, NULL); break;
    case 8: vladd(L[0], 2, L[1], 3, L[2]); break;
    case 9: vladdto(L[0], 1, L[1]); break;
    case 10: vladdto(L[0], -1, L[1]); break;
    case 11: vladdto(L[0], 0.5, L[1]); break;
    case 12: vlsubtract(L[0], L[0], L[2]); break;
    case 13: vladd(L[0], 2, L[0], 3, L[1]); break;
    case 14: vlaverage(L[0], L[0], L[1]); break;
    case 15: vladd(L[0], 2, L[1], 3, L[0]); break;
  }
  putgrid(G); put(L[0]->time); put(L[1]->time);
}
static void u_varlist(void *a)
{
  int b, i; static const char *N[3] = {"uA", "uB", "uC"}; int n = *(int*)a;
  vg_begin(2); for(b = 0; b < 2; b++) { vg_box(b, n == 1 ? 5-b : 3, 1+n+b, 2, "ChebExtrema", "Fourier", "ChebZeros"); vg_lim(b, 0, 1, 0, 1, 0, 1); }
  vg_libs();
  for(i = 0; i < 3; i++) AddVar((char*)N[i], "i", "");
  G = vg_make();
  for(i = 0; i < 3; i++) { char s[10]; sprintf(s, "%sx", N[i]); enablevar(G, Ind(s)); fill(G, s, 3, 7*i); L[i] = vlalloc(G); vlpush(L[i], Ind(s)); L[i]->time = 1.5*i+1; }
  for(op = 0; op < 16; op++) explore(s_varlist, NULL, 40, 1, 40, "variable list operation %d, %d points", op, G->box[0]->nnodes);
}
/* ---- spectral transforms and derivatives ---- */
static int N3[3], BA[3], TT[3], dir;
static tGrid *sbox(void)
{
  int d; char s[60]; static const char *V[] = {"su", "sv", "sd1", "sd2", "sd3", "s11", "s12", "s13", "s22", "s23", "s33"}; tGrid *g; unsigned q;
  vg_begin(1); vg_box(0, N3[0], N3[1], N3[2], VS_BAS[BA[0]], VS_BAS[BA[1]], VS_BAS[BA[2]]);
  vg_lim(0, -1.25, 0.75, 0.5, 3, 0, 6.5); vg_bpar(0, "Coordinates", "Cartesian");
  for(d = 0; d < 3; d++) { sprintf(s, "TransformType%d", d+1); vg_bpar(0, s, "%s", VS_TT[TT[d]]); }
  vg_libs(); for(q = 0; q < 11; q++) AddVar((char*)V[q], "", "");
  g = vg_make(); for(q = 0; q < 11; q++) enablevar(g, Ind((char*)V[q]));
  fill(g, "su", 1, 3); return g;
}
#define V_(s) (B->v[Ind(s)])
static void s_spec(void *a)
{
  (void)a;
  switch(op)
  {
    case 0: spec_analysis1(B, dir, V_("su"), V_("sv")); break;
    case 1: spec_synthesis1(B, dir, V_("sv"), V_("su")); break;
    case 2: spec_Deriv1(B, dir, V_("su"), V_("sv")); break;
    case 3: spec_Deriv2(B, dir, V_("su"), V_("sv")); break;
    case 4: spec_allDerivs(B, V_("su"), V_("sd1"), V_("sd2"), V_("sd3"), V_("s11"), V_("s12"), V_("s13"), V_("s22"), V_("s23"), V_("s33")); break;
    case 5: spec_Coeffs(B, V_("su"), V_("sv")); break;
    case 6: spec_Eval(B, V_("sv"), V_("su")); break;
    case 7: { double X, m = 0; int p; forallpoints(B, p) m += fabs(V_("su")[p]); for(X = 0.05; X < 1; X += 0.3) about(spec_interpolate(B, V_("su"), -1.25+2*X, 0.5+2.5*X, 6.5*X), m); } break;
  }
  putgrid(G);
}
static void u_spec(void *a)
{
  int o, has = BA[0] < F1 && BA[1] < F1 && BA[2] < F1, mx; (void)a;
  G = sbox(); B = G->box[0]; mx = N3[0]*N3[1]*N3[2] > 60 ? 8 : 30;
  for(o = 0; o < 8; o++) for(dir = 1; dir <= (o < 4 ? 3 : 1); dir++)
  {
    if(o >= 5 && !has) continue;
    if(o < 2 && BA[dir-1] >= F1) continue;
    op = o; explore(s_spec, NULL, mx, 1, 6, "spectral operation %d direction %d, %d,%d,%d points, %s %s %s, transformations %s %s %s", o, dir, N3[0], N3[1], N3[2], VS_BAS[BA[0]], VS_BAS[BA[1]], VS_BAS[BA[2]], VS_TT[TT[0]], VS_TT[TT[1]], VS_TT[TT[2]]);
  }
}
/* ---- Cartesian derivatives ---- */
static int stored;
static void s_cart(void *a)
{
  (void)a;
  if(op == 0) cart_partials(B, V_("su"), V_("sd1"), V_("sd2"), V_("sd3"));
  else if(op == 1) cart_partial_all(B, V_("su"), V_("sd1"), V_("sd2"), V_("sd3"), V_("s11"), V_("s12"), V_("s13"), V_("s22"), V_("s23"), V_("s33"));
  else { reset_doubleCoveredPoints(L[0]); }
  putgrid(G);
}
static void u_cart(void *a)
{
  const tSys *S = &SYS[sys]; unsigned q; static const char *V[] = {"su", "sd1", "sd2", "sd3", "s11", "s12", "s13", "s22", "s23", "s33"}; (void)a;
  vg_begin(1); vg_box(0, nn[0], nn[1], nn[2], S->bas[0], S->bas[1], S->bas[2]);
  vg_lim(0, S->lim[0][0], S->lim[0][1], S->lim[1][0], S->lim[1][1], S->lim[2][0], S->lim[2][1]);
  vg_bpar(0, "Coordinates", "%s", S->name); if(S->par) vg_par(S->par, "%s", S->val);
  vg_par("Coordinates_AnsorgNS_version", "%s", VER[ver]); vg_par("Coordinates_newtMAXITS", "100");
  vg_par("CoordinateTransforms_stored", "%s", stored ? "yes" : "no");
  vg_libs(); for(q = 0; q < 10; q++) AddVar((char*)V[q], "", "");
  AddVar("temp1", "", ""); AddVar("temp2", "", ""); AddVar("temp3", "", "");
  G = vg_make(); vg_coords(G); for(q = 0; q < 10; q++) enablevar(G, Ind((char*)V[q]));
  enablevar(G, Ind("temp1")); enablevar(G, Ind("temp2")); enablevar(G, Ind("temp3"));
  fill(G, "su", 1, 3); B = G->box[0]; L[0] = vlalloc(G); vlpush(L[0], Ind("su"));
  for(op = 0; op < 3; op++)
  {
    if(op == 1 && B->x_of_X[1] && !B->ddX_dxdx[1][1][1]) continue;
    if(op == 2) continue;
    explore(s_cart, NULL, 8, 1, 0, "%s %s %s%s n=%d,%d,%d: %s", S->name, strstr(S->name, "Ansorg") ? VER[ver] : "", S->par ? S->val : "", stored ? "" : " not stored", nn[0], nn[1], nn[2], op == 0 ? "cart_partials" : op == 1 ? "cart_partial_all" : "reset_doubleCoveredPoints");
  }
}
/* ---- matrices ---- */
static int nv, nbx;
static void lop(tVarList *Fx, tVarList *x, tVarList *c1, tVarList *c2)
{ /* couples all points along the lines, all variables and neighbouring boxes */
  tGrid *g = x->grid; int b, j, p;
  forallboxes(g, b)
  {
    tBox *box = g->box[b];
    for(j = 0; j < x->n; j++)
    {
      double *f = box->v[Fx->index[j]], *u = box->v[x->index[j]], *w = box->v[x->index[(j+1) % x->n]], *c = box->v[c1->index[0]];
      spec_Deriv2(box, 1, u, f);
      forallpoints(box, p) f[p] += (10+p+3*j)*u[p] + 0.25*(x->n > 1)*w[p] + (j+1)*c[p]*u[p];
      if(g->nboxes > 1) { tBox *o = g->box[(b+1) % g->nboxes]; f[0] += 0.5*o->v[x->index[j]][0]; }
    }
  }
  (void)c2;
}
static tVarList *vx, *vf, *vb, *vc;
static void m_grid(int pre)
{
  int b;
  vg_begin(nbx); for(b = 0; b < nbx; b++) { vg_box(b, nn[0], nn[1], nn[2], "ChebExtrema", "Fourier", "ChebExtrema"); vg_lim(b, 0, 1, 0, 1, 0, 1); vg_bpar(b, "Coordinates", "Cartesian"); }
  vg_par("LinAlg_setABStozero_below", "1e-14"); vg_par("GridIterators_verbose", "no"); vg_par("GridIterators_setABStozero_below", "1e-14");
  if(pre >= 0)
  {
    vg_par("GridIterators_Preconditioner_type", "%s", (pre & 1) ? "SPQR" : (pre & 2) ? "fd" : "");
    vg_par("GridIterators_Preconditioner_BlockJacobi_nsb1", "%d", (pre & 4) ? 2 : 1);
    vg_par("GridIterators_Preconditioner_BlockJacobi_nsb2", "1"); vg_par("GridIterators_Preconditioner_BlockJacobi_nsb3", "%d", (pre & 8) ? 2 : 1);
  }
  vg_libs();
  AddVar("mx", nv == 1 ? "" : "i", ""); AddVar("mf", nv == 1 ? "" : "i", ""); AddVar("mb", nv == 1 ? "" : "i", ""); AddVar("mc", "", "");
  G = vg_make(); vg_coords(G);
  { char s[4][8]; int i; const char *n[4] = {"mx", "mf", "mb", "mc"}; tVarList **l[4] = {&vx, &vf, &vb, &vc};
    for(i = 0; i < 4; i++) { sprintf(s[i], "%s%s", n[i], nv > 1 && i < 3 ? "x" : ""); enablevar(G, Ind(s[i])); fill(G, s[i], i < 3 ? nv : 1, 3*i); *l[i] = vlalloc(G); vlpush(*l[i], Ind(s[i])); } }
}
static void s_matrix(void *a)
{
  int b, n = 0, i; tSparseVector **A; double *x, *f; (void)a;
  forallboxes(G, b) n += G->box[b]->nnodes*vx->n;
  A = AllocateSparseVectorArray(n);
  switch(op)
  {
    case 0: SetMatrixLines_slowly(A, lop, vf, vx, vc, vc, 0); break;
    case 1: SetMatrixColumns_slowly(A, lop, vf, vx, vc, vc, 0); break;
    case 2: SetMatrixLines_forSortedVars_slowly(A, lop, vf, vx, vc, vc, 0); break;
    case 3: SetMatrixColumns_forSortedVars_slowly(A, lop, vf, vx, vc, vc, 0); break;
    case 4: SetMatrixColumns_ForOneVarInOneBox_slowly(A, vx->n-1, nbx-1, lop, vf, vx, vc, vc, 0); break;
    case 5: SetMatrixColumns_ForOneVarInOneSubBox_slowly(A, vx->n-1, nbx-1, 0,0,0, 2,1,1, lop, vf, vx, vc, vc, 0); break;
  }
  putmat(A, n); putgrid(G);
  x = calloc(n, 8); f = calloc(n, 8);
  (void)i; (void)f; (void)x; FreeSparseVectorArray(A, n);
}
static tSparseVector **MA; static int MN;
static void s_product(void *a)
{
  double *x = calloc(MN, 8), *f = calloc(MN, 8), *s = calloc(MN, 8); int i, j; (void)a;
  for(i = 0; i < MN; i++) x[i] = data(1, i);
  if(op == 0) SparseMatrixLines_times_vector(MA, MN, x, f);
  if(op == 1) vector_times_SparseMatrixLines(x, MA, MN, f);
  if(op == 2) SparseMatrixLinesTranspose_times_vector(MA, MN, x, f);
  for(i = 0; i < MN; i++) for(j = 0; j < MA[i]->entries; j++) s[op ? MA[i]->pos[j] : i] += fabs(MA[i]->val[j]);
  for(i = 0; i < MN; i++) { put(x[i]); about(f[i], 3*s[i]); }
  putmat(MA, MN);
}
static void u_matrix(void *a)
{
  int pc = nn[0]*nn[1]*nn[2]*nbx*nv; (void)a;
  m_grid(-1);
  for(op = 0; op < 6; op++) explore(s_matrix, NULL, op < 4 && pc < 20 ? 5 : 3, pc > 10 ? 1 : 2, 0, "matrix routine %d, %d boxes n=%d,%d,%d, %d variables", op, nbx, nn[0], nn[1], nn[2], nv);
  { int b, n = 0; forallboxes(G, b) n += G->box[b]->nnodes*vx->n; MN = n; MA = AllocateSparseVectorArray(n); SetMatrixLines_slowly(MA, lop, vf, vx, vc, vc, 0); }
  for(op = 0; op < 3; op++) explore(s_product, NULL, MN < 40 ? MN : 40, 1, 10, "matrix product %d, %d lines", op, MN);
}
static int slv;
typedef int (*tsol)(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
static struct { const char *n; tsol f; } SOL[] = {{"bicgstab_with_BlockJacobi_precon", bicgstab_with_BlockJacobi_precon}, {"bicgstab_with_Jacobi_precon", bicgstab_with_Jacobi_precon}, {"bicgstab", bicgstab}};
static void s_solve(void *a)
{
  double nr = 0; int r, b, j, p; double *e; (void)a;
  vlsetconstant(vx, 0);
  r = SOL[slv].f(vx, vb, vf, vc, vc, 40, 1e-9, &nr, lop, Preconditioner_I);
  put(r < 0); (void)e;
  forallboxes(G, b) for(j = 0; j < vx->n; j++) forallpoints(G->box[b], p) about(1e-5*G->box[b]->v[vx->index[j]][p], 1);
}
static void u_solve(void *a)
{
  m_grid(*(int*)a);
  explore(s_solve, NULL, 3, 0, 0, "%s, %d boxes n=%d,%d,%d, %d variables, preconditioner setting %d", SOL[slv].n, nbx, nn[0], nn[1], nn[2], nv, *(int*)a);
}
/* ---- filter on spheres ---- */
static void s_ylm(void *a) { (void)a; Naive_YlmFilter_lmshift(L[0], -op); putgrid(G); }
static void u_ylm(void *a)
{
  (void)a;
  vg_begin(1); vg_box(0, 2, nn[1], nn[2], "ChebExtrema", "Fourier", "Fourier"); vg_lim(0, 1, 2, 0, P2, 0, P2); vg_bpar(0, "Coordinates", "SphericalDF");
  vg_libs(); AddVar("su", "", ""); AddVar("temp1", "", ""); AddVar("temp2", "", ""); AddVar("temp3", "", ""); G = vg_make(); vg_coords(G);
  enablevar(G, Ind("su")); enablevar(G, Ind("temp1")); enablevar(G, Ind("temp2")); enablevar(G, Ind("temp3")); fill(G, "su", 1, 2); B = G->box[0]; L[0] = vlalloc(G); vlpush(L[0], Ind("su"));
  for(op = 0; op < 2; op++) explore(s_ylm, NULL, 8, 1, 0, "Naive_YlmFilter_lmshift(%d) n=2,%d,%d", -op, nn[1], nn[2]);
}
/* ---- whole runs of the program: all output files ---- */
static char progpar[3000], S[500];
static void eatdir(const char *d)
{
  DIR *p = opendir(d); struct dirent *e; char f[1500]; uint64_t sum = 0; long cnt = 0; struct stat st;
  if(!p) return;
  while((e = readdir(p)))
  {
    int fd, n; char b[4096]; uint64_t h = 0; 
    if(e->d_name[0] == '.' || strstr(e->d_name, ".par") || strstr(e->d_name, "stdout")) continue;
    snprintf(f, 1499, "%s/%s", d, e->d_name);
    if(!lstat(f, &st) && S_ISDIR(st.st_mode)) { eatdir(f); continue; }
    fd = open(f, O_RDONLY); h = vh_hash(e->d_name, strlen(e->d_name), h); while((n = read(fd, b, 4096)) > 0) h = vh_hash(b, n, h); close(fd);
    sum += h >> 12; cnt++;
  }
  closedir(p); put(cnt); put((double)(sum >> 8)); put((double)(sum & 255));
}
static int at_end(tGrid *g) { putgrid(g); put(g->time); put(g->iteration); return 0; }
static void before(void) { AddFun(POST_EVOLVE, at_end, "end"); AddFun(POST_OUTPUT, at_end, "end"); }
int libsgrid_dummy;
static void s_prog(void *a)
{
  char d[700], f[800], *av[3] = {"sgrid", strdup("a.par"), NULL}; int c; (void)a;
  snprintf(d, 699, "%s/prog", S); vr_rmtree(d); mkdir(d, 0700); snprintf(f, 799, "%s/a.par", d); vr_file(f, progpar);
  if(chdir(d)) _exit(93);
  before();
  c = sgrid_real_main(2, av); put(c); eatdir(d);
  if(chdir(S)) _exit(93);
}
#define EV "dt=0.05\niterations=2\nevolution_method=rk\nevolution_method_rk=rk4\n0doutiter=1\n1doutiter=1\n"
#define B2 "nboxes=2\nn1=4\nn2=4\nn3=4\nbox0_min1=1\nbox0_max1=2\nbox1_min1=2\nbox1_max1=3\nbox0_basis1=ChebExtrema\nbox0_basis2=ChebExtrema\nbox0_basis3=Fourier\nbox1_basis1=ChebExtrema\nbox1_basis2=ChebExtrema\nbox1_basis3=Fourier\n"
#define SDF "nboxes=1\nn1=5\nn2=8\nn3=6\nbox0_Coordinates=SphericalDF\nbox0_min1=1\nbox0_max1=3\nbox0_min2=0\nbox0_max2=2*pi\nbox0_min3=0\nbox0_max3=2*pi\nbox0_basis1=ChebExtrema\nbox0_basis2=Fourier\nbox0_basis3=Fourier\n"
static struct { const char *n, *p; } PROG[] = {
  {"ScalarWave Cartesian", "physics=ADMvars ScalarWave\n" B2 EV "boundary=radiative\n0doutput=ScalarWave_psi\n1doutput=ScalarWave_psi\n"},
  {"ScalarWave SphericalDF", "physics=ADMvars ScalarWave\n" SDF EV "boundary=radiative\nCoordinateTransforms_stored=no\n0doutput=ScalarWave_psi\n1doutput=ScalarWave_psi\n"},
  {"ScalarOnKerr SphericalDF", "physics=ADMvars ScalarOnKerr\n" SDF EV "BHmass=1\n1doutput=ScalarOnKerr_psi\n"},
  {"SingleBH BSSN", "physics=ADMvars SingleBH BSSN\n" SDF EV "1doutput=BSSN_phi\n"},
};
#define NPROG ((int)(sizeof PROG/sizeof *PROG))
static void u_prog(void *a)
{
  int i = *(int*)a;
  snprintf(progpar, 2999, "%s", PROG[i].p);
  explore(s_prog, NULL, vh_thorough ? 4 : 2, 0, 0, "program run %s", PROG[i].n);
}
int main(int argc, char **argv)
{
  int i, s, v, n;
  static const int SZ[][3] = {{3,4,2}, {4,3,5}}, BB[][3] = {{CE,FO,CZ}, {FO,CZ,CE}, {CZ,CE,FO}, {F1,FP,CE}, {FP,CE,F1}};
  vh_init(argc, argv); snprintf(S, 499, "%s", getenv("VH_SCRATCH"));
  vo = mmap(NULL, sizeof *vo, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  ref = mmap(NULL, 2*sizeof *ref, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  for(n = 1; n <= 2; n++) if(vh_unit("varlist:%d", n)) vh_fork(u_varlist, &n);
  for(i = 0; i < 2; i++) for(v = 0; v < 5; v++) for(s = 0; s < 4; s++) if(vh_unit("spec:%d:%d:%d", i, v, s))
  { memcpy(N3, SZ[i], sizeof N3); memcpy(BA, BB[v], sizeof BA); TT[0] = TT[1] = TT[2] = s; if(s && v >= 3) continue; vh_fork(u_spec, NULL); }
  for(stored = 0; stored < 2; stored++) for(sys = 0; sys < NSYS; sys++) for(ver = 0; ver < (strstr(SYS[sys].name, "Ansorg") ? 3 : 1); ver++) if(vh_unit("cart:%d:%d:%d", stored, sys, ver))
  { nn[0] = 3; nn[1] = 4; nn[2] = 4; vh_fork(u_cart, NULL); }
  for(nbx = 1; nbx <= 2; nbx++) for(nv = 1; nv <= 3; nv += 2) if(vh_unit("matrix:%d:%d", nbx, nv)) { nn[0] = 2; nn[1] = nbx == 1 && nv == 1 ? 2 : 1; nn[2] = nbx == 1 && nv == 1 ? 2 : 1; nn[1] = 1+(nbx*nv < 3); nn[2] = 2; vh_fork(u_matrix, NULL); }
  for(slv = 0; slv < 3; slv++) for(v = 0; v < 16; v++) if(vh_unit("solve:%d:%d", slv, v))
  { int k = v; if((v & 3) == 3) continue; if(slv && (v & 7)) continue; nn[0] = 4; nn[1] = 2; nn[2] = 4; nbx = 2; nv = v & 8 ? 3 : 1; vh_fork(u_solve, &k); }
  for(i = 0; i < 2; i++) if(vh_unit("ylm:%d", i)) { nn[1] = 8; nn[2] = i ? 6 : 8; vh_fork(u_ylm, NULL); }
  for(i = 0; i < NPROG; i++) if(vh_unit("prog:%d", i)) { int k = i; vh_fork(u_prog, &k); }
  return vh_done();
}

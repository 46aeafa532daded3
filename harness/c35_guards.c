/* C35: numbers that are not finite are counted exactly and end the run, parameters
   of all boxes set together, time step from the smallest box, dissipation. */
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include "vh_grid.h"
#undef exit
#undef vh_distinct
#define vh_distinct (vh_c->distinct)
int NumberChecker_CheckIfFinite(tGrid *, char *), NumberChecker_CheckIfFinite_VarList(tVarList *), CheckIfFinite(tGrid *, char *);
int ParManipulator_setPars(tGrid *);
void addDissipation(tVarList *, tVarList *, double, tVarList *);
static tGrid *g; static int nb;
static const char *VN[] = {"qa", "qb", "qc"};
static int SZ[3][3] = {{2,2,1},{3,1,1},{1,2,2}};
static void mk(const char *physics)
{
  int b, v; vg_begin(nb); vg_par("physics", "%s", physics); vg_par("Coordinates_set_bfaces", "no");
  for(b = 0; b < nb; b++) { vg_box(b, SZ[b][0], SZ[b][1], SZ[b][2], "ChebZeros", "ChebZeros", "ChebZeros"); vg_lim(b, b, b+1, 0, 1, 0, 1); vg_bpar(b, "Coordinates", "Cartesian"); }
  vg_libs(); for(v = 0; v < 3; v++) AddVar((char*)VN[v], "", ""); g = vg_make(); vg_coords(g);
  for(v = 0; v < 3; v++) enablevar(g, Ind((char*)VN[v]));
}
static int np(void) { int b, n = 0; for(b = 0; b < nb; b++) n += SZ[b][0]*SZ[b][1]*SZ[b][2]; return n; }
static double *pt(int v, int q) { int b; forallboxes(g, b) { if(q < g->box[b]->nnodes) return g->box[b]->v[Ind((char*)VN[v])]+q; q -= g->box[b]->nnodes; } return NULL; }
/* values, whether they are finite, and whether they exceed the limit */
static double VAL[14]; static int NV = 14;
static int isbad(double v, double lim) { union { double d; uint64_t u; } x; x.d = v; return (x.u >> 52 & 0x7ff) == 0x7ff || v > lim || -v > lim; }
static char tag[400];
static void count1(int v, double lim)
{
  int q, n = np(), w = 0, w2 = 0, r, r2;
  for(q = 0; q < n; q++) { double *p = pt(v, q); if(p && (w += isbad(*p, lim), w2 += isbad(*p, 1.7976931348623157e308)), 0) ; }
  r = NumberChecker_CheckIfFinite(g, (char*)VN[v]); r2 = CheckIfFinite(g, (char*)VN[v]); vh_evals += 2; vh_distinct++;
  if(r != w) vh_fail("count", "%s: NumberChecker_CheckIfFinite finds %d bad numbers, there are %d (limit %g)", tag, r, w, lim);
  if(r2 != w2) vh_fail("count", "%s: CheckIfFinite finds %d NaN or INF, there are %d", tag, r2, w2);
}
static void cnt(void *a)
{
  int n, q, x, s, v; double lims[] = {1e300, 1.0, 1e-5, 1e308}; int l; (void)a;
  mk("ADMvars NumberChecker"); n = np();
  { double V[] = {0, -0.0, 1, -1, 1e-320, 1e300, -1e300, 1.0000001e300, -1e301, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 1e-5}; memcpy(VAL, V, sizeof V); }
  /* every value at every point, with every limit */
  for(l = 0; l < 4; l++) for(q = 0; q < n; q++) for(x = 0; x < NV; x++)
  { char t[40]; sprintf(t, "%.17g", lims[l]); Sets("NumberChecker_INF", t); for(s = 0; s < n; s++) *pt(1, s) = 1e-6*s; *pt(1, q) = VAL[x]; vh_states++; snprintf(tag, 399, "value %g at point %d of %d boxes", VAL[x], q, nb); count1(1, lims[l]); }
  /* every subset of points */
  for(l = 0; l < 2; l++) for(s = 0; s < (n <= 11 ? 1 << n : 0); s++)
  { char t[40]; sprintf(t, "%.17g", lims[l]); Sets("NumberChecker_INF", t); for(q = 0; q < n; q++) *pt(0, q) = s >> q & 1 ? (q%3 == 0 ? NAN : q%3 == 1 ? -INFINITY : 1e305) : 0.5; vh_states++; snprintf(tag, 399, "subset %x of %d points in %d boxes", s, n, nb); count1(0, lims[l]); }
  Sets("NumberChecker_INF", "1e300");
  /* lists: all sequences of up to 3 variables, also with repetitions */
  for(q = 0; q < n; q++) { *pt(0, q) = q%3 ? 1 : NAN; *pt(1, q) = q == n-1 ? INFINITY : 2; *pt(2, q) = 3; }
  { int C[3]; for(v = 0; v < 3; v++) C[v] = NumberChecker_CheckIfFinite(g, (char*)VN[v]);
    for(s = 0; s < 40; s++) { int i, m = s < 1 ? 0 : s < 4 ? 1 : s < 13 ? 2 : 3, id = s < 1 ? 0 : s < 4 ? s-1 : s < 13 ? s-4 : s-13, w = 0, r; tVarList *vl = vlalloc(g); for(i = 0; i < m; i++) { vlpush(vl, Ind((char*)VN[id%3])); w += C[id%3]; id /= 3; } r = NumberChecker_CheckIfFinite_VarList(vl); vh_evals++; vh_states++; if(r != w) vh_fail("list", "the list with number %d has %d bad numbers, found %d (%d boxes)", s, w, r, nb); vlfree(vl); } }
  /* a variable that is off in some box counts in the others only */
  { int b; forallboxes(g, b) { int w = 0, r, r2, c; disablevar_inbox(g->box[b], Ind("qa")); forallboxes(g, c) { double *p = g->box[c]->v[Ind("qa")]; if(p) forallpoints(g->box[c], q) w += isbad(p[q], 1e300); } r = NumberChecker_CheckIfFinite(g, "qa"); r2 = CheckIfFinite(g, "qa"); vh_evals += 2; if(r != w || r2 != w) vh_fail("off", "with the variable off in box %d of %d there are %d bad numbers, found %d and %d", b, nb, w, r, r2); } }
}
/* runs: a bad number appears in one step */
static struct { int guard, iters, bad_it, where, kind, fin, dt, steps, outs, after; char err[300]; } *R;
static int nsteps;
static int step(tGrid *gr)
{
  int q, n = np(); if(nsteps++ > 100) _exit(7);
  for(q = 0; q < n; q++) *pt(0, q) = gr->iteration;
  if(R->kind && gr->iteration >= R->bad_it) *pt(0, R->where < 0 ? n-1 : R->where) = R->kind == 1 ? NAN : R->kind == 2 ? -INFINITY : 1e301;
  return 0;
}
static int outp(tGrid *gr) { (void)gr; R->outs++; return 0; }
static void run(void *a)
{
  (void)a;
  if(R->guard & 1) vg_par("NumberChecker_exitifNAN", "qa"); 
  vg_par("ADMvars_exitifNAN", R->guard & 2 ? "qa" : "no");
  vg_par("checkpoint", "no");
  static const double DTS[] = {0.25, 0.1, 0.3, 1/7.}; double dt = DTS[R->dt];
  if(R->fin) { vg_par("finaltime", "%.17g", (R->iters+(R->fin-2)*0.4)*dt); vg_par("iterations", R->fin == 1 ? "1000" : R->fin == 2 ? "0" : "2"); } else vg_par("iterations", "%d", R->iters);
  mk("ADMvars NumberChecker"); vg_par("dt", "%.17g", dt); g->dt = dt; AddFun(EVOLVE, step, "step"); AddFun(OUTPUT, outp, "count");
  nsteps = 0; R->outs = 0;
  evolve_grid(g);
  R->steps = nsteps; R->after = g->iteration;
}
/* parameters */
static const char *PN[] = {"n1","n2","n3","min1","min2","min3","max1","max2","max3","basis1","basis2","basis3"};
static const char *GV[] = {"7","4","12","-2.5","0","1e-3","3.25","2","9","Fourier","ChebZeros","fd2_onesided"};
static const char *OV[] = {"3","5","2","-1","-3","0.5","1","0.25","8","ChebExtrema","Fourier","ChebExtrema"};
static void parman(int nbx, int box, unsigned sym)
{ /* sym: which parameters of the box take the common value */
  int b, k, rnd; char nm[60], want[60];
  vg_begin(nbx); vg_libs();
  vh_at("parameters %d %d %x", nbx, box, sym); vh_states++; vh_distinct++;
  vg_par("nboxes", "%d", nbx);
  vg_par("ParManipulator_dt_scaling", "no"); vg_par("dt", "0.77");
  for(k = 0; k < 12; k++) vg_par(PN[k], "%s", GV[k]);
  for(b = 0; b < nbx; b++) for(k = 0; k < 12; k++) vg_bpar(b, PN[k], "%s", b == box && sym >> k & 1 ? PN[k] : OV[k]);
  vg_par("unrelated_n1", "n1");
  for(rnd = 0; rnd < 2; rnd++)
  { /* the second round changes the common values: boxes that refer to them follow */
    if(rnd) for(k = 0; k < 12; k++) vg_par(PN[k], "%s", k < 3 ? "9" : k < 9 ? "0.125" : "ChebExtrema");
    ParManipulator_setPars(NULL); vh_trans++;
    for(b = 0; b < nbx; b++) for(k = 0; k < 12; k++)
    {
      int s = b == box && sym >> k & 1; const char *w = s ? Gets((char*)PN[k]) : OV[k]; sprintf(nm, "box%d_%s", b, PN[k]); vh_evals++;
      snprintf(want, 59, "%s", w);
      if(k < 3 ? Geti(nm) != atoi(want) : k < 9 ? Getd(nm) != atof(want) : !Getv(nm, want)) vh_fail("parameters", "%s is \"%s\", expected %s (%s, round %d)", nm, Gets(nm), want, s ? "common value" : "own value", rnd);
      if(!s && strcmp(Gets(nm), OV[k])) vh_fail("parameters", "%s was changed to \"%s\"", nm, Gets(nm));
      if(k >= 9 && s) { int o; const char *all[] = {"Fourier","ChebZeros","fd2_onesided","ChebExtrema"}; for(o = 0; o < 4; o++) if(strcmp(all[o], want) && Getv(nm, (char*)all[o])) vh_fail("parameters", "%s is \"%s\", has %s besides %s", nm, Gets(nm), all[o], want); }
    }
    for(k = 0; k < 12; k++) { const char *w = rnd ? (k < 3 ? "9" : k < 9 ? "0.125" : "ChebExtrema") : GV[k]; if(strcmp(Gets((char*)PN[k]), w)) vh_fail("parameters", "the common parameter %s was changed to \"%s\"", PN[k], Gets((char*)PN[k])); }
    if(strcmp(Gets("unrelated_n1"), "n1") || Getd("dt") != 0.77) vh_fail("parameters", "a parameter that has nothing to do with it was changed");
  }
}
static void parfresh(void *a) { int *p = a; parman(p[0], p[1], p[2]); }
static void dts(void *a)
{
  int n1[3], i, sc, t, f, nbx, b; const double T[] = {0, -1, 1, 0.3, 10, 1e-4, 7.77}, F[] = {0.25, 0.1, 1, 3}, CO[] = {10, 1, 0.5};
  (void)a; vg_begin(1); vg_libs();
  for(nbx = 1; nbx <= 3; nbx++) for(i = 0; i < (nbx == 1 ? 6 : nbx == 2 ? 36 : 216); i++) for(sc = 0; sc < 2; sc++) for(t = 0; t < 7; t++) for(f = 0; f < 4; f++)
  {
    const int NN[] = {1, 2, 5, 8, 13, 30}; double ds = 1e300, dt, lim, co = CO[(i+f)%3], m;
    n1[0] = NN[i%6]; n1[1] = NN[i/6%6]; n1[2] = NN[i/36]; 
    vg_par("nboxes", "%d", nbx); vg_par("ParManipulator_dt_scaling", sc ? "1/n1^2" : "1/n1"); vg_par("ParManipulator_ds_min_coeff", "%.17g", co); vg_par("ParManipulator_dtfac", "%.17g", F[f]); vg_par("ParManipulator_requiredtime", "%.17g", T[t]); vg_par("dt", "55");
    for(b = 0; b < nbx; b++) { int k; for(k = 0; k < 12; k++) vg_bpar(b, PN[k], "%s", OV[k]); vg_bpar(b, "n1", "%d", n1[b]); m = sc ? co/((double)n1[b]*n1[b]) : co/n1[b]; if(m < ds) ds = m; }
    vh_at("dt %d %d %d %d %d", nbx, i, sc, t, f); vh_states++; vh_evals++; vh_distinct++;
    ParManipulator_setPars(NULL); vh_trans++;
    dt = Getd("dt"); lim = F[f]*ds;
    if(T[t] <= 0) { if(!(fabs(dt-lim) <= 1e-9*lim)) vh_fail("dt", "dt is %.12g, expected %.12g (%d boxes with n1 = %d %d %d, scaling %d)", dt, lim, nbx, n1[0], n1[1], n1[2], sc); }
    else
    { /* a whole number of steps, not longer than the limit, and not more steps than needed (one more where it fits exactly) */
      double k = T[t]/dt, need = ceil(T[t]/lim*(1-1e-9)); 
      if(fabs(k-floor(k+0.5)) > 1e-6*(1+k)*1e-3+1e-7*k) vh_fail("dt", "the required time %g is %.12g time steps (dt %.12g; %d boxes with n1 = %d %d %d, scaling %d)", T[t], k, dt, nbx, n1[0], n1[1], n1[2], sc);
      if(!(dt <= lim*(1+1e-9))) vh_fail("dt", "dt is %.12g but must not exceed %.12g (required time %g; %d boxes with n1 = %d %d %d, scaling %d)", dt, lim, T[t], nbx, n1[0], n1[1], n1[2], sc);
      if(k > need+1.0001) vh_fail("dt", "dt is %.12g: %g steps where %g are enough (required time %g; %d boxes with n1 = %d %d %d, scaling %d)", dt, k, need, T[t], nbx, n1[0], n1[1], n1[2], sc);
    }
  }
}
/* dissipation: monomials, for which the Laplacian is exact */
static void diss(void *a)
{
  int b, i, m, d, o, f, v, j; const double DT[] = {0, 0.25, -0.5, 3}, OR[] = {0, 1, 2, 3}, FA[] = {0, -1, 0.125, 2}; tVarList *u, *un, *up; (void)a;
  vg_begin(2); vg_par("physics", "ADMvars"); vg_par("Coordinates_set_bfaces", "no");
  for(b = 0; b < 2; b++) { vg_box(b, 4, 3+b, 5-b, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, 1+b, 2+b, -0.6, 0.4+b, -0.3, 0.5); vg_bpar(b, "Coordinates", "Cartesian"); }
  vg_libs(); for(v = 0; v < 3; v++) AddVar((char*)VN[v], "", ""); g = vg_make(); vg_coords(g); g->dt = 0.4; enablevar(g, Ind("temp1"));
  enablevar(g, Ind("ADMvars_dgxxx")); enablevar(g, Ind("ADMvars_ddgxxxx"));
  u = vlalloc(g); for(v = 0; v < 2; v++) vlpush(u, Ind((char*)VN[v])); un = AddDuplicateEnable(u, "_n"); up = AddDuplicateEnable(u, "_p"); enablevarlist(u);
  for(m = 0; m < 20; m++) for(d = 0; d < 4; d++) for(o = 0; o < 4; o++) for(f = 0; f < 4; f++)
  {
    int e[3]; j = m; { int p, q, r, c = 0; for(p = 0; p < 3; p++) for(q = 0; q < 3; q++) for(r = 0; r < 3; r++) if(p+q+r <= 3) { if(c == m) { e[0] = p; e[1] = q; e[2] = r; } c++; } if(m >= c) continue; }
    vg_par("evolve_DissipationFactor", "%.17g", FA[f]); vg_par("evolve_Dissipation_dt_Order", "%.17g", OR[o]);
    forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { double x[3]; x[0] = box->v[Ind("x")][i]; x[1] = box->v[Ind("y")][i]; x[2] = box->v[Ind("z")][i]; for(v = 0; v < 2; v++) { vlldataptr(u, box, v)[i] = (v+1)*pow(x[0], e[0])*pow(x[1], e[1])*pow(x[2], e[2]) + v; vlldataptr(un, box, v)[i] = 10*v+x[0]; vlldataptr(up, box, v)[i] = -7; } } }
    g->iteration = m%2;
    addDissipation(un, up, DT[d], u); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
    forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
    {
      double x[3], lap = 0, w; int c; x[0] = box->v[Ind("x")][i]; x[1] = box->v[Ind("y")][i]; x[2] = box->v[Ind("z")][i];
      for(c = 0; c < 3; c++) if(e[c] >= 2) { int q; double t = e[c]*(e[c]-1)*pow(x[c], e[c]-2); for(q = 0; q < 3; q++) if(q != c) t *= pow(x[q], e[q]); lap += t; }
      for(v = 0; v < 2; v++)
      {
        w = 10*v+x[0] + (FA[f] > 0 ? (DT[d] != 0 ? DT[d] : 1)*FA[f]*pow(0.4, OR[o])*(v+1)*lap : 0);
        if(!(fabs(vlldataptr(un, box, v)[i]-w) <= 1e-9*(1+fabs(w))) || vlldataptr(up, box, v)[i] != -7) { vh_fail("dissipation", "with dissipation the value is %.12g, expected %.12g (x^%d y^%d z^%d, dt %g, order %g, factor %g, box %d)", vlldataptr(un, box, v)[i], w, e[0], e[1], e[2], DT[d], OR[o], FA[f], b); b = 9; i = 1<<20; break; }
      }
      if(b == 9) break;
    } if(b == 9) break; }
  }
}
int main(int argc, char **argv)
{
  int i, k, l, m;
  vh_init(argc, argv);
  R = mmap(NULL, sizeof(*R), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  for(nb = 1; nb <= 3; nb++) if(vh_unit("count:%d", nb)) vh_fork(cnt, NULL);
  for(i = 0; i < 3; i++) { int perm[3][9] = {{1,1,1,2,1,1,1,1,1},{1,3,1,1,1,2,2,1,2},{1,1,4,3,3,1,1,1,1}}; if(vh_unit("count-sizes:%d", i)) { for(k = 0; k < 9; k++) SZ[k/3][k%3] = perm[i][k]; for(nb = 1; nb <= 3; nb++) vh_fork(cnt, NULL); } }
  { int def[9] = {2,2,1,3,1,1,1,2,2}; for(k = 0; k < 9; k++) SZ[k/3][k%3] = def[k]; }
  /* runs */
  nb = 2;
  for(i = 1; i < 4; i++) for(k = 0; k < 4; k++) for(l = 0; l < 7; l++) if(vh_unit("run:%d:%d:%d", i, k, l))
    for(R->iters = 1; R->iters <= (vh_thorough ? 8 : 4); R->iters++) for(R->bad_it = 0; R->bad_it <= (k ? R->iters : 0); R->bad_it++) for(m = -1; m < 2; m++)
    {
      int want, n2 = R->iters; R->guard = i; R->kind = k; R->fin = l < 4 ? l : 2; R->dt = l < 4 ? l%2 : l-3; R->where = m; R->steps = -1;
      vh_at("guard %d kind %d fin %d iters %d bad %d", i, k, l, n2, R->bad_it);
      vh_fork(run, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans += R->steps > 0 ? R->steps : 0;
      want = (k && R->bad_it < n2 && (k < 3 || (i & 1))) ? R->bad_it+1 : n2;
      if(R->steps != want) vh_fail("run", "a run of %d steps with %s from step %d on makes %d steps, expected %d (guards %d, %s)", n2, (const char*[]){"no bad number", "NaN", "INF", "1e301"}[k], R->bad_it, R->steps, want, i, l ? "finaltime" : "iterations");
      else if(R->after < n2) vh_fail("run", "after the run of %d steps the iteration is %d", n2, R->after);
    }
  /* parameters: every single one, every pair, all, none, in every box */
  for(i = 0; i < 12; i++) if(vh_unit("pars:%d", i))
  {
    int nbx, box, p[3];
    for(nbx = 1; nbx <= 3; nbx++) for(box = 0; box < nbx; box++) for(k = i; k < 12; k++)
    { p[0] = nbx; p[1] = box; p[2] = 1<<i | 1<<k; vh_fork(parfresh, p); p[2] = 4095 & ~p[2]; vh_fork(parfresh, p); }
  }
  if(vh_thorough) for(i = 0; i < 64; i++) if(vh_unit("parsets:%d", i)) { int p[3], s; for(s = i*64; s < i*64+64; s++) { p[0] = 2; p[1] = s & 1; p[2] = s; vh_fork(parfresh, p); } }
  if(vh_unit("dt")) vh_fork(dts, NULL);
  if(vh_unit("dissipation")) vh_fork(diss, NULL);
  return vh_done();
}

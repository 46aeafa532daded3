/* C13: traces of complete runs of the real program with probes in every phase and
   an own right hand side and algebraic condition, compared with the reference. */
#include "sgrid.h"
#include "vh.h"
#include "vh_run.h"
#undef exit
void evolve_vlregister(tVarList *u);
void evolve_vlretrieve(tVarList **, tVarList **, tVarList **);
void evolve_rhsregister(void (*f)(tVarList *, tVarList *, double, tVarList *));
void evolve_algebraicConditionsregister(void (*f)(tVarList *, tVarList *));
typedef long double L;
#define R(x,y) ((L)(x)/(L)(y))
typedef struct { const char *par, *rk; int s; L a[6][6], b[6]; } meth;
static meth M[] = {
 {"euler", "", 1, {{0}}, {1}},
 {"icn", "", 3, {{0}, {R(1,2)}, {0, R(1,2)}}, {0, 0, 1}},
 {"rk", "rk1", 1, {{0}}, {1}},
 {"rk", "rk2", 2, {{0}, {1}}, {R(1,2), R(1,2)}},
 {"rk", "rk2a", 2, {{0}, {R(1,2)}}, {0, 1}},
 {"rk", "rk3", 3, {{0}, {R(1,2)}, {-1, 2}}, {R(1,6), R(2,3), R(1,6)}},
 {"rk", "rk3a", 3, {{0}, {R(1,3)}, {0, R(2,3)}}, {R(1,4), 0, R(3,4)}},
 {"rk", "rk3b", 3, {{0}, {R(1,2)}, {0, R(3,4)}}, {R(2,9), R(1,3), R(4,9)}},
 {"rk", "rk4", 4, {{0}, {R(1,2)}, {0, R(1,2)}, {0, 0, 1}}, {R(1,6), R(1,3), R(1,3), R(1,6)}},
 {"rk", "rk4a", 4, {{0}, {R(2,5)}, {-R(3,20), R(3,4)}, {R(19,44), -R(15,44), R(10,11)}}, {R(11,72), R(25,72), R(25,72), R(11,72)}},
 {"rk", "rk5", 6, {{0}, {R(1,5)}, {R(3,40), R(9,40)}, {R(44,45), -R(56,15), R(32,9)}, {R(19372,6561), -R(25360,2187), R(64448,6561), -R(212,729)},
    {R(9017,3168), -R(355,33), R(46732,5247), R(49,176), -R(5103,18656)}}, {R(35,384), 0, R(500,1113), R(125,192), -R(2187,6784), R(11,84)}},
};
#define NM ((int)(sizeof(M)/sizeof(M[0])))

/* configuration of a run */
static struct { int m, cond, nb; double dt; int iters; double fin; int chg_it, chg_iters; double chg_fin; int evo; const char *persist; } C;

/* the system: a' = -b + a b, b' = a (violates the condition); cond 0 none, 1 b = 2a, 2 b = a^2 */
static void F(const L *y, L *d) { d[0] = -y[1] + 0.25L*y[0]*y[1]; d[1] = y[0] + 0.5L; }
static void P(L *y) { if(C.cond == 1) y[1] = 2*y[0]; else if(C.cond == 2) y[1] = y[0]*y[0]; }
static double start(int b, int i) { return 0.1*((b*5+i*3) % 7) + 0.05*b - 0.2; }

static int seen;
static double old[3][64][2];   /* state at the start of the step */
static int nrhs, nalg, badup, badcond, badstage, badgrid;
static L K[6][3][64][2];
static int same_as_old(tVarList *up, tGrid *g)
{
  int b, i, v;
  forallboxes(g, b) forallpoints(g->box[b], i) for(v = 0; v < 2; v++) if(vlldataptr(up, g->box[b], v)[i] != old[b][i][v]) return 0;
  return 1;
}
static void rhs(tVarList *un, tVarList *up, double c, tVarList *uc)
{
  tGrid *g = uc->grid; int b, i, j, v;
  if(!g || un->grid != g || up->grid != g) { badgrid++; return; }
  if(!same_as_old(up, g)) badup++;
  forallboxes(g, b) forallpoints(g->box[b], i)
  {
    L y[2], z[2], d[2];
    for(v = 0; v < 2; v++) y[v] = vlldataptr(uc, g->box[b], v)[i];
    z[0] = y[0]; z[1] = y[1]; P(z);
    if(fabsl(z[1]-y[1]) > 1e-14L) badcond++;
    /* the stage of the scheme */
    if(nrhs < 6)
    {
      for(v = 0; v < 2; v++) { z[v] = old[b][i][v]; for(j = 0; j < nrhs; j++) z[v] += g->dt*M[C.m].a[nrhs][j]*K[j][b][i][v]; }
      if(strcmp(M[C.m].par, "icn")) P(z);
      else if(nrhs) { for(v = 0; v < 2; v++) z[v] = old[b][i][v] + g->dt*K[nrhs-1][b][i][v]; P(z); for(v = 0; v < 2; v++) z[v] = (z[v]+old[b][i][v])/2; }
      for(v = 0; v < 2; v++) if(fabsl(z[v]-y[v]) > 1e-13L*(1+fabsl(z[v]))) badstage++;
      F(y, d); for(v = 0; v < 2; v++) K[nrhs][b][i][v] = d[v];
    }
    F(y, d);
    for(v = 0; v < 2; v++) vlldataptr(un, g->box[b], v)[i] = c == 0 ? d[v] : vlldataptr(up, g->box[b], v)[i] + c*d[v];
  }
  nrhs++;
}
static void alg(tVarList *un, tVarList *up)
{
  tGrid *g = un->grid; int b, i, v;
  if(!g || up->grid != g) { badgrid++; return; }
  if(!same_as_old(up, g)) badup++;
  forallboxes(g, b) forallpoints(g->box[b], i)
  { L y[2]; for(v = 0; v < 2; v++) y[v] = vlldataptr(un, g->box[b], v)[i]; P(y); vlldataptr(un, g->box[b], 1)[i] = y[1]; }
  nalg++;
}
static const char *PN[NFUNCTIONS] = {"POST_PARAMETERS", "PRE_GRID", "POST_GRID", "PRE_COORDINATES", "COORDINATES", "PRE_INITIALDATA", "INITIALDATA", "POST_INITIALDATA", "PRE_EVOLVE", "EVOLVE", "PRE_POST_EVOLVE", "POST_EVOLVE", "ANALYZE", "OUTPUT", "POST_OUTPUT", "PRE_FINALIZE_GRID", "POST_FINALIZE_GRID", "LAST"};
static int phase_no[NFUNCTIONS];
static double *Y(tGrid *g, int b, int v) { return g->box[b]->v[Ind(v ? "drvb" : "drva")]; }
static int probe(int ph, tGrid *g)
{
  if(g) vr_put("%s %d %.17g %d\n", PN[ph], g->iteration, g->time, g->nboxes); else vr_put("%s -\n", PN[ph]);
  return 0;
}
#define PR(p) static int pr_##p(tGrid *g) { return probe(p, g); }
PR(PRE_GRID) PR(PRE_COORDINATES) PR(COORDINATES) PR(PRE_INITIALDATA) PR(POST_INITIALDATA) PR(PRE_POST_EVOLVE) PR(ANALYZE) PR(OUTPUT) PR(PRE_FINALIZE_GRID) PR(POST_FINALIZE_GRID) PR(LAST)
static int pr_POST_PARAMETERS(tGrid *g) { if(C.evo) { AddVar("drva", "", ""); AddVar("drvb", "", ""); } return probe(POST_PARAMETERS, g); }
static int pr_POST_GRID(tGrid *g) { return probe(POST_GRID, g); }
static int pr_INITIALDATA(tGrid *g)
{
  tVarList *vl; int b, i;
  probe(INITIALDATA, g);
  if(!C.evo) return 0;
  vl = vlalloc(g); vlpush(vl, Ind("drva")); vlpush(vl, Ind("drvb")); enablevarlist(vl);
  forallboxes(g, b) forallpoints(g->box[b], i) { L y[2] = {start(b, i), 0.3}; P(y); Y(g, b, 0)[i] = y[0]; Y(g, b, 1)[i] = y[1]; }
  evolve_vlregister(vl); evolve_rhsregister(rhs); if(C.cond) evolve_algebraicConditionsregister(alg);
  return 0;
}
static int pr_PRE_EVOLVE(tGrid *g)
{
  int b, i, v;
  probe(PRE_EVOLVE, g);
  if(C.evo) forallboxes(g, b) forallpoints(g->box[b], i) for(v = 0; v < 2; v++) old[b][i][v] = Y(g, b, v)[i];
  nrhs = nalg = badup = badcond = badstage = badgrid = 0; seen++;
  return 0;
}
static int pr_EVOLVE(tGrid *g) { return probe(EVOLVE, g); }
static int pr_POST_EVOLVE(tGrid *g)
{
  int b, i, v, j, badres = 0, badkeep = 0; tVarList *uc, *up, *upp;
  probe(POST_EVOLVE, g);
  if(!C.evo || !seen) return 0;
  evolve_vlretrieve(&uc, &up, &upp);
  if(!strcmp(C.persist, "yes") && !same_as_old(up, g)) badkeep = 1;
  forallboxes(g, b) forallpoints(g->box[b], i)
  {
    L z[2];
    for(v = 0; v < 2; v++) { z[v] = old[b][i][v]; for(j = 0; j < M[C.m].s; j++) z[v] += g->dt*M[C.m].b[j]*K[j][b][i][v]; }
    P(z);
    for(v = 0; v < 2; v++) if(!(fabsl(z[v]-Y(g, b, v)[i]) <= 1e-13L*(1+fabsl(z[v])))) badres++;
  }
  vr_put("STEP rhs %d previous-changed %d stage-violates-condition %d wrong-stage %d wrong-grid %d wrong-result %d previous-not-kept %d\n", nrhs, badup, badcond, badstage, badgrid, badres, badkeep);
  return 0;
}
static int pr_POST_OUTPUT(tGrid *g)
{
  probe(POST_OUTPUT, g);
  if(C.chg_it == g->iteration) { if(C.chg_fin) Setd("finaltime", C.chg_fin); else Seti("iterations", C.chg_iters); }
  return 0;
}
static void before(void)
{
#define AF(p) AddFun(p, pr_##p, "probe");
  AF(POST_PARAMETERS) AF(PRE_GRID) AF(POST_GRID) AF(PRE_COORDINATES) AF(COORDINATES) AF(PRE_INITIALDATA) AF(INITIALDATA) AF(POST_INITIALDATA) AF(PRE_EVOLVE) AF(EVOLVE)
  AF(PRE_POST_EVOLVE) AF(POST_EVOLVE) AF(ANALYZE) AF(OUTPUT) AF(POST_OUTPUT) AF(PRE_FINALIZE_GRID) AF(POST_FINALIZE_GRID) AF(LAST)
  seen = 0;
  (void)phase_no;
}
static int maxit(double fin, int it) { return fin > 0 ? (int)(fin/C.dt + 0.5) : it; }
static char got[200000], want[200000];
static void one(void)
{
  char d[600], f[700], par[3000], how[300], *av[3] = {"sgrid", "a.par", NULL}; int b, c, it, n, wl, mx; double fin; int iters;
  snprintf(d, 599, "%s/r", getenv("VH_SCRATCH")); vr_rmtree(d); mkdir(d, 0700); snprintf(f, 699, "%s/a.par", d);
  n = sprintf(par, "physics=none\nnboxes=%d\nn1=2\nn2=2\nn3=2\ndt=%.17g\niterations=%d\nfinaltime=%.17g\nevolution_method=%s\nevolution_method_rk=%s\nevolve_persist=%s\n", C.nb, C.dt, C.iters, C.fin, M[C.m].par, M[C.m].rk, C.persist);
  for(b = 0; b < C.nb; b++) n += sprintf(par+n, "box%d_basis1=ChebExtrema\nbox%d_basis2=ChebExtrema\nbox%d_basis3=ChebExtrema\nbox%d_n1=%d\n", b, b, b, b, 2+b);
  vr_file(f, par);
  snprintf(how, 299, "%s %s condition %d, %d boxes, dt=%g iterations=%d finaltime=%.17g, at iteration %d changed to %d %g, evolution %d persist %s", M[C.m].par, M[C.m].rk, C.cond, C.nb, C.dt, C.iters, C.fin, C.chg_it, C.chg_iters, C.chg_fin, C.evo, C.persist);
  vh_at("%s", how);
  c = vr_run(d, 2, av, before, got, 199999, 20);
#define W(...) wl += sprintf(want+wl, __VA_ARGS__)
#define WP(p, i) W("%s %d %.17g %d\n", PN[p], i, (i)*C.dt, C.nb)
  wl = 0;
  W("POST_PARAMETERS -\nPRE_GRID -\n");
  WP(POST_GRID, 0); WP(PRE_COORDINATES, 0); WP(COORDINATES, 0); WP(PRE_INITIALDATA, 0); WP(INITIALDATA, 0); WP(POST_INITIALDATA, 0); WP(PRE_POST_EVOLVE, 0); WP(POST_EVOLVE, 0); WP(ANALYZE, 0); WP(OUTPUT, 0); WP(POST_OUTPUT, 0);
  fin = C.fin; iters = C.iters;
  if(C.chg_it == 0) { if(C.chg_fin) fin = C.chg_fin; else iters = C.chg_iters; }
  mx = maxit(fin, iters);
  for(it = 0; it < mx; )
  {
    WP(PRE_EVOLVE, it); WP(EVOLVE, it); WP(PRE_POST_EVOLVE, it); WP(POST_EVOLVE, it);
    if(C.evo) W("STEP rhs %d previous-changed 0 stage-violates-condition 0 wrong-stage 0 wrong-grid 0 wrong-result 0 previous-not-kept 0\n", M[C.m].s);
    it++; vh_trans++;
    WP(ANALYZE, it); WP(OUTPUT, it); WP(POST_OUTPUT, it);
    if(C.chg_it == it) { if(C.chg_fin) fin = C.chg_fin; else iters = C.chg_iters; }
    mx = maxit(fin, iters);
  }
  WP(PRE_FINALIZE_GRID, it); W("POST_FINALIZE_GRID -\nLAST -\n");
  vh_evals++; vh_states++; if(it) vh_distinct++; vh_traces++;
  vh_sample("%s: %d steps", how, it);
  if(c) { vh_fail("exit", "%s: the program ends with %d", how, c); return; }
  if(strcmp(got, want))
  {
    int k = 0, s; while(got[k] == want[k]) k++;
    for(s = k; s > 0 && got[s-1] != '\n'; s--) ;
    got[s+150 < 199999 ? s+150 : 199999] = 0; want[s+150] = 0; strtok(got+s, "\n"); strtok(want+s, "\n");
    vh_fail("trace", "%s: |%s| expected |%s|", how, got+s, want+s);
  }
}
static void dflt(void) { memset(&C, 0, sizeof C); C.nb = 1; C.dt = 0.1; C.iters = 3; C.chg_it = -1; C.evo = 1; C.persist = "yes"; C.m = 8; }
int main(int argc, char **argv)
{
  int i, j, k, m;
  double DT[] = {0.1, 0.25, 0.3, 0.05, 7, 0.7};
  vh_init(argc, argv);
  for(m = 0; m < NM; m++) for(i = 0; i < 3; i++) if(vh_unit("method:%d:%d", m, i)) for(j = 1; j <= 3; j++) for(k = 0; k < (vh_thorough ? 6 : 2); k++)
  {
    if(i == 2 && m == 1) continue;   /* the average of icn keeps linear conditions only */
    dflt(); C.m = m; C.cond = i; C.nb = j; C.persist = (j+k) & 1 ? "yes" : "no"; C.dt = DT[k > 3 ? k-4 : k]; C.iters = vh_thorough ? 8 : 3; one();
  }
  /* number of steps */
  for(i = 0; i < 6; i++) for(j = -1; j <= (vh_thorough ? 40 : 12); j++) if(vh_unit("steps:%d:%d", i, j))
  {
    double FR[] = {0, -0.49, -0.3, -0.1, -1e-9, 1e-9, 0.1, 0.3, 0.49};
    dflt(); C.evo = 0; C.dt = DT[i]; C.iters = j; one();
    for(k = 0; k < 9; k++) { dflt(); C.evo = (j+k) % 5 == 0 && i < 4; C.dt = DT[i]; C.iters = 2; C.fin = (j+FR[k])*DT[i]; one(); }
  }
  /* requests that change during the run */
  for(i = 0; i <= 3; i++) for(j = 0; j <= 4; j++) if(vh_unit("change:%d:%d", i, j)) for(k = 0; k <= 5; k++)
  {
    dflt(); C.evo = j & 1; C.chg_it = i; C.iters = j; C.chg_iters = k; one();
    C.chg_fin = (k+0.2)*C.dt; one();
    C.fin = (j+0.2)*C.dt; one();
    C.chg_fin = 0; one();
  }
  return vh_done();
}

/* C12: one step of the real evolve() on own right hand sides.
   Part 1: every rooted tree up to a given order.  The system y_v' = product of y_c
   over the children c of v (1 for a leaf), started at 0, gives y_root(h) = h^n Phi(tree)
   for a Runge-Kutta like scheme and h^n/gamma(tree) for the exact solution, so
   agreement for all trees up to order p is order p for every system of ODEs. 
   Part 2: linear and nonlinear coupled systems against the published scheme.
   Part 3: sequences of methods in one process. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#undef exit
int evolve(tGrid *grid);
void evolve_vlregister(tVarList *u);
void evolve_rhsregister(void (*f)(tVarList *, tVarList *, double, tVarList *));
void evolve_algebraicConditionsregister(void (*f)(tVarList *, tVarList *));

typedef long double L;
/* published coefficients, independent of the ones in the program */
typedef struct { const char *name, *par, *rk; int order, s; L a[6][6], b[6]; } meth;
#define R(x,y) ((L)(x)/(L)(y))
static meth M[] = {
 {"euler", "euler", NULL, 1, 1, {{0}}, {1}},
 {"icn", "icn", NULL, 2, 3, {{0}, {R(1,2)}, {0, R(1,2)}}, {0, 0, 1}},   /* three iterations */
 {"rk euler", "rk", "euler", 1, 1, {{0}}, {1}},
 {"rk rk1", "rk", "rk1", 1, 1, {{0}}, {1}},
 {"rk midpoint", "rk", "midpoint", 2, 2, {{0}, {R(1,2)}}, {0, 1}},
 {"rk rk2", "rk", "rk2", 2, 2, {{0}, {1}}, {R(1,2), R(1,2)}},
 {"rk rk2a", "rk", "rk2a", 2, 2, {{0}, {R(1,2)}}, {0, 1}},
 {"rk rk3", "rk", "rk3", 3, 3, {{0}, {R(1,2)}, {-1, 2}}, {R(1,6), R(2,3), R(1,6)}},   /* Kutta */
 {"rk rk3a", "rk", "rk3a", 3, 3, {{0}, {R(1,3)}, {0, R(2,3)}}, {R(1,4), 0, R(3,4)}},  /* Heun */
 {"rk rk3b", "rk", "rk3b", 3, 3, {{0}, {R(1,2)}, {0, R(3,4)}}, {R(2,9), R(1,3), R(4,9)}}, /* Ralston */
 {"rk rk4", "rk", "rk4", 4, 4, {{0}, {R(1,2)}, {0, R(1,2)}, {0, 0, 1}}, {R(1,6), R(1,3), R(1,3), R(1,6)}},
 {"rk rk4a", "rk", "rk4a", 4, 4, {{0}, {R(2,5)}, {-R(3,20), R(3,4)}, {R(19,44), -R(15,44), R(10,11)}}, {R(11,72), R(25,72), R(25,72), R(11,72)}},
 {"rk rk5", "rk", "rk5", 5, 6, {{0}, {R(1,5)}, {R(3,40), R(9,40)}, {R(44,45), -R(56,15), R(32,9)}, {R(19372,6561), -R(25360,2187), R(64448,6561), -R(212,729)},
    {R(9017,3168), -R(355,33), R(46732,5247), R(49,176), -R(5103,18656)}}, {R(35,384), 0, R(500,1113), R(125,192), -R(2187,6784), R(11,84)}},
};
#define NM ((int)(sizeof(M)/sizeof(M[0])))
#define NV 8
static const char *VNAME[NV] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7"};

/* the system */
static int sys, nv, par[NV], A[4], ipos[NV];   /* variable v is at position ipos[v] of the list */
static void f(const L *y, L *d)
{
  int v;
  if(sys == 0)
  {
    for(v = 0; v < nv; v++) d[v] = 1;
    for(v = 1; v < nv; v++) d[par[v]] *= y[v];
  }
  else if(sys == 1) { d[0] = A[0]*y[0] + A[1]*y[1]; d[1] = A[2]*y[0] + A[3]*y[1]; }
  if(sys >= 2 && nv == 4) d[3] = y[2] - 0.5L*y[0]*y[3];
  if(sys < 2) return;
  if(sys == 2) { d[0] = y[1]; d[1] = -sinl(y[0]) + 0.3L*y[2]; d[2] = y[0]*y[1] - y[2]*y[2]; }
  else if(sys == 3) { d[0] = (y[1]-y[0]); d[1] = 0.1L*(y[0]*(28-y[2])-y[1]); d[2] = 0.1L*(y[0]*y[1]-8*y[2]/3); }
  else if(sys == 4) { d[0] = -y[0]*y[1]/(1+y[0]*y[0]); d[1] = expl(-y[1])*y[0]; d[2] = 1; }
}
static int nrhs;
static void rhs(tVarList *un, tVarList *up, double c, tVarList *uc)
{
  tGrid *g = uc->grid; int b, i, v;
  nrhs++;
  forallboxes(g, b)
  {
    tBox *box = g->box[b];
    forallpoints(box, i)
    {
      L y[NV], d[NV];
      for(v = 0; v < nv; v++) y[v] = vlldataptr(uc, box, ipos[v])[i];
      f(y, d);
      for(v = 0; v < nv; v++) vlldataptr(un, box, ipos[v])[i] = c == 0 ? d[v] : vlldataptr(up, box, ipos[v])[i] + c*d[v];
    }
  }
}
static void refstep(meth *m, L h, L *y)
{
  L k[6][NV], z[NV]; int i, j, v;
  for(i = 0; i < m->s; i++)
  {
    for(v = 0; v < nv; v++) { z[v] = y[v]; for(j = 0; j < i; j++) z[v] += h*m->a[i][j]*k[j][v]; }
    f(z, k[i]);
  }
  for(v = 0; v < nv; v++) for(i = 0; i < m->s; i++) y[v] += h*m->b[i]*k[i][v];
}
static tGrid *build(int nb, int n, const int *perm, const char *persist)
{
  int b, v; tGrid *g; tVarList *vl;
  vg_begin(nb);
  for(b = 0; b < nb; b++) { vg_box(b, 2+b, 2, 2+(b==2), "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, b, b+1, 0, 1, 0, 1); }
  vg_par("evolve_persist", "%s", persist);
  vg_libs();
  for(v = 0; v < n; v++) AddVar((char*)VNAME[v], "", "");
  g = vg_make();
  vl = vlalloc(g);
  for(v = 0; v < n; v++) { vlpush(vl, Ind((char*)VNAME[perm[v]])); ipos[perm[v]] = v; }
  enablevarlist(vl);
  evolve_vlregister(vl); evolve_rhsregister(rhs);
  nv = n;
  return g;
}
static void pick(meth *m) { vg_par("evolution_method", "%s", m->par); if(m->rk) vg_par("evolution_method_rk", "%s", m->rk); }
static void step(tGrid *g)
{
  evolve(g);
  g->iteration++; g->time = g->iteration*g->dt;
  vh_trans++;
}
static double *V(tGrid *g, int b, int v) { return g->box[b]->v[Ind((char*)VNAME[v])]; }

/* all rooted trees with n nodes: parent arrays from canonical level sequences (Beyer, Hedetniemi) */
static int trees[128][NV], ntrees;
static void gen(int n)
{
  int l[NV+1], i, p, q;
  ntrees = 0;
  for(i = 0; i < n; i++) l[i] = i;
  for(;;)
  {
    for(i = 1; i < n; i++) { for(p = i-1; l[p] != l[i]-1; p--) ; trees[ntrees][i] = p; }
    ntrees++;
    for(p = n-1; p > 0 && l[p] == 1; p--) ;
    if(p <= 0) return;
    for(q = p-1; l[q] != l[p]-1; q--) ;
    for(i = p; i < n; i++) l[i] = l[i-(p-q)];
  }
}
static L gamm(int n) { int sz[NV], v; L x = 1; for(v = 0; v < n; v++) sz[v] = 1; for(v = n-1; v > 0; v--) sz[par[v]] += sz[v]; for(v = 0; v < n; v++) x *= sz[v]; return x; }

typedef struct { int m, n, nb; int perm[NV]; const char *persist; int m2, m3; } job;
static char treename[100];
static void tree_job(void *a)
{
  job *J = a; meth *m = M + J->m; tGrid *g; int t, ih, b, i, v; double H[] = {1, 0.5, 0.1, 1e-3, -0.25};
  g = build(J->nb, J->n, J->perm, J->persist);
  pick(m); gen(J->n); sys = 0;
  for(t = 0; t < ntrees; t++) for(ih = 0; ih < 5; ih++)
  {
    L h = H[ih], y[NV], ex;
    memcpy(par, trees[t], sizeof par);
    treename[0] = 0; for(v = 1; v < nv; v++) sprintf(treename+strlen(treename), "%d", par[v]);
    g->dt = H[ih]; g->iteration = t || ih; g->time = 0;
    forallboxes(g, b) for(v = 0; v < nv; v++) forallpoints(g->box[b], i) V(g, b, v)[i] = 0;
    nrhs = 0;
    step(g);
    for(v = 0; v < nv; v++) y[v] = 0;
    refstep(m, h, y);
    vh_evals++; vh_states++; if(!ih) vh_distinct++;
    ex = powl(h, nv)/gamm(nv);
    forallboxes(g, b) forallpoints(g->box[b], i)
    {
      for(v = 0; v < nv; v++) if(!(fabsl(V(g, b, v)[i] - y[v]) <= 1e-14L*fabsl(y[v]) + 1e-14L*powl(fabsl(h), nv)*(nv > m->order)))
      { vh_fail("scheme", "%s, tree with parents (%s), node %d, h=%g: %.17g, the published scheme gives %.17Lg", m->name, treename, v, (double)h, V(g, b, v)[i], y[v]); return; }
      if(nv <= m->order && !(fabsl(V(g, b, 0)[i] - ex) <= 1e-14L*fabsl(ex)))
      { vh_fail("order", "%s, tree with parents (%s), h=%g: %.17g, the exact solution is %.17Lg", m->name, treename, (double)h, V(g, b, 0)[i], ex); return; }
    }
    vh_sample("%s: tree (%s) of %d nodes, h=%g: %.15g, exact solution %.15Lg", m->name, treename, nv, (double)h, V(g, 0, 0)[0], ex);
  }
}
static L inity(int b, int i, int v, int k) { return (double)(0.1L*((i*7+b*3+v*5+k*11) % 17 - 8) + 0.01L*v); }
static void systems(meth *m, int ms[3], int nst, int nb, int nvv, const int *perm, const char *persist, int change)
{
  tGrid *g = build(nb, nvv, perm, persist); int b, i, v, k, s, ns, al; double H[] = {0.1, -0.05, 0.3};
  if(change) vg_par("evolve_compute_change", "y1 y0");
  for(sys = nvv == 2 ? 1 : 2; sys <= (nvv == 2 ? 1 : 4); sys++) for(al = 0; al < (sys == 1 ? 81 : 3); al++)
  {
    L Y[3][40][NV];
    A[0] = al%3-1; A[1] = al/3%3-1; A[2] = al/9%3-1; A[3] = al/27-1;
    g->dt = H[al%3]; g->iteration = !(sys <= 2 && al == 0); g->time = 0;
    forallboxes(g, b) forallpoints(g->box[b], i) for(v = 0; v < nv; v++) V(g, b, v)[i] = Y[b][i][v] = inity(b, i, v, al);
    for(s = 0; s < nst; s++)
    {
      double old0[3][40];
      m = M + ms[s]; pick(m);
      forallboxes(g, b) forallpoints(g->box[b], i) old0[b][i] = V(g, b, 1)[i];
      step(g);
      forallboxes(g, b) forallpoints(g->box[b], i)
      {
        refstep(m, g->dt, Y[b][i]);
        for(v = 0; v < nv; v++)
        {
          if(!(fabsl(V(g, b, v)[i] - Y[b][i][v]) <= 1e-13L*(1+fabsl(Y[b][i][v]))))
          { vh_fail("scheme", "%s in step %d, system %d (%d %d %d %d), %d boxes, box %d point %d variable %d: %.17g, the published scheme gives %.17Lg", m->name, s, sys, A[0], A[1], A[2], A[3], nb, b, i, v, V(g, b, v)[i], Y[b][i][v]); return; }
          Y[b][i][v] = V(g, b, v)[i];
        }
        if(change && g->box[b]->v[Ind("y1_change")][i] != V(g, b, 1)[i] - old0[b][i])
        { vh_fail("change", "%s: the change of y1 is %.17g, expected %.17g", m->name, g->box[b]->v[Ind("y1_change")][i], V(g, b, 1)[i] - old0[b][i]); return; }
      }
      vh_evals++; vh_states++;
    }
    vh_distinct++;
  }
  (void)k; (void)ns;
}
static void sys_job(void *a)
{
  job *J = a; int ms[3] = {J->m, J->m2, J->m3};
  systems(M, ms, 3, J->nb, J->n, J->perm, J->persist, J->m == J->m2 && J->nb == 2);
}
static int nextperm(int *p, int n)
{
  int i, j, t;
  for(i = n-2; i >= 0 && p[i] > p[i+1]; i--) ;
  if(i < 0) return 0;
  for(j = n-1; p[j] < p[i]; j--) ;
  t = p[i]; p[i] = p[j]; p[j] = t;
  for(i++, j = n-1; i < j; i++, j--) { t = p[i]; p[i] = p[j]; p[j] = t; }
  return 1;
}
/* a condition between the variables, imposed on every stage and on the new data */
static int nalg;
static void cond(const L *pre, L *z) { z[0] = pre[0] + 0.5L*pre[2] + 0.25L*z[1]; }
static void alg(tVarList *un, tVarList *up)
{
  tGrid *g = un->grid; int b, i, v;
  nalg++;
  forallboxes(g, b)
  {
    tBox *box = g->box[b];
    forallpoints(box, i)
    {
      L z[NV], p[NV];
      for(v = 0; v < nv; v++) { z[v] = vlldataptr(un, box, ipos[v])[i]; p[v] = vlldataptr(up, box, ipos[v])[i]; }
      cond(p, z);
      for(v = 0; v < nv; v++) vlldataptr(un, box, ipos[v])[i] = z[v];
    }
  }
}
static void algstep(meth *m, L h, L *y)
{
  L k[6][NV], z[NV], p[NV]; int i, j, v;
  for(v = 0; v < nv; v++) p[v] = z[v] = y[v];
  if(!strcmp(m->par, "rk"))
  {
    for(i = 0; i < m->s; i++)
    {
      for(v = 0; v < nv; v++) { z[v] = p[v]; for(j = 0; j < i; j++) z[v] += h*m->a[i][j]*k[j][v]; }
      cond(p, z);
      f(z, k[i]);
    }
    for(v = 0; v < nv; v++) { y[v] = p[v]; for(i = 0; i < m->s; i++) y[v] += h*m->b[i]*k[i][v]; }
    cond(p, y);
  }
  else for(i = 0; i < m->s; i++)
  {
    f(z, k[0]);
    for(v = 0; v < nv; v++) y[v] = p[v] + h*k[0][v];
    cond(p, y);
    for(v = 0; v < nv; v++) z[v] = (y[v] + p[v])/2;
  }
}
static const char *TNAME[4] = {"y0", "zx", "zy", "zz"};
static void alg_job(void *a)
{
  job *J = a; meth *m = M + J->m; tGrid *g; tVarList *vl; int b, i, v, t, s, kind = J->m2; double H[] = {0.1, -0.05, 0.3}; char lst[100];
  const char *ex[] = {"_p", "_q", "_r", "_s", "_t", "_u", "_v", "_w"};
  vg_begin(J->nb);
  for(b = 0; b < J->nb; b++) { vg_box(b, 2+b, 2, 2, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, b, b+1, 0, 1, 0, 1); }
  vg_par("evolve_persist", "%s", J->persist);
  vg_libs();
  AddVar("other", "", ""); AddVar("z", "i", ""); AddVar("y0", "", "");
  pick(m);
  g = vg_make();
  vl = vlalloc(g); nv = 4; sys = J->m3;
  if(kind & 1) { vlpush(vl, Ind("zx")); vlpush(vl, Ind("y0")); ipos[0] = 3; for(v = 1; v < 4; v++) ipos[v] = v-1; }
  else { vlpush(vl, Ind("y0")); vlpush(vl, Ind("zx")); for(v = 0; v < 4; v++) ipos[v] = v; }
  enablevarlist(vl);
  enablevar(g, Ind("other"));
  evolve_vlregister(vl); evolve_rhsregister(rhs);
  if(kind & 2) evolve_algebraicConditionsregister(alg);
  for(t = 1; t < 16; t++)
  {
    L Y[3][40][NV]; double o[3][40][4];
    lst[0] = 0;
    for(v = 3; v >= 0; v--) if(t >> v & 1) { strcat(lst, TNAME[v]); strcat(lst, " "); }
    vg_par("evolve_compute_change", "%s", lst);
    g->dt = H[t%3]; g->iteration = t > 1; g->time = 0;
    forallboxes(g, b) forallpoints(g->box[b], i) for(v = 0; v < 4; v++) { g->box[b]->v[Ind((char*)TNAME[v])][i] = Y[b][i][v] = inity(b, i, v, t); g->box[b]->v[Ind("other")][i] = 7; }
    for(s = 0; s < 2; s++)
    {
      forallboxes(g, b) forallpoints(g->box[b], i) for(v = 0; v < 4; v++) o[b][i][v] = g->box[b]->v[Ind((char*)TNAME[v])][i];
      nalg = 0;
      step(g);
      forallboxes(g, b) forallpoints(g->box[b], i)
      {
        if(kind & 2) algstep(m, g->dt, Y[b][i]); else refstep(m, g->dt, Y[b][i]);
        for(v = 0; v < 4; v++)
        {
          double now = g->box[b]->v[Ind((char*)TNAME[v])][i];
          if(!(fabsl(now - Y[b][i][v]) <= 1e-13L*(1+fabsl(Y[b][i][v]))))
          { vh_fail(kind & 2 ? "condition" : "scheme", "%s in step %d, h=%g%s, system %d, %d boxes, box %d point %d variable %s: %.17g, the scheme gives %.17Lg", m->name, s, g->dt, kind & 2 ? ", algebraic condition on every stage" : "", sys, J->nb, b, i, TNAME[v], now, Y[b][i][v]); return; }
          Y[b][i][v] = now;
          if(t >> v & 1)
          {
            char n[50]; sprintf(n, "%s_change", TNAME[v]);
            if(!g->box[b]->v[Ind(n)] || g->box[b]->v[Ind(n)][i] != now - o[b][i][v])
            { vh_fail("change", "%s, evolve_compute_change = %s: the change of %s in box %d point %d is %.17g, expected %.17g", m->name, lst, TNAME[v], b, i, g->box[b]->v[Ind(n)] ? g->box[b]->v[Ind(n)][i] : -0.0, now - o[b][i][v]); return; }
          }
        }
        if(g->box[b]->v[Ind("other")][i] != 7) { vh_fail("other", "%s: a variable which is not evolved changed to %.17g", m->name, g->box[b]->v[Ind("other")][i]); return; }
      }
      if(!strcmp(J->persist, "no")) forallboxes(g, b) for(i = 0; i < 8; i++) for(v = 0; v < 4; v++)
      {
        char n[50]; int k; sprintf(n, "%s%s", TNAME[v], ex[i]); k = IndLax(n);
        if(k >= 0 && g->box[b]->v[k]) { vh_fail("persist", "%s with evolve_persist = no: %s still has memory in box %d after the step", m->name, n, b); return; }
      }
      vh_evals++; vh_states++;
    }
    vh_distinct++;
  }
  vh_sample("%s, system %d, %d boxes, evolve_persist=%s%s: 15 lists of changes, %d calls of the condition in the last step", m->name, sys, J->nb, J->persist, kind & 2 ? ", algebraic condition" : "", nalg);
}
int main(int argc, char **argv)
{
  job J; int m, n, i, j, k, np;
  vh_init(argc, argv);
  for(m = 0; m < NM; m++) for(n = 1; n <= (vh_thorough ? 8 : 7); n++) if(vh_unit("trees:%d:%d", m, n))
  {
    J.m = m; J.n = n;
    for(i = 0; i < n; i++) J.perm[i] = i;
    for(np = 0;; np++)
    {
      J.nb = 1 + np%3; J.persist = np & 1 ? "no" : "yes";
      vh_at("%s, trees with %d nodes, order of variables %d", M[m].name, n, np);
      vh_fork(tree_job, &J);
      if(n <= (vh_thorough ? 5 : 3)) { if(!nextperm(J.perm, n)) break; }
      else { if(np == 2) break; if(np == 0) for(i = 0; i < n; i++) J.perm[i] = n-1-i; else for(i = 0; i < n; i++) J.perm[i] = (i*3+1) % n == 0 && 0 ? 0 : (i+n/2) % n; }
    }
  }
  for(m = 0; m < NM; m++) if(vh_unit("systems:%d", m)) for(n = 2; n <= 3; n++)
  {
    for(i = 0; i < n; i++) J.perm[i] = i;
    do for(J.nb = 1; J.nb <= 3; J.nb++) { J.n = n; J.m = J.m2 = J.m3 = m; J.persist = J.nb == 2 ? "no" : "yes"; vh_at("%s, systems of %d variables, %d boxes", M[m].name, n, J.nb); vh_fork(sys_job, &J); } while(nextperm(J.perm, n));
  }
  /* algebraic conditions, tensors, changes, memory */
  for(m = 0; m < NM; m++) if(vh_unit("conditions:%d", m)) for(J.m3 = 2; J.m3 <= 4; J.m3++) for(J.m2 = 0; J.m2 < 4; J.m2++) for(J.nb = 1; J.nb <= 3; J.nb++) for(i = 0; i < 2; i++)
  {
    J.m = m; J.persist = i ? "no" : "yes";
    vh_at("%s, system %d, %s%s, %d boxes, evolve_persist=%s", M[m].name, J.m3, J.m2 & 1 ? "tensor first" : "scalar first", J.m2 & 2 ? ", algebraic condition" : "", J.nb, J.persist);
    vh_fork(alg_job, &J);
  }
  /* every sequence of three runge kutta methods */
  for(i = 2; i < NM; i++) for(j = 2; j < NM; j++) if(vh_unit("sequence:%d:%d", i, j)) for(k = 2; k < NM; k++)
  {
    if(!vh_thorough && k != i && (i+j+k)%4) continue;
    J.n = 3; J.nb = 1; J.m = i; J.m2 = j; J.m3 = k; J.persist = (i+j+k) & 1 ? "no" : "yes"; J.perm[0] = 0; J.perm[1] = 1; J.perm[2] = 2;
    vh_at("%s, then %s, then %s", M[i].name, M[j].name, M[k].name);
    vh_fork(sys_job, &J);
  }
  return vh_done();
}

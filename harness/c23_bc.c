/* C23: outer and excision boundary conditions: every selection of conditions, on grids of one to three boxes,
   in every way the integrators call set_boundary, every point of every variable afterwards. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_spec.h"
#undef exit
int evolve(tGrid *grid);
void evolve_vlregister(tVarList *u);
void evolve_rhsregister(void (*f)(tVarList *, tVarList *, double, tVarList *));
#define CHE "ChebExtrema"
#define CHZ "ChebZeros"
#define FOU "Fourier"
#define TPI (2*VS_PI)
/* outer = sphere at the right end of direction 1 only, otherwise all six faces */
typedef struct { const char *co, *bas[3]; double lim[6]; int sph; const char *par, *val; } tK;
static tK K[] = {
  {"SphericalDF", {CHE, FOU, FOU}, {1, 2, 0, TPI, 0, TPI}, 1, NULL, NULL},
  {"compactSphericalDF", {CHE, FOU, FOU}, {0, 0.75, 0, TPI, 0, TPI}, 1, "compactSphericalDF_r0", "0.5"},
  {"Spherical", {CHE, CHZ, FOU}, {1, 2, 0, VS_PI, 0, TPI}, 1, NULL, NULL},
  {"Spherical2", {CHE, CHZ, FOU}, {0.5, 2, -1, 1, 0, TPI}, 1, NULL, NULL},
  {"Spherical3", {CHE, CHZ, FOU}, {0.5, 2, -1, 1, 0, TPI}, 1, NULL, NULL},
  {"Cartesian", {CHE, CHZ, CHE}, {1, 2, 1, 2.5, -1, 1}, 0, NULL, NULL},
  {"Cartesian", {CHE, FOU, CHE}, {1, 2, 1, 2.5, -1, 1}, 0, NULL, NULL},
  {"Cartesian", {FOU, CHE, FOU}, {1, 2, 1, 2.5, -1, 1}, 0, NULL, NULL},
  {"SphericalDF", {"fd2_onesided", FOU, FOU}, {1, 2, 0, TPI, 0, TPI}, 1, NULL, NULL},
  {"SphericalDF", {CHZ, FOU, FOU}, {1, 2, 0, TPI, 0, TPI}, 1, NULL, NULL},
  {"Cartesian", {"fd2_periodic", "fd2_onesided", CHE}, {1, 2, 1, 2.5, -1, 1}, 0, NULL, NULL},
  {"Cartesian", {CHE, CHE, CHE}, {1, 2, 1, 2.5, -1, 1}, 0, NULL, NULL},   /* any bases */
};
#define NK ((int)(sizeof K/sizeof *K))
static const char *COND[] = {"radiative", "radiative_analytic", "constant", "constantExcision", "simpleExcision", "selectedconstantExcision", "VonNeumannExcision", "selectedVonNeumannExcision"};
enum { RAD = 1, RAN = 2, CON = 4, CEX = 8, SIM = 16, SCE = 32, VNE = 64, SVN = 128 };
static int nb, kind[3], sub, variant, rev, N[3]; static char cfg[400], sel[200]; static tGrid *g;
static const char *RC[] = {"", "bA bVy", "bVx bVz bA"}, *SV[] = {"bA", "bVx bVz", "bVy"};
static const char *VN[] = {"bA", "bVx", "bVy", "bVz"};
static const double FAR[] = {1.5, 0, -0.25, 3}, SPD[] = {2, 0.5, -1, 1.25};
static int listed(const char *list, const char *name) { char a[200], b[200]; sprintf(a, " %s ", list); sprintf(b, " %s ", name); return strstr(a, b) != NULL; }
static void setup(void)
{
  int b, c; sel[0] = 0;
  for(c = 0; c < 8; c++) { int cc = rev ? 7-c : c; if(sub >> cc & 1) { if(sel[0]) strcat(sel, " "); strcat(sel, COND[cc]); } }
  sprintf(cfg, "boundary=\"%s\" radconstant=\"%s\" selected=\"%s\" boxes", sel, RC[variant], SV[variant]);
  vg_begin(nb); vg_par("Coordinates_set_bfaces", "no"); vg_par("boundary", "%s", sel); vg_par("boundary_radconstant", "%s", RC[variant]); vg_par("boundary_selectedExcisionVars", "%s", SV[variant]);
  for(b = 0; b < nb; b++)
  {
    const tK *k = &K[kind[b]]; sprintf(cfg+strlen(cfg), " %s(%s)", k->co, k->bas[0]);
    vg_box(b, N[0]+(b == 1), N[1]+2*(b == 2), N[2], k->bas[0], k->bas[1], k->bas[2]); vg_bpar(b, "Coordinates", "%s", k->co);
    vg_lim(b, k->lim[0], k->lim[1], k->lim[2], k->lim[3], k->lim[4], k->lim[5]); if(k->par) vg_par(k->par, "%s", k->val);
  }
  sprintf(cfg+strlen(cfg), " n=%d,%d,%d", N[0], N[1], N[2]);
  vg_libs(); AddVar("temp1", "", ""); AddVar("temp2", "", ""); AddVar("temp3", "", ""); AddVar("ADMvars_dg", "(ij)k", ""); AddVar("bA", "", ""); AddVar("bV", "i", ""); AddVar("bO", "", "");
  for(c = 0; c < 4; c++) VarNameSetBoundaryInfo((char*)VN[c], FAR[c], 1, SPD[c]);
  g = vg_make(); vg_coords(g); enablevar(g, Ind("temp1")); enablevar(g, Ind("temp2")); enablevar(g, Ind("temp3")); enablevar(g, Ind("ADMvars_dgxxx")); enablevar(g, Ind("bO"));
  RunFun(PRE_INITIALDATA, g);
}
static int onouter(int b, int p)
{ tBox *x = g->box[b]; int i = p % x->n1, j = p/x->n1 % x->n2, k = p/x->n1/x->n2; if(b != nb-1) return 0;
  return i == x->n1-1 || (!K[kind[b]].sph && (i == 0 || j == 0 || j == x->n2-1 || k == 0 || k == x->n3-1)); }
static int oninner(int b, int p) { return b == 0 && K[kind[0]].sph && p % g->box[0]->n1 == 0; }
static void lists(void)
{ /* the list of all box boundary points */
  int b, p, d; 
  forallboxes(g, b)
  {
    tBox *x = g->box[b]; char *in = calloc(x->nnodes, 1); int q, ijk; int n[3] = {x->n1, x->n2, x->n3};
    forPointList_inbox(boxBoundaryPointList, x, q, ijk) in[ijk] = 1;
    forallpoints(x, p) { int ix[3] = {p % n[0], p/n[0] % n[1], p/n[0]/n[1]}, e = 0; for(d = 0; d < 3; d++) { const char *s = K[kind[b]].bas[d]; if(strcmp(s, FOU) && strcmp(s, "fd2_periodic") && (ix[d] == 0 || ix[d] == n[d]-1)) e = 1; } vh_evals++; if(in[p] != e) { vh_fail("list", "%s: point %d of box%d is %son the list of boundary points", cfg, p, b, e ? "not " : ""); break; } }
    free(in);
  }
}
static double val(int w, int v, int b, int p) { unsigned h = (w*131+v)*2654435761u ^ (b*977+p)*40503u; h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15; return (h & 0xfffff)/(double)0x100000 + 0.25*v + 1; }
static double *old[3][3][4], *ini[3][4], *od[3];
static void fill(tVarList *vl, int w) { int b, v, p; if(!vl) return; forallboxes(g, b) for(v = 0; v < vl->n; v++) { double *u = g->box[b]->v[vl->index[v]]; forallpoints(g->box[b], p) u[p] = val(w, v, b, p); } }
static int call(tVarList *un, tVarList *up, double c, tVarList *uc, double t, const char *how)
{
  int b, v, p, l; tVarList *L[3] = {un, up, uc}; static long ser; double *o; char where[600];
  int alias[3] = {0, 1, uc == up ? 1 : 2};
  sprintf(where, "%s %s c=%g t=%g", cfg, how, c, t); vh_at("%s", where); vh_trans++; vh_states++; ser++;
  un->time = up->time = uc->time = t; if(uc != up) uc->time = t;
  for(l = 0; l < 3; l++) if(l == alias[l]) fill(L[l], 10*l + ser % 7);
  forallboxes(g, b)
  {
    tBox *x = g->box[b]; o = x->v[Ind("bO")]; forallpoints(x, p) o[p] = p; 
    for(l = 0; l < 3; l++) for(v = 0; v < un->n; v++) { if(!old[b][l][v]) old[b][l][v] = malloc(x->nnodes*sizeof(double)); memcpy(old[b][l][v], x->v[L[l]->index[v]], x->nnodes*sizeof(double)); if(!ini[b][v]) ini[b][v] = malloc(x->nnodes*sizeof(double)); if((sub & RAN) && t == 0 && l == 1) memcpy(ini[b][v], old[b][1][v], x->nnodes*sizeof(double)); }
  }
  set_boundary(un, up, c, uc);
  forallboxes(g, b)
  {
    tBox *x = g->box[b]; double *dx[3], *di[3], *dX = malloc(x->nnodes*sizeof(double)), *px = x->v[x->x_of_X[1] ? Ind("x") : Ind("X")], *py = x->v[x->x_of_X[1] ? Ind("y") : Ind("Y")], *pz = x->v[x->x_of_X[1] ? Ind("z") : Ind("Z")];
    for(l = 0; l < 3; l++) { dx[l] = malloc(x->nnodes*sizeof(double)); di[l] = malloc(x->nnodes*sizeof(double)); }
    o = x->v[Ind("bO")]; forallpoints(x, p) if(o[p] != p) { vh_fail("others", "%s: changes a variable that is not in the list, box%d point %d", where, b, p); break; }
    for(v = 0; v < un->n; v++)
    {
      double *un_ = x->v[un->index[v]], *a = old[b][0][v], *pre = old[b][1][v], *cur = old[b][2][v]; int selv = listed(SV[variant], VN[v]), radc = listed(RC[variant], VN[v]); double sp = radc ? 0 : SPD[v];
      for(l = 1; l < 3; l++) if(memcmp(x->v[L[l]->index[v]], old[b][l][v], x->nnodes*sizeof(double))) { vh_fail("input", "%s: changes its input %s in box%d", where, l == 1 ? "upre" : "ucur", b); return 0; }
      if(b == nb-1 && (sub & RAD)) cart_partials(x, old[b][2][v], dx[0], dx[1], dx[2]);
      if(b == nb-1 && (sub & RAN)) { if(!(sub & RAD)) cart_partials(x, old[b][2][v], dx[0], dx[1], dx[2]); cart_partials(x, ini[b][v], di[0], di[1], di[2]); }
      spec_Deriv1(x, 1, un_, dX);
      forallpoints(x, p)
      {
        int out = onouter(b, p), inn = oninner(b, p), nc = 0, ok = 0; double u = un_[p], e = a[p], tol; char names[300] = "unchanged value"; double r = sqrt(px[p]*px[p]+py[p]*py[p]+pz[p]*pz[p]); vh_evals++;
#define CAND(cond, value, tolerance, text) if(cond) { double ee = (value); tol = (tolerance); if(!nc) { strcpy(names, text); e = ee; } nc++; if(fabs(u-ee) <= tol) ok = 1; }
        CAND(out && (sub & CON), c == 0 ? 0 : pre[p], 0, "constant");
        CAND(out && (sub & RAD), (c == 0 ? 0 : pre[p]) + (c == 0 ? 1 : c)*(-sp*(cur[p]-FAR[v])/r - sp*(px[p]*dx[0][p]+py[p]*dx[1][p]+pz[p]*dx[2][p])/r), 1e-11*(10+fabs(dx[0][p])+fabs(dx[1][p])+fabs(dx[2][p])), "outgoing radiation");
        CAND(out && (sub & RAN), (c == 0 ? 0 : pre[p]) + (c == 0 ? 1 : c)*(-sp*(cur[p]-ini[b][v][p])/r - sp*(px[p]*(dx[0][p]-di[0][p])+py[p]*(dx[1][p]-di[1][p])+pz[p]*(dx[2][p]-di[2][p]))/r), 1e-11*(10+fabs(dx[0][p])+fabs(dx[1][p])+fabs(dx[2][p])+fabs(di[0][p])+fabs(di[1][p])+fabs(di[2][p])), "radiation of the difference to the initial data");
        CAND(inn && ((sub & CEX) || (selv && (sub & SCE))), c == 0 ? 0 : pre[p], 0, "constant");
        CAND(inn && (sub & SIM), (c == 0 ? 0 : pre[p]-pre[p+1]) + un_[p+1], 1e-13, "change of the neighbour");
        if(inn && ((sub & VNE) || (selv && (sub & SVN)))) { double s = fabs(dX[p]), w = x->n1*x->n1*20; if(!nc) strcpy(names, "zero normal derivative"); nc++; if(s <= 1e-12*w) ok = 1; e = s; }
        if(!nc) ok = memcmp(&u, &a[p], sizeof u) == 0;
        if(!ok) { vh_fail(nc ? "value" : "elsewhere", "%s: %s in box%d at point %d%s is %.17g (was %.17g), wanted %s (%.17g)", where, VN[v], b, p, out ? " (outer boundary)" : inn ? " (excision boundary)" : " (no boundary)", u, a[p], names, e); return 0; }
      }
    }
    for(l = 0; l < 3; l++) { free(dx[l]); free(di[l]); } free(dX);
  }
  return 1;
}
static tVarList *base(void) { tVarList *vl = vlalloc(g); vlpush(vl, Ind("bA")); vlpush(vl, Ind("bVx")); enablevarlist(vl); return vl; }
static void bc(void *arg)
{
  tVarList *u, *p, *q, *r, *s, *w; double t; int k; (void)arg;
  setup(); lists(); u = base(); p = AddDuplicateEnable(u, "_p"); q = AddDuplicateEnable(u, "_q"); r = AddDuplicateEnable(u, "_r"); s = AddDuplicateEnable(u, "_s"); w = AddDuplicateEnable(u, "_w");
  for(k = 0; k < 2; k++) for(t = 0; t < 0.6; t += 0.25)
  { /* icn, runge kutta (first and later stages), euler */
    double c = k ? 0.125 : 0.5;
    if(!call(u, p, c, q, t, "as icn") || !call(r, p, 0, u, t, "as rk, first stage") || !call(w, p, 0, u, t, "as rk, later stage") || !call(r, p, 0, s, t == 0 ? 1 : t, "as rk4, later stage") || !call(u, p, c, p, t, "as euler")) return;
  }
  vh_distinct++;
  vh_sample("%s: all calls agree", cfg);
}
static void direct(void *arg)
{ /* the functions which set values and derivatives on any list of points */
  int d, right, b, p, bb; (void)arg; sub = 0; setup(); enablevar(g, Ind("bA"));
  forallboxes(g, bb) for(d = 1; d <= 3; d++) for(right = 0; right < 3; right++) for(b = 0; b < 2; b++)
  {
    tBox *x = g->box[bb]; tPointList *PL = AllocatePointList(g); int n[3] = {x->n1, x->n2, x->n3}, id = Ind("bA"), c; double want = b ? -1.75 : 0, *u, *dX = malloc(x->nnodes*sizeof(double)); const char *s = K[kind[bb]].bas[d-1];
    if(right < 2 && (!strcmp(s, FOU) || !strcmp(s, "fd2_periodic"))) { free(dX); FreePointList(PL); continue; }
    forallpoints(x, p) { int ix[3] = {p % n[0], p/n[0] % n[1], p/n[0]/n[1]}; if(right == 2 ? p % 3 == b : ix[d-1] == (right ? n[d-1]-1 : 0) && (b || (ix[d%3]+ix[(d+1)%3]) % 2)) AddToPointList(PL, bb, p); }
    forallboxes(g, c) { u = g->box[c]->v[id]; forallpoints(g->box[c], p) u[p] = val(d, right, c, p); }
    vh_trans++; vh_states++; vh_distinct++; vh_at("direct box%d direction %d side %d", bb, d, right);
    if(right == 2) set_boundary_value(PL, id, want); else if(right) set_boundary_normalderiv_rightBound(PL, d, id, want); else set_boundary_normalderiv_leftBound(PL, d, id, want);
    forallboxes(g, c)
    {
      tBox *y = g->box[c]; char *in = calloc(y->nnodes, 1); int q, ijk; if(c == bb) forPointList_inbox(PL, y, q, ijk) in[ijk] = 1; u = y->v[id]; if(right < 2 && c == bb) spec_Deriv1(y, d, u, dX);
      forallpoints(y, p) { vh_evals++; if(!in[p] ? u[p] != val(d, right, c, p) : right == 2 ? u[p] != want : !(fabs(dX[p]-want) <= 1e-12*20*n[d-1]*n[d-1]*3)) { vh_fail(in[p] ? "direct-value" : "direct-elsewhere", "%s: %s in direction %d, point %d of box%d: value %.17g derivative %.17g, wanted %g", cfg, right == 2 ? "set value" : right ? "set derivative on the right" : "set derivative on the left", d, p, c, u[p], c == bb && right < 2 ? dX[p] : 0, in[p] ? want : val(d, right, c, p)); break; } }
      free(in);
    }
    FreePointList(PL); free(dX);
  }
}
/* whole steps with each integrator and a pointwise right hand side: what the conditions keep must be kept, everything else must be as without them */
static int bcon;
static void rhs(tVarList *un, tVarList *up, double dt, tVarList *uc)
{
  int b, p, v;
  forallboxes(g, b) for(v = 0; v < un->n; v++) { double *n = g->box[b]->v[un->index[v]], *o = g->box[b]->v[up->index[v]], *c = g->box[b]->v[uc->index[v]], *c1 = g->box[b]->v[uc->index[(v+1) % un->n]]; forallpoints(g->box[b], p) { double f = sin(c[p]) - 0.5*c[p] + 0.25*cos(v + 0.1*p); (void)c1; n[p] = dt == 0 ? f : o[p] + dt*f; } }
  if(bcon) set_boundary(un, up, dt, uc);
}
static const char *METH[] = {"icn", "euler", "rk1", "rk2", "rk2a", "rk3", "rk3a", "rk3b", "rk4", "rk4a", "rk5", "midpoint"};
static void start(void)
{
  int b, v, p; tVarList *u = base(); 
  forallboxes(g, b) for(v = 0; v < 4; v++)
  { tBox *x = g->box[b]; double *a = x->v[u->index[v]], *dX = malloc(x->nnodes*sizeof(double)); forallpoints(x, p) a[p] = val(3, v, b, p);
    if(b == 0 && K[kind[0]].sph && (sub & (VNE|SVN))) { spec_Deriv1(x, 1, a, dX); forallpoints(x, p) if(p % x->n1 == 0) a[p] -= dX[p]/x->D1[0]; } free(dX); }
  g->time = 0; g->iteration = 0; g->dt = 0.125; vlfree(u);
}
static void integ(void *arg)
{
  int m = *(int*)arg, st, b, v, p; tVarList *u; double *ref[3][4], *first[3][4], *own[3][4], *dX;
  setup(); vg_par("evolution_method", "%s", m < 2 ? METH[m] : "rk"); if(m >= 2) vg_par("evolution_method_rk", "%s", METH[m]);
  u = base(); evolve_vlregister(u); evolve_rhsregister(rhs);
  for(bcon = 0; bcon < 2; bcon++)
  {
    start(); if(!bcon) forallboxes(g, b) for(v = 0; v < 4; v++) { first[b][v] = malloc(g->box[b]->nnodes*sizeof(double)); memcpy(first[b][v], g->box[b]->v[u->index[v]], g->box[b]->nnodes*sizeof(double)); }
    for(st = 0; st < 3; st++) { vh_trans++; vh_at("%s step %d", METH[m], st); evolve(g); g->iteration++; g->time = g->iteration*g->dt; }
    forallboxes(g, b) for(v = 0; v < 4; v++) { double **r = bcon ? &own[b][v] : &ref[b][v]; *r = malloc(g->box[b]->nnodes*sizeof(double)); memcpy(*r, g->box[b]->v[u->index[v]], g->box[b]->nnodes*sizeof(double)); }
  }
  forallboxes(g, b) for(v = 0; v < 4; v++)
  {
    tBox *x = g->box[b]; int selv = listed(SV[variant], VN[v]); dX = malloc(x->nnodes*sizeof(double)); spec_Deriv1(x, 1, own[b][v], dX); vh_states++; vh_distinct++;
    forallpoints(x, p)
    {
      int out = onouter(b, p) && (sub & CON), inn = oninner(b, p); double w = own[b][v][p], f = first[b][v][p], e = 0, tol = 1e-13; const char *what = "as without conditions"; vh_evals++;
      if(out || (inn && ((sub & CEX) || (selv && (sub & SCE))))) { e = w-f; what = "unchanged"; }
      else if(inn && (sub & SIM)) { e = w-own[b][v][p+1]-f+first[b][v][p+1]; what = "changed as its neighbour"; }
      else if(inn && ((sub & VNE) || (selv && (sub & SVN)))) { e = dX[p]; what = "at zero normal derivative"; tol = 1e-12*20*x->n1*x->n1; }
      else { e = w-ref[b][v][p]; tol = 0; }
      if(!(fabs(e) <= tol)) { vh_fail("integrator", "%s after three steps of %s: %s in box%d at point %d%s is %.17g (initially %.17g) but should be %s (difference %g)", cfg, METH[m], VN[v], b, p, out ? " (outer boundary)" : inn ? " (excision boundary)" : "", w, f, what, e); return; }
    }
    free(dX);
  }
}
static const char *ANY[] = {CHE, CHZ, FOU, "fd2_onesided", "fd2_periodic"};
static void bases(void *v) { (void)v; setup(); lists(); }
int main(int argc, char **argv)
{
  static const int LAY[][4] = {{1, 0}, {1, 5}, {2, 0, 5}, {2, 5, 0}, {2, 2, 1}, {3, 0, 6, 3}, {1, 8}, {3, 7, 0, 5}, {1, 2}, {1, 3}, {1, 4}, {1, 1}, {2, 9, 10}, {3, 4, 5, 7}, {1, 6}, {2, 3, 9}};
  static const int ONE[] = {CON, CEX, SIM, SCE, VNE, SVN, CON|CEX, CON|SIM, CON|SCE, CON|VNE, CON|SVN};
  int l, m, i; vh_init(argc, argv);
  for(l = 0; l < 16; l++) for(sub = 0; sub < 256; sub++) for(variant = 0; variant < 3; variant++)
  {
    if(!vh_thorough && l >= 6 && variant != l % 3) continue; if(!vh_thorough && variant == 2 && l % 2) continue;
    nb = LAY[l][0]; for(i = 0; i < nb; i++) kind[i] = LAY[l][1+i]; rev = (sub+variant) % 2; N[0] = l == 4 ? 2 : 4+l % 2; N[1] = 4; N[2] = l % 3 ? 4 : 6;
    if(vh_unit("bc:%d:%d:%d", l, sub, variant)) vh_fork(bc, NULL);
  }
  for(l = 0; l < 16; l++) for(i = 3; i <= 6; i++) { int j; variant = 0; rev = 0; nb = LAY[l][0]; for(j = 0; j < nb; j++) kind[j] = LAY[l][1+j]; N[0] = i; N[1] = i % 2 ? 4 : 6; N[2] = 4; if(vh_unit("direct:%d:%d", l, i)) vh_fork(direct, NULL); }
  for(l = 0; l < 125; l++) for(i = 0; i < 2; i++) if(vh_unit("bases:%d:%d", l, i))
  {
    int d[3] = {l % 5, l/5 % 5, l/25}; for(m = 0; m < 3; m++) K[NK-1].bas[m] = ANY[d[m]];
    sub = CON; variant = 0; rev = 0; nb = 2; kind[i] = NK-1; kind[1-i] = 5; N[0] = 4; N[1] = 4+2*i; N[2] = 6; vh_fork(bases, NULL);
  }
  for(l = 0; l < 16; l++) for(m = 0; m < 12; m++) for(i = 0; i < 11; i++) for(variant = 0; variant < 3; variant++)
  { int j; if(!vh_thorough && variant != (l+m+i) % 3) continue; sub = ONE[i]; rev = 0; nb = LAY[l][0]; for(j = 0; j < nb; j++) kind[j] = LAY[l][1+j]; N[0] = 4; N[1] = 4; N[2] = 4; if(vh_unit("integ:%d:%d:%d:%d", l, m, i, variant)) vh_fork(integ, &m); }
  return vh_done();
}

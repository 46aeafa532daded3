/* C34: reading a checkpoint that was written on another grid: the listed variables
   are interpolated, the listed parameters taken over, everything else stays. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#undef exit
#include "vh_spec.h"
void checkpoint_write(tGrid *grid);
void checkpoint_interpolate_Vars_get_Pars(char *filename, tVarList *varlist, char *parlist);
void read_checkpoint_into_grid2_pdb2(tGrid *grid, char *filename, tGrid **grid2, tParameter **pdb2);
void free_pdb(tParameter *pdb1, int npdb1);
extern tParameter *pdb;
extern int npdb;

#define NV 5
static const char *VN[NV] = {"ckux", "ckuy", "ckuz", "ckv", "ckw"};
static const char *BAS[] = {"ChebExtrema", "Fourier", "ChebZeros"};
typedef struct { int nb, bA[3], bB[3], nA[2][3], nB[2][3], lA, lB, co, par, vars, nokeep, dir; double time; int it; int fail; char msg[700]; } conf;
static conf *C;
static char D[600], F[700];
static const double LIM[4][6] = {{0, 1, 0, 1, -1, 1}, {-0.5, 2, 1, 1.75, 0.125, 3}, {10, 10.5, -7, -6, 1e-3, 2e-3}, {1./3, 2./3, -1./7, 3, 0, 1e3}};
static const double LIMS[4][2] = {{1, 2}, {0.5, 3}, {10, 10.5}, {1./3, 2./3}};
static int bad(const char *f, ...)
{
  va_list ap;
  if(C->fail) return 0;
  C->fail = 1; va_start(ap, f); vsnprintf(C->msg, 699, f, ap); va_end(ap);
  return 0;
}
/* factor of direction d of variable v in box b: in the basis with n points */
static double fac(int bas, int n, double lo, double hi, double X, int b, int v, int d)
{
  int m; double s = 0, t = (2*X-lo-hi)/(hi-lo);
  if(bas == 1) { for(m = 0; 2*m < n; m++) s += (1 + 0.3*((b+2*v+3*d+m)%5))*cos(2*PI*m*(X-lo)/(hi-lo)) + 0.2*((b+v+d+m)%3)*sin(2*PI*m*(X-lo)/(hi-lo)); return s; }
  for(m = 0; m < n; m++) s += (0.4 + 0.3*((b+2*v+3*d+m)%5) - 0.1*m)*cos(m*acos(t < -1 ? -1 : t > 1 ? 1 : t));
  return s;
}
static void lim(int b, int which, double *l)
{
  int k;
  if(C->co == 1) { l[0] = LIMS[which][0]+b; l[1] = LIMS[which][1]+b; l[2] = 0; l[3] = 2*PI; l[4] = 0; l[5] = 2*PI; }
  else for(k = 0; k < 6; k++) l[k] = LIM[which][k] + (b && k < 2 ? 1.25 : 0) + (b && k > 3 ? 0.5 : 0);
}
static double f(int b, int v, double X, double Y, double Z)
{
  double l[6]; lim(b, C->lA, l);
  double x = fac(C->bA[0], C->nA[b][0], l[0], l[1], X, b, v, 0);
  if(v == 1 && b == 1) return 0; /* zero in a whole box, and zero at the first point */
  if(v == 2) x -= fac(C->bA[0], C->nA[b][0], l[0], l[1], l[0], b, v, 0);
  x *= fac(C->bA[1], C->nA[b][1], l[2], l[3], Y, b, v, 1)*fac(C->bA[2], C->nA[b][2], l[4], l[5], Z, b, v, 2)*(1+b);
  return v == 2 ? x : x+v;
}
static double mark(int b, int v, int i) { return 64 + b + 0.125*v + 1e-3*i; }

static tGrid *build(int second)
{
  int b; tGrid *g; double l[6];
  vg_begin(C->nb);
  vg_par("outdir", "%s", D);
  vg_par("checkpoint", "yes");
  if(C->nokeep) vg_par("checkpoint_no_read_parlist", "tp2 outdir");
  for(b = 0; b < C->nb; b++)
  {
    const int *n = second ? C->nB[b] : C->nA[b], *s = second ? C->bB : C->bA;
    vg_box(b, n[0], n[1], n[2], BAS[s[0]], BAS[s[1]], BAS[s[2]]);
    lim(b, second ? C->lB : C->lA, l); vg_lim(b, l[0], l[1], l[2], l[3], l[4], l[5]);
    vg_bpar(b, "Coordinates", C->co ? "SphericalDF" : "Cartesian");
  }
  vg_par("Coordinates_verbose", "no");
  vg_par("tp1", second ? "old one" : "new and longer"); vg_par("tp2", second ? "2" : "3.25"); vg_par("tp12", second ? "x" : "y");
  vg_par(second ? "onlyB" : "onlyA", "1");
  vg_par("checkpoint_variables", "all");
  vg_libs();
  AddVar("cku", "i", ""); AddVar("ckv", "", ""); AddVar("ckw", "", ""); AddVar("temp1", "", "");
  g = vg_make();
  vg_coords(g);
  enablevar(g, Ind("temp1"));
  enablevar(g, Ind("ckux")); enablevar(g, Ind("ckv")); enablevar(g, Ind("ckw"));
  return g;
}
static void writer(void *a)
{
  tGrid *g = build(0); int b, v, i;
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++)
  { tBox *x = g->box[b]; double *d = x->v[Ind((char*)VN[v])]; for(i = 0; i < x->nnodes; i++) d[i] = f(b, v, x->v[Ind("X")][i], x->v[Ind("Y")][i], x->v[Ind("Z")][i]); }
  g->time = C->time; g->iteration = C->it;
  checkpoint_write(g);
}
static const char *PARS[] = {"", "tp1", "tp2 tp1", "tp12", "tp1 tp2 tp12"};
static int listed(const char *n)
{
  char w[300], *t; int b, k; static const char *E[] = {"min1", "max1", "min2", "max2", "min3", "max3", "CI_s", "CI_xc"};
  snprintf(w, 299, "%s", PARS[C->par]);
  for(t = strtok(w, " "); t; t = strtok(NULL, " ")) if(!strcmp(t, n)) return 1;
  for(b = 0; b < C->nb; b++) for(k = 0; k < 8; k++) { snprintf(w, 299, "box%d_%s", b, E[k]); if(!strcmp(w, n)) return 2; }
  return 0;
}
static const char *wantpar(const char *n, const char *old)
{
  static char v[100]; int b, k; double l[6]; static const char *E[] = {"min1", "max1", "min2", "max2", "min3", "max3"};
  if(!strcmp(n, "tp1")) return "new and longer"; 
  if(!strcmp(n, "tp2")) return C->nokeep ? "2" : "3.25";
  if(!strcmp(n, "tp12")) return "y";
  for(b = 0; b < C->nb; b++) for(k = 0; k < 6; k++) { snprintf(v, 99, "box%d_%s", b, E[k]); if(!strcmp(v, n)) { lim(b, C->lA, l); snprintf(v, 99, "%.17g", l[k]); return v; } }
  return old;
}
static int close_(double a, double b, double s) { return fabs(a-b) <= 1e-11*(s+fabs(b)); }
static void reader(void *a)
{
  tGrid *g = build(1); int b, v, i, d, n0 = npdb; tVarList *vl = vlalloc(g); char **on, **ov;
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++)
  { double *p = g->box[b]->v[Ind((char*)VN[v])]; for(i = 0; i < g->box[b]->nnodes; i++) p[i] = mark(b, v, i); }
  g->time = -3; g->iteration = 77;
  on = calloc(n0, sizeof(*on)); ov = calloc(n0, sizeof(*ov));
  for(i = 0; i < n0; i++) { on[i] = strdup(pdb[i].name); ov[i] = strdup(pdb[i].value); }
  if(C->dir)
  {
    tGrid *g2; tParameter *p2, *sw;
    read_checkpoint_into_grid2_pdb2(g, F, &g2, &p2);
    if(memcmp(&g2->time, &C->time, 8) || g2->iteration != C->it) bad("grid2 has time %.17g and iteration %d, expected %.17g %d", g2->time, g2->iteration, C->time, C->it);
    for(b = 0; b < C->nb; b++)
    {
      tBox *x = g2->box[b]; double l[6]; lim(b, C->lA, l);
      if(x->n1 != C->nA[b][0] || x->n2 != C->nA[b][1] || x->n3 != C->nA[b][2]) { bad("box %d of grid2 has %d %d %d points", b, x->n1, x->n2, x->n3); return; }
      for(i = 0; i < 6; i++) if(x->bbox[i] != l[i]) bad("bbox[%d] of box %d of grid2 is %.17g, expected %.17g", i, b, x->bbox[i], l[i]);
      for(v = 0; v < NV; v++) { double *p = x->v[Ind((char*)VN[v])]; if(!p) { bad("%s is not enabled on grid2", VN[v]); return; } for(i = 0; i < x->nnodes; i++) { double w = f(b, v, x->v[Ind("X")][i], x->v[Ind("Y")][i], x->v[Ind("Z")][i]); if(!close_(p[i], w, 1)) bad("%s on grid2, box %d, point %d is %.17g, expected %.17g", VN[v], b, i, p[i], w); } }
    }
    sw = pdb; pdb = p2;
    for(i = 0; i < n0; i++)
    {
      const char *w = wantpar(on[i], NULL), *s = GetsLax(on[i]);
      if(w && (!s || strcmp(s, w))) bad("parameter %s of pdb2 is |%s|, expected |%s|", on[i], s ? s : "NULL", w);
    }
    if(strcmp(Gets("onlyB"), "1")) bad("parameter onlyB of pdb2 is |%s|", Gets("onlyB"));
    pdb = sw;
    for(i = 0; i < n0; i++) if(!GetsLax(on[i]) || strcmp(GetsLax(on[i]), ov[i])) bad("parameter %s is changed from |%s| to |%s| by reading into grid2 and pdb2", on[i], ov[i], GetsLax(on[i]));
    for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++) { double *p = g->box[b]->v[Ind((char*)VN[v])]; for(i = 0; i < g->box[b]->nnodes; i++) if(p[i] != mark(b, v, i)) bad("%s of the first grid is changed", VN[v]); }
    if(g->time != -3 || g->iteration != 77) bad("time or iteration of the first grid is changed");
    free_grid(g2); free_pdb(p2, npdb);
    return;
  }
  for(v = 0; v < NV; v++) if((C->vars >> v) & 1) vlpushone(vl, Ind((char*)VN[v]));
  checkpoint_interpolate_Vars_get_Pars(F, vl, (char*)PARS[C->par]);
  for(i = 0; i < n0; i++)
  {
    const char *s = GetsLax(on[i]), *w = listed(on[i]) ? wantpar(on[i], ov[i]) : ov[i];
    if(!s || strcmp(s, w)) bad("parameter %s is |%s|, expected |%s| (it was |%s|)", on[i], s ? s : "NULL", w, ov[i]);
  }
  if(GetsLax("onlyA")) bad("parameter onlyA appears");
  if(g->time != -3 || g->iteration != 77) bad("time or iteration is changed to %g %d", g->time, g->iteration);
  for(b = 0; b < C->nb; b++)
  {
    tBox *x = g->box[b]; double l[6], *X = x->v[Ind("X")], *Y = x->v[Ind("Y")], *Z = x->v[Ind("Z")]; int nx[3] = {x->n1, x->n2, x->n3}; lim(b, C->lA, l);
    for(d = 0; d < 3; d++) if(nx[d] != C->nB[b][d]) { bad("box %d has %d points in direction %d", b, nx[d], d); return; }
    for(i = 0; i < 6; i++) if(x->bbox[i] != l[i]) bad("bbox[%d] of box %d is %.17g, expected %.17g", i, b, x->bbox[i], l[i]);
    for(i = 0; i < x->nnodes; i++)
    {
      double q[3], P[3] = {X[i], Y[i], Z[i]}; int k[3] = {i%x->n1, (i/x->n1)%x->n2, i/(x->n1*x->n2)};
      for(d = 0; d < 3; d++)
      {
        double s; int n = nx[d];
        if(C->bB[d] == 1) s = (double)k[d]/n; else if(C->bB[d] == 0) s = n > 1 ? 0.5*(1-cos(PI*k[d]/(n-1))) : 0.5; else s = 0.5*(1-cos(PI*(2*k[d]+1)/(2.*n)));
        q[d] = l[2*d] + s*(l[2*d+1]-l[2*d]);
        if(!(fabs(P[d]-q[d]) <= 1e-12*(fabs(l[2*d])+fabs(l[2*d+1])))) { bad("coordinate %d of point %d of box %d is %.17g, expected %.17g", d, i, b, P[d], q[d]); return; }
      }
      if(C->co == 1) { double th = P[1] + PI/((1+x->n2%2)*x->n2); q[0] = P[0]*sin(th)*cos(P[2]); q[1] = P[0]*sin(th)*sin(P[2]); q[2] = P[0]*cos(th); } else memcpy(q, P, sizeof q);
      if(x->v[Ind("x")]) for(d = 0; d < 3; d++) if(!close_(x->v[Ind("x")+d][i], q[d], fabs(l[0])+fabs(l[1]))) bad("Cartesian coordinate %d of point %d of box %d is %.17g, expected %.17g", d, i, b, x->v[Ind("x")+d][i], q[d]);
      for(v = 0; v < NV; v++)
      {
        double *p = x->v[Ind((char*)VN[v])], w = f(b, v, P[0], P[1], P[2]);
        if(!((C->vars >> v) & 1)) { if(p[i] != mark(b, v, i)) bad("%s, which is not in the list, is changed", VN[v]); }
        else if(!close_(p[i], w, 20)) bad("%s, box %d, point %d is %.17g, expected %.17g", VN[v], b, i, p[i], w);
      }
    }
    /* the derivative matrices belong to the new limits */
    {
      double *u = x->v[Ind("temp1")], *du = calloc(x->nnodes, sizeof(double));
      for(d = 0; d < 3; d++)
      {
        if(nx[d] < 3) continue;
        for(i = 0; i < x->nnodes; i++) { double P[3] = {X[i], Y[i], Z[i]}; u[i] = C->bB[d] == 1 ? sin(2*PI*(P[d]-l[2*d])/(l[2*d+1]-l[2*d])) : P[d]-l[2*d]; }
        spec_Deriv1(x, d+1, u, du);
        for(i = 0; i < x->nnodes; i++) { double P[3] = {X[i], Y[i], Z[i]}, w = C->bB[d] == 1 ? 2*PI/(l[2*d+1]-l[2*d])*cos(2*PI*(P[d]-l[2*d])/(l[2*d+1]-l[2*d])) : 1; if(!(fabs(du[i]-w) <= 1e-9*(1+fabs(w)))) bad("derivative in direction %d of box %d is %.17g at point %d, expected %.17g", d, b, du[i], i, w); }
      }
      free(du);
    }
  }
}
static void go(const char *what)
{
  struct stat sb;
  vh_at("%s", what);
  vh_evals++; vh_states++; vh_distinct++; vh_trans += 2;
  C->fail = 0; C->msg[0] = 0;
  unlink(F);
  vh_fork(writer, NULL);
  if(stat(F, &sb)) { vh_fail("written", "no checkpoint is written to %s [%s]", F, what); return; }
  vh_fork(reader, NULL);
  if(C->fail) vh_fail(C->dir ? "read" : "interpolate", "%s [%s]", C->msg, what);
}
static void reset(void)
{
  int b, d; memset(C, 0, sizeof *C);
  C->nb = 1; for(b = 0; b < 2; b++) for(d = 0; d < 3; d++) { C->nA[b][d] = 3 + (b+d)%2; C->nB[b][d] = 4 - (b+d)%2; }
  C->lA = 1; C->vars = 31; C->par = 4; C->time = 0.1; C->it = 12;
}
int main(int argc, char **argv)
{
  int i, j, k, d; const char *sc; char w[300];
  vh_init(argc, argv);
  C = mmap(NULL, sizeof(conf), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  sc = getenv("VH_SCRATCH"); if(!sc) sc = ".";
  snprintf(D, 599, "%s/d%d", sc, vh_shard); mkdir(D, 0777); 
  { char t[700]; snprintf(t, 699, "%s/checkpoint", D); mkdir(t, 0777); snprintf(t, 699, "%s_previous", D); mkdir(t, 0777); }
  snprintf(F, 699, "%s/checkpoint.0", D);
  /* numbers of points */
  for(d = 0; d < 3; d++) for(i = 2; i <= (vh_thorough ? 8 : 5); i++) for(j = 2; j <= (vh_thorough ? 9 : 6); j++) for(k = 0; k < 3; k++) if(vh_unit("points:%d:%d:%d:%d", d, i, j, k))
  { int q; for(q = 0; q < 2; q++) { reset(); C->bA[d] = C->bB[d] = k; C->nA[0][d] = i; C->nB[0][d] = j; if(C->bA[d] == 1 && i < 3) { C->nA[0][d] = 3; } C->dir = q; snprintf(w, 299, "direction %d, %d -> %d points, %s", d, i, j, BAS[k]); go(w); vh_sample("%s", w); } }
  /* bases on both sides */
  for(i = 0; i < 27; i++) if(vh_unit("bases:%d", i)) for(j = 0; j < (vh_thorough ? 27 : 9); j++)
  {
    int q = i, r = vh_thorough ? j : (j*5+i)%27, l; reset();
    for(d = 0; d < 3; d++) { C->bA[d] = q%3; C->bB[d] = r%3; q /= 3; r /= 3; C->nA[0][d] = 3+d; C->nB[0][d] = 5-d; }
    for(l = 0; l < 2; l++) { C->dir = l; snprintf(w, 299, "bases %d%d%d -> %d%d%d", C->bA[0], C->bA[1], C->bA[2], C->bB[0], C->bB[1], C->bB[2]); go(w); }
  }
  /* two boxes, limits, parameters, variables, kept parameters, coordinates */
  for(i = 0; i < 4; i++) for(j = 0; j < 4; j++) for(k = 0; k < 2; k++) if(vh_unit("limits:%d:%d:%d", i, j, k))
  { int q; for(q = 0; q < 2; q++) { reset(); C->nb = k+1; C->lA = i; C->lB = j; C->dir = q; snprintf(w, 299, "limits %d -> %d, %d boxes", j, i, k+1); go(w); C->co = 1; C->bA[1] = C->bB[1] = C->bA[2] = C->bB[2] = 1; go(w); } }
  for(i = 0; i < 5; i++) for(j = 0; j < 2; j++) for(k = 0; k < 2; k++) if(vh_unit("parameters:%d:%d:%d", i, j, k))
  { reset(); C->par = i; C->nokeep = j; C->nb = 2; C->dir = k; snprintf(w, 299, "parameters '%s', kept %d", PARS[i], j); go(w); }
  for(i = 0; i < 32; i++) if(vh_unit("variables:%d", i))
  { reset(); C->vars = i; C->nb = 1+i%2; snprintf(w, 299, "variables %d", i); go(w); }
  for(i = 0; i < 6; i++) if(vh_unit("time:%d", i))
  { double T[] = {0, -1.5, 1./3, 1e300, 5e-324, 123456789.123456789}; reset(); C->dir = 1; C->time = T[i]; C->it = i*1000001; snprintf(w, 299, "time %g", T[i]); go(w); C->dir = 0; go(w); }
  return vh_done();
}

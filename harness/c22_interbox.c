/* C22: the conditions between boxes on every layout of vh_lay.h.  Oracle: for
   each patch point the place in the other box gives cardinal functions
   (barycentric resp. trigonometric), the condition must be value minus
   interpolated value, or the same with outward normal derivatives. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_spec.h"
#undef exit
#include "vh_sys.h"
#include "vh_lay.h"
#define SENT 7e33
static int iF, iP, iD[4];
static int fourier(int b, int d) { if(L->kind == 2) return d > 0; if(L->kind == 3 && b < 4) return d == 2; return 0; }
/* cardinal functions of box y in direction d at coordinate c */
static void card(tBox *y, int d, double c, double *w)
{
  int n[3] = {y->n1, y->n2, y->n3}, st[3] = {1, y->n1, y->n1*y->n2}, i, N = n[d]; double *x = y->v[Ind("X")+d], lo = y->bbox[2*d], hi = y->bbox[2*d+1], len = hi-lo;
  for(i = 0; i < N; i++) w[i] = 0;
  if(!fourier(y->b, d)) { if(c < lo) c = lo; if(c > hi) c = hi; }
  for(i = 0; i < N; i++) { double u = c-x[i*st[d]]; if(fourier(y->b, d)) u -= len*rint(u/len); if(fabs(u) < 1e-9*len) { w[i] = 1; return; } }
  if(fourier(y->b, d)) for(i = 0; i < N; i++) { double th = P2*(c-x[i*st[d]])/len; w[i] = N % 2 ? sin(N*th/2)/(N*sin(th/2)) : sin(N*th/2)/(N*tan(th/2)); }
  else { double s = 0; for(i = 0; i < N; i++) { w[i] = (i % 2 ? -1 : 1)*(i == 0 || i == N-1 ? 0.5 : 1)/(c-x[i*st[d]]); s += w[i]; } for(i = 0; i < N; i++) w[i] /= s; }
}
/* outward normal and outward coordinate direction of face f at point p, by differences of the map */
static int normal(tBox *x, int f, double *X, double *nrm, double *out)
{
  int d = f/2, e = (d+1)%3, k = (d+2)%3, c, j; double t[3][3], h, m, s; static const double CO[] = {-25, 48, -36, 16, -3};
  for(j = 0; j < 3; j++)
  { double len = x->bbox[2*j+1]-x->bbox[2*j]; for(c = 0; c < 3; c++) t[j][c] = 0;
    if(!x->x_of_X[1]) { t[j][j] = 1; continue; }
    h = 1e-3*len; if(X[j] > x->bbox[2*j]+len/2) h = -h;   /* one sided, inside the box */
    for(s = 0; s < 5; s++) { double Y[3]; memcpy(Y, X, sizeof(Y)); Y[j] += s*h; for(c = 0; c < 3; c++) t[j][c] += CO[(int)s]*x->x_of_X[c+1](x, -1, Y[0], Y[1], Y[2])/(12*h); } }
  for(c = 0; c < 3; c++) nrm[c] = t[e][(c+1)%3]*t[k][(c+2)%3]-t[e][(c+2)%3]*t[k][(c+1)%3];
  for(m = 0, s = 0, h = 0, c = 0; c < 3; c++) { m += nrm[c]*nrm[c]; s += nrm[c]*t[d][c]; h += t[d][c]*t[d][c]; }
  m = sqrt(m); h = sqrt(h);
  { double a = 0, b = 0; for(c = 0; c < 3; c++) a += t[e][c]*t[e][c], b += t[k][c]*t[k][c];
    if(!(h > 1e-6) || !(h < 1e6) || !(m > 1e-3*sqrt(a*b)) || !(fabs(s) > 1e-4*m*h) || !(a > 1e-12) || !(b > 1e-12)) return 0; }
  for(c = 0; c < 3; c++) nrm[c] *= (f % 2 ? 1 : -1)*(s > 0 ? 1 : -1)/m, out[c] = (f % 2 ? 1 : -1)*t[d][c]/h;
  return 1;
}
typedef struct { int p, skip, hasn; double w[3][20], n[3]; } tPt;
static tPt *pt; static int npt;
static int lastpatch(tBox *x, int fi, int p, int f)
{ int fk, q, p2, last = fi; for(fk = 0; fk < x->nbfaces; fk++) if(x->bface[fk]->ob >= 0 && (f < 0 || x->bface[fk]->f == f)) forPointList_inbox(x->bface[fk]->fpts, x, q, p2) if(p2 == p && (fk > last || last < 0)) last = fk; return last; }
static void prepare(tBox *x, int fi)
{
  tBface *B = x->bface[fi]; tBox *y = g->box[B->ob]; int q, p, c, i;
  npt = B->fpts->npoints[x->b]; free(pt); pt = calloc(npt+1, sizeof(*pt));
  forPointList_inbox(B->fpts, x, q, p)
  {
    tPt *t = &pt[q]; double X[3], u[3], out[3]; t->p = p;
    for(c = 0; c < 3; c++) X[c] = x->v[Ind("X")+c][p];
    t->hasn = normal(x, B->f, X, t->n, out);
    if(B->same_fpts)
    { int best = -1, k; double db = 1e-6, v[3]; pos(x, p, u); forallpoints(y, i) { pos(y, i, v); double dd = fabs(u[0]-v[0])+fabs(u[1]-v[1])+fabs(u[2]-v[2]); if(dd < db) db = dd, best = i; }
      if(best < 0) { vh_fail("place", "%s box%d patch %d point %d: no such place in box%d", cfg, x->b, fi, p, y->b); t->skip = 1; continue; }
      k = best; t->w[0][k % y->n1] = 1; t->w[1][k/y->n1 % y->n2] = 1; t->w[2][k/y->n1/y->n2] = 1;
      /* the same place may be several points of the other box (poles): not judged */
      { int cnt = 0; forallpoints(y, i) { pos(y, i, v); if(fabs(u[0]-v[0])+fabs(u[1]-v[1])+fabs(u[2]-v[2]) < 1e-6) cnt++; } if(cnt > 1) t->skip = 1; } }
    else { for(fi = fi, i = fi+1; i < x->nbfaces; i++) { int q2, p2; tBface *C = x->bface[i]; if(C->ob >= 0 && !C->same_fpts) forPointList_inbox(C->fpts, x, q2, p2) if(p2 == p) t->skip = 1; }
      if(!t->skip) for(c = 0; c < 3; c++) card(y, c, x->v[Ind("oX")+c][p], t->w[c]); }
  }
}
static double interp(tBox *y, tPt *t, double *v)
{ int i, j, k; double s = 0; for(k = 0; k < y->n3; k++) if(t->w[2][k] != 0) for(j = 0; j < y->n2; j++) if(t->w[1][j] != 0) for(i = 0; i < y->n1; i++) s += t->w[0][i]*t->w[1][j]*t->w[2][k]*v[i+y->n1*(j+y->n2*k)]; return s; }
/* expected condition at a point, s = 0 values, 1 normal derivatives; sc = scale of the terms */
static double expected(tBox *x, tBface *B, tPt *t, int s, double *sc)
{
  tBox *y = g->box[B->ob]; int c; double e = 0; *sc = 1;
  if(!s) return x->v[iP][t->p]-interp(y, t, y->v[iP]);
  for(c = 0; c < 3; c++) e += t->n[c]*(x->v[iD[c+1]][t->p]-interp(y, t, y->v[iD[c+1]]));
  return e;
}
static void clearF(void) { int b, p; forallboxes(g, b) forallpoints(g->box[b], p) g->box[b]->v[iF][p] = SENT; }
static double lcg(void) { static unsigned s = 12345; s = s*1664525u+1013904223u; return (s >> 8)/16777216.0*2-1; }
static void dense(void) { int b, p, c; forallboxes(g, b) forallpoints(g->box[b], p) { g->box[b]->v[iP][p] = lcg(); for(c = 1; c < 4; c++) g->box[b]->v[iD[c]][p] = lcg(); } }
static void zero(void) { int b, p, c; forallboxes(g, b) forallpoints(g->box[b], p) { g->box[b]->v[iP][p] = 0; for(c = 1; c < 4; c++) g->box[b]->v[iD[c]][p] = 0; } }
static const char *what;
/* compare F on the points of patch fi of box x (only where this patch is the last one writing if lastof is set) */
static int compare(tBox *x, int fi, int s, int lf, int useLast)
{
  tBface *B = x->bface[fi]; int q;
  for(q = 0; q < npt; q++)
  {
    tPt *t = &pt[q]; double sc, e; if(t->skip || (s && !t->hasn)) continue;
    if(useLast && lastpatch(x, fi, t->p, lf) != fi) continue;
    e = expected(x, B, t, s, &sc); vh_evals++;
    if(!(fabs(x->v[iF][t->p]-e) <= 1e-6))
    { vh_fail(s ? "deriv" : "value", "%s %s: box%d face %d patch %d (other box %d, touch %d, same_fpts %d) point %d: %.12g but %.12g", cfg, what, x->b, B->f, fi, B->ob, B->touch, B->same_fpts, t->p, x->v[iF][t->p], e); return 1; }
  }
  return 0;
}
static int unchanged(tBox *x, int fi, int f)
{ /* all points that belong to no patch (patch fi, or face f, or all) keep their value, in all boxes */
  int b, p, fk, q, p2; static char in[40000]; memset(in, 0, sizeof(in));
  for(fk = 0; fk < x->nbfaces; fk++) if(x->bface[fk]->ob >= 0 && (fi < 0 || fk == fi) && (f < 0 || x->bface[fk]->f == f)) forPointList_inbox(x->bface[fk]->fpts, x, q, p2) in[p2] = 1;
  forallboxes(g, b) forallpoints(g->box[b], p) if((b != x->b || !in[p]) && g->box[b]->v[iF][p] != SENT) { vh_fail("changed", "%s %s: box%d point %d is in no patch but was set", cfg, what, b, p); return 1; }
  return 0;
}
static void run(void *a)
{
  int b, fi, p, c, s, f; int full = *(int *)a; volatile int ok;
  AddVar("q22", "", ""); AddVar("d22", "i", ""); AddVar("F22", "", "");
  g = NULL;
  VH_TRY g = layout();
  VH_END;
  if(!g) return;
  vh_distinct++; if(vh_samples < 3) vh_sample("%s", cfg);
  iP = Ind("q22"); iF = Ind("F22"); for(c = 1; c < 4; c++) iD[c] = Ind("d22x")+c-1;
  enablevar(g, iP); enablevar(g, iF); enablevar(g, iD[1]);
  forallboxes(g, b)
  {
    tBox *x = g->box[b];
    /* normals of all faces */
    for(f = 0; f < 6; f++) if(!x->periodic[f/2+1]) forallpoints(x, p)
    { int ix[3] = {p % x->n1, p/x->n1 % x->n2, p/x->n1/x->n2}, n[3] = {x->n1, x->n2, x->n3}; double X[3], nr[3], out[3], v[4]; int k;
      if(ix[f/2] != (f % 2 ? n[f/2]-1 : 0)) continue;
      for(c = 0; c < 3; c++) X[c] = x->v[Ind("X")+c][p];
      if(!normal(x, f, X, nr, out)) continue;
      vh_states++;
      for(k = 0; k < 4; k++)
      { static const char *NM[] = {"boxface_normal_at_ijk", "boxface_outwarddir_at_ijk", "boxface_normal_at_XYZ", "boxface_outwarddir_at_XYZ"};
        if(k == 0) boxface_normal_at_ijk(x, f, p, v); else if(k == 1) boxface_outwarddir_at_ijk(x, f, p, v); else if(k == 2) boxface_normal_at_XYZ(x, f, X[0], X[1], X[2], v); else boxface_outwarddir_at_XYZ(x, f, X[0], X[1], X[2], v);
        double *e = k % 2 && (!x->x_of_X[1] || x->dx_dX[1][f/2+1]) ? out : nr;
        if(!(fabs(v[1]-e[0])+fabs(v[2]-e[1])+fabs(v[3]-e[2]) <= 1e-4)) vh_fail("normal", "%s %s box%d face %d point %d: (%g %g %g) but (%g %g %g)", cfg, NM[k], b, f, p, v[1], v[2], v[3], e[0], e[1], e[2]); } }
    forallbfaces(x, fi) if(x->bface[fi]->ob >= 0)
    {
      tBface *B = x->bface[fi]; tBox *y = g->box[B->ob]; int nd = B->setnormalderiv;
      prepare(x, fi); vh_states++;
      for(s = 0; s < 4; s++)  /* own flag, then through the face with -1, 0, 1 */
      {
        static const char *W[] = {"set_interbox_BCs_for_bface", "set_interbox_BC_onface(-1)", "set_interbox_BC_onface(0)", "set_interbox_BC_onface(1)"};
        what = W[s]; dense(); clearF(); ok = 0;
        VH_TRY { if(s) set_interbox_BC_onface(x, iF, B->f, iP, iD, s-2); else set_interbox_BCs_for_bface(iF, B, iP, iD); ok = 1; }
        VH_END;
        if(!ok) { int fk, nt = 0; forallbfaces(x, fk) if(x->bface[fk]->f == B->f && x->bface[fk]->ob >= 0 && !x->bface[fk]->touch) nt = 1;
          if(!populated() && (s != 3 || !nt)) vh_fail("refused", "%s %s: box%d patch %d: program ended", cfg, what, b, fi); continue; }
        vh_trans++;
        if(s) { int bad = compare(x, fi, s == 1 ? nd : s-2, B->f, 1); if(!bad) unchanged(x, -1, B->f); }
        else if(!compare(x, fi, nd, -1, 0)) unchanged(x, fi, -1);
      }
      if(full)  /* every single point of both boxes */
      {
        int w, k; what = "set_interbox_BCs_for_bface"; zero();
        for(w = 0; w < 2; w++) for(k = 0; k < (nd ? 3 : 1); k++) { tBox *z = w ? y : x; forallpoints(z, p)
        { double *v = z->v[nd ? iD[k+1] : iP]; int q, bad; v[p] = 1; for(q = 0; q < npt; q++) x->v[iF][pt[q].p] = SENT;
          set_interbox_BCs_for_bface(iF, B, iP, iD); vh_trans++;
          bad = compare(x, fi, nd, -1, 0); v[p] = 0; if(bad) return; } }
      }
    }
    dense(); clearF(); what = "set_interbox_BCs_for_boxbfaces"; ok = 0;
    VH_TRY { set_interbox_BCs_for_boxbfaces(x, iF, iP, iD); ok = 1; }
    VH_END;
    if(!ok && populated()) ; else if(!ok) vh_fail("refused", "%s %s: box%d: program ended", cfg, what, b);
    else
    { int bad = 0; forallbfaces(x, fi) if(x->bface[fi]->ob >= 0 && !bad) { prepare(x, fi); bad = compare(x, fi, x->bface[fi]->setnormalderiv, -1, 1); } if(!bad) unchanged(x, -1, -1); }
  }
}
int main(int argc, char **argv)
{
  int i; vh_init(argc, argv);
  for(i = 0; i < nlayouts(); i++)
  {
    int full, nmax, big; layout_set(i);
    nmax = L->n[1][0] > L->n[1][1] ? L->n[1][0] : L->n[1][1];
    big = L->kind == 0 && L->sub > 1;
    full = vh_thorough || (L->kind ? nmax <= 6 : !big && nmax <= 4);
    /* quick: the large grids only with the default options and one with populate_bfaces */
    if(!vh_thorough && L->kind == 0 && L->opt != 0 && L->opt != 5 && (nmax > 4 || big)) continue;
    if(!vh_thorough && big && nmax > 6) continue;
    if(vh_unit("lay:%d,%d:%d,%d,%d:%d,%d:opt%d:sig%d", L->kind, L->sub, L->n[0][0], L->n[0][1], L->n[0][2], L->n[1][0], L->n[1][2], L->opt, L->sig)) vh_fork(run, &full);
  }
  return vh_done();
}

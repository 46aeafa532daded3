/* C20: Cartesian derivatives of everything the basis represents, in every coordinate system. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#undef exit
#include "vh_sys.h"
#include "vh_spec.h"
static int stride = 1, stored = 1, useDD, nbox = 1;
/* first and second derivatives of the coordinates at every point, from the map alone; ok = 0 near singularities */
typedef struct { int ok; double I[4][4], D[4][4][4], n1, n2; } tPt;
static tPt *PT; static long npts;
static int *basn(const tSys *S, int *bas)
{ int d; for(d = 0; d < 3; d++) { const char *s = S ? S->bas[d] : CHE; bas[d] = !strcmp(s, CHE) ? CE : !strcmp(s, CHZ) ? CZ : FO; } return bas; }
static void points(const tSys *S, tBox *box)
{
  int p, i, j, k, l, m, n; double h = 1e-3;
  if(S && !strncmp(S->name, "Ansorg", 6)) h = 2e-3;
  if(S && !strcmp(S->name, "tan_stretch")) h = 5e-4;
  PT = calloc(box->nnodes, sizeof *PT); npts = 0;
  forallpoints(box, p)
  {
    double X[4] = {0, box->v[Ind("X")][p], box->v[Ind("Y")][p], box->v[Ind("Z")][p]}, J[4][4]; tPt *q = &PT[p];
    if(!box->x_of_X[1]) { for(i = 1; i <= 3; i++) q->I[i][i] = 1; q->n1 = 1; q->ok = 1; npts++; continue; }
    if(p % stride || !safe(S, box, X, h) || !jac(box, X, J, q->I, h)) continue;
    q->ok = 1; npts++;
    for(i = 1; i <= 3; i++) for(j = 1; j <= 3; j++) if(fabs(q->I[i][j]) > q->n1) q->n1 = fabs(q->I[i][j]);
    /* ddX^i/dx_j dx_k = - I^i_n I^m_j I^l_k ddx_n/dX_m dX_l; the derivatives of the map from differences of its first ones */
    { double E[4][4][4];
      for(n = 1; n <= 3; n++) for(m = 1; m <= 3; m++) for(l = m; l <= 3; l++)
      { double Y[4], Jp[4][4], Jm[4][4], s = 0; static const double w[3] = {45, -9, 1}; int t;
        for(t = 1; t <= 3; t++) { memcpy(Y, X, sizeof Y); Y[l] = X[l]+t*h; Jp[n][m] = num(fx, box, n, Y, m, h, NULL); Y[l] = X[l]-t*h; Jm[n][m] = num(fx, box, n, Y, m, h, NULL); s += w[t-1]*(Jp[n][m]-Jm[n][m]); }
        E[n][l][m] = E[n][m][l] = s/(60*h); }
      for(i = 1; i <= 3; i++) for(j = 1; j <= 3; j++) for(k = 1; k <= 3; k++)
      { double s = 0; for(n = 1; n <= 3; n++) for(m = 1; m <= 3; m++) for(l = 1; l <= 3; l++) s -= q->I[i][n]*q->I[m][j]*q->I[l][k]*E[n][m][l]; q->D[i][j][k] = s; if(fabs(s) > q->n2) q->n2 = fabs(s); }
    }
  }
}
/* snapshot of all data, to see that nothing but the targets changes */
static double **snap; static int nsnap;
static void take(tGrid *g)
{ int b, v, k = 0; nsnap = g->nboxes*g->nvariables; if(!snap) snap = calloc(nsnap, sizeof *snap);
  forallboxes(g, b) for(v = 0; v < g->nvariables; v++, k++) { free(snap[k]); snap[k] = NULL; if(g->box[b]->v[v]) { snap[k] = malloc(g->box[b]->nnodes*sizeof(double)); memcpy(snap[k], g->box[b]->v[v], g->box[b]->nnodes*sizeof(double)); } } }
static int same(tGrid *g, tBox *box, int from, int to, int from2, int to2, const char *what)
{
  int b, v, k = 0;
  forallboxes(g, b) for(v = 0; v < g->nvariables; v++, k++)
  {
    if(b == box->b && ((v >= from && v < to) || (v >= from2 && v < to2))) continue;
    if(strstr(VarName(v), "temp") || strstr(VarName(v), "Temp")) continue;
    if(!snap[k] != !g->box[b]->v[v]) { vh_fail("storage", "%s: %s changed the storage of %s in box%d", cfg, what, VarName(v), b); return 0; }
    if(snap[k] && memcmp(snap[k], g->box[b]->v[v], g->box[b]->nnodes*sizeof(double))) { vh_fail("others", "%s: %s changed %s in box%d", cfg, what, VarName(v), b); return 0; }
  }
  return 1;
}
static void vars(void)
{
  AddVar("temp1", "", ""); AddVar("temp2", "", ""); AddVar("temp3", "", ""); AddVar("pu", "", ""); AddVar("pd", "i", ""); AddVar("pdd", "(ij)", "");
  AddVar("pS", "", ""); AddVar("pdS", "i", ""); AddVar("pddS", "(ij)", "");
  AddVar("pA", "i", ""); AddVar("pdA", "ij", ""); AddVar("pddA", "i(jk)", "");
  AddVar("pT", "(ij)", ""); AddVar("pdT", "(ij)k", ""); AddVar("pddT", "(ij)(kl)", "");
}
static const char *VN[] = {"pu", "pdx", "pddxx", "pS", "pdSx", "pddSxx", "pAx", "pdAxx", "pddAxxx", "pTxx", "pdTxxx", "pddTxxxx"};
static double xmax;
static tGrid *sgl(const tSys *S)
{
  int b; tGrid *g; unsigned q;
  vg_begin(nbox);
  for(b = 0; b < nbox; b++)
  {
    vg_box(b, nn[0], nn[1], nn[2], S->bas[0], S->bas[1], S->bas[2]);
    vg_lim(b, S->lim[0][0], xmax ? xmax : S->lim[0][1], S->lim[1][0], S->lim[1][1], S->lim[2][0], S->lim[2][1]);
    vg_bpar(b, "Coordinates", "%s", S->name);
    if(gen) vg_bpar(b, "CoordinateTransforms_generic", gen == 1 ? "ddXdxdx" : gen == 2 ? "dXdx" : "dXdx ddXdxdx");
  }
  if(S->par) vg_par(S->par, "%s", S->val);
  vg_par("Coordinates_AnsorgNS_version", "%s", VER[ver]);
  vg_par("CoordinateTransforms_stored", "%s", stored ? "yes" : "no");
  vg_par("Coordinates_useDD", "%s", useDD ? "yes" : "no");
  vg_libs(); vars(); g = vg_make(); vg_coords(g);
  for(q = 0; q < sizeof VN/sizeof *VN; q++) enablevar(g, Ind((char*)VN[q]));
  return g;
}
/* u = product of basis functions k[]; derivatives of order 0..2 in two directions, tabulated along each direction */
static double TAB[3][32][32][3];
static void table(tBox *box, int *bas)
{
  int N[3] = {box->n1, box->n2, box->n3}, st[3] = {1, box->n1, box->n1*box->n2}, d, k, i, o; static const char *C[] = {"X", "Y", "Z"};
  for(d = 0; d < 3; d++) for(k = 0; k < N[d]; k++) for(i = 0; i < N[d]; i++) for(o = 0; o < 3; o++)
    TAB[d][k][i][o] = o && bas[d] == FO && k == N[d]-1 && N[d] % 2 == 0 ? 0 : (double)vs_basis(bas[d], N[d], k, box->v[Ind((char*)C[d])][i*st[d]], box->bbox[2*d], box->bbox[2*d+1], o);
}
static double func(int *n, const int *k, int p, int l, int m)
{ return TAB[0][k[0]][p % n[0]][(l == 1)+(m == 1)]*TAB[1][k[1]][p/n[0] % n[1]][(l == 2)+(m == 2)]*TAB[2][k[2]][p/n[0]/n[1]][(l == 3)+(m == 3)]; }
#define DD(m, n) ((m) == 1 ? (n)-1 : (m)+(n)-1)
static int one_func(tGrid *g, const tSys *S, tBox *box, int *bas, const int *k, double slack, int second)
{
  int iu = Ind("pu"), id = Ind("pdx"), ii = Ind("pddxx"), p, m, n, i, j, r; double *u = box->v[iu], umax = 0, *xg = box->v[Ind("X")], *yg = box->v[Ind("Y")], *zg = box->v[Ind("Z")]; int N[3] = {box->n1, box->n2, box->n3};
  forallpoints(box, p) { u[p] = func(N, k, p, 0, 0); if(fabs(u[p]) > umax) umax = fabs(u[p]); }
  for(r = 0; r < 1+second; r++)
  {
    for(i = 0; i < 3; i++) forallpoints(box, p) box->v[id+i][p] = 1e30;
    for(i = 0; i < 6; i++) forallpoints(box, p) box->v[ii+i][p] = 1e30;
    take(g); vh_trans++;
    if(r == 0) cart_partials(box, u, box->v[id], box->v[id+1], box->v[id+2]);
    else cart_partial_all(box, u, box->v[id], box->v[id+1], box->v[id+2], box->v[ii], box->v[ii+1], box->v[ii+2], box->v[ii+3], box->v[ii+4], box->v[ii+5]);
    if(!same(g, box, id, id+3, r ? ii : 0, r ? ii+6 : 0, r ? "cart_partial_all" : "cart_partials")) return 0;
    forallpoints(box, p)
    {
      double X[4] = {0, xg[p], yg[p], zg[p]}, f[4], ff[4][4], sc, e, v; tPt *q = &PT[p];
      if(!q->ok) continue; vh_evals++;
      for(i = 1, sc = 0; i <= 3; i++) { double L = box->bbox[2*i-1]-box->bbox[2*i-2], w = N[i-1]; f[i] = func(N, k, p, i, 0); sc += fabs(f[i])+1e-5*umax*w*w/L; }
      for(m = 1; m <= 3; m++)
      {
        for(e = 0, i = 1; i <= 3; i++) e += q->I[i][m]*f[i];
        v = box->v[id+m-1][p];
        if(!(fabs(v-e) <= (slack > 1 ? 2e-7 : 2e-8)*sc*q->n1)) { vh_fail("first", "%s box%d %s of basis function (%d,%d,%d) at point %d (%g,%g,%g): derivative %d is %.15g, expected %.15g", cfg, box->b, r ? "cart_partial_all" : "cart_partials", k[0], k[1], k[2], p, X[1], X[2], X[3], m, v, e); return 0; }
      }
      if(r == 0) continue;
      { double s2 = 0; for(i = 1; i <= 3; i++) for(j = 1; j <= 3; j++) { double L = (box->bbox[2*i-1]-box->bbox[2*i-2])*(box->bbox[2*j-1]-box->bbox[2*j-2]), w = N[i-1]*N[j-1]; ff[i][j] = func(N, k, p, i, j); s2 += fabs(ff[i][j])+1e-5*umax*w*w/L; } sc = sc*q->n2 + s2*q->n1*q->n1; }
      for(m = 1; m <= 3; m++) for(n = m; n <= 3; n++)
      {
        for(e = 0, i = 1; i <= 3; i++) { e += q->D[i][m][n]*f[i]; for(j = 1; j <= 3; j++) e += q->I[i][m]*q->I[j][n]*ff[i][j]; }
        v = box->v[ii+DD(m,n)][p];
        if(!(fabs(v-e) <= 5e-7*slack*sc)) { vh_fail("second", "%s box%d cart_partial_all of basis function (%d,%d,%d) at point %d (%g,%g,%g): derivative %d%d is %.15g, expected %.15g", cfg, box->b, k[0], k[1], k[2], p, X[1], X[2], X[3], m, n, v, e); return 0; }
      }
    }
  }
  (void)S;
  return 1;
}
static void exact(void *arg)
{
  const tSys *S = &SYS[sys]; tGrid *g; tBox *box; int bas[3], k[3], N[3]; (void)arg;
  sprintf(cfg, "%s%s%s n=%d,%d,%d X in [%g,%g] Y in [%g,%g]%s%s%s", S->name, ver ? " version " : "", ver ? VER[ver] : "", nn[0], nn[1], nn[2], S->lim[0][0], S->lim[0][1], S->lim[1][0], S->lim[1][1], S->par ? " " : "", S->par ? S->val : "", stored ? "" : " not stored");
  g = sgl(S); box = g->box[nbox-1]; basn(S, bas); table(box, bas); points(S, box); memcpy(N, nn, sizeof N);
  if(npts < box->nnodes/5) vh_fail("vacuous", "%s: only %ld of %d points can be checked", cfg, npts, box->nnodes);
  for(k[0] = 0; k[0] < N[0]; k[0]++) for(k[1] = 0; k[1] < N[1]; k[1]++) for(k[2] = 0; k[2] < N[2]; k[2]++)
  { vh_at("function %d,%d,%d", k[0], k[1], k[2]); vh_states++; vh_distinct++; if(!one_func(g, S, box, bas, k, 1, !box->x_of_X[1] || box->ddX_dxdx[1][1][1])) return; }
  vh_sample("%s: %ld points, second derivatives: %s", cfg, npts, !box->x_of_X[1] || box->ddX_dxdx[1][1][1] ? "yes" : "no");
}
/* numerically computed transformations: only as accurate as the map is resolved */
static void generic(void *arg)
{
  const tSys *S = sys >= 0 ? &SYS[sys] : NULL; tGrid *g; tBox *box; int bas[3], k[3], b; (void)arg;
  if(S) { sprintf(cfg, "%s n=%d,%d,%d %s generic %d", S->name, nn[0], nn[1], nn[2], S->par ? S->val : "", gen); g = sgl(S); }
  else
  {
    unsigned q; sprintf(cfg, "cubed spheres %d boxes n=%d,%d,%d%s%s generic %d", NB[lay], nn[0], nn[1], nn[2], sigvars ? " surface variables" : "", deform ? " deformed" : "", gen);
    AddPar("dummy_never_used", "", ""); g = NULL; vars(); g = cubes(); for(q = 0; q < sizeof VN/sizeof *VN; q++) enablevar(g, Ind((char*)VN[q]));
  }
  forallboxes(g, b)
  {
    box = g->box[b]; basn(S, bas); table(box, bas); points(S, box); if(!S && box->x_of_X[1] == NULL) { /* Cartesian box */ }
    vh_states += npts;
    for(k[0] = 0; k[0] < 2; k[0]++) for(k[1] = 0; k[1] < 3; k[1]++) for(k[2] = 0; k[2] < 3; k[2]++)
    { vh_at("box %d function %d,%d,%d", b, k[0], k[1], k[2]); vh_distinct++; if(!one_func(g, S, box, bas, k, gen ? 2e3 : 10, !box->x_of_X[1] || box->ddX_dxdx[1][1][1])) return; }
    free(PT);
    if(S) break;
  }
  vh_sample("%s", cfg);
}
static double data(int v, int p) { return sin(0.7*p + 1.3*v*v + 0.1) + 0.3*cos(2.1*p*(v+1)); }
static int near1(tBox *box, double *a, double *b, double sc) { int p; forallpoints(box, p) if(!(fabs(a[p]-b[p]) <= 1e-11*sc) && !(isnan(a[p]) && isnan(b[p])) && !(a[p] == b[p])) return 0; return 1; }
static double maxof(tBox *box, double *a) { double m = 0; int p; forallpoints(box, p) if(isfinite(a[p]) && fabs(a[p]) > m) m = fabs(a[p]); return m; }
/* routines for tensors agree with the scalar routines */
static void tensors(void *arg)
{
  const tSys *S = &SYS[sys]; tGrid *g; tBox *box; int r, c, m, n, p; static const int NC[3] = {1, 3, 6}; int second; (void)arg;
  static const char *IN[3][3] = {{"pS", "pdSx", "pddSxx"}, {"pAx", "pdAxx", "pddAxxx"}, {"pTxx", "pdTxxx", "pddTxxxx"}};
  static const char *RN[3] = {"S", "Sa", "Sab"};
  nbox = 2;
  sprintf(cfg, "%s%s%s n=%d,%d,%d %s useDD=%d%s", S->name, ver ? " version " : "", ver ? VER[ver] : "", nn[0], nn[1], nn[2], S->par ? S->val : "", useDD, stored ? "" : " not stored");
  g = sgl(S); box = g->box[1]; second = !box->x_of_X[1] || box->ddX_dxdx[1][1][1];
  for(r = 0; r < 3; r++)
  {
    int s0 = Ind((char*)IN[r][0]), d0 = Ind((char*)IN[r][1]), e0 = Ind((char*)IN[r][2]), how, nc = NC[r];
    double *ref[6][9], *tmp[3], *alt[6][6];
    for(m = 0; m < 3; m++) tmp[m] = calloc(box->nnodes, sizeof(double));
    for(how = 0; how < 4; how++)
    { /* 0: first derivatives, 1: repeated, 2: all at once, 3: the wrapper */
      int rep = how == 1 || (how == 3 && !useDD), dd = how > 0; char nm[60];
      if(dd && !rep && !second) continue;
      for(c = 0; c < nc; c++)
      {
        forallpoints(box, p) box->v[s0+c][p] = data(c+7*r, p);
        for(m = 0; m < 9; m++) { ref[c][m] = calloc(box->nnodes, sizeof(double)); } for(m = 0; m < 6; m++) alt[c][m] = calloc(box->nnodes, sizeof(double));
        if(dd && !rep) cart_partial_all(box, box->v[s0+c], ref[c][0], ref[c][1], ref[c][2], ref[c][3], ref[c][4], ref[c][5], ref[c][6], ref[c][7], ref[c][8]);
        else cart_partials(box, box->v[s0+c], ref[c][0], ref[c][1], ref[c][2]);
        if(rep) for(m = 1; m <= 3; m++)
        { cart_partials(box, ref[c][m-1], tmp[0], tmp[1], tmp[2]);
          /* either order of the two derivatives counts */
          for(n = 1; n <= 3; n++) memcpy(m >= n ? ref[c][3+DD(n,m)] : alt[c][DD(m,n)], tmp[n-1], box->nnodes*sizeof(double)); }
      }
      for(c = 0; c < 3*nc; c++) forallpoints(box, p) box->v[d0+c][p] = 1e30;
      for(c = 0; c < 6*nc; c++) forallpoints(box, p) box->v[e0+c][p] = 1e30;
      take(g); vh_trans++; vh_evals += nc; vh_distinct++;
      sprintf(nm, "%s%s", how == 0 ? "FirstDerivsOf_" : how == 1 ? "FirstAndSecondDerivsOf_" : how == 2 ? "allDerivsOf_" : "D_and_DD_of_", RN[r]);
      if(r == 0) { if(how == 0) FirstDerivsOf_S(box, s0, d0); else if(how == 1) FirstAndSecondDerivsOf_S(box, s0, d0, e0); else if(how == 2) allDerivsOf_S(box, s0, d0, e0); else D_and_DD_of_S(box, s0, d0, e0); }
      if(r == 1) { if(how == 0) FirstDerivsOf_Sa(box, s0, d0); else if(how == 1) FirstAndSecondDerivsOf_Sa(box, s0, d0, e0); else if(how == 2) allDerivsOf_Sa(box, s0, d0, e0); else D_and_DD_of_Sa(box, s0, d0, e0); }
      if(r == 2) { if(how == 0) FirstDerivsOf_Sab(box, s0, d0); else if(how == 1) FirstAndSecondDerivsOf_Sab(box, s0, d0, e0); else if(how == 2) allDerivsOf_Sab(box, s0, d0, e0); else D_and_DD_of_Sab(box, s0, d0, e0); }
      if(!same(g, box, d0, d0+3*nc, how ? e0 : 0, how ? e0+6*nc : 0, nm)) return;
      for(c = 0; c < nc; c++)
      {
        for(m = 0; m < 3; m++) if(!near1(box, box->v[d0+3*c+m], ref[c][m], 1+maxof(box, ref[c][m]))) { vh_fail("tensor", "%s: %s: %s is not derivative %d of component %d", cfg, nm, VarName(d0+3*c+m), m+1, c); return; }
        if(dd) for(m = 0; m < 6; m++)
        { int mixed = m == 1 || m == 2 || m == 4; double sc = 1+maxof(box, ref[c][3+m]);
          if(!near1(box, box->v[e0+6*c+m], ref[c][3+m], sc) && !(rep && mixed && near1(box, box->v[e0+6*c+m], alt[c][m], sc))) { vh_fail("tensor", "%s: %s: %s is not second derivative %d of component %d", cfg, nm, VarName(e0+6*c+m), m, c); return; } }
        for(m = 0; m < 9; m++) free(ref[c][m]); for(m = 0; m < 6; m++) free(alt[c][m]);
      }
      vh_states++;
    }
    for(m = 0; m < 3; m++) free(tmp[m]);
  }
}
/* smooth functions of x,y,z at the axis of AnsorgNS coordinates, where the transformation is singular */
static double SF(int f, int d, const double *x)
{ /* 0 1, 1 y, 2 z, 3 yz, 4 x, 5 y^2-z^2 */
  switch(f) { case 0: return d == 0; case 1: return d == 0 ? x[2] : d == 2; case 2: return d == 0 ? x[3] : d == 3; case 3: return d == 0 ? x[2]*x[3] : d == 2 ? x[3] : d == 3 ? x[2] : 0; case 4: return d == 0 ? x[1] : d == 1; }
  return d == 0 ? x[2]*x[2]-x[3]*x[3] : d == 2 ? 2*x[2] : d == 3 ? -2*x[3] : 0;
}
static void axis(void *arg)
{
  const tSys *S = &SYS[sys]; tGrid *g; tBox *box; int f, p, d; long n = 0; (void)arg;
  sprintf(cfg, "%s version %s n=%d,%d,%d", S->name, VER[ver], nn[0], nn[1], nn[2]);
  g = sgl(S); box = g->box[0];
  for(f = 0; f < 6; f++)
  {
    double *u = box->v[Ind("pu")]; int id = Ind("pdx");
    forallpoints(box, p) { double x[4] = {0, box->v[Ind("x")][p], box->v[Ind("y")][p], box->v[Ind("z")][p]}; u[p] = SF(f, 0, x); }
    cart_partials(box, u, box->v[id], box->v[id+1], box->v[id+2]); vh_trans++;
    forallpoints(box, p)
    {
      double x[4] = {0, box->v[Ind("x")][p], box->v[Ind("y")][p], box->v[Ind("z")][p]}, X = box->v[Ind("X")][p], Y = box->v[Ind("Y")][p];
      if(fabs(Y) > 1e-14 && fabs(Y-1) > 1e-14) continue;
      if(X > 0.9 || !isfinite(x[1])) continue;
      n++; vh_evals++;
      for(d = 2; d <= 3; d++) if(!(fabs(box->v[id+d-1][p]-SF(f, d, x)) <= 2e-3)) { vh_fail("axis", "%s: derivative %d of smooth function %d at the axis point %d (X=%g Y=%g Z=%g) is %g, expected %g", cfg, d, f, p, X, Y, box->v[Ind("Z")][p], box->v[id+d-1][p], SF(f, d, x)); return; }
    }
  }
  if(n < 20) vh_fail("vacuous", "%s: %ld points on the axis", cfg, n);
  vh_states += n; vh_distinct++; vh_sample("%s: %ld axis points", cfg, n);
}
int main(int argc, char **argv)
{
  static const int NS[4][3] = {{4, 6, 6}, {5, 5, 7}, {3, 8, 4}, {6, 9, 8}}; int q;
  vh_init(argc, argv);
  for(sys = 0; sys < NSYS; sys++) for(q = 0; q < (vh_thorough ? 4 : 2); q++) for(ver = 0; ver < 3; ver++)
  {
    const tSys *S = &SYS[sys]; int ans = !strncmp(S->name, "Ansorg", 6), shifted = S->par && !strcmp(S->par, "Coordinates_AnsorgNS_Bshift") && ver == 2;
    if(ver && !ans) continue;
    memcpy(nn, NS[q], sizeof nn); if(!strcmp(S->name, "PolarCE")) nn[1]++;
    if(ans) nn[2] = q == 0 ? 4 : q == 3 ? 12 : 8; /* the axis treatment needs a multiple of 4 */
    for(stored = 1; stored >= 0; stored--)
    {
      if(vh_unit("%s:%d:%d:%d:%d", shifted ? "shifted" : "exact", sys, q, ver, stored)) vh_fork(exact, NULL);
      for(useDD = 0; useDD < 2; useDD++) if(q == 0 && vh_unit("tensors:%d:%d:%d:%d", sys, ver, stored, useDD)) vh_fork(tensors, NULL);
      useDD = 0; nbox = 1;
    }
    stored = 1;
    if(q == 0 && ans && S->bas[1][0] == 'C') { nn[0] = 14; nn[1] = 22; nn[2] = 8; xmax = 0.5; if(vh_unit("axis:%d:%d", sys, ver)) vh_fork(axis, NULL); xmax = 0; }
    if(q < 2 && ver == 0 && sys != 2 && sys != 3 && !ans) for(gen = 1; gen <= 3; gen++) { nn[0] = 12+q; nn[1] = 16+q; nn[2] = ans ? 8 : 16-q; xmax = ans ? 0.5 : 0; if(vh_unit("generic:%d:%d:%d", sys, q, gen)) vh_fork(generic, NULL); }
    gen = 0; xmax = 0;
  }
  ver = 0; sys = -1;
  for(lay = 0; lay < 4; lay++) for(gen = 0; gen <= 1; gen++) for(sigvars = 0; sigvars < 2; sigvars++) for(deform = 0; deform <= sigvars; deform++)
  {
    nn[0] = 4; nn[1] = 20; nn[2] = 19; if(lay > 1) nn[0] = 6;
    if(!vh_thorough && (lay > 1 || (lay == 1 && sigvars))) continue;
    stride = vh_thorough ? 1 : sigvars ? 7 : 3; /* of 380 points per surface; the numerical derivatives of the map are costly */
    if(vh_unit("cubes:%d:%d:%d%d", lay, gen, sigvars, deform)) vh_fork(generic, NULL);
  }
  return vh_done();
}

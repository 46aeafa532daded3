/* C18: interpolation, integrals and filters.  All basis functions (the maps are linear), all points of a lattice. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_spec.h"
#undef exit
void spec_Int1(tBox *box, int direc, double *u, double *U);
static int N[3], B[3], T[3], dir, lims, FI[3];
static const double LIM[2][3][2] = {{{-1.25, 0.75}, {0.5, 3}, {0, 6.5}}, {{100, 100.125}, {-64, -1}, {-0.01, 0.01}}};
#define CFG "%s/%s/%s n=%d,%d,%d types %d,%d,%d limits %d"
#define CFGV VS_BAS[B[0]], VS_BAS[B[1]], VS_BAS[B[2]], N[0], N[1], N[2], T[0], T[1], T[2], lims
static int num(const char *sig, const char *what, double x, long double y, double tol, int p)
{
  vh_evals++;
  if(fabsl(x-y) <= tol) return 1;
  vh_fail(sig, "%s " CFG " direction %d, function %d: %.17g, expected %.17g", what, CFGV, dir, p, x, (double)y); return 0;
}
static int cmp(const char *sig, const char *what, const double *x, const double *y, int n, double tol, int p)
{
  int i;
  for(i = 0; i < n; i++) if(!(fabs(x[i]-y[i]) <= tol))
  { vh_fail(sig, "%s " CFG " direction %d, function %d: entry %d is %.17g, expected %.17g", what, CFGV, dir, p, i, x[i], y[i]); return 0; }
  return 1;
}
static double *D(int n) { return calloc(n+8, sizeof(double)); }
static void mark(double *x, int n) { int i; for(i = 0; i < n; i++) x[i] = 1000+i; }
static void setlims(void) { int d, e; for(d = 0; d < 3; d++) for(e = 0; e < 2; e++) vs_lim[d][e] = LIM[lims][d][e]; }
static double pt(int d, int i) { return vs_point(B[d], N[d], i, vs_lim[d][0], vs_lim[d][1]); }
static double bas(int d, int k, double X) { return vs_basis(B[d], N[d], k, X, vs_lim[d][0], vs_lim[d][1], 0); }
/* definite integral of a basis function over the interval */
static long double full(int d, int k)
{
  long double L = (long double)vs_lim[d][1]-vs_lim[d][0];
  if(B[d] == FO) return k == 0 ? L/N[d] : 0;
  return k == 0 ? L/2 : k % 2 ? 0 : L/(1-(long double)k*k);
}
/* antiderivative at X (any constant) */
static long double anti(int d, int k, long double X)
{
  long double a = vs_lim[d][0], b = vs_lim[d][1], L = b-a, y = (2*X-a-b)/(a-b); int j = (k+1)/2;
  if(B[d] == FO)
  {
    long double K = 2*VS_PI*j/L, f = k == N[d]-1 && N[d] % 2 == 0 ? 1.0L/N[d] : 2.0L/N[d];
    if(k == 0) return (X-a)/N[d];
    return k % 2 ? f*sinl(K*(X-a))/K : -f*cosl(K*(X-a))/K;
  }
  if(k == 0) return X/2;
  if(k == 1) return (a-b)/2*y*y/2;
  { long double t = acosl(y > 1 ? 1 : y < -1 ? -1 : y); return (a-b)/2*(cosl((k+1)*t)/(2*(k+1)) - cosl((k-1)*t)/(2*(k-1))); }
}
/* points of a direction: the grid points and others */
static int lattice(int d, double *x)
{
  static const double f[] = {0, 0.03125, 0.21, 0.5, 0.6180339887498949, 0.999, 1}; int n = 0, i;
  for(i = 0; i < 7; i++) x[n++] = vs_lim[d][0]*(1-f[i]) + vs_lim[d][1]*f[i];
  for(i = 0; i < N[d]; i++) x[n++] = pt(d, i);
  return n;
}
/* one direction */
static void lines(void *arg)
{
  tBox *box; int nn, p, i, k, q, d = dir-1, n = N[d], st[3] = {1, N[0], N[0]*N[1]}, m; double *u, *w, *c, *e, x[300], tol, ctol, *BM = D(n), L, s;
  setlims(); box = vs_box(N, B, T); nn = box->nnodes; u = D(nn); w = D(nn); c = D(nn); e = D(nn); L = vs_lim[d][1]-vs_lim[d][0];
  m = lattice(d, x);
  /* a shifted small interval costs digits in X */
  ctol = (lims ? 2.3e-16*fabs(vs_lim[d][0])/L : 0)*n*7; tol = 2e-14*n + 10*ctol*n;
  for(p = 0; p < nn; p++)
  {
    int pos = p/st[d] % n, base = p - pos*st[d], i1, i2, co[3]; double sc = B[d] == FO ? 2./n : 1;
    vh_trans += 3; k = pos;
    for(q = 0; q < 3; q++) co[q] = p/st[q] % N[q];
    i1 = d == 0 ? co[1] : co[0]; i2 = d == 2 ? co[1] : co[2];
    memset(c, 0, nn*sizeof(double)); c[p] = 1;
    for(i = 0; i < m; i++) if(!num("interpolate", "interpolation along a line", spec_interpolate_in_dir_at_i1_i2(box, dir, i1, i2, c, x[i]), bas(d, k, x[i]), tol*sc, p)) return;
    /* other lines do not matter */
    for(q = 0; q < nn; q++) { int qb = q - q/st[d] % n*st[d]; c[q] = qb == base ? 0 : 7; }
    if(!num("interpolate", "interpolation along a line of zeros", spec_interpolate_in_dir_at_i1_i2(box, dir, i1, i2, c, x[2]), 0, 0, p)) return;
    /* integral over the interval */
    memset(u, 0, nn*sizeof(double)); for(i = 0; i < n; i++) u[base+i*st[d]] = bas(d, k, pt(d, i));
    memset(e, 0, nn*sizeof(double)); for(i = 0; i < n; i++) e[base+i*st[d]] = full(d, k);
    mark(w, nn); memcpy(c, u, nn*sizeof(double));
    spec_Integral1(box, dir, u, w); if(!cmp("integral", "integral along a line", w, e, nn, L*tol*sc, p)) return;
    if(!cmp("source", "integration changes its input", u, c, nn, 0, p)) return;
    memcpy(w, u, nn*sizeof(double)); spec_Integral1(box, dir, w, w); if(!cmp("integral", "integral along a line, in place", w, e, nn, L*tol*sc, p)) return;
    /* indefinite integral: exact differences if the antiderivative is in the space */
    if(B[d] == FO || B[d] == CZ || k < n-1)
    {
      mark(w, nn); spec_Int1(box, dir, u, w);
      for(i = 0; i < n; i++) e[base+i*st[d]] = w[base] + anti(d, k, pt(d, i)) - anti(d, k, pt(d, 0));
      if(!cmp("indefinite", "integral up to each point", w, e, nn, L*tol*sc, p)) return;
    }
    /* basis times coefficient matrix: weights of the grid values */
    if(base == 0 || p % 7 == 0) for(i = 0; i < m; i++)
    {
      spec_Basis_times_CoeffMatrix_direc(box, dir, BM, x[i]);
      for(s = 0, q = 0; q < n; q++) s += BM[q]*u[base+q*st[d]];
      if(!num("weights", "interpolation weights", s, bas(d, k, x[i]), 4*tol*sc*n, p)) return;
    }
    /* filter */
    mark(w, nn); for(q = 0; q < nn; q++) w[q] = u[q];
    spec_filter1(box, dir, w);
    memset(e, 0, nn*sizeof(double)); if(k < n-FI[d]) memcpy(e, u, nn*sizeof(double));
    if(!cmp("filter", FI[d] ? "filtered line" : "line with no filter", w, e, nn, 4*tol*sc, p)) return;
  }
  vh_states += nn; vh_distinct++;
  vh_sample(CFG " direction %d filter %d: all %d basis functions at %d points", CFGV, dir, FI[d], nn, m);
}
static void cube(void *arg)
{
  tBox *box; int nn, p, q, d, k[3], i[3], m[3], P, pl, st[3] = {1, N[0], N[0]*N[1]}, f; double *u, *w, *c, *e, x[3][300], sc = 1, tol, one, ctol = 0; long double r;
  setlims(); box = vs_box(N, B, T); nn = box->nnodes; u = D(nn); w = D(nn); c = D(nn); e = D(nn); dir = 0;
  for(d = 0; d < 3; d++) { m[d] = lattice(d, x[d]); if(B[d] == FO) sc *= 2./N[d]; if(lims) ctol += 2.3e-16*fabs(vs_lim[d][0])/(vs_lim[d][1]-vs_lim[d][0])*N[d]*7; }
  tol = 4e-13 + 20*ctol;
  for(p = 0; p < nn; p++)
  {
    for(d = 0; d < 3; d++) k[d] = p/st[d] % N[d];
    memset(c, 0, nn*sizeof(double)); c[p] = 1;
    for(i[0] = 0; i[0] < m[0]; i[0] += 2) for(i[1] = 0; i[1] < m[1]; i[1]++) for(i[2] = i[1] & 1; i[2] < m[2]; i[2] += 2)
    {
      r = 1; for(d = 0; d < 3; d++) r *= bas(d, k[d], x[d][i[d]]);
      if(!num("interpolate", "interpolation in a box", spec_interpolate(box, c, x[0][i[0]], x[1][i[1]], x[2][i[2]]), r, tol*sc, p)) return;
    }
    for(P = 1; P <= 3; P++) for(pl = 0; pl < N[P-1]; pl++)
    {
      int d1 = P == 1 ? 1 : 0, d2 = P == 3 ? 1 : 2, in = k[P-1] == pl;
      for(i[0] = 0; i[0] < m[d1]; i[0]++) for(i[1] = i[0] & 1; i[1] < m[d2]; i[1] += 2)
        if(!num("plane", "interpolation in a plane", spec_interpolate_inplaneN(box, P, pl, c, x[d1][i[0]], x[d2][i[1]]), in*(long double)bas(d1, k[d1], x[d1][i[0]])*bas(d2, k[d2], x[d2][i[1]]), tol*sc*(1+N[P-1]), p)) return;
    }
    /* integrals */
    for(q = 0; q < nn; q++) for(u[q] = 1, d = 0; d < 3; d++) u[q] *= bas(d, k[d], pt(d, q/st[d] % N[d]));
    memcpy(e, u, nn*sizeof(double));
    for(one = 1, d = 0; d < 3; d++) one *= vs_lim[d][1]-vs_lim[d][0];
    r = full(0, k[0])*full(1, k[1])*full(2, k[2]);
    mark(w, nn); if(!num("volume", "volume integral", spec_3dIntegral(box, u, w), r, tol*one*sc, p) || !num("volume", "stored volume integral", w[nn-1], r, tol*one*sc, p)) return;
    for(P = 1; P <= 3; P++)
    {
      int d1 = P == 1 ? 1 : 0, d2 = P == 3 ? 1 : 2;
      mark(w, nn); spec_2dIntegral(box, P, u, w);
      for(q = 0; q < nn; q++) if(!num("surface", "surface integral", w[q], full(d1, k[d1])*full(d2, k[d2])*bas(P-1, k[P-1], pt(P-1, q/st[P-1] % N[P-1])), tol*sc*one, p)) return;
      mark(w, nn); spec_SurfaceIntegral(box, -1, P, u, w);
      for(q = 0; q < nn; q++) if(!num("surface", "Cartesian surface integral", w[q], full(d1, k[d1])*full(d2, k[d2])*bas(P-1, k[P-1], pt(P-1, q/st[P-1] % N[P-1])), tol*sc*one, p)) return;
    }
    if(memcmp(e, u, nn*sizeof(double))) { vh_fail("source", CFG ": integration changes its input", CFGV); return; }
    memcpy(box->v[Ind("vs_u")], u, nn*sizeof(double));
    if(!num("volume", "integral over a box", BoxVolumeIntegral(box, Ind("vs_u")), r, tol*one*sc, p) || !num("volume", "integral over a grid", GridVolumeIntegral(box->grid, Ind("vs_u")), r, tol*one*sc, p)) return;
    /* 3d filter, all cut-offs */
    for(f = 0; f < (N[0]+2)*(N[1]+2)*(N[2]+2); f++)
    {
      int nf[3] = {f % (N[0]+2), f/(N[0]+2) % (N[1]+2), f/(N[0]+2)/(N[1]+2)}, keep = k[0] < nf[0] && k[1] < nf[1] && k[2] < nf[2];
      if(!vh_thorough && (f + p) % 3) continue;
      vh_trans++; vh_evals++;
      memcpy(box->v[Ind("vs_u")], u, nn*sizeof(double)); mark(box->v[Ind("vs_c")], nn);
      spec_filter3d_inbox(box, Ind("vs_u"), Ind("vs_c"), nf[0], nf[1], nf[2]);
      memset(e, 0, nn*sizeof(double)); if(keep) e[p] = 1;
      if(!cmp("filter3", "coefficients after filtering", box->v[Ind("vs_c")], e, nn, tol, p)) return;
      if(keep) memcpy(e, u, nn*sizeof(double)); else memset(e, 0, nn*sizeof(double));
      if(!cmp("filter3", "values after filtering", box->v[Ind("vs_u")], e, nn, tol*sc, p)) return;
    }
  }
  vh_states += nn; vh_distinct++;
}
/* surface integrals with a metric: constant metrics g = A^T A */
static void metric(void *arg)
{
  tBox *box; int nn, q, P, ig, c; double *u, *w, one;
  static const double G[][6] = {{1,0,0,1,0,1}, {4,0,0,9,0,16}, {2,1,0,2,0,3}, {3,1,-1,2,0.5,4}, {1.5,0.25,0.5,1,0.75,2}};
  setlims(); { /* one more variable, before the grid is made */ int d; char s[60]; tGrid *g; vg_begin(1); vg_box(0, N[0], N[1], N[2], VS_BAS[B[0]], VS_BAS[B[1]], VS_BAS[B[2]]); vg_lim(0, vs_lim[0][0], vs_lim[0][1], vs_lim[1][0], vs_lim[1][1], vs_lim[2][0], vs_lim[2][1]); vg_bpar(0, "Coordinates", "Cartesian"); for(d = 0; d < 3; d++) { sprintf(s, "TransformType%d", d+1); vg_bpar(0, s, "%s", VS_TT[T[d]]); } vg_libs(); AddVar("vs_g", "ij+ji", ""); g = vg_make(); enablevar(g, Ind("vs_gxx")); box = g->box[0]; }
  nn = box->nnodes; u = D(nn); w = D(nn); ig = Ind("vs_gxx");
  for(c = 0; c < 5; c++) for(P = 1; P <= 3; P++)
  {
    const double *g = G[c]; double det = P == 1 ? g[3]*g[5]-g[4]*g[4] : P == 2 ? g[0]*g[5]-g[2]*g[2] : g[0]*g[3]-g[1]*g[1]; int k;
    for(k = 0; k < 6; k++) for(q = 0; q < nn; q++) box->v[ig+k][q] = g[k];
    for(q = 0; q < nn; q++) u[q] = 1;
    for(one = 1, k = 0; k < 3; k++) if(k != P-1) one *= vs_lim[k][1]-vs_lim[k][0];
    mark(w, nn); spec_SurfaceIntegral(box, ig, P, u, w); vh_trans++;
    for(q = 0; q < nn; q++) if(!num("metric", "area with a metric", w[q], one*sqrt(det), 1e-12*one*4, c)) return;
  }
  vh_states += 15; vh_distinct++;
}
/* volume integrals in non-Cartesian coordinates: the Jacobi determinant of each of the 3^9 matrices */
static double xofX(void *aux, int ind, double X, double Y, double Z) { return X; }
static void jacob(void *arg)
{
  tBox *box; int nn, q, m, k, iv[3]; double *u, *w, r, x, one = 1; static const char *vn[3] = {"dXdx", "dYdx", "dZdx"}; static const double E[3] = {-1, 0, 2};
  setlims(); box = vs_box(N, B, T); nn = box->nnodes; u = D(nn); w = D(nn); dir = 0;
  for(k = 0; k < 3; k++) { iv[k] = Ind((char *)vn[k]); enablevar(box->grid, iv[k]); one *= vs_lim[k][1]-vs_lim[k][0]; }
  for(k = 1; k < 4; k++) box->x_of_X[k] = (void *)xofX;
  for(m = 0; m < 19683; m += nn)
  {
    for(q = 0; q < nn; q++)
    {
      double a[9], det; int c = (m+q) % 19683;
      for(k = 0; k < 9; k++, c /= 3) box->v[iv[k/3]+k%3][q] = a[k] = E[c % 3];
      det = a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]);
      box->v[Ind("vs_u")][q] = x = 1 + (q*7 + m) % 11;
      u[q] = det == 0 ? 0 : x/fabs(det);
    }
    r = spec_3dIntegral(box, u, w); vh_trans++;
    if(!num("jacobian", "volume with a Jacobian", BoxVolumeIntegral(box, Ind("vs_u")), r, 1e-12*11*one, m) || !num("jacobian", "volume of the grid with a Jacobian", GridVolumeIntegral(box->grid, Ind("vs_u")), r, 1e-12*11*one, m)) return;
  }
  vh_states += 19683; vh_distinct++;
}
/* spherical double covering coordinates: integrals over theta and phi */
static double thetaint(int k, int n)
{
  double s = VS_PI/((1+n % 2)*n), f = k == 0 ? 1./n : k == n-1 && n % 2 == 0 ? 1./n : 2./n; int j = (k+1)/2;
  double C = j == 1 ? 0 : j % 2 ? 0 : 2./(1-(double)j*j), S = j == 1 ? VS_PI/2 : 0; /* of sin(t) times cos(jt), sin(jt) */
  if(k == 0) return 2*f;
  if(k % 2) return f*(C*cos(j*s) + S*sin(j*s));
  return f*(S*cos(j*s) - C*sin(j*s));
}
static void sphere(void *arg)
{
  tBox *box; int nn, p, q, d, k[3], st[3] = {1, N[0], N[0]*N[1]}, i, d2; double *u, *w, tol = 1e-13, r0 = 1, r1 = 3.5;
  { char s[60]; tGrid *g; vg_begin(1); vg_box(0, N[0], N[1], N[2], VS_BAS[B[0]], "Fourier", "Fourier"); vg_lim(0, r0, r1, 0, 6.283185307179586, 0, 6.283185307179586); vg_bpar(0, "Coordinates", "SphericalDF"); for(d = 0; d < 3; d++) { sprintf(s, "TransformType%d", d+1); vg_bpar(0, s, "%s", VS_TT[T[d]]); } vg_libs(); g = vg_make(); box = g->box[0]; }
  nn = box->nnodes; u = D(nn); w = D(nn);
  vs_lim[0][0] = r0; vs_lim[0][1] = r1; vs_lim[1][0] = vs_lim[2][0] = 0; vs_lim[1][1] = vs_lim[2][1] = 6.283185307179586;
  for(p = 0; p < nn; p++)
  {
    double a;
    for(d = 0; d < 3; d++) k[d] = p/st[d] % N[d];
    for(q = 0; q < nn; q++) for(u[q] = 1, d = 0; d < 3; d++) u[q] *= bas(d, k[d], pt(d, q/st[d] % N[d]));
    a = thetaint(k[1], N[1])*(k[2] == 0 ? 6.283185307179586/N[2] : 0);
    mark(w, nn); spec_sphericalDF2dIntegral(box, u, w); vh_trans += 2;
    for(q = 0; q < nn; q++) { double r = pt(0, q % N[0]); if(!num("sphere", "integral over a sphere", w[q], a*r*r*bas(0, k[0], r), tol*r*r, p)) return; }
    for(i = 0; i < N[0]; i++)
    {
      mark(w, nn); spec_sphericalDF2dIntegral_at_radial_index_i(box, u, w, i);
      for(q = i; q < nn; q += N[0]) { double r = pt(0, i); if(!num("sphere", "integral over one sphere", w[q], a*r*r*bas(0, k[0], r), tol*r*r, p)) return; }
    }
    if(k[0] < N[0]-2)
    { /* r^2 times the function is in the space */
      long double s = 0; int M = 400; /* Simpson in extended precision: exact enough for polynomials of this degree */
      for(i = 0; i <= M; i++) { long double r = r0 + (r1-r0)*(long double)i/M; s += (i == 0 || i == M ? 1 : i % 2 ? 4 : 2)*r*r*vs_basis(B[0], N[0], k[0], r, r0, r1, 0); }
      s *= (r1-r0)/(3.0L*M);
      mark(w, nn); if(!num("sphere", "volume integral over shells", spec_sphericalDF3dIntegral(box, u, w), a*s, 1e-6*fabs(a)*12 + 1e-12, p)) return;
    }
  }
  vh_states += nn; vh_distinct++;
}
/* interpolation from one grid to another of different resolution; converted grids take the nearest value */
static void grids(void *arg)
{
  tBox *b2 = vs_box(N, B, T), *b1; tGrid *g2 = b2->grid, *g1; int M[3], d, p, q, nn, k[3], st[3] = {1, N[0], N[0]*N[1]}, iu = Ind("vs_u"), ic = Ind("vs_c"); double *u;
  for(d = 0; d < 3; d++) { char s[60]; M[d] = N[d] + (d == 1 ? -1 : 2); sprintf(s, "n%d", d+1); vg_bpar(0, s, "%d", M[d]); }
  g1 = make_grid(0); b1 = g1->box[0]; enablevar(g1, iu); if(g1 == g2) { vh_fail("grids", "a second grid is the first"); return; }
  RunFun(POST_GRID, g1);
  nn = N[0]*N[1]*N[2]; u = D(nn);
  for(p = 0; p < nn; p++)
  {
    for(d = 0; d < 3; d++) k[d] = p/st[d] % N[d];
    for(q = 0; q < nn; q++) for(b2->v[iu][q] = 1, d = 0; d < 3; d++) b2->v[iu][q] *= bas(d, k[d], pt(d, q/st[d] % N[d]));
    memcpy(u, b2->v[iu], nn*sizeof(double)); vh_trans++;
    spec_interpolate_Var_from_grid2_to_grid1(g1, g2, iu, ic);
    if(!cmp("source", "interpolation changes the source", b2->v[iu], u, nn, 0, p)) return;
    for(q = 0; q < b1->nnodes; q++)
    {
      int co[3] = {q % M[0], q/M[0] % M[1], q/M[0]/M[1]}; long double r = 1;
      for(d = 0; d < 3; d++) r *= vs_basis(B[d], N[d], k[d], vs_point(B[d], M[d], co[d], vs_lim[d][0], vs_lim[d][1]), vs_lim[d][0], vs_lim[d][1], 0);
      if(!num("grids", "interpolation between grids", b1->v[iu][q], r, 1e-12, p)) return;
    }
  }
  convert_grid_to_fd(g2);
  for(p = 0; p < nn; p++)
  {
    for(q = 0; q < nn; q++) u[q] = q == p;
    spec_Coeffs(b2, u, b2->v[ic]);
    for(q = 0; q < nn; q++) if(!num("nearest", "value at a grid point of a converted grid", spec_interpolate(b2, b2->v[ic], b2->v[Ind("X")][q], b2->v[Ind("Y")][q], b2->v[Ind("Z")][q]), q == p, 0, p)) return;
  }
  vh_states += nn; vh_distinct++;
}
int main(int argc, char **argv)
{
  static const int BIG[] = {17, 24, 33, 64, 65}; int b, i, t, n, d; char s[100];
  vh_init(argc, argv);
  for(b = 0; b < 3; b++) for(t = 0; t < 4; t++) for(lims = 0; lims < 2; lims++) for(i = 1; i < 26 + 5; i++)
  {
    n = i < 26 ? i : BIG[i-26];
    if(!vh_thorough && ((i >= 10 && i < 26) || (i >= 26 && lims) || n > 65)) continue;
    if(t == 3 && n < 60) continue;
    if(b == CE && n < 2) continue;
    if(!vh_unit("line:%d:%d:%d:%d", b, t, lims, n)) continue;
    for(dir = 1; dir <= 3; dir++)
    {
      int f, nf = n > 12 || (!vh_thorough && n > 7) ? 3 : n+1;
      if(n > 20 && dir != 1 + n % 3 && !vh_thorough) continue;
      for(f = 0; f < nf; f++)
      {
        for(d = 0; d < 3; d++) { N[d] = 2 + (d == dir % 3); B[d] = d % 2 ? CE : FO; T[d] = 0; FI[d] = 0; }
        N[dir-1] = n; B[dir-1] = b; T[dir-1] = t; FI[dir-1] = nf == n+1 ? f : f*n/3;
        sprintf(s, "direction %d filter %d", dir, FI[dir-1]); vh_at("%s", s);
        sprintf(s, "box0_filter%d", dir); vg_par(s, "%d", FI[dir-1]);
        vh_fork(lines, NULL);
        vg_par(s, "0");
      }
    }
  }
  for(b = 0; b < 27; b++) for(i = 0; i < (vh_thorough ? 16 : 3); i++) if(vh_unit("cube:%d:%d", b, i))
  {
    static const int nn[4] = {4, 3, 5, 2};
    B[0] = b % 3; B[1] = b/3 % 3; B[2] = b/9; lims = i & 1;
    for(d = 0; d < 3; d++) N[d] = nn[(i + 3*d + d*i + b + i/4) % 4];
    for(t = 0; t < (vh_thorough ? 9 : 2); t++)
    {
      for(d = 0; d < 3; d++) T[d] = t == 0 ? 0 : (t + d*i + d) % 3;
      vh_at("types %d %d %d", T[0], T[1], T[2]); vh_fork(cube, NULL);
      if(t == 0) { vh_at("metric"); vh_fork(metric, NULL); vh_at("jacobian"); vh_fork(jacob, NULL); }
      if(t == 0) { lims = 0; setlims(); for(d = 0; d < 3; d++) N[d] = nn[(i + 3*d + d*i + b + i/4) % 4]; vh_at("grids"); N[1]++; vh_fork(grids, NULL); lims = i & 1; N[1]--; }
    }
  }
  for(b = 0; b < 2; b++) for(i = 3; i < (vh_thorough ? 18 : 11); i++) for(t = 0; t < 3; t++) if(vh_unit("sphere:%d:%d:%d", b, i, t))
    for(n = 1; n < 6; n++)
    { B[0] = b; B[1] = B[2] = FO; N[0] = 2 + n; N[1] = i; N[2] = n; T[0] = t; T[1] = (t+1) % 3; T[2] = (2*t) % 3; lims = 0; dir = 0; vh_at("theta %d phi %d", i, n); vh_fork(sphere, NULL); }
  return vh_done();
}

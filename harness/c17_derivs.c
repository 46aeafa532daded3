/* C17: derivatives along a direction and all derivatives of a box.  All basis functions and all unit vectors of all lines. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_spec.h"
#undef exit
static int N[3], B[3], T[3], dir, lims, order;
static const double LIM[2][3][2] = {{{-1.25, 0.75}, {0.5, 3}, {0, 6.5}}, {{100, 100.125}, {-64, -1}, {-0.01, 0.01}}};
#define CFG "%s/%s/%s n=%d,%d,%d types %d,%d,%d limits %d"
#define CFGV VS_BAS[B[0]], VS_BAS[B[1]], VS_BAS[B[2]], N[0], N[1], N[2], T[0], T[1], T[2], lims
static int cmp(const char *sig, const char *what, const double *x, const double *y, int n, double tol, int p)
{
  int i;
  for(i = 0; i < n; i++) if(!(fabs(x[i]-y[i]) <= tol))
  { vh_fail(sig, "%s " CFG " direction %d order %d, function %d: entry %d is %.17g, expected %.17g (tolerance %g)", what, CFGV, dir, order, p, i, x[i], y[i], tol); return 0; }
  return 1;
}
static double *D(int n) { return calloc(n+8, sizeof(double)); }
static void mark(double *x, int n) { int i; for(i = 0; i < n; i++) x[i] = 1000+i; }
static double pt(int d, int i) { return vs_point(B[d], N[d], i, vs_lim[d][0], vs_lim[d][1]); }
static int nyq(int b, int n, int k) { return b == FO && n % 2 == 0 && k == n-1; }
/* weights of the der-th derivative at x0 of the polynomial through x[0..m] (Fornberg) */
static void weights(long double x0, const long double *x, int m, int der, long double *w)
{
  long double c1 = 1, c2, c3, c4 = x[0]-x0, c5, C[8][4]; int i, j, k, mn;
  memset(C, 0, sizeof C); C[0][0] = 1;
  for(i = 1; i <= m; i++)
  {
    mn = i < der ? i : der; c2 = 1; c5 = c4; c4 = x[i]-x0;
    for(j = 0; j < i; j++)
    {
      c3 = x[i]-x[j]; c2 *= c3;
      if(j == i-1) { for(k = mn; k > 0; k--) C[i][k] = c1*(k*C[i-1][k-1]-c5*C[i-1][k])/c2; C[i][0] = -c1*c5*C[i-1][0]/c2; }
      for(k = mn; k > 0; k--) C[j][k] = (c4*C[j][k]-k*C[j][k-1])/c3;
      C[j][0] = c4*C[j][0]/c3;
    }
    c1 = c2;
  }
  for(i = 0; i <= m; i++) w[i] = C[i][der];
}
/* the n*n matrices of the first (m1) and second (m2) derivative that a basis has to have on its points */
static void expected(int b, int n, double a0, double b0, double *m1, double *m2)
{
  long double x[8], w[8]; int i, j, k, d, s, m; long double h = (long double)(b0-a0)/(b == FP ? n : n-1);
  memset(m1, 0, n*n*sizeof(double)); memset(m2, 0, n*n*sizeof(double));
  if(b < F1)
  { /* sum over basis functions: value(k) at i from the dual basis: solve through the exact analysis (discrete orthogonality in long double) */
    for(j = 0; j < n; j++) for(i = 0; i < n; i++)
    { /* c_k = analysis of unit vector j */
      long double s1 = 0, s2 = 0, X = vs_point(b, n, i, a0, b0), c;
      for(k = 0; k < n; k++)
      {
        if(nyq(b, n, k)) continue; /* the highest cosine counts as constant */
        if(b == FO) { int q = (k+1)/2; c = k == 0 ? 1 : k % 2 ? cosl(2*VS_PI*((long double)q*j)/n) : sinl(2*VS_PI*((long double)q*j)/n); }
        else if(b == CE) { c = cosl(VS_PI*((long double)k*j)/(n-1))*2/(n-1); if(j == 0 || j == n-1) c /= 2; if(k == n-1) c /= 2; }
        else c = cosl(VS_PI*k*(j+0.5L)/n)*2/n;
        s1 += c*vs_basis(b, n, k, X, a0, b0, 1); s2 += c*vs_basis(b, n, k, X, a0, b0, 2);
      }
      m1[n*i+j] = s1; m2[n*i+j] = s2;
    }
    return;
  }
  for(d = 1; d <= 2; d++) for(i = 0; i < n; i++)
  {
    m = 2; s = i-1;
    if(b == F1 && i == 0) { s = 0; m = d+1; }
    if(b == F1 && i == n-1) { m = d+1; s = n-1-m; }
    for(j = 0; j <= m; j++) x[j] = h*(s+j);
    weights(h*i, x, m, d, w);
    for(j = 0; j <= m; j++) (d == 1 ? m1 : m2)[n*i + (s+j+n) % n] += w[j];
  }
}
static void fdmatrix(int per, int n, const double *x, double L, double *m1, double *m2)
{
  int i, j, k;
  memset(m1, 0, n*n*sizeof(double));
  for(i = 0; i < n; i++)
  {
    int l = i-1, r = i+1; double h;
    if(per) { h = 2*L/n; l = (l+n) % n; r = r % n; } else { if(l < 0) l = 0; if(r > n-1) r = n-1; h = x[r]-x[l]; }
    m1[n*i+r] += 1/h; m1[n*i+l] -= 1/h;
  }
  for(i = 0; i < n; i++) for(j = 0; j < n; j++) for(m2[n*i+j] = 0, k = 0; k < n; k++) m2[n*i+j] += m1[n*i+k]*m1[n*k+j];
}
static double maxabs(const double *m, int n) { double r = 0; int i; for(i = 0; i < n; i++) if(fabs(m[i]) > r) r = fabs(m[i]); return r; }
static void setlims(void) { int d, e; for(d = 0; d < 3; d++) for(e = 0; e < 2; e++) vs_lim[d][e] = LIM[lims][d][e]; }
/* one direction; a: nonzero after conversion to finite differences */
static void lines(void *arg)
{
  int conv = arg != NULL, nn, p, i, k, q, d = dir-1, n = N[d], st[3] = {1, N[0], N[0]*N[1]}; tBox *box; const char *XN[3] = {"X", "Y", "Z"};
  double *u, *w, *e, *e2, *m1 = D(n*n), *m2 = D(n*n), *save, *fd, tol1, tol2, a, b, eps = 2.3e-16, s1, s2; double *DM, *DDM;
  setlims(); a = vs_lim[d][0]; b = vs_lim[d][1];
  box = vs_box(N, B, T); nn = box->nnodes; u = D(nn); w = D(nn); e = D(nn); e2 = D(nn); save = D(nn); fd = D(n);
  if(conv)
  {
    if(!strcmp(arg, "fd")) convert_grid_to_fd(box->grid);
    for(i = 0; i < n; i++) fd[i] = box->v[Ind((char*)XN[d])][i*st[d]];
    fdmatrix(B[d] == FO || B[d] == FP, n, fd, b-a, m1, m2);
  }
  else expected(B[d], n, a, b, m1, m2);
  s1 = maxabs(m1, n*n); s2 = maxabs(m2, n*n); if(s1 == 0) s1 = 1/(b-a); if(s2 == 0) s2 = 1/(b-a)/(b-a);
  if(conv) s2 = s1*s1; else if(B[d] < F1) { s1 = (B[d] == FO ? 7. : n)*n/(b-a); s2 = s1*s1; }
  tol1 = 40*eps*n*s1; tol2 = 40*eps*n*s2;
  if(lims) { tol1 *= 4; tol2 *= 4; if(conv && B[d] != FO && B[d] != FP) { double x = 2.3e-16*100/0.125*n*n; tol1 *= 1+x*1e3; tol2 *= 1+x*1e3; } }
  if(B[d] == FO || B[d] == FP || B[d] == F1 || conv) ; 
  DM = d == 0 ? box->D1 : d == 1 ? box->D2 : box->D3; DDM = d == 0 ? box->DD1 : d == 1 ? box->DD2 : box->DD3;
  if(!cmp("matrix", "first derivative matrix", DM, m1, n*n, tol1, -1) || !cmp("matrix", "second derivative matrix", DDM, m2, n*n, tol2, -1)) return;
  for(p = 0; p < nn; p++)
  {
    int pos = p/st[d] % n, base = p - pos*st[d];
    vh_evals++; vh_trans += 4;
    memset(u, 0, nn*sizeof(double)); u[p] = 1; memset(e, 0, nn*sizeof(double)); memset(e2, 0, nn*sizeof(double));
    for(i = 0; i < n; i++) { e[base+i*st[d]] = m1[n*i+pos]; e2[base+i*st[d]] = m2[n*i+pos]; }
    memcpy(save, u, nn*sizeof(double));
    mark(w, nn); spec_Deriv1(box, dir, u, w); if(!cmp("deriv1", "first derivative", w, e, nn, tol1, p)) return;
    mark(w, nn); spec_Deriv2(box, dir, u, w); if(!cmp("deriv2", "second derivative", w, e2, nn, tol2, p)) return;
    if(B[d] == CE && !conv) { mark(w, nn); cheb_Deriv1(box, dir, u, w); if(!cmp("deriv1", "first derivative (Chebyshev)", w, e, nn, tol1, p)) return; }
    if(memcmp(u, save, nn*sizeof(double))) { vh_fail("source", CFG " direction %d: taking a derivative changes its input", CFGV, dir); return; }
    /* basis functions: exact derivatives */
    if(B[d] < F1 && !conv)
    {
      double f = 0, t;
      memset(u, 0, nn*sizeof(double)); k = pos;
      for(i = 0; i < n; i++) u[base+i*st[d]] = vs_basis(B[d], n, k, pt(d, i), a, b, 0);
      for(i = 0; i < n; i++) { t = fabs(u[base+i*st[d]]); if(t > f) f = t; }
      for(i = 0; i < n; i++) { e[base+i*st[d]] = nyq(B[d], n, k) ? 0 : vs_basis(B[d], n, k, pt(d, i), a, b, 1); e2[base+i*st[d]] = nyq(B[d], n, k) ? 0 : vs_basis(B[d], n, k, pt(d, i), a, b, 2); }
      if(f == 0) f = 1;
      mark(w, nn); spec_Deriv1(box, dir, u, w); if(!cmp("exact1", "first derivative of a basis function", w, e, nn, 4*tol1*f*n, p)) return;
      mark(w, nn); spec_Deriv2(box, dir, u, w); if(!cmp("exact2", "second derivative of a basis function", w, e2, nn, 4*tol2*f*n, p)) return;
    }
    if(n <= 5) for(q = 0; q < nn; q++) if(q != p)
    { /* linear */
      int qp = q/st[d] % n, qb = q - qp*st[d];
      vh_trans++;
      memset(u, 0, nn*sizeof(double)); u[p] = 3; u[q] = -0.75; memset(e, 0, nn*sizeof(double)); memset(e2, 0, nn*sizeof(double));
      for(i = 0; i < n; i++) { e[base+i*st[d]] += 3*m1[n*i+pos]; e2[base+i*st[d]] += 3*m2[n*i+pos]; e[qb+i*st[d]] += -.75*m1[n*i+qp]; e2[qb+i*st[d]] += -.75*m2[n*i+qp]; }
      spec_Deriv1(box, dir, u, w); if(!cmp("linear", "first derivative of a combination", w, e, nn, 6*tol1, p)) return;
      spec_Deriv2(box, dir, u, w); if(!cmp("linear", "second derivative of a combination", w, e2, nn, 6*tol2, p)) return;
    }
  }
  vh_states += nn; vh_distinct++;
  vh_sample(CFG " direction %d%s: all %d unit vectors and basis functions", CFGV, dir, conv ? " converted to finite differences" : "", nn);
}
/* all derivatives at once */
static void cube(void *arg)
{
  static const char *NAME[9] = {"u1", "u2", "u3", "u11", "u12", "u13", "u22", "u23", "u33"};
  static const int DX[9][3] = {{1,0,0},{0,1,0},{0,0,1},{2,0,0},{1,1,0},{1,0,1},{0,2,0},{0,1,1},{0,0,2}};
  tBox *box; int nn, p, q, v, d, k, i, st[3] = {1, N[0], N[0]*N[1]}; double *u, *s, *o[9], *e, *M[3][3], sc[3][3]; char str[20];
  setlims(); box = vs_box(N, B, T); nn = box->nnodes; u = D(nn); s = D(nn); e = D(nn); for(v = 0; v < 9; v++) o[v] = D(nn);
  sprintf(str, "%d", order); Sets("Spectral_second_deriv_order", str);
  for(d = 0; d < 3; d++)
  {
    for(k = 0; k < 3; k++) { M[d][k] = D(N[d]*N[d]); sc[d][k] = 1; }
    for(i = 0; i < N[d]; i++) M[d][0][N[d]*i+i] = 1;
    expected(B[d], N[d], vs_lim[d][0], vs_lim[d][1], M[d][1], M[d][2]);
    sc[d][1] = (B[d] == FO ? 7. : N[d])*N[d]/(vs_lim[d][1]-vs_lim[d][0]); sc[d][2] = sc[d][1]*sc[d][1];
  }
  for(p = 0; p < nn; p++) for(k = 0; k < 2; k++)
  {
    int cheb = B[0] == CE && B[1] == CE && B[2] == CE;
    if(k == 1 && !cheb) continue;
    vh_evals++; vh_trans += 9;
    memset(u, 0, nn*sizeof(double)); u[p] = 1; memcpy(s, u, nn*sizeof(double)); for(v = 0; v < 9; v++) mark(o[v], nn);
    (k == 0 ? spec_allDerivs : cheb_allDerivs)(box, u, o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8]);
    if(memcmp(u, s, nn*sizeof(double))) { vh_fail("source", CFG ": taking all derivatives changes the input", CFGV); return; }
    for(v = 0; v < 9; v++)
    {
      for(q = 0; q < nn; q++) for(e[q] = 1, d = 0; d < 3; d++) e[q] *= M[d][DX[v][d]][N[d]*(q/st[d] % N[d]) + p/st[d] % N[d]];
      if(!cmp(NAME[v], k == 0 ? "spec_allDerivs" : "cheb_allDerivs", o[v], e, nn, 4e-13*sc[0][DX[v][0]]*sc[1][DX[v][1]]*sc[2][DX[v][2]], p)) return;
    }
  }
  vh_states += nn; vh_distinct++;
}
int main(int argc, char **argv)
{
  static const int BIG[] = {17, 24, 33, 48, 64, 65, 96}, ORD[] = {123, 132, 213, 231, 312, 321}; int b, i, t, n, d, c; char s[100];
  vh_init(argc, argv);
  for(b = 0; b < 5; b++) for(t = 0; t < 4; t++) for(lims = 0; lims < 2; lims++) for(c = 0; c < 2; c++)
  {
    if(b >= F1 && t) continue;
    for(i = 1; i < 31 + 7; i++)
    {
      n = i < 31 ? i : BIG[i-31];
      if(!vh_thorough && i >= 11 && i < 31) continue;
      if(!vh_thorough && i >= 31 && (n > 65 || lims || (t == 0 && n > 33))) continue;
      if(t == 3 && n < 60) continue;
      if(b == F1 && n < 4) continue;
      if(b == FP && n < 3) continue;
      if(b == CE && n < 2) continue;
      if(c && n < 3) continue;
      if(!vh_unit("line:%d:%d:%d:%d:%d", b, t, lims, c, n)) continue;
      for(dir = 1; dir <= 3; dir++)
      {
        if(n > 30 && dir != 1 + n % 3 && !vh_thorough) continue;
        for(d = 0; d < 3; d++) { N[d] = 2 + (d == dir % 3); B[d] = d % 2 ? CE : FO; T[d] = 0; }
        if(c) for(d = 0; d < 3; d++) N[d] = 3 + (d == dir % 3);
        N[dir-1] = n; B[dir-1] = b; T[dir-1] = t; sprintf(s, "direction %d", dir); vh_at("%s", s);
        vh_fork(lines, c ? "fd" : NULL);
      }
    }
  }
  for(b = 0; b < 125; b++) for(i = 0; i < (vh_thorough ? 16 : 3); i++) if(vh_unit("cube:%d:%d", b, i))
  {
    static const int nn[4] = {4, 5, 3, 6};
    B[0] = b % 5; B[1] = b/5 % 5; B[2] = b/25; lims = i & 1;
    for(t = 0; t < (vh_thorough ? 27 : 3); t++)
    {
      for(d = 0; d < 3; d++) { N[d] = nn[(i + 3*d + d*i + b + i/4) % 4]; if(B[d] >= F1 && N[d] < 4) N[d] = 5; }
      for(d = 0; d < 3; d++) T[d] = B[d] >= F1 ? 0 : vh_thorough ? t / (d == 0 ? 1 : d == 1 ? 3 : 9) % 3 : (t + d*i) % 3;
      for(c = 0; c < 6; c++)
      { /* orders other than 123 are only offered with matrices */
        order = ORD[c]; if(c && (T[0] || T[1] || T[2])) continue;
        vh_at("types %d %d %d order %d", T[0], T[1], T[2], order); vh_fork(cube, NULL);
      }
    }
  }
  return vh_done();
}

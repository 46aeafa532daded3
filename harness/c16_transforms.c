/* C16: spectral analysis and synthesis.  All unit vectors of all lines. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_spec.h"
#undef exit
static int N[3], B[3], T[3], dir;
static int cmp(const char *sig, const char *what, const double *x, const double *y, int n, double tol, int p)
{
  int i;
  for(i = 0; i < n; i++) if(!(fabs(x[i]-y[i]) <= tol))
  { vh_fail(sig, "%s %s/%s/%s n=%d,%d,%d types %d,%d,%d direction %d, unit vector %d: entry %d is %.17g, expected %.17g", what, VS_BAS[B[0]], VS_BAS[B[1]], VS_BAS[B[2]], N[0], N[1], N[2], T[0], T[1], T[2], dir, p, i, x[i], y[i]); return 0; }
  return 1;
}
static int bits(const char *sig, const char *what, const double *x, const double *y, int n, int p)
{
  if(!memcmp(x, y, n*sizeof(double))) return 1;
  vh_fail(sig, "%s %s/%s/%s n=%d,%d,%d types %d,%d,%d direction %d, unit vector %d: numbers differ that have to be identical", what, VS_BAS[B[0]], VS_BAS[B[1]], VS_BAS[B[2]], N[0], N[1], N[2], T[0], T[1], T[2], dir, p);
  return 0;
}
static double *D(int n) { return calloc(n+8, sizeof(double)); }
static void mark(double *x, int n) { int i; for(i = 0; i < n; i++) x[i] = 1000+i; }
/* one direction */
static void lines(void *a)
{
  tBox *box = vs_box(N, B, T); int nn = box->nnodes, p, i, k, q, st[3] = {1, N[0], N[0]*N[1]}, d = dir-1, n = N[d], s, N2, pl, co[3], c2;
  double *u = D(nn), *c = D(nn), *w = D(nn), *z = D(nn), *e = D(nn), *m = D(n*n), *m2 = D(n*n), tol = 2e-15*n*n + 1e-13, *save = D(nn); const char *XN[3] = {"X", "Y", "Z"};
  double *M = d == 0 ? box->Mcoeffs1 : d == 1 ? box->Mcoeffs2 : box->Mcoeffs3, *E = d == 0 ? box->Meval1 : d == 1 ? box->Meval2 : box->Meval3;
  int four = B[d] == FO; double su = four ? n : 1; /* size of the coefficients */
  /* the points are where the basis has them */
  for(p = 0; p < nn; p++) { double x = vs_point(B[d], n, p/st[d] % n, vs_lim[d][0], vs_lim[d][1]); if(!(fabs(box->v[Ind((char*)XN[d])][p]-x) <= 1e-14*8)) { vh_fail("points", "%s n=%d: point %d is at %.17g, expected %.17g", VS_BAS[B[d]], n, p, box->v[Ind((char*)XN[d])][p], x); return; } }
  /* matrices */
  for(k = 0; k < n && B[d] < F1; k++) for(i = 0; i < n; i++)
  { double r = vs_basis(B[d], n, k, vs_point(B[d], n, i, 0, 1), 0, 1, 0); vh_evals++; if(!(fabs(E[n*i+k]-r) <= tol)) { vh_fail("matrix", "%s n=%d: evaluation matrix (%d,%d) is %.17g, expected %.17g", VS_BAS[B[d]], n, i, k, E[n*i+k], r); return; } }
  matrix_times_matrix(E, M, m, n); for(i = 0; i < n*n; i++) m2[i] = i % (n+1) == 0;
  if(!cmp("matrix", "evaluation times coefficient matrix", m, m2, n*n, tol, -1)) return;
  for(p = 0; p < nn; p++)
  {
    int pos = p/st[d] % n, base = p - pos*st[d];
    vh_evals++; vh_trans += 4;
    memset(u, 0, nn*sizeof(double)); u[p] = 1; memcpy(save, u, nn*sizeof(double)); mark(c, nn);
    spec_analysis1(box, dir, u, c);
    if(!bits("source", "analysis changes its input", u, save, nn, p)) return;
    memset(e, 0, nn*sizeof(double));
    for(k = 0; k < n; k++) e[base+k*st[d]] = M[n*k+pos];
    if(!cmp("analysis", "coefficients", c, e, nn, tol*su, p)) return;
    memcpy(save, c, nn*sizeof(double)); mark(w, nn);
    spec_synthesis1(box, dir, w, c);
    if(!bits("source", "synthesis changes its input", c, save, nn, p)) return;
    if(!cmp("inverse", "values from coefficients of the values", w, u, nn, tol, p)) return;
    memcpy(z, u, nn*sizeof(double)); spec_analysis1(box, dir, z, z);
    if(!cmp("inplace", "analysis in place", z, c, nn, 1e-15*su, p)) return;
    spec_synthesis1(box, dir, z, z);
    if(!cmp("inplace", "synthesis in place", z, u, nn, tol, p)) return;
    mark(z, nn); spec_analysis1_diffmatrix(box, dir, M, u, z); if(!cmp("diffmatrix", "analysis with the matrix", z, c, nn, tol*su, p)) return;
    mark(z, nn); spec_synthesis1_diffmatrix(box, dir, E, z, c); if(!cmp("diffmatrix", "synthesis with the matrix", z, u, nn, tol, p)) return;
    /* the other way round */
    memset(c, 0, nn*sizeof(double)); c[p] = 1; mark(w, nn);
    spec_synthesis1(box, dir, w, c);
    memset(e, 0, nn*sizeof(double));
    for(i = 0; i < n; i++) e[base+i*st[d]] = B[d] >= F1 ? i == pos : vs_basis(B[d], n, pos, vs_point(B[d], n, i, 0, 1), 0, 1, 0);
    if(!cmp("synthesis", "values of a basis function", w, e, nn, tol, p)) return;
    mark(z, nn); spec_analysis1(box, dir, w, z);
    if(!cmp("inverse", "coefficients of a basis function", z, c, nn, tol*su, p)) return;
    /* planes */
    for(N2 = 1; N2 <= 3; N2++) if(N2 != dir) for(pl = 0; pl < N[N2-1]; pl++)
    {
      vh_trans += 2;
      memset(u, 0, nn*sizeof(double)); u[p] = 1; spec_analysis1(box, dir, u, c);
      mark(z, nn); mark(e, nn); for(q = 0; q < nn; q++) if(q/st[N2-1] % N[N2-1] == pl) e[q] = c[q];
      spec_analysis1_inplaneN(box, dir, N2, pl, u, z);
      if(!cmp("plane", "analysis in a plane", z, e, nn, 1e-15*su, p)) return;
      memset(c, 0, nn*sizeof(double)); c[p] = 1; spec_synthesis1(box, dir, w, c);
      mark(z, nn); mark(e, nn); for(q = 0; q < nn; q++) if(q/st[N2-1] % N[N2-1] == pl) e[q] = w[q];
      spec_synthesis1_inplaneN(box, dir, N2, pl, z, c);
      if(!cmp("plane", "synthesis in a plane", z, e, nn, 1e-15*su, p)) return;
    }
    /* linearity: all partners */
    if(n <= 6) for(q = 0; q < nn; q++) if(q != p)
    {
      vh_trans++;
      memset(u, 0, nn*sizeof(double)); u[p] = 3; u[q] = -0.75; spec_analysis1(box, dir, u, c);
      memset(e, 0, nn*sizeof(double)); pos = p/st[d] % n; base = p - pos*st[d]; for(k = 0; k < n; k++) e[base+k*st[d]] += 3*M[n*k+pos];
      pos = q/st[d] % n; base = q - pos*st[d]; for(k = 0; k < n; k++) e[base+k*st[d]] += -0.75*M[n*k+pos];
      if(!cmp("linear", "analysis of a combination", c, e, nn, 4*tol*su, p)) return;
      spec_synthesis1(box, dir, w, c); if(!cmp("linear", "synthesis of a combination", w, u, nn, 4*tol, p)) return;
      pos = p/st[d] % n; base = p - pos*st[d];
    }
  }
  (void)co; (void)c2; (void)s;
  vh_states += nn; vh_distinct++;
  vh_sample("%s n=%d direction %d type '%s': all %d unit vectors", VS_BAS[B[d]], n, dir, VS_TT[T[d]], nn);
}
/* all three directions */
static void cube(void *a)
{
  tBox *box = vs_box(N, B, T); tGrid *g = box->grid; int nn = box->nnodes, p, q, pl, P, d; double *u = D(nn), *c = D(nn), *e = D(nn), *z = D(nn), *w = D(nn), su = 1; tVarList *v1 = vlalloc(g), *v2 = vlalloc(g);
  double *Mc[3] = {box->Mcoeffs1, box->Mcoeffs2, box->Mcoeffs3}; int st[3] = {1, N[0], N[0]*N[1]};
  for(d = 0; d < 3; d++) if(B[d] == FO) su *= N[d];
  vlpush(v1, Ind("vs_u")); vlpush(v1, Ind("vs_w")); vlpush(v2, Ind("vs_c")); vlpush(v2, Ind("vs_z"));
  for(p = 0; p < nn; p++)
  {
    vh_evals++; vh_trans += 8; dir = 0;
    memset(u, 0, nn*sizeof(double)); u[p] = 1;
    for(q = 0; q < nn; q++) for(e[q] = 1, d = 0; d < 3; d++) e[q] *= Mc[d][N[d]*(q/st[d] % N[d]) + p/st[d] % N[d]];
    mark(c, nn); spec_Coeffs(box, u, c); if(!cmp("cube", "spec_Coeffs", c, e, nn, 1e-12*su, p)) return;
    mark(w, nn); spec_Eval(box, w, c); if(!cmp("cube", "spec_Eval", w, u, nn, 1e-12, p)) return;
    mark(z, nn); spec_Coeffs_old(box, u, z); if(!cmp("cube", "spec_Coeffs_old", z, e, nn, 1e-12*su, p)) return;
    memcpy(z, u, nn*sizeof(double)); spec_Coeffs(box, z, z); if(!cmp("cube", "spec_Coeffs in place", z, c, nn, 1e-14*su, p)) return;
    spec_Eval(box, z, z); if(!cmp("cube", "spec_Eval in place", z, u, nn, 1e-12, p)) return;
    memset(c, 0, nn*sizeof(double)); c[p] = 1; mark(w, nn); spec_Eval(box, w, c); mark(z, nn); spec_Coeffs(box, w, z); if(!cmp("cube", "coefficients of a basis function", z, c, nn, 1e-12*su, p)) return;
    for(q = 0; q < nn; q++) { box->v[Ind("vs_u")][q] = u[q]; box->v[Ind("vs_w")][q] = q; box->v[Ind("vs_c")][q] = box->v[Ind("vs_z")][q] = 7; z[q] = q; }
    spec_Coeffs_varlist(box, v1, v2); if(!cmp("cube", "spec_Coeffs_varlist", box->v[Ind("vs_c")], e, nn, 1e-12*su, p)) return;
    spec_Coeffs(box, z, w); if(!cmp("cube", "spec_Coeffs_varlist, second", box->v[Ind("vs_z")], w, nn, 1e-14*su*nn, p)) return;
    for(q = 0; q < nn; q++) box->v[Ind("vs_u")][q] = box->v[Ind("vs_w")][q] = 9;
    spec_Eval_varlist(box, v1, v2); if(!cmp("cube", "spec_Eval_varlist", box->v[Ind("vs_u")], u, nn, 1e-12, p) || !cmp("cube", "spec_Eval_varlist, second", box->v[Ind("vs_w")], z, nn, 1e-12*nn, p)) return;
    for(P = 1; P <= 3; P++) for(pl = 0; pl < N[P-1]; pl++)
    {
      int in = p/st[P-1] % N[P-1] == pl;
      vh_trans += 2;
      for(q = 0; q < nn; q++)
      {
        if(q/st[P-1] % N[P-1] != pl) { e[q] = 1000+q; continue; }
        for(e[q] = in, d = 0; d < 3; d++) if(d != P-1) e[q] *= Mc[d][N[d]*(q/st[d] % N[d]) + p/st[d] % N[d]];
      }
      mark(z, nn); spec_Coeffs_inplaneN(box, P, pl, u, z); if(!cmp("plane", "spec_Coeffs_inplaneN", z, e, nn, 1e-12*su, p)) return;
      memcpy(c, z, nn*sizeof(double)); mark(w, nn); for(q = 0; q < nn; q++) e[q] = q/st[P-1] % N[P-1] == pl ? u[q] : 1000+q;
      spec_Eval_inplaneN(box, P, pl, w, c); if(!cmp("plane", "spec_Eval_inplaneN", w, e, nn, 1e-12, p)) return;
    }
  }
  vh_states += nn; vh_distinct++;
}
int main(int argc, char **argv)
{
  static const int BIG[] = {17, 24, 33, 63, 64, 65, 66, 128, 129}; int b, i, t, n, d; char s[100];
  vh_init(argc, argv);
  for(b = 0; b < 5; b++) for(t = 0; t < 4; t++)
  {
    if(b >= F1 && t) continue;
    for(i = 2; i < 41 + 9; i++)
    {
      n = i < 41 ? i : BIG[i-41];
      if(!vh_thorough && i >= 13 && i < 41) continue;
      if(!vh_thorough && i >= 41 && (n > 66 || (t == 0 && n > 33))) continue;
      if(t == 3 && n < 60) continue;
      if(b == F1 && n < 4) continue;
      if(b == FP && n < 3) continue;
      if(!vh_unit("line:%d:%d:%d", b, t, n)) continue;
      for(dir = 1; dir <= 3; dir++)
      {
        if(n > 40 && dir != 1 + n % 3 && !vh_thorough) continue;
        for(d = 0; d < 3; d++) { N[d] = 2 + (d == dir % 3); B[d] = d % 2 ? CE : FO; T[d] = 0; }
        N[dir-1] = n; B[dir-1] = b; T[dir-1] = t; sprintf(s, "direction %d", dir); vh_at("%s", s);
        vh_fork(lines, NULL);
      }
    }
    if(b < F1 && vh_unit("line1:%d:%d", b, t) && b != CE) for(dir = 1; dir <= 3; dir++)
    { /* a single point */
      for(d = 0; d < 3; d++) { N[d] = 3; B[d] = CE; T[d] = 0; }
      N[dir-1] = 1; B[dir-1] = b; T[dir-1] = t; vh_at("one point direction %d", dir);
      vh_fork(lines, NULL);
    }
  }
  for(b = 0; b < 27; b++) for(i = 0; i < (vh_thorough ? 64 : 8); i++) if(vh_unit("cube:%d:%d", b, i))
  {
    static const int nn[4] = {4, 3, 5, 2};
    B[0] = b % 3; B[1] = b/3 % 3; B[2] = b/9;
    for(d = 0; d < 3; d++) N[d] = nn[vh_thorough ? (i >> (2*d)) & 3 : (i + 3*d + d*i + b) % 4];
    for(t = 0; t < (vh_thorough ? 27 : 3); t++) { for(d = 0; d < 3; d++) T[d] = vh_thorough ? t / (d == 0 ? 1 : d == 1 ? 3 : 9) % 3 : (t + d*i) % 3; vh_at("types %d %d %d", T[0], T[1], T[2]); vh_fork(cube, NULL); }
  }
  return vh_done();
}

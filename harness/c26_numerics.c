/* C26: root finders, minimisers, LU, line search Newton, ODE integration, attenuation functions */
#include "sgrid.h"
#include "vh.h"
#include <malloc.h>
static char tag[400];
static int part, NP = 8;
/* ---- one dimensional functions ---- */
static double CF[5]; static int kind, calls; static double lo, hi, jump, scal; static int outside;
static double feval(double x, double *df)
{
  double f = 0, d = 0; int i;
  switch(kind)
  {
    case 0: for(i = 4; i >= 0; i--) { d = d*x+f; f = f*x+CF[i]; } break;     /* polynomial */
    case 1: f = x < jump ? -1 : 2; d = 0; break;                              /* step */
    case 2: f = x < jump ? -1-(x-jump)*(x-jump) : 0.5+x-jump; d = x < jump ? -2*(x-jump) : 1; break;
    case 3: f = cbrt(x-jump); d = x == jump ? INFINITY : 1/(3*f*f); break;    /* infinite slope */
    case 4: f = x < jump ? 0 : x-jump; d = x < jump ? 0 : 1; break;           /* zero on an interval */
    case 5: f = tanh(20*(x-jump)); d = 20*(1-f*f); break;                     /* flat sides */
    case 6: f = exp(3*x)-exp(3*jump); d = 3*exp(3*x); break;
    case 7: f = fabs(x-jump) < 0.3 ? NAN : x-jump; d = 1; break;              /* undefined around the root */
    case 8: f = x > jump ? NAN : x+3; d = 1; break;
    case 9: f = pow(x-jump, 5); d = 5*pow(x-jump, 4); break;
  }
  *(&f) *= scal; d *= scal; if(df) *df = d; return f;
}
static double fun(double x, void *par) { calls++; if(par != (void *)&calls) vh_fail("parameter", "%s: the parameter is not passed on", tag); if(!(x >= lo && x <= hi)) outside = 1; return feval(x, NULL); }
static void fdf(double x, void *par, double *f, double *df) { calls++; if(par != (void *)&calls) vh_fail("parameter", "%s: the parameter is not passed on", tag); if(!(x >= lo && x <= hi)) outside = 1; *f = feval(x, df); }
static const char *kname(void) { static char s[120]; if(kind) sprintf(s, "f%d(%g)*%g", kind, jump, scal); else sprintf(s, "(%g,%g,%g,%g,%g)*%g", CF[0], CF[1], CF[2], CF[3], CF[4], scal); return s; }
static int sgn(double f) { return f > 0 ? 1 : f < 0 ? -1 : 0; }
/* is there a sign change or a zero within d of x, inside the bracket */
static int near_root(double x, double d)
{ double a = fmax(lo, x-d), b = fmin(hi, x+d), fa = feval(a, NULL), fb = feval(b, NULL), f = feval(x, NULL); if(f == 0) return 1; if(isnan(fa) || isnan(fb)) return 0;
  if(kind == 0) { double mn = INFINITY, mx = 0; int i; for(i = 0; i <= 80; i++) { double q = fabs(feval(a+(b-a)*i/80, NULL)); mn = fmin(mn, q); mx = fmax(mx, q); } if(mn <= 2e-3*mx) return 1; }
  return sgn(fa)*sgn(fb) <= 0 || sgn(f)*sgn(fa) <= 0 || sgn(f)*sgn(fb) <= 0; }
static int nfun; static int setfun(int k)
{
  static const double V[] = {-2, -1, 0, 1, 0.5}; static const double J[] = {-1, 0, 0.3, 1}; int i;
  memset(CF, 0, sizeof CF); scal = 1; kind = 0; jump = 0;
  if(k < 625) { for(i = 0; i < 4; i++) { CF[i] = V[k % 5]; k /= 5; } return 1; }
  k -= 625; if(k >= 9*4*3) return 0; kind = 1+k % 9; k /= 9; jump = J[k % 4]; k /= 4; scal = k == 0 ? 1 : k == 1 ? -1e120 : 1e-120;
  (void)nfun; return 1;
}
static void roots(void *a)
{
  static const double B[] = {-2, -1, -0.75, 0, 0.3, 1, 2.5, INFINITY, NAN}, ACC[] = {1e-3, 1e-10, 0}, X0[] = {0, -1, 0.3, 99, NAN}; static const int IT[] = {0, 1, 3, 200}; static const char *NM[] = {"rtbrent_brak", "newton1d_brak", "rtbisect", "zbrent_itsP", "rtsafe_itsP"};
  int k, i, j, t, m, w, s; (void)a;
  for(k = part; setfun(k); k += NP) for(i = 0; i < 9; i++) for(j = 0; j < 9; j++)
  {
    double x1 = B[i], x2 = B[j], f1, f2; int valid, fin = isfinite(x1) && isfinite(x2);
    if(!vh_thorough && (!fin || x1 == x2) && k % 25) continue;
    lo = fmin(x1, x2); hi = fmax(x1, x2); f1 = feval(x1, NULL); f2 = feval(x2, NULL);
    valid = fin && !isnan(f1) && !isnan(f2) && sgn(f1)*sgn(f2) <= 0; vh_states++;
    for(t = 0; t < 3; t++) for(m = 0; m < 4; m++) for(w = 0; w < 5; w++) for(s = 0; s < 5; s++)
    {
      double x0 = X0[s]; int ret, q; double d;
#ifdef ALT
      if(w == 0 || w == 2 || w == 4) continue;
#else
      if(w == 4) continue;
#endif
      if(s && (w == 0 || w == 3 || (!vh_thorough && m != 3))) continue;
      if(!vh_thorough && t == 2 && m != 3 && k % 3) continue;
      if(!fin && w == 3) continue; /* old interface */
      sprintf(tag, "%s of %s in [%g,%g], accuracy %g, limit %d, start %g", NM[w], kname(), x1, x2, ACC[t], IT[m], x0); vh_at("%s", tag);
      calls = outside = 0; vh_trans++; vh_evals++; ret = -12345;
      switch(w)
      {
#ifndef ALT
        case 0: ret = rtbrent_brak(&x0, fun, x1, x2, &calls, IT[m], ACC[t], 0); break;
        case 2: ret = rtbisect(&x0, fun, x1, x2, &calls, IT[m], ACC[t], 0); break;
#endif
        case 1: ret = newton1d_brak(&x0, fdf, x1, x2, &calls, IT[m], ACC[t], 0); break;
        case 3: ret = zbrent_itsP(&x0, fun, x1, x2, &calls, IT[m], ACC[t]); break;
      }
      q = calls;
      if(!valid)
      {
#ifdef ALT
        if(w == 3 && (isnan(f1) || isnan(f2))) continue;
#endif
        if(ret >= 0 && !(kind >= 7 && (f1 == 0 || f2 == 0))) vh_fail("bracket-invalid", "%s returns %d, %g although there is no bracket (f=%g,%g)", tag, ret, x0, f1, f2); continue; }
      if(outside) vh_fail("outside", "%s evaluates the function outside of the bracket", tag);
      if(q > IT[m]+3) vh_fail("evaluations", "%s evaluates the function %d times", tag, q);
      if(ret >= 0 && ret <= IT[m])
      {
        if(!(x0 >= lo && x0 <= hi)) { vh_fail("root-bracket", "%s returns %d, %.17g outside of the bracket", tag, ret, x0); continue; }
        d = 1.01*ACC[t]+5e-14*(fabs(x0)+1e-3); if(w == 1) d *= kind == 9 ? 6 : 3; else if(w == 2) d = 1.01*ACC[t]+3e-16*(1+fabs(x0));
        if(!(kind == 7 || kind == 8) && !near_root(x0, d)) vh_fail("root-accuracy", "%s returns %d, %.17g where f=%g, but there is no root within %g", tag, ret, x0, feval(x0, NULL), d);
      }
      else if(ret < 0 ? !(kind == 7 || kind == 8 || w == 3) : ret != IT[m]+1) vh_fail("root-count", "%s returns %d", tag, ret);
      else if(ret > IT[m] && m == 3 && kind != 7 && kind != 8 && ACC[t] > 0) vh_fail("root-fails", "%s does not converge, ends at %g", tag, x0);
    }
    if(vh_fails > 60) return;
  }
}
/* ---- brackets ---- */
static void bracket(void *a)
{
  static const double B[] = {-2, -1, -0.75, 0, 0.3, 1, 2.5}; static const int IT[] = {0, 1, 4, 50}; int k, i, j, m, v; (void)a;
  for(k = part; setfun(k); k += NP) for(i = 0; i < 7; i++) for(j = 0; j < 7; j++) for(m = 0; m < 4; m++) for(v = 0; v < 2; v++)
  {
    double x1 = B[i], x2 = B[j]; int ret, mono;
    if(v == 1 && m) continue;
#ifdef ALT
    if(v == 0) continue;
#endif
    lo = -INFINITY; hi = INFINITY; sprintf(tag, "bracket for a root of %s from %g,%g, limit %d (%d)", kname(), x1, x2, IT[m], v); vh_at("%s", tag); vh_trans++; vh_evals++;
#ifdef ALT
    ret = zbrac_P(fun, &x1, &x2, &calls);
#else
    ret = v ? zbrac_P(fun, &x1, &x2, &calls) : rt_brak(fun, &calls, &x1, &x2, IT[m]);
#endif
    if(x1 == x2 && i == j) { if(ret >= 0) vh_fail("brak-equal", "%s returns %d for an empty interval", tag, ret); continue; }
    if(ret >= 0) { double f1 = feval(x1, NULL), f2 = feval(x2, NULL); if(!(sgn(f1)*sgn(f2) < 0)) vh_fail("brak-false", "%s returns %d, [%g,%g] where f=%g,%g", tag, ret, x1, x2, f1, f2); if(fmin(x1, x2) > fmin(B[i], B[j]) || fmax(x1, x2) < fmax(B[i], B[j])) vh_fail("brak-shrinks", "%s returns [%g,%g]", tag, x1, x2); }
    else { double f1 = feval(B[i], NULL), f2 = feval(B[j], NULL); if((v || IT[m] >= 1) && scal == 1 && sgn(f1)*sgn(f2) < 0) vh_fail("brak-missed", "%s returns %d although it starts with a bracket", tag, ret);
      mono = kind == 0 ? CF[2] == 0 && CF[3] == 0 && CF[1] != 0 : kind == 3 || kind == 9; if(mono && scal == 1 && (v || IT[m] == 50)) vh_fail("brak-missed", "%s returns %d for a monotonic function", tag, ret); }
    if(vh_fails > 60) return;
  }
}
/* ---- minima ---- */
static int setmin(int k)
{
  static const double V[] = {-2, -1, 0, 1}; int i; memset(CF, 0, sizeof CF); scal = 1; kind = 0; jump = 0;
  if(k < 512) { for(i = 1; i < 4; i++) { CF[i] = V[k % 4]; k /= 4; } CF[4] = k % 2 ? 1 : 0; CF[0] = k/2 % 4 ? 0 : 1; return 1; }
  k -= 512; if(k >= 24) return 0; kind = 20+k % 6; jump = (k/6 % 4)*0.37-0.5; return 1;
}
static double g(double x) { double f = 0; int i; switch(kind) { case 0: for(i = 4; i >= 0; i--) f = f*x+CF[i]; break; case 20: f = fabs(x-jump); break; case 21: f = -exp(-(x-jump)*(x-jump)); break; case 22: f = x < jump ? 2 : 1; break; case 23: f = fmax(fabs(x-jump)-0.4, 0); break; case 24: f = sqrt(fabs(x-jump)); break; case 25: f = cosh(4*(x-jump)); break; } return f; }
static double gfun(double x, void *par) { calls++; if(par != (void *)&calls) vh_fail("parameter", "%s: the parameter is not passed on", tag); if(!(x >= lo && x <= hi)) outside = 1; return g(x); }
/* strictly unimodal on a fine grid? position of the minimum by golden section in long runs */
static int unimodal(double a, double b, double *xm)
{
  int i, n = 400, t = 0, best = 0; double p = g(a), bp = p, l, r; if(kind == 22 || kind == 23) return 0;
  for(i = 1; i <= n; i++) { double f = g(a+(b-a)*i/n); if(f > p) t = 1; else if(f < p) { if(t) return 0; } else if(t || i > 1) { if(fabs(i-best) > 1) return 0; } if(f < bp) { bp = f; best = i; } p = f; }
  l = a+(b-a)*(best > 0 ? best-1 : 0)/n; r = a+(b-a)*(best < n ? best+1 : n)/n;
  for(i = 0; i < 200; i++) { double u = l+(r-l)*0.382, v = l+(r-l)*0.618; if(g(u) < g(v)) r = v; else l = u; }
  *xm = (l+r)/2; return 1;
}
static void minima(void *arg)
{
  static const double B[] = {-2, -1, -0.6, 0, 0.37, 1, 2}, TOL[] = {1e-3, 1e-5}; static const int IT[] = {0, 1, 3, 100}; int k, i, j, l, t, m, v; (void)arg;
  for(k = part; setmin(k); k += NP)
  {
    for(i = 0; i < 7; i++) for(j = 0; j < 7; j++) for(l = 0; l < 7; l++)
    {
      double a = B[i], b = B[j], c = B[l], xm = 0; int uni;
      if(!((a < b && b < c) || (c < b && b < a)) || g(b) > g(a) || g(b) > g(c)) continue;
      lo = fmin(a, c); hi = fmax(a, c); uni = unimodal(lo, hi, &xm); vh_states++;
      for(t = 0; t < 2; t++) for(m = 0; m < 4; m++) for(v = 0; v < 2; v++)
      {
        volatile double x = 1e300, f = 1e300; double xx = 1e300, ff = 1e300; volatile int ret = -9; double d;
        if(v && m < 3) continue;
#ifdef ALT
        if(!v) continue;
#endif
        sprintf(tag, "minimum of %d (%g,%g,%g,%g,%g) %g in %g,%g,%g, tolerance %g, limit %d (%d)", kind, CF[0], CF[1], CF[2], CF[3], CF[4], jump, a, b, c, TOL[t], IT[m], v); vh_at("%s", tag); vh_trans++; vh_evals++; calls = outside = 0;
        if(v) { ff = brent_with_pointer_to_pars(a, b, c, gfun, TOL[t], &xx, &calls); ret = 1; }
#ifndef ALT
        else ret = minbrent_brak(gfun, &calls, a, b, c, IT[m], TOL[t], &xx, &ff, 0);
#endif
        x = xx; f = ff; (void)x; (void)f;
        if(outside) vh_fail("min-outside", "%s: the function is evaluated outside of the bracket", tag);
        if(!(xx >= lo && xx <= hi) || ff != g(xx) || ff > g(b)) vh_fail("min-value", "%s: returns %d, f(%.17g)=%.17g, but f there is %.17g and f(b)=%g", tag, ret, xx, ff, g(xx), g(b));
        if(ret < 0 || ret > IT[m]+1) vh_fail("min-count", "%s: returns %d", tag, ret);
        if(m == 3 && ret > IT[m]) vh_fail("min-fails", "%s: no convergence", tag);
        d = 2.2*(TOL[t]*fabs(xx)+1e-10)+(kind == 20 || kind == 24 ? 1e-12 : 1e-6)+1e-4*(kind == 0 && CF[2] == 0); 
        if(kind == 0) d += 2e-4; /* flat minima of quartic functions */
        if(ret <= IT[m] && uni && fabs(xx-xm) > d && g(xx)-g(xm) > 1e-14*(1+fabs(g(xm)))) vh_fail("min-accuracy", "%s: returns %.17g, the minimum is at %.17g", tag, xx, xm);
      }
      if(vh_fails > 60) return;
    }
    /* bracketing */
    for(i = 0; i < 7; i++) for(j = 0; j < 7; j++) for(m = 0; m < 4; m++) for(v = 0; v < 2; v++)
    {
      double a = B[i], b = B[j], c = 77, fa = 1, fb = 1, fc = 1; int ret = -1, co;
      if(i == j || (v && m < 3)) continue;
      co = (kind == 0 && CF[4] > 0) || (kind == 0 && !CF[3] && CF[2] > 0) || kind == 20 || kind == 25 || kind == 24;
      if(v && !co) continue;
#ifdef ALT
      if(!v) continue;
#endif
      lo = -INFINITY; hi = INFINITY; sprintf(tag, "bracket for a minimum of %d (%g,%g,%g,%g,%g) %g from %g,%g, limit %d (%d)", kind, CF[0], CF[1], CF[2], CF[3], CF[4], jump, a, b, IT[m], v); vh_at("%s", tag); vh_trans++; vh_evals++;
      if(v) { mnbrak_with_pointer_to_pars(&a, &b, &c, &fa, &fb, &fc, gfun, &calls); ret = 1; }
#ifndef ALT
      else ret = min_brak(gfun, &calls, &a, &b, &c, &fa, &fb, &fc, IT[m]);
#endif
      if((isfinite(a) && fa != g(a)) || (isfinite(b) && fb != g(b)) || (isfinite(c) && fc != g(c))) vh_fail("minbrak-values", "%s: the function values belong to other points", tag);
      if(ret <= IT[m]) { if(!(fb <= fa && fb <= fc) || !((a <= b && b <= c) || (c <= b && b <= a)) || a == c) vh_fail("minbrak-false", "%s: returns %d, f(%g,%g,%g)=%g,%g,%g", tag, ret, a, b, c, fa, fb, fc); }
      else if(ret != IT[m]+1) vh_fail("minbrak-count", "%s: returns %d", tag, ret);
      else if(co && m == 3) vh_fail("minbrak-fails", "%s: no bracket", tag);
    }
    if(vh_fails > 60) return;
  }
}
/* ---- line search Newton ---- */
#define NM 3
static double K[NM][NM], Q[NM], C[NM]; static int N, ilow, nanat; static double *expx;
static void vec(int n, double *x, double *f, void *par)
{ int i, j; calls++; if(n != N || par != (void *)K) vh_fail("parameter", "%s: wrong number of unknowns or parameter", tag); if(expx && x != expx) { vh_fail("parameter", "%s: x is not the vector passed", tag); expx = NULL; } for(i = 0; i < N; i++) { double s = Q[i]*x[i+ilow]*x[i+ilow]-C[i]; for(j = 0; j < N; j++) s += K[i][j]*x[j+ilow]; f[i+ilow] = nanat && fabs(x[ilow]) > nanat ? NAN : s; } }
static void vec0(int n, double *x, double *f) { vec(n, x, f, K); }
static int gaussj(double (*A)[NM], double *r, double *x)
{
  double m[NM][NM+1]; int i, j, k;
  for(i = 0; i < N; i++) { for(j = 0; j < N; j++) m[i][j] = A[i][j]; m[i][N] = r[i]; }
  for(k = 0; k < N; k++) { int p = k; for(i = k+1; i < N; i++) if(fabs(m[i][k]) > fabs(m[p][k])) p = i; if(!(fabs(m[p][k]) > 1e-12)) return 0; for(j = k; j <= N; j++) { double t = m[p][j]; m[p][j] = m[k][j]; m[k][j] = t; } for(i = 0; i < N; i++) if(i != k) { double f = m[i][k]/m[k][k]; for(j = k; j <= N; j++) m[i][j] -= f*m[k][j]; } }
  for(k = 0; k < N; k++) x[k] = m[k][N]/m[k][k];
  return 1;
}
static void newton(void *a)
{
  static const double V[] = {-1, 0, 1, 2}, X0[][NM] = {{0, 0, 0}, {1, 2, -1}, {-3, 0.5, 4}}, TOL[] = {1e-10, 1e-3}; static const int IT[] = {0, 1, 2, 60}; long k, kmax = N == 1 ? 4 : N == 2 ? 256 : 19683; int i, j, q, s, t, m, v; (void)a;
  int nsing = 0; for(k = part; k < kmax; k += NP)
  {
    long z = k; int lin, single = 1, reg; double d[NM];
    for(i = 0; i < N*N; i++) { int b = N == 3 ? 3 : 4; K[i/N][i%N] = V[z % b]; z /= b; }
    if(N == 3 && !vh_thorough && vh_hash(&k, sizeof k, 1) % 8) continue;
    /* at most one entry in each row and column */
    for(i = 0; i < N; i++) { int r = 0, c = 0; for(j = 0; j < N; j++) { r += K[i][j] != 0; c += K[j][i] != 0; } if(r > 1 || c > 1) single = 0; }
    for(q = 0; q < (N == 3 ? 3 : 8); q++) for(s = 0; s < 3; s++) for(v = 0; v < 3; v++)
    {
      vh_states++; ilow = v > 0; nanat = q == 7 ? 2 : 0;
      for(i = 0; i < N; i++) { Q[i] = q == 1 ? 1 : q == 3 ? i == 0 : q == 4 ? -(i == N-1) : 0; C[i] = q == 2 ? 0 : q == 5 ? 4*(i == 0) : 1+i; if(q == 6) { int r = 0; for(j = 0; j < N; j++) r += K[i][j] != 0; if(!r) C[i] = 0; } }
      if(N == 3 && q == 2) for(i = 0; i < N; i++) { int r = 0; for(j = 0; j < N; j++) r += K[i][j] != 0; C[i] = r ? i-1 : 0; }
      lin = q != 1 && q != 3 && q != 4; reg = gaussj(K, C, d);
#ifdef ALT
      if(!lin || !reg || nanat) continue;
#endif
      for(t = 0; t < 2; t++) for(m = 0; m < 4; m++)
      {
        double x[NM+4], x0[NM], mx = 0, f[NM+1], jac[NM][NM]; volatile int ret = -9999, tr = 0; int check = 77, sing = 0, rows;
        if((v == 2 && m < 3) || (nanat && !m)) continue;
        for(i = 0; i < NM+4; i++) x[i] = 1e5+i; for(i = 0; i < N; i++) x[ilow+i+1] = x0[i] = X0[s][i];
        expx = x+1; sprintf(tag, "Newton with line search, %d unknowns, matrix %ld, problem %d, start %d, tolerance %g, limit %d (%d)", N, k, q, s, TOL[t], IT[m], v); vh_at("%s", tag); vh_trans++; vh_evals++;
        VH_TRY {
#ifdef ALT
        if(v == 0) { VH_END; continue; }
        ret = v == 1 ? newton_linesrch_itsP(x+1, N, &check, vec, K, IT[m], TOL[t]) : newton_linesrch_its(x+1, N, &check, vec0, IT[m], TOL[t]);
#else
        ret = v == 0 ? newton_linesearch(N, x+1, &check, vec, K, 0, IT[m], TOL[t]) : v == 1 ? (t ? newton_linesearch(N, x+1, &check, vec, K, 1, IT[m], TOL[t]) : newton_linesrch_itsP(x+1, N, &check, vec, K, IT[m], TOL[t])) : newton_linesrch_its(x+1, N, &check, vec0, IT[m], TOL[t]);
#endif
        VH_END; } else tr = 1;
        expx = NULL;
        if(tr) {
#ifndef ALT
          vh_fail("newton-aborts", "%s: the program stops", tag);
#endif
          continue; }
        for(i = 0; i < NM+4; i++) if((i < ilow+1 || i > ilow+N) && x[i] != 1e5+i) { vh_fail("newton-range", "%s: writes outside of the vector", tag); break; }
        vec(N, x+1, f, K); for(i = 0; i < N; i++) mx = isnan(f[i+ilow]) ? INFINITY : fmax(mx, fabs(f[i+ilow]));
        if(ret >= 0 && ret > IT[m]) vh_fail("newton-count", "%s: returns %d", tag, ret);
        if(ret >= 0 && check == 0 && !(mx < TOL[t]))
        { /* only allowed if the Newton step is below the rounding level */
          double p[NM], r[NM], st = 0; for(i = 0; i < N; i++) { for(j = 0; j < N; j++) jac[i][j] = K[i][j]; jac[i][i] += 2*Q[i]*x[ilow+i+1]; r[i] = f[i+ilow]; }
          if(!gaussj(jac, r, p)) st = 1e99; else for(i = 0; i < N; i++) st = fmax(st, fabs(p[i])/fmax(1, fabs(x[ilow+i+1])));
          if(st > 1e-12 && !nanat && !(st > 1e3 && nsing++ > 5)) vh_fail(st > 1e3 ? "newton-singular" : "newton-false", "%s: returns %d, check=%d with a residual of %g", tag, ret, check, mx);
        }
        if(ret >= 0 && check != 0 && check != 1) vh_fail("newton-check", "%s: check=%d", tag, check);
        if(ret >= 0 && nanat && isinf(mx)) vh_fail("newton-nan", "%s: returns %d at an undefined residual", tag, ret);
        if(m == 0 && ret >= 0 && !(mx < TOL[t])) vh_fail("newton-count", "%s: returns %d without an iteration", tag, ret);
        /* linear regular problems, and decoupled ones with empty rows, have to be solved */
        rows = 1; for(i = 0; i < N; i++) { int r = 0; for(j = 0; j < N; j++) r += K[i][j] != 0; if(!r && C[i] != 0) rows = 0; } sing = !reg && single && rows;
        if(m == 3 && lin && !nanat && (reg || sing) && !(ret >= 0 && check == 0 && mx < TOL[t])) vh_fail("newton-fails", "%s: returns %d, check=%d with a residual of %g (%s)", tag, ret, check, mx, reg ? "regular" : "singular, one entry per row and column");
        (void)x0;
      }
      if(vh_fails > 60) return;
    }
  }
}
/* ---- ODEs ---- */
static int ode, okind; static double lim, lam;
static void der(double x, double *y, double *dy)
{ calls++; switch(okind) { case 0: dy[1] = 0; break; case 1: dy[1] = 1; break; case 2: dy[1] = 3*x*x; break; case 3: dy[1] = lam*y[1]; break; case 4: dy[1] = y[2]; dy[2] = -y[1]; break; case 5: dy[1] = y[2]; dy[2] = y[3]; dy[3] = 1; break; } }
static int derP(double x, const double *y, double *dy, void *p) { if(p != (void *)&lim) vh_fail("parameter", "%s: the parameter is not passed on", tag); der(x, (double*)y, dy); return (x-lim)*ode > 0 ? -1 : 0; }
static void exact(double x0, double x, const double *y0, double *y)
{ double h = x-x0; switch(okind) { case 0: y[1] = y0[1]; break; case 1: y[1] = y0[1]+h; break; case 2: y[1] = y0[1]+x*x*x-x0*x0*x0; break; case 3: y[1] = y0[1]*exp(lam*h); break; case 4: y[1] = y0[1]*cos(h)+y0[2]*sin(h); y[2] = -y0[1]*sin(h)+y0[2]*cos(h); break; case 5: y[3] = y0[3]+h; y[2] = y0[2]+y0[3]*h+h*h/2; y[1] = y0[1]+y0[2]*h+y0[3]*h*h/2+h*h*h/6; break; } }
static void odes(void *a)
{
  static const double X[] = {-1, 0, 0.5, 3}, E[] = {1e-6, 1e-10}, H[] = {1e-3, 0.5}; static const int KM[] = {0, 1, 2, 5, 40}; int i, j, e, h, k, v, n, q, y0, fl; (void)a;
  for(okind = 0; okind < 6; okind++) for(i = 0; i < 4; i++) for(j = 0; j < 4; j++) for(e = 0; e < 2; e++) for(h = 0; h < 2; h++) for(k = 0; k < 5; k++) for(v = 0; v < 2; v++) for(y0 = 0; y0 < 2; y0++) for(fl = 0; fl < (v ? 2 : 1); fl++)
  {
    double x1 = X[i], x2 = X[j], s[5] = {0, 1-2*y0, 0.5, -2}, y[5], w[5], xp[60], r, err = 0, tol; volatile double rr = 0; double *yp[4], ym[4][60]; int nok = 0, nbad = 0, kc = -1, st = 77; volatile int tr = 0;
    if(x1 == x2 && fl) continue;
    n = okind == 5 ? 3 : okind == 4 ? 2 : 1; lam = y0 ? -2 : 1; for(q = 0; q < 4; q++) yp[q] = ym[q]; memcpy(y, s, sizeof y); for(q = 0; q < 60; q++) xp[q] = 1e9;
    ode = x2 > x1 ? 1 : -1; lim = fl ? 0.4*x1+0.6*x2 : ode*1e9; calls = 0;
#ifdef ALT
    if(fl || x1 == x2) continue;
#endif
    sprintf(tag, "ODE %d from %g to %g, accuracy %g, first step %g, %d points (%d,%d,%d)", okind, x1, x2, E[e], H[h], KM[k], v, y0, fl); vh_at("%s", tag); vh_trans++; vh_states++;
    VH_TRY { rr = v ? odeintegrateP(y, n, x1, x2, E[e], H[h], 0, &nok, &nbad, derP, &lim, rkqsP, KM[k], &kc, xp, yp, fabs(x2-x1)/10, &st) : odeintegrate(y, n, x1, x2, E[e], H[h], 0, &nok, &nbad, der, rkqs, KM[k], &kc, xp, yp, fabs(x2-x1)/10, &st); VH_END; } else tr = 1;
    r = rr; if(tr) { vh_fail("ode-aborts", "%s: the program stops", tag); continue; }
    vh_evals += 2+kc;
    if(fl) { if(st == 0) vh_fail("ode-failure", "%s: the right hand side fails beyond %g, but status=0 (ends at %g)", tag, lim, r); if((r-lim)*ode > 1e-12) vh_fail("ode-failure", "%s: the right hand side fails beyond %g, but it ends at %g", tag, lim, r); continue; }
    if(st != 0 || r != x2) { vh_fail("ode-status", "%s: status %d, ends at %g", tag, st, r); continue; }
    exact(x1, x2, s, w); tol = 50*E[e]*(1+fabs(w[1]))*(okind == 3 ? 5 : 1)+1e-12; for(q = 1; q <= n; q++) err = fmax(err, fabs(y[q]-w[q])); if(!(err <= tol)) vh_fail("ode-accuracy", "%s: error %g", tag, err);
    if(kc > KM[k] || (KM[k] && kc < 1)) { vh_fail("ode-points", "%s: %d points", tag, kc); continue; }
    for(q = 1; q <= kc; q++) { int z; exact(x1, xp[q], s, w); for(z = 1; z <= n; z++) if(!(fabs(ym[z][q]-w[z]) <= tol)) { vh_fail("ode-points", "%s: point %d at %g: y=%g instead of %g", tag, q, xp[q], ym[z][q], w[z]); q = kc; break; } if(q > 1 && q <= kc && !((xp[q]-xp[q-1])*ode > 0) && x1 != x2) { vh_fail("ode-points", "%s: points out of order", tag); break; } }
    if(kc > 1 && !(fabs(xp[kc]-x2) <= 1e-12)) vh_fail("ode-points", "%s: last point at %g", tag, xp[kc]);
    if(kc >= 1 && KM[k] > 1 && xp[1] != x1) vh_fail("ode-points", "%s: first point at %g", tag, xp[1]);
    if(vh_fails > 60) return;
  }
}
/* ---- attenuation functions, random numbers, vectors ---- */
static void misc(void *a)
{
  static const double P[] = {0.1, 0.25, 0.5, 0.8}, S[] = {0.5, 1, 2, 5}, QQ[] = {0.5, 1, 2}, W[] = {0.5, 1, 3}, Z[] = {-1, 0, 2}; int i, j, k, l, m; (void)a;
  for(i = 0; i < 4; i++) for(j = 0; j < 4; j++)
  {
    double last = -1, p = P[i], s = S[j], h = 1e-5; sprintf(tag, "Attenuation01 with slope %g at %g", s, p); vh_states++;
    for(k = -64; k <= 192; k++) { double x = k/128., f = Attenuation01(x, s, p); vh_evals++; if(!(f >= last-1e-15) || !(f >= 0 && f <= 1) || (x <= 0 && f != 0) || (x >= 1 && f != 1)) { vh_fail("attenuation", "%s: %g at x=%g after %g", tag, f, x, last); break; } last = f; }
    if(fabs(Attenuation01(p, s, p)-0.5) > 1e-14 || fabs((Attenuation01(p+h, s, p)-Attenuation01(p-h, s, p))/(2*h)-s) > 1e-4*s) vh_fail("attenuation", "%s: wrong value or slope at the step", tag);
  }
  for(i = 0; i < 3; i++) for(j = 0; j < 3; j++) for(k = 0; k < 3; k++) for(l = 0; l < 4; l++)
  {
    double q = QQ[i], w = W[j], x0 = Z[k], s = S[l], last = -1; sprintf(tag, "attenuation from %g, width %g, q=%g, s=%g", x0, w, q, s); vh_states++;
    for(m = -20; m <= 148; m++)
    {
      double x = x0+w*m/128., h = 1e-5*w, f = Att_0to1_x_x0_w_q_s(x, x0, w, q, s), g1 = Att_1to0_x_x0_w_q_s(x, x0, w, q, s), d = dAtt_0to1_x_x0_w_q_s(x, x0, w, q, s), d1 = dAtt_1to0_x_x0_w_q_s(x, x0, w, q, s), fd = (Att_0to1_x_x0_w_q_s(x+h, x0, w, q, s)-Att_0to1_x_x0_w_q_s(x-h, x0, w, q, s))/(2*h); vh_evals += 4;
      if(isnan(f) || !(f >= last-1e-14) || f < 0 || f > 1 || (x <= x0 && f != 0) || (x >= x0+w && f != 1)) { vh_fail("attenuation", "%s: %g at %g after %g", tag, f, x, last); break; }
      if(fabs(f+g1-1) > 1e-14) { vh_fail("attenuation", "%s: the two directions do not add to one at %g", tag, x); break; }
      if(!isnan(d) && (fabs(d-fd) > 1e-4*(1+s/w) || fabs(d+d1) > 1e-12*(1+fabs(d)))) { vh_fail("attenuation", "%s: derivative %g (other direction %g) instead of %g at %g", tag, d, d1, fd, x); break; }
      last = f;
    }
  }
  for(i = -2; i <= 3; i++) for(j = i; j <= 5; j++) for(k = -1; k <= 2; k++) for(l = k; l <= 4; l++)
  {
    double **M = matrix(i, j, k, l), *v = vector(i, j); int *iv = ivector(k, l), x, y, bad = 0; vh_trans++; vh_evals++;
    for(x = i; x <= j; x++) { v[x] = 1000+x; for(y = k; y <= l; y++) M[x][y] = 100*x+y; } for(y = k; y <= l; y++) iv[y] = 7*y;
    for(x = i; x <= j; x++) { if(v[x] != 1000+x) bad = 1; for(y = k; y <= l; y++) if(M[x][y] != 100*x+y) bad = 1; } for(y = k; y <= l; y++) if(iv[y] != 7*y) bad = 1;
    if(bad) vh_fail("matrix", "matrix(%d,%d,%d,%d) has overlapping elements", i, j, k, l);
    free_matrix(M, i, j, k, l); free_vector(v, i, j); free_ivector(iv, k, l);
  }
  { double mn = 9, mx = -9; for(i = 0; i < 20000; i++) { double r = RND(); mn = fmin(mn, r); mx = fmax(mx, r); } vh_evals++; if(mn < 0 || mx > 1 || mx < 0.9 || mn > 0.1) vh_fail("random", "random numbers between %g and %g", mn, mx); }
}
#ifndef ALT
/* ---- LU ---- */
static void lu(void *arg)
{
  static const double V2[] = {-2, -1, 0, 1, 3, 0.5}, V3[] = {-1, 0, 2}; long k, q = N == 2 ? 1296 : N == 3 ? 19683 : 65536; int i, j, l, s; (void)arg;
  for(k = part; k < q; k += NP)
  {
    double M[4][4], A[N][N], A0[N][N], det = 0; int p[4] = {0}, par = 0, ret, zr = 0, zc = 0; long z = k;
    if(N < 4) for(i = 0; i < N*N; i++) { int b = N == 2 ? 6 : 3; M[i/N][i%N] = N == 2 ? V2[z % b] : V3[z % b]; z /= b; }
    else { if(!vh_thorough && vh_hash(&k, sizeof k, 2) % 8) continue; for(i = 0; i < 16; i++) { M[i/4][i%4] = (z & 1) ? 1+i%3 : 0; z >>= 1; } }
    for(s = 0; s < 3; s++)
    {
      double sc = s == 0 ? 1 : s == 1 ? 1e-90 : 1e+60; double r; int perm[4], used[4] = {0}; long double D = 0; (void)r;
      if(s && k % 3) continue;
      for(i = 0; i < N; i++) for(j = 0; j < N; j++) A[i][j] = A0[i][j] = M[i][j]*(i == 0 ? sc : 1);
      sprintf(tag, "%dx%d matrix %ld, first row times %g", N, N, k, sc); vh_at("%s", tag); vh_states++; vh_trans++;
      /* determinant by permutations, exact for these numbers */
      { int n[4]; for(n[0] = 0; n[0] < N; n[0]++) for(n[1] = 0; n[1] < N; n[1]++) for(n[2] = 0; n[2] < (N > 2 ? N : 1); n[2]++) for(n[3] = 0; n[3] < (N > 3 ? N : 1); n[3]++) { int ok = 1, inv = 0; long double t = 1; for(i = 0; i < N; i++) for(j = 0; j < i; j++) { if(n[i] == n[j]) ok = 0; if(n[j] > n[i]) inv++; } if(!ok) continue; for(i = 0; i < N; i++) t *= M[i][n[i]]; D += inv & 1 ? -t : t; } }
      det = D; (void)perm; (void)used;
      ret = lu_decomp(N, A, p, &par); vh_evals += 3;
      zr = zc = 0; for(i = 0; i < N; i++) { int r0 = 1, c0 = 1; for(j = 0; j < N; j++) { if(A0[i][j]) r0 = 0; if(A0[j][i]) c0 = 0; } if(r0) zr |= 1 << i; if(c0) zc |= 1 << i; }
      if(zr || zc)
      {
        if(!ret || (ret > 0 && !(ret <= N && (zc & 1 << (ret-1)))) || (ret < 0 && !(-ret <= N && (zr & 1 << (-ret-1))))) vh_fail("lu-zero", "%s: lu_decomp returns %d for zero rows %x, columns %x", tag, ret, zr, zc);
        if(memcmp(A, A0, sizeof A)) vh_fail("lu-zero", "%s: lu_decomp changes a matrix with a zero row or column", tag);
        continue;
      }
      if(ret) { vh_fail("lu-status", "%s: lu_decomp returns %d", tag, ret); continue; }
      if(par != 1 && par != -1) vh_fail("lu-parity", "%s: parity %d", tag, par);
      { double ld = lu_det(N, A, par)/sc; if(!(fabs(ld-det) <= 1e-12*(1+fabs(det)))) vh_fail("lu-det", "%s: determinant %.17g instead of %.17g", tag, ld, det); }
      { /* P A = L U */ double L[4][4]; for(i = 0; i < N; i++) for(j = 0; j < N; j++) { double t = 0; for(l = 0; l <= (i < j ? i : j); l++) t += (l == i ? 1 : A[i][l])*A[l][j]; L[i][j] = t; }
        for(i = N-1; i >= 0; i--) if(p[i] != i) for(j = 0; j < N; j++) { double t = L[i][j]; if(p[i] < 0 || p[i] >= N) { vh_fail("lu-perm", "%s: permutation %d", tag, p[i]); break; } L[i][j] = L[p[i]][j]; L[p[i]][j] = t; }
        for(i = 0; i < N; i++) for(j = 0; j < N; j++) if(!(fabs(L[i][j]-A0[i][j]) <= 1e-13*(i == 0 ? sc : 1)*10)) { vh_fail("lu-product", "%s: L U differs from the matrix at %d,%d: %g, %g", tag, i, j, L[i][j], A0[i][j]); i = N; break; } }
      if(det) for(l = 0; l <= N; l++)
      {
        double b[4], x[4]; for(i = 0; i < N; i++) { b[i] = l == N ? i-1 : i == l; if(i == 0) b[i] *= sc; x[i] = b[i]; }
        lu_solve(N, A, p, x); vh_evals++;
        for(i = 0; i < N; i++) { double t = -b[i], y = 0, xx = 0, as = 0; for(j = 0; j < N; j++) { xx = fmax(xx, fabs(x[j])); as += fabs(A0[i][j]); t += A0[i][j]*x[j]; y += fabs(A0[i][j]*x[j]); } if(!(fabs(t) <= 1e-13*(y+fabs(b[i])+xx*as))) { vh_fail("lu-solve", "%s: right hand side %d: residual %g in row %d", tag, l, t, i); break; } }
      }
    }
    if(vh_fails > 60) return;
  }
}
#else
/* ---- integrals and powell (NumericUtils) ---- */
static double pc[9]; static int pd; static double poly(double x) { double f = 0; int i; for(i = pd; i >= 0; i--) f = f*x+pc[i]; return f; }
static double prim(double x) { double f = 0; int i; for(i = pd; i >= 0; i--) f = f*x+pc[i]/(i+1); return f*x; }
static int ex[3]; static double f3(double x, double y, double z) { return pow(x, ex[0])*pow(y, ex[1])*pow(z, ex[2]); }
static double yl1(double x) { (void)x; return 0; } static double yl2(double x) { return x; } static double z1(double x, double y) { (void)x; (void)y; return 0; } static double z2(double x, double y) { return x+y; }
static double QA[3]; static double quad(double *p) { return QA[0]*p[1]*p[1]+QA[1]*p[1]*p[2]+QA[2]*p[2]*p[2]-p[1]+2*p[2]; }
static void integrals(void *arg)
{
  static const double V[] = {-1, 0, 1, 3}; int k, i1, i2, i, j, l; (void)arg;
  for(k = 0; k < 256; k++)
  {
    double f[24], dx = 0.25; int z = k; pd = 3; for(i = 0; i < 4; i++) { pc[i] = V[z % 4]; z /= 4; }
    for(i = 0; i < 24; i++) f[i] = poly(-1+dx*i); vh_states++;
    for(i1 = 0; i1 < 6; i1++) for(i2 = i1; i2 < 16; i2++)
    {
      double s = integrate_simpson_1Dgrid(f, dx, i1, i2), t = integrate_trapez_1Dgrid(f, dx, i1, i2), e = prim(-1+dx*i2)-prim(-1+dx*i1), tt = 0; vh_evals += 2; vh_trans += 2;
      sprintf(tag, "cubic polynomial %d on grid points %d..%d", k, i1, i2); for(i = i1; i < i2; i++) tt += dx/2*(f[i]+f[i+1]);
      if(!(fabs(t-tt) <= 1e-13*(1+fabs(tt)))) vh_fail("trapez", "%s: %g instead of %g", tag, t, tt);
      if(i2-i1 >= 3 ? !(fabs(s-e) <= 1e-12*(1+fabs(e))) : !pc[2] && !pc[3] && !(fabs(s-e) <= 1e-12*(1+fabs(e)))) vh_fail("simpson", "%s: %g instead of %g", tag, s, e);
    }
    for(i = 0; i < 3; i++) for(j = 0; j < 2; j++)
    {
      double a = i-1.5, b = i == 2 ? -1 : 1.25+i, e, r; if(j) { pd = 6; pc[4] = 1; pc[5] = -2; pc[6] = 0.5; } else pd = 3; e = prim(b)-prim(a);
      sprintf(tag, "polynomial %d of degree %d from %g to %g", k, pd, a, b); vh_at("%s", tag); vh_evals += 2; vh_trans += 2;
      r = rombintegral(poly, a, b, 1e-9, 14); if(!(fabs(r-e) <= 1e-7*(1+fabs(e)))) vh_fail("romberg", "%s: %g instead of %g", tag, r, e);
      r = integral(poly, a, b, 1e-12, 14); if(!(fabs(r-e) <= 1e-5*(1+fabs(e)))) vh_fail("integral", "%s: %g instead of %g", tag, r, e);
    }
  }
  for(i = 0; i < 3; i++) for(j = 0; j < 3; j++) for(l = 0; l < 3; l++)
  { /* x in [0,1], y in [0,x], z in [0,x+y] */
    double r, e = 0; int m, b = 1; ex[0] = i; ex[1] = j; ex[2] = l; vh_evals++; vh_trans++; vh_states++;
    /* int y^j (x+y)^(l+1)/(l+1) dy: binomial */
    for(m = 0; m <= l+1; m++) { e += b/((l+1.)*(j+m+1.)*(i+l+1-m+j+m+2.)); b = b*(l+1-m)/(m+1); }
    r = integral3D(rombintegral, f3, 0, 1, yl1, yl2, z1, z2, 1e-7, 1e-8, 1e-9, 9, 9, 9);
    if(!(fabs(r-e) <= 1e-6*e)) vh_fail("integral3D", "x^%d y^%d z^%d: %g instead of %g", i, j, l, r, e);
  }
  for(i = 1; i <= 4; i++) for(j = -2; j <= 2; j++) for(l = 1; l <= 4; l++) for(k = 0; k < 9; k++)
  {
    double p[3] = {0, k%3-1, k/3*2-1}, p0[3], **xi, fr = 99, d, x, y; int it = -1; volatile int tr = 0; if(4*i*l-j*j <= 0) continue; QA[0] = i; QA[1] = j; QA[2] = l; memcpy(p0, p, sizeof p);
    xi = matrix(1, 2, 1, 2); xi[1][1] = xi[2][2] = 1; xi[1][2] = xi[2][1] = 0; sprintf(tag, "minimum of %d x^2 %+d xy %+d y^2 -x +2y from %g,%g", i, j, l, p[1], p[2]); vh_at("%s", tag); vh_evals++; vh_trans++;
    VH_TRY { powell(p, xi, 2, 1e-12, &it, &fr, quad); VH_END; } else tr = 1;
    free_matrix(xi, 1, 2, 1, 2); if(tr) { vh_fail("powell", "%s: the program stops", tag); continue; }
    d = 4.*i*l-j*j; x = (2.*l+2*j)/d; y = (-4.*i-j)/d;
    if(fr != quad(p) || fr > quad(p0) || !(fabs(p[1]-x)+fabs(p[2]-y) <= 1e-3)) vh_fail("powell", "%s: %g,%g instead of %g,%g", tag, p[1], p[2], x, y);
  }
}
#endif
int main(int argc, char **argv)
{
  vh_init(argc, argv);
  for(part = 0; part < NP; part++)
  {
    if(vh_unit("roots:%d", part)) vh_fork(roots, NULL);
    if(vh_unit("bracket:%d", part)) vh_fork(bracket, NULL);
    if(vh_unit("minima:%d", part)) vh_fork(minima, NULL);
    for(N = 1; N <= 3; N++) if(vh_unit("newton:%d:%d", N, part)) vh_fork(newton, NULL);
#ifndef ALT
    for(N = 2; N <= 4; N++) if(vh_unit("lu:%d:%d", N, part)) vh_fork(lu, NULL);
#endif
  }
  if(vh_unit("odes")) vh_fork(odes, NULL);
  if(vh_unit("misc")) vh_fork(misc, NULL);
#ifdef ALT
  if(vh_unit("integrals")) vh_fork(integrals, NULL);
#endif
  return vh_done();
}

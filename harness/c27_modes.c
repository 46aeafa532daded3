/* C27: spherical harmonics, their derivatives, the filter of s2kit and ModeComputer */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#include "vh_spec.h"
#undef exit
double Re_sYlm(int l, int m, int s, double theta, double phi);
double Im_sYlm(int l, int m, int s, double theta, double phi);
void Naive_YlmFilter_lmshift(tVarList *unew, int lmshift);
void Naive_YlmFilter(tVarList *unew);
typedef long double L;
static L lfac(int n) { static L t[200]; int i; if(!t[0]) for(t[0] = 1, i = 1; i < 200; i++) t[i] = t[i-1]*i; return t[n]; }
/* normalized P_l^m with Condon-Shortley phase, by downward stable recursion in l */
static L NP(int l, int m, L x, L sx)
{
  L p = sqrtl(1/(4*VS_PI)), q, r; int k;
  for(k = 1; k <= m; k++) p *= -sx*sqrtl((2*k+1)/(L)(2*k));
  if(l == m) return p;
  q = x*sqrtl(2*m+3)*p;
  for(k = m+2; k <= l; k++) { L a = sqrtl((4.0L*k*k-1)/((L)k*k-(L)m*m)), b = sqrtl((((L)k-1)*(k-1)-(L)m*m)/(4.0L*(k-1)*(k-1)-1)); r = a*(x*q-b*p); p = q; q = r; }
  return q;
}
static void Y(int l, int m, L th, L ph, L *re, L *im)
{ int a = abs(m); L p = NP(l, a, cosl(th), fabsl(sinl(th))); if(m < 0 && a % 2) p = -p; *re = p*cosl(m*ph); *im = p*sinl(m*ph); }
/* spin weighted harmonics from the sum of Goldberg et al. */
static L binom(int n, int k) { return k < 0 || k > n || n < 0 ? 0 : lfac(n)/lfac(k)/lfac(n-k); }
static L Pw(L x, int n) { L r = 1; int i; for(i = 0; i < n; i++) r *= x; return r; }
static L SW(int l, int m, int s, L th)
{
  L c = cosl(th/2), d = sinl(th/2), f = 0; int r;
  if(l < abs(s) || l < abs(m)) return 0;
  for(r = 0; r <= l-s; r++) { int e = 2*r+s-m; if(e < 0 || 2*l-e < 0) continue; f += (r % 2 ? -1 : 1)*binom(l-s, r)*binom(l+s, r+s-m)*Pw(c, e)*Pw(d, 2*l-e); }
  return f*((l+m-s) % 2 ? -1 : 1)*sqrtl(lfac(l+m)*lfac(l-m)*(2*l+1)/(4*VS_PI*lfac(l+s)*lfac(l-s)));
}
static int LM, SP, N[3], sh; static char tag[300];
/* Gauss-Legendre nodes */
static int nq; static L qx[300], qw[300];
static void gauss(int n)
{
  int i, k; nq = n;
  for(i = 0; i < n; i++) { L x = cosl(VS_PI*(i+0.75L)/(n+0.5L)), p, q, r, d = 0; int it; for(it = 0; it < 100; it++) { p = 1; q = x; for(k = 2; k <= n; k++) { r = ((2*k-1)*x*q-(k-1)*p)/k; p = q; q = r; } if(n == 1) { p = 1; q = x; } d = n*(x*q-p)/(x*x-1); r = q/d; x -= r; if(fabsl(r) < 1e-18L) break; } qx[i] = x; qw[i] = 2/((1-x*x)*d*d); }
}
static void tables(void *a)
{
  int n = (LM+1)*(LM+2)/2, l, m, i, j; double *R = alloc_Plm_Tab(LM), *I = alloc_Plm_Tab(LM); (void)a;
  /* values, including poles, negative m and angles outside of the usual ranges */
  for(i = 0; i <= 24; i++) for(j = 0; j < 9; j++)
  {
    double th = i == 24 ? 1e-6 : VS_PI*i/23, ph = -3+1.37*j; vh_trans++;
    if(th > (double)VS_PI) th = VS_PI;
    sprintf(tag, "lmax=%d theta=%.17g phi=%g", LM, th, ph); vh_at("%s", tag);
    for(l = 0; l < n; l++) R[l] = I[l] = NAN;
    set_YlmTabs(LM, th, ph, R, I);
    for(l = 0; l <= LM; l++) for(m = -l; m <= l; m++)
    {
      double r = NAN, im = NAN; L x, y; Ylm_from_Tabs(LM, R, I, l, m, &r, &im); Y(l, m, th, ph, &x, &y); vh_evals++;
      if(!(fabsl(r-x)+fabsl(im-y) <= (i == 24 ? 1e-9L : 2e-13L)*(l+1)*(l+1))) { vh_fail("ylm", "%s l=%d m=%d: %.17g %.17g instead of %.17Lg %.17Lg", tag, l, m, r, im, x, y); i = 99; l = LM; break; }
    }
  }
  free(R); free(I);
}
static void ortho(void *a)
{ /* orthonormality on an exact quadrature */
  int K = (LM+1)*(LM+1), nph = 2*LM+1, i, k, p, q, l, m; double *t = calloc(K*2, sizeof(double)); L *S = calloc(2*K*K, sizeof(L)); double *R = alloc_Plm_Tab(LM), *I = alloc_Plm_Tab(LM); (void)a;
  gauss(LM+1);
  for(i = 0; i < nq; i++) for(k = 0; k < nph; k++)
  {
    double w = qw[i]*2*VS_PI/nph; vh_trans++;
    set_YlmTabs(LM, acosl(qx[i]), 2*VS_PI*k/nph, R, I);
    for(p = 0, l = 0; l <= LM; l++) for(m = -l; m <= l; m++, p++) Ylm_from_Tabs(LM, R, I, l, m, t+2*p, t+2*p+1);
    for(p = 0; p < K; p++) for(q = 0; q < K; q++) { S[2*(p*K+q)] += w*(t[2*p]*t[2*q]+t[2*p+1]*t[2*q+1]); S[2*(p*K+q)+1] += w*(t[2*p]*t[2*q+1]-t[2*p+1]*t[2*q]); }
  }
  for(p = 0; p < K; p++) for(q = 0; q < K; q++) { vh_evals++; if(!(fabsl(S[2*(p*K+q)]-(p == q))+fabsl(S[2*(p*K+q)+1]) <= 1e-11L)) { vh_fail("orthonormal", "lmax=%d: modes %d and %d (ordered by l, then m): scalar product %Lg %+Lg i", LM, p, q, S[2*(p*K+q)], S[2*(p*K+q)+1]); p = K; break; } }
  free(t); free(S); free(R); free(I);
}
/* coefficients of derivatives of every single coefficient, exact array sizes surrounded by guards */
static void derivs(void *a)
{
  int n = (LM+1)*(LM+2), p, q, l, m, l2, m2; double *c = malloc((n+80)*sizeof(double)), *d = malloc((n+80)*sizeof(double)); (void)a;
  for(p = 0, l = 0; l <= LM; l++) for(m = 0; m <= l; m++) for(q = 0; q < 2; q++, p++)
  {
    int o, w, i;
    for(o = 0; o < 2; o++)
    {
      for(i = 0; i < n+80; i++) { c[i] = i < 40 || i >= n+40 ? NAN : 0; d[i] = 777; } c[40+p] = 1;
      sprintf(tag, "lmax=%d, %s of the %s part of l=%d m=%d", LM, o ? "phi derivative" : "theta derivative", q ? "imaginary" : "real", l, m); vh_at("%s", tag); vh_trans++; vh_states++;
      if(o) SphHarm_dphi_forRealFunc(c+40, d+40, LM); else SphHarm_sin_theta_dtheta_forRealFunc(c+40, d+40, LM);
      for(i = 0; i < n+80; i++) if((i < 40 || i >= n+40) && d[i] != 777) { vh_fail("deriv-range", "%s: writes outside of the coefficients", tag); break; }
      for(w = 0, l2 = 0; l2 <= LM; l2++) for(m2 = 0; m2 <= l2; m2++, w += 2)
      {
        L er = 0, ei = 0; vh_evals++;
        if(o) { if(l2 == l && m2 == m) { if(q) er = -m; else ei = m; } }
        else if(m2 == m && abs(l2-l) == 1)
        { /* <Y_l2^m, sin d/dtheta Y_l^m> by quadrature, d/dtheta by the recursion */
          L s = 0; gauss(LM+3); for(i = 0; i < nq; i++) { L x = qx[i], sx = sqrtl(1-x*x), D = l*x*NP(l, m, x, sx)-(l > m ? sqrtl(((L)l*l-m*m)*(2*l+1)/(2*l-1))*NP(l-1, m, x, sx) : 0); s += 2*VS_PI*qw[i]*NP(l2, m, x, sx)*D; }
          if(q) ei = s; else er = s;
        }
        if(!(fabsl(d[40+w]-er)+fabsl(d[40+w+1]-ei) <= 1e-12L*(l+1))) { vh_fail(isnan(d[40+w]+d[40+w+1]) ? "deriv-reads-outside" : "deriv", "%s: coefficient l=%d m=%d is %g %+g i instead of %Lg %+Lg i", tag, l2, m2, d[40+w], d[40+w+1], er, ei); l2 = LM; break; }
      }
    }
  }
  free(c); free(d);
}
/* ---- filter ---- */
static tGrid *g; static tBox *box; static double *u, *v; static tVarList *vl;
static void fgrid(void)
{
  vg_begin(1); vg_par("Coordinates_verbose", "no"); vg_box(0, N[0], N[1], N[2], "ChebExtrema", "Fourier", "Fourier"); vg_bpar(0, "Coordinates", "SphericalDF"); vg_lim(0, 1, 2, 0, 2*VS_PI, 0, 2*VS_PI);
  vg_libs(); AddVar("temp1", "", ""); AddVar("qa", "", ""); AddVar("qb", "", ""); AddVar("qc", "", ""); AddVar("qd", "", ""); g = vg_make(); box = g->box[0]; vg_coords(g);
  enablevar(g, Ind("temp1")); enablevar(g, Ind("qa")); enablevar(g, Ind("qb")); enablevar(g, Ind("qc")); u = box->v[Ind("qa")]; v = box->v[Ind("qb")]; vl = vlalloc(g); vlpush(vl, Ind("qb")); vlpush(vl, Ind("qa"));
}
static double theta(int j) { return 2*VS_PI*j/N[1]+VS_PI/N[1]; }
#define IX(i,j,k) ((i)+N[0]*((j)+N[1]*(k)))
static void filter(void *a)
{
  int n = N[0]*N[1]*N[2], bw = N[1]/4, lmax = bw-1+sh, l, m, q, i, j, k, x; double *e = calloc(n, sizeof(double)), *f = calloc(n, sizeof(double)), tr = 0, want = 0; double *w; (void)a;
  fgrid(); w = box->v[Ind("qc")]; for(i = 0; i < n; i++) w[i] = i;
  /* single modes, a different one at every radius; the other variable holds a constant */
  for(l = 0; l < 2*bw-(lmax < 0 ? 0 : lmax) || l == 0; l++) for(m = 0; m <= l && 2*m <= N[2]; m++) for(q = 0; q < 2; q++)
  {
    if(q && (m == 0 || 2*m == N[2])) continue;
    sprintf(tag, "filter n2=%d n3=%d lmshift=%d, l=%d m=%d %s", N[1], N[2], sh, l, m, q ? "sin" : "cos"); vh_at("%s", tag); vh_states++; vh_trans++;
    for(k = 0; k < N[2]; k++) for(j = 0; j < N[1]; j++) for(i = 0; i < N[0]; i++)
    { L re, im, th = theta(j), ph = 2*VS_PI*k/N[2]; if(th > VS_PI) { th = 2*VS_PI-th; ph += VS_PI; } Y(l, m, th, ph, &re, &im); u[IX(i, j, k)] = (i+1)*(q ? im : re); e[IX(i, j, k)] = l <= lmax ? u[IX(i, j, k)] : 0; v[IX(i, j, k)] = 2-i; f[IX(i, j, k)] = lmax >= 0 ? 2-i : 0; }
    if(sh) Naive_YlmFilter_lmshift(vl, sh); else Naive_YlmFilter(vl);
    for(i = 0; i < n; i++) { vh_evals++; if(!(fabs(u[i]-e[i]) <= 1e-11)) { vh_fail("filter", "%s: point %d (%d,%d,%d): %.15g instead of %.15g", tag, i, i%N[0], i/N[0]%N[1], i/N[0]/N[1], u[i], e[i]); break; } if(!(fabs(v[i]-f[i]) <= 1e-11)) { vh_fail("filter-second", "%s: the other variable (constant) at point %d: %.15g instead of %.15g", tag, i, v[i], f[i]); break; } if(w[i] != i) { vh_fail("filter-other", "%s: changes a variable that is not in the list", tag); break; } }
    if(vh_fails > 20) return;
  }
  /* all unit vectors: a projection of the right rank, on double covered data; the second half of the points does not matter */
  if(N[0] == 1) for(x = 0; x < n; x++)
  {
    sprintf(tag, "filter n2=%d n3=%d lmshift=%d, unit vector %d", N[1], N[2], sh, x); vh_at("%s", tag); vh_states++; vh_trans++;
    for(i = 0; i < n; i++) { u[i] = i == x; v[i] = 0; }
    Naive_YlmFilter_lmshift(vl, sh); memcpy(e, u, n*sizeof(double));
    tr += u[x]*(x/N[0]%N[1] < N[1]/2);
    for(k = 0; k < N[2]; k++) for(j = N[1]/2; j < N[1]; j++) if(u[IX(0, j, k)] != u[IX(0, N[1]-1-j, (k+N[2]/2) % N[2])]) { vh_fail("filter-double", "%s: the copies of point %d,%d differ", tag, j, k); j = N[1]; k = N[2]; }
    if(x/N[0]%N[1] >= N[1]/2) for(i = 0; i < n; i++) if(u[i] != 0) { vh_fail("filter-copies", "%s: depends on the values at theta>pi", tag); break; }
    Naive_YlmFilter_lmshift(vl, sh);
    for(i = 0; i < n; i++) { vh_evals++; if(!(fabs(u[i]-e[i]) <= 1e-12)) { vh_fail("filter-twice", "%s: filtering again changes point %d from %.15g to %.15g", tag, i, e[i], u[i]); break; } if(v[i] != 0) { vh_fail("filter-second", "%s: changes another variable", tag); break; } }
    if(vh_fails > 20) return;
  }
  for(l = 0; l <= lmax; l++) for(m = 0; m <= l && 2*m <= N[2]; m++) want += m == 0 || 2*m == N[2] ? 1 : 2;
  if(N[0] == 1 && !(fabs(tr-want) <= 1e-10*(1+want))) vh_fail("filter-rank", "filter n2=%d n3=%d lmshift=%d has rank %.15g instead of %g", N[1], N[2], sh, tr, want);
}
/* ---- spin weighted harmonics ---- */
static void sylm(void *a)
{
  int l, m, i, j; (void)a;
  for(l = 0; l <= LM; l++) for(m = -l; m <= l; m++) for(i = 0; i <= 24; i++) for(j = 0; j < 5; j++)
  {
    double th = i < 20 ? VS_PI*(i+0.5L)/20 : i == 20 ? 0 : i == 21 ? (double)VS_PI : i == 22 ? 1e-5 : i == 23 ? (double)VS_PI/2 : 3.1, ph = -2+1.3*j; L e = SW(l, m, SP, th); double r = Re_sYlm(l, m, SP, th, ph), im = Im_sYlm(l, m, SP, th, ph); vh_evals++; vh_trans++;
    if(!(fabsl(r-e*cosl(m*ph))+fabsl(im-e*sinl(m*ph)) <= 1e-10L*(1+Pw(1.8L, l-10 > 0 ? l-10 : 0)))) { vh_fail("sylm", "l=%d m=%d s=%d theta=%g phi=%g: %.15g %+.15g i instead of %.15Lg %+.15Lg i", l, m, SP, th, ph, r, im, e*cosl(m*ph), e*sinl(m*ph)); return; }
  }
}
/* ---- ModeComputer ---- */
static void addf(char **b, const char *fmt, ...) { va_list ap; char t[300]; va_start(ap, fmt); vsnprintf(t, 299, fmt, ap); va_end(ap); strcpy(*b, t); *b += strlen(t); }
static char *big[2]; static char *rec;
static char *slurp(const char *f) { FILE *p = fopen(f, "r"); static char b[400000]; int n; if(!p) return NULL; n = fread(b, 1, 399999, p); fclose(p); b[n] = 0; return b; }
static int mrun(const char *dir, const char *extra)
{
  char p[500], t[2000], *av[] = {"sgrid", "m.par"}; int r;
  vr_rmtree(dir); mkdir(dir, 0700);
  sprintf(t, "physics = ModeComputer\nModeComputer_lmax = %d\nModeComputer_spinweight = %d\nModeComputer_Re_sphere_data = re.l3\nModeComputer_Im_sphere_data = im.l3\nModeComputer_outfile_prefix = q_\nnboxes = 1\n%s", LM, SP, extra);
  sprintf(p, "%s/m.par", dir); vr_file(p, t); sprintf(p, "%s/re.l3", dir); vr_file(p, big[0]); sprintf(p, "%s/im.l3", dir); vr_file(p, big[1]);
  r = vr_run(dir, 2, av, NULL, rec, 100000, 60); vh_trans++; return r;
}
/* read output of one mode: times and values; returns the number of lines */
static int rd(const char *dir, int l, int m, double (*o)[3], int mx)
{ char p[500], *s; int n = 0; sprintf(p, "%s/m/q_l%dm%d_s%d.t", dir, l, m, SP); s = slurp(p); if(!s) return -1; s = strchr(s, '\n'); while(s && n < mx && sscanf(s+1, "%lf %lf %lf", o[n], o[n]+1, o[n]+2) == 3) { n++; s = strchr(s+1, '\n'); } return n; }
static double O[400][3], O2[400][3];
static void modes(void *arg)
{ /* time t: mode number t/2, with amplitude 1 or i */
  int K = (LM+1)*(LM+1), t, l, m, l2, m2, j, k, c, w, r, n2, n3; char *b[2]; (void)arg;
  for(w = 0; w < 3; w++)
  {
    n2 = w == 1 ? 4*LM+12 : 4*LM+4; n3 = w == 1 ? 2*LM+8 : 2*LM+2; if(n2 < 4) n2 = 4;
    for(c = 0; c < 2; c++) { b[c] = big[c]; addf(b+c, "# something\nSphericalDF: n2 = %d n3=%d gridtype = full ntheta= %d nphi = %d\n", n2, n3, n2/2, n3); }
    for(t = 0, l = 0; l <= LM; l++) for(m = -l; m <= l; m++) for(r = 0; r < 2; r++, t++) for(c = 0; c < 2; c++)
    {
      addf(b+c, "iteration %d time = %d.25\n", t, t);
      for(k = 0; k < n3; k++) for(j = 0; j < n2/2; j++) { double th = 2*VS_PI*j/n2+VS_PI/n2, ph = 2*VS_PI*k/n3; L e = SW(l, m, SP, th), R = e*cosl(m*ph), I = e*sinl(m*ph); addf(b+c, "%.17Lg%s", r ? (c ? R : -I) : c ? I : R, w == 2 ? " " : "\n"); }
      addf(b+c, "\n");
    }
    sprintf(tag, "modes lmax=%d s=%d n2=%d n3=%d", LM, SP, n2, n3); vh_at("%s", tag);
    if((r = mrun("mr", "")) != 0) { vh_fail("modes-run", "%s: exit code %d", tag, r); return; }
    for(l2 = 0; l2 <= LM; l2++) for(m2 = -l2; m2 <= l2; m2++)
    {
      int n = rd("mr", l2, m2, O, 400); if(n != 2*K) { vh_fail("modes-lines", "%s: %d lines for l=%d m=%d instead of %d", tag, n, l2, m2, 2*K); continue; }
      for(t = 0, l = 0; l <= LM; l++) for(m = -l; m <= l; m++) for(r = 0; r < 2; r++, t++)
      { int one = l == l2 && m == m2 && l >= abs(SP); vh_evals++; vh_states++; if(O[t][0] != t+0.25 || !(fabs(O[t][1]-(one && !r))+fabs(O[t][2]-(one && r)) <= 1e-9)) { vh_fail("modes", "%s: data is %s times mode l=%d m=%d, but mode l=%d m=%d is %g %+g i (time %g)", tag, r ? "i" : "1", l, m, l2, m2, O[t][1], O[t][2], O[t][0]); l = LM; break; } }
    }
  }
}
/* symmetries: data on part of the sphere against the same data written out */
static int bit, rot, oct, SC[6], n2s, n3s; static const char *GT[] = {"full", "bitant", "rotant", "quadrant", "octant"};
static void syms(void *arg)
{
  int gt, sc, r, t, j, k, c, l, m; (void)arg; LM = 3; SP = -2; n2s = 16; n3s = 8;
  for(gt = 1; gt < 5; gt++) for(sc = 0; sc < 8; sc++)
  {
    int nt = gt == 2 ? n2s/2 : n2s/4, np = gt == 1 ? n3s : gt == 4 ? n3s/4+1 : n3s/2, T = nt*np*2, h; char par[400]; double *full = malloc(n2s*n3s*sizeof(double)); static double S1[200][400][2];
    int s0[3] = {sc & 1 ? -1 : 1, sc & 2 ? -1 : 1, sc & 4 ? -1 : 1}, s1[3] = {-s0[0], sc & 1 ? -s0[1] : s0[1], s0[2]};
    if(gt == 1 && sc & 6) continue;
    if(gt == 2 && sc & 5) continue;
    if(gt == 3 && sc & 4) continue;
    if(!vh_thorough && gt == 4 && (sc == 1 || sc == 4)) continue;
    sprintf(par, "ModeComputer_Re_bitantsym = %d\nModeComputer_Re_rotantsym = %d\nModeComputer_Re_octantsym = %d\nModeComputer_Im_bitantsym = %d\nModeComputer_Im_rotantsym = %d\nModeComputer_Im_octantsym = %d\n", s0[0], s0[1], s0[2], s1[0], s1[1], s1[2]);
    for(h = 0; h < 2; h++)
    {
      char *b[2]; for(c = 0; c < 2; c++) { b[c] = big[c]; addf(b+c, "SphericalDF: n2 = %d n3 = %d gridtype = %s ntheta = %d nphi = %d\n", n2s, n3s, h ? "full" : GT[gt], h ? n2s/2 : nt, h ? n3s : np); }
      for(t = 0; t < T; t++) for(c = 0; c < 2; c++)
      {
        int *s = c ? s1 : s0; addf(b+c, "iteration %d\ntime = %d\n", t, t);
        if(!h) { for(k = 0; k < np; k++) for(j = 0; j < nt; j++) addf(b+c, " %d", t == 2*(k*nt+j)+c); addf(b+c, "\n"); }
        else
        { /* value at theta,phi from the symmetries */
          for(k = 0; k < n3s; k++) for(j = 0; j < n2s/2; j++) { int K = k, J = j, f = 1; if(gt >= 2 && K >= n3s/2) { K -= n3s/2; f *= s[1]; } if(gt == 4 && K >= np) { K = n3s/2-K; f *= s[2]; } if(gt != 2 && J >= nt) { J = n2s/2-1-J; f *= s[0]; } addf(b+c, " %d", f*(t == 2*(K*nt+J)+c)); }
          addf(b+c, "\n");
        }
      }
      sprintf(tag, "%s grid, symmetries %d (%s)", GT[gt], sc, h ? "written out" : "given"); vh_at("%s", tag);
      if((r = mrun("ms", par)) != 0) { vh_fail("modes-run", "%s: exit code %d", tag, r); return; }
      for(c = 0, l = 0; l <= LM; l++) for(m = -l; m <= l; m++, c++)
      {
        int n = rd("ms", l, m, O, 400); if(n != T) { vh_fail("modes-lines", "%s: %d lines instead of %d", tag, n, T); return; }
        for(t = 0; t < T; t++) { if(!h) { S1[c][t][0] = O[t][1]; S1[c][t][1] = O[t][2]; } else { vh_evals++; vh_states++; if(!(fabs(S1[c][t][0]-O[t][1])+fabs(S1[c][t][1]-O[t][2]) <= 1e-10)) { vh_fail("modes-symmetry", "%s grid, symmetry factors %d %d %d (real) %d %d %d (imaginary), point %d of the %s part: mode l=%d m=%d is %g %+g i instead of %g %+g i", GT[gt], s0[0], s0[1], s0[2], s1[0], s1[1], s1[2], t/2, t % 2 ? "imaginary" : "real", l, m, S1[c][t][0], S1[c][t][1], O[t][1], O[t][2]); l = LM; break; } } }
      }
    }
    free(full);
  }
}
/* all combinations of times that are present in the two files */
static int tpart;
static void times(void *arg)
{
  int A, B, c, t, j, k, r; (void)arg; LM = 2; SP = 0;
  for(A = 0; A < 16; A++) for(B = 0; B < 16; B++)
  {
    int S[2] = {A, B}, n, want = 0, i; char *b[2]; if((A*16+B) % 4 != tpart) continue;
    for(c = 0; c < 2; c++) { b[c] = big[c]; addf(b+c, "SphericalDF: n2 = 12 n3 = 6 gridtype = full ntheta = 6 nphi = 6\n"); for(t = 0; t < 4; t++) if(S[c] >> t & 1) { addf(b+c, "iteration %d time = %d.5\n", t, t); for(k = 0; k < 6; k++) for(j = 0; j < 6; j++) addf(b+c, " %d", c ? -10*t-3 : t+1); addf(b+c, "\n"); } }
    sprintf(tag, "real part at times %x, imaginary part at times %x", A, B); vh_at("%s", tag); vh_states++;
    if((r = mrun("mt", "")) != 0) { vh_fail("modes-run", "%s: exit code %d", tag, r); return; }
    n = rd("mt", 0, 0, O, 50); for(t = 0; t < 4; t++) if(A & B & 1 << t) want++; vh_evals++;
    if(n != want) { vh_fail("modes-times", "%s: %d lines instead of %d", tag, n, want); continue; }
    for(i = 0, t = 0; t < 4; t++) if(A & B & 1 << t) { double q = sqrt(4*VS_PI); if(O[i][0] != t+0.5 || !(fabs(O[i][1]/q-(t+1))+fabs(O[i][2]/q-(-10*t-3)) <= 1e-8)) { vh_fail("modes-times", "%s: at time %g the mode 0,0 is %g %+g i times sqrt(4 pi)", tag, O[i][0], O[i][1]/q, O[i][2]/q); break; } i++; }
  }
}
int main(int argc, char **argv)
{
  int i, M = 0; static const int n2[] = {4, 8, 12, 16, 20, 24}, n3[] = {2, 4, 6, 8, 12, 16};
  vh_init(argc, argv); M = vh_thorough ? 60 : 30; big[0] = malloc(20000000); big[1] = malloc(20000000); rec = malloc(100000);
  for(LM = 0; LM <= M; LM++)
  {
    if(vh_unit("tables:%d", LM)) vh_fork(tables, NULL);
    if(LM <= (vh_thorough ? 16 : 10) && vh_unit("orthonormal:%d", LM)) vh_fork(ortho, NULL);
    if(LM <= (vh_thorough ? 16 : 10) && vh_unit("derivatives:%d", LM)) vh_fork(derivs, NULL);
  }
  for(i = 0; i < (vh_thorough ? 36 : 30); i++) for(sh = 0; sh >= -n2[i/6]/4; sh--) for(N[0] = 1; N[0] <= 3; N[0] += 2)
  { N[1] = n2[i/6]; N[2] = n3[i%6]; if(!vh_thorough && N[0] == 1 && N[1]*N[2] > 160 && sh < -1) continue; if(vh_unit("filter:%d:%d:%d:%d", N[0], N[1], N[2], sh)) vh_fork(filter, NULL); }
  for(SP = -4; SP <= 4; SP++) { LM = vh_thorough ? 14 : 9; if(vh_unit("spin:%d", SP)) vh_fork(sylm, NULL); }
  for(SP = -2; SP <= 2; SP++) for(LM = 0; LM <= (vh_thorough ? 6 : 4); LM++) if(vh_unit("modes:%d:%d", SP, LM)) vh_fork(modes, NULL);
  if(vh_unit("symmetries")) vh_fork(syms, NULL);
  for(tpart = 0; tpart < 4; tpart++) if(vh_unit("times:%d", tpart)) vh_fork(times, NULL);
  (void)bit; (void)rot; (void)oct; (void)SC; (void)O2;
  return vh_done();
}

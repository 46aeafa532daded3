/* the bases, independently of the code: points, basis functions, boxes */
#ifndef VH_SPEC_H
#define VH_SPEC_H
enum { CE, CZ, FO, F1, FP };   /* ChebExtrema ChebZeros Fourier fd2_onesided fd2_periodic */
static const char *VS_BAS[] = {"ChebExtrema", "ChebZeros", "Fourier", "fd2_onesided", "fd2_periodic"};
static const char *VS_TT[] = {"-1", "1 NUMREC_FFT", "1 FFTW3", "64 NUMREC_FFT"};
#define VS_PI 3.141592653589793238462643383279502884L
static long double vs_point(int bas, int n, int i, long double a, long double b)
{
  if(bas == CE) return (a+b)/2 + (a-b)/2*cosl(VS_PI*i/(n-1));
  if(bas == CZ) return (a+b)/2 + (a-b)/2*cosl(VS_PI*(i+0.5L)/n);
  if(bas == F1) return a + (b-a)*i/(n-1);
  return a + (b-a)*i/n;
}
/* value of the k-th basis function; d = 0,1,2: derivative */
static long double vs_basis(int bas, int n, int k, long double X, long double a, long double b, int d)
{
  if(bas == CE || bas == CZ)
  {
    long double y = (2*X-a-b)/(a-b), c = 2/(a-b), T0 = 1, T1 = y, D0 = 0, D1 = 1, E0 = 0, E1 = 0, T, D, E; int j;
    if(k == 0) return d ? 0 : 0.5L;
    for(j = 1; j < k; j++) { T = 2*y*T1-T0; D = 2*T1 + 2*y*D1 - D0; E = 4*D1 + 2*y*E1 - E0; T0 = T1; T1 = T; D0 = D1; D1 = D; E0 = E1; E1 = E; }
    return d == 0 ? T1 : d == 1 ? D1*c : E1*c*c;
  }
  if(bas == FO)
  {
    int j = (k+1)/2; long double K = 2*VS_PI/(b-a)*j, p = K*(X-a), f = k == 0 ? 1.0L/n : k == n-1 && n % 2 == 0 ? 1.0L/n : 2.0L/n;
    if(k == 0) return d ? 0 : f;
    if(k % 2) return f*(d == 0 ? cosl(p) : d == 1 ? -K*sinl(p) : -K*K*cosl(p));
    return f*(d == 0 ? sinl(p) : d == 1 ? K*cosl(p) : -K*K*sinl(p));
  }
  return 0;
}
/* a box with bases bas[] and n[] points and transform types tt[]; three scratch variables */
static double vs_lim[3][2] = {{-1.25, 0.75}, {0.5, 3}, {0, 6.5}};
static tBox *vs_box(const int *n, const int *bas, const int *tt)
{
  tGrid *g; int d; char s[60];
  vg_begin(1);
  vg_box(0, n[0], n[1], n[2], VS_BAS[bas[0]], VS_BAS[bas[1]], VS_BAS[bas[2]]);
  vg_lim(0, vs_lim[0][0], vs_lim[0][1], vs_lim[1][0], vs_lim[1][1], vs_lim[2][0], vs_lim[2][1]);
  vg_bpar(0, "Coordinates", "Cartesian");
  for(d = 0; d < 3; d++) { sprintf(s, "TransformType%d", d+1); vg_bpar(0, s, "%s", VS_TT[tt[d]]); }
  vg_libs();
  AddVar("vs_u", "", ""); AddVar("vs_c", "", ""); AddVar("vs_w", "", ""); AddVar("vs_z", "", "");
  g = vg_make();
  enablevar(g, Ind("vs_u")); enablevar(g, Ind("vs_c")); enablevar(g, Ind("vs_w")); enablevar(g, Ind("vs_z"));
  return g->box[0];
}
#endif

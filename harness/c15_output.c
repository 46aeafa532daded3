/* C15: output files decode back to the grid data.  Every file found after two
   outputs is parsed completely and compared with the grid. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#undef exit
#define write_ vh_write_

typedef struct { int n[2][3], bas[2][3], fmt, val, org, all, norm, rep, sph, tiny; } conf;
static char S[500];
static const char *BAS[] = {"ChebExtrema", "ChebZeros", "Fourier"};
/* 3d formats: bit0 dump, then 0 none, 1..: vtk */
static const char *FMT[] = {"dump float binary", "vtk text double", "vtk text float", "vtk binary double", "vtk binary float", "vtk", "dump vtk binary",
  "vtk text double addpoints", "vtk text addpoints", "vtk binary double addpoints", "dump vtk binary float addpoints",
  "vtk text double fakepoints", "vtk binary float fakepoints", "vtk text float arrange_as_1d fakepoints", "vtk double fakepoints arrange_as_1d", "vtk text double arrange_as_1d", ""};
#define NFMT 17
static char *err; /* first error, in shared memory */
static void bad(const char *fmt, ...) { va_list ap; if(*err) return; va_start(ap, fmt); vsnprintf(err, 900, fmt, ap); va_end(ap); }

static int same(double p, double v, int dig)
{
  double tol = dig == 7 ? 6e-7 : 6e-16;
  if(dig == 7) v = (float)v;
  if(isnan(v)) return isnan(p);
  if(isinf(v)) return p == v;
  if(dig == 24) { return (float)v == p && signbit(p) == signbit(v); }
  if(v == 0) return p == 0 && signbit(p) == signbit(v);
  if(p == v) return 1;
  if(isinf(p)) return 0;
  return fabs(p-v) <= tol*fabs(v) + 5e-324;
}
static double value(int cls, int var, int b, int i, int step)
{
  static const double SP[] = {0.0, -0.0, 1.0/3, -1e-310, 5e-324, -1.79e308, 1e300, 123456789.123456789, -2.5, 1e-40, 3.5e38, -1e39};
  switch(cls)
  {
  case 0: return sin(1.7*i + 3*b + 5*var + 11*step) * pow(10, (i*5 + var) % 9 - 4);
  case 1: return SP[(i*7 + var*3 + b + step*5) % 12];
  case 2: { int q = (i*5 + var + b + step) % 7; return q == 0 ? INFINITY : q == 3 ? -INFINITY : q == 5 ? NAN : 0.1*i; }
  case 3: return 42.0;
  default: return -(double)(i+1)/7 - step;
  }
}
/* one whole file */
static char *fb, *fp_; static long flen; static char fname[1000];
static int openf(const char *f)
{
  int fd; struct stat st;
  snprintf(fname, 999, "%s", f); free(fb); fb = NULL;
  fd = open(f, O_RDONLY); if(fd < 0) { bad("%s is missing", f); return 0; }
  fstat(fd, &st); flen = st.st_size; fb = malloc(flen+1); if(read(fd, fb, flen) != flen) _exit(90); close(fd); fb[flen] = 0; fp_ = fb;
  unlink(f); /* what remains at the end was not expected */
  return 1;
}
static void ws(void) { while(fp_ < fb+flen && isspace(*fp_)) fp_++; }
static int lit(const char *s)
{ /* blank in s = any white space */
  for(; *s; s++) { if(isspace(*s)) ws(); else { if(fp_ >= fb+flen || *fp_ != *s) { bad("%s: expected '%s' at byte %ld, found '%.40s'", fname, s, (long)(fp_-fb), fp_); return 0; } fp_++; } }
  return 1;
}
static double num(void) { char *e; double d; ws(); d = strtod(fp_, &e); if(e == fp_) { bad("%s: number expected at byte %ld, found '%.30s'", fname, (long)(fp_-fb), fp_); return NAN; } fp_ = e; return d; }
static int val(double v, int dig, const char *what) { double p; if(*err) return 0; p = num(); if(!*err && !same(p, v, dig)) { bad("%s: %s is %.17g, expected %.17g", fname, what, p, v); return 0; } return 1; }
static int integer(int v, const char *what) { double p; if(*err) return 0; p = num(); if(!*err && p != v) { bad("%s: %s is %g, expected %d", fname, what, p, v); return 0; } return 1; }
static int eof(void) { if(*err) return 0; ws(); if(fp_ != fb+flen) { bad("%s: %ld bytes too many: '%.40s'", fname, (long)(fb+flen-fp_), fp_); return 0; } return 1; }

static int nearest(double *X, int n, int stride, double x0, int got)
{
  double m = fabs(X[0]-x0); int i;
  if(got < 0 || got >= n) return 0;
  for(i = 1; i < n; i++) if(fabs(X[i*stride]-x0) < m) m = fabs(X[i*stride]-x0);
  return fabs(X[got*stride]-x0) <= m;
}
static long double weights(int bas, int n, int i, const double *X, double a, double b)
{ /* integral of the i-th cardinal function */
  static long double M[20][21]; int k, j, q, p;
  if(bas == 2) return (long double)(b-a)/n;
  for(k = 0; k < n; k++)
  {
    for(j = 0; j < n; j++) M[k][j] = cosl(k*acosl(fminl(1, fmaxl(-1, (2.0L*X[j]-a-b)/(b-a)))));
    M[k][n] = k % 2 ? 0 : (b-a)/(1.0L-k*k);
  }
  for(k = 0; k < n; k++)
  {
    for(p = k, j = k; j < n; j++) if(fabsl(M[j][k]) > fabsl(M[p][k])) p = j;
    for(j = 0; j <= n; j++) { long double t = M[k][j]; M[k][j] = M[p][j]; M[p][j] = t; }
    for(j = 0; j < n; j++) if(j != k) { long double f = M[j][k]/M[k][k]; for(q = k; q <= n; q++) M[j][q] -= f*M[k][q]; }
  }
  return M[i][n]/M[i][i];
}
typedef struct { double *d; double time; } snap;
static conf C;
static const char *NAMES[] = {"ov", "owx", "owy", "owz", "off"};
#define NV 5
static snap SN[2][2][NV]; /* step, box, var */
static double *cop(double *p, int n) { double *q = malloc(sizeof(double)*(n+1)); memcpy(q, p, n*sizeof(double)); return q; }
static void fill(tGrid *g, int step)
{
  int b, v, i;
  for(b = 0; b < g->nboxes; b++) for(v = 0; v < NV; v++)
  {
    tBox *box = g->box[b]; double *p = box->v[Ind((char*)NAMES[v])];
    if(!p) { SN[step][b][v].d = NULL; continue; }
    if(C.sph) { double *R = box->v[Ind("X")], *T = box->v[Ind("Y")], *P = box->v[Ind("Z")]; forallpoints(box, i) { double th = T[i] + PI/((1+box->n2%2)*box->n2); p[i] = 20 + R[i]*cos(th) + R[i]*R[i]*sin(th)*sin(th)*cos(2*P[i]); } }
    else forallpoints(box, i) p[i] = value(C.val, v, b, i, step);
    SN[step][b][v].d = cop(p, box->nnodes);
    SN[step][b][v].time = g->time;
  }
}
static double repv(tBox *box, int dir, int i)
{
  static const char *N[2][3] = {{"X", "Y", "Z"}, {"z", "rv", "x"}};
  return box->v[Ind((char*)N[C.rep][dir])][i];
}
static void check0(tGrid *g, const char *od, int b, int v, int nsteps, int lo)
{
  static const char *K[6] = {"max", "min", "rms", "meanAbs", "mean", "VolInt"}; int k, s, i, d; char f[800]; tBox *box = g->box[b];
  int n[3] = {box->n1, box->n2, box->n3}; static long double W[3][20]; static const char *XN[3] = {"X", "Y", "Z"}; double XX[20];
  if(!C.sph) for(d = 0; d < 3; d++)
  {
    int st = d == 0 ? 1 : d == 1 ? box->n1 : box->n1*box->n2;
    for(i = 0; i < n[d]; i++) XX[i] = box->v[Ind((char*)XN[d])][i*st];
    for(i = 0; i < n[d]; i++) W[d][i] = weights(C.bas[b][d], n[d], i, XX, box->bbox[2*d], box->bbox[2*d+1]);
  }
  for(k = 0; k < 6; k++)
  {
    snprintf(f, 799, "%s/%s_%s.%d", od, NAMES[v], K[k], b);
    if(!openf(f)) return;
    for(s = lo; s < nsteps; s++)
    {
      double *p = SN[s][b][v].d, got, scale = 0; long double I = 0, V = 0, mx = p[0], mn = p[0]; int fin = 1;
      val(SN[s][b][v].time, 16, "the time"); if(*err) return;
      got = num(); if(*err) return;
      forallpoints(box, i)
      {
        long double w = C.norm ? 1 : W[0][i % n[0]] * W[1][(i/n[0]) % n[1]] * W[2][i/n[0]/n[1]], f;
        if(!finit(p[i])) fin = 0;
        if(p[i] > mx) mx = p[i];
        if(p[i] < mn) mn = p[i];
        if(C.sph && !C.norm) continue;
        f = k == 2 ? (long double)p[i]*p[i] : k == 3 ? fabsl(p[i]) : p[i];
        I += w*f; V += w; scale += fabsl(w*f);
      }
      if(!fin) continue;
      if(k == 0) { if(!same(got, mx, 16)) bad("%s: maximum %.17g, expected %.17Lg", f, got, mx); continue; }
      if(k == 1) { if(!same(got, mn, 16)) bad("%s: minimum %.17g, expected %.17Lg", f, got, mn); continue; }
      if(C.val == 1) continue; /* overflow */
      if(C.sph && !C.norm)
      { /* exact: r from 1 to 3 */
        long double pi = acosl(-1), r3 = 26/3.0L, r5 = 242/5.0L, r7 = 2186/7.0L;
        V = 4*pi*r3; I = k == 2 ? 400*V + 4*pi/3*r5 + pi*16/15*r7 : 20*V; scale = fabsl(I);
      }
      if(C.norm && k == 5) V = 1, I /= box->nnodes, scale /= box->nnodes;
      if(k == 5) V = 1;
      if(k == 2 && I < 1e-13L*scale) continue;
      { long double w = I/V, tol = 1e-11L*scale/fabsl(V) + 1e-300L; if(k == 2) { w = sqrtl(w); tol = 1e-11L*w; }
        if(!(fabsl(got-w) <= tol)) bad("%s: %s is %.17g, expected %.17Lg", f, K[k], got, w); }
    }
    eof();
  }
}
static int org(double *o, tBox *box, int d)
{ /* requested origin */
  double a = box->bbox[2*d], b = box->bbox[2*d+1];
  switch(C.org) { case 0: *o = 0; break; case 1: *o = a; break; case 2: *o = b; break; case 3: *o = 0.5*(a+b); break; case 4: *o = a + 0.3*(b-a); break; case 5: *o = b+7; break; case 6: *o = a-3; break; default: *o = a + 0.82*(b-a); }
  return C.org;
}
static void check1(tGrid *g, const char *od, int b, int v, int nsteps, int lo)
{
  int L, s, i; char f[800]; tBox *box = g->box[b]; int n[3] = {box->n1, box->n2, box->n3}, st[3] = {1, box->n1, box->n1*box->n2};
  static const char *XN[3] = {"X", "Y", "Z"};
  for(L = 0; L < 3; L++)
  {
    int d1 = L == 0 ? 1 : 0, d2 = L == 2 ? 1 : 2, i1, i2, base; char t[80]; double o1, o2;
    snprintf(f, 799, "%s/%s.%s%d", od, NAMES[v], XN[L], b);
    if(!openf(f)) return;
    org(&o1, box, d1); org(&o2, box, d2);
    for(s = lo; s < nsteps; s++)
    {
      lit(" \"time = "); val(SN[s][b][v].time, 16, "the time");
      snprintf(t, 79, "\" , %c =", "ijk"[d1]); lit(t[0] ? "\"" : ""); ws();
      if(*err) return;
      snprintf(t, 79, ", %c=", "ijk"[d1]); lit(t); i1 = num(); snprintf(t, 79, ", %c=", "ijk"[d2]); lit(t); i2 = num(); if(*err) return;
      if(!nearest(box->v[Ind((char*)XN[d1])], n[d1], st[d1], o1, i1) || !nearest(box->v[Ind((char*)XN[d2])], n[d2], st[d2], o2, i2)) { bad("%s: line at %d %d is not the nearest one", f, i1, i2); return; }
      base = i1*st[d1] + i2*st[d2];
      snprintf(t, 79, ", %s=", XN[d1]); lit(t); val(box->v[Ind((char*)XN[d1])][base], 16, "coordinate");
      snprintf(t, 79, ", %s=", XN[d2]); lit(t); val(box->v[Ind((char*)XN[d2])][base], 16, "coordinate");
      for(i = 0; i < n[L] && !*err; i++) { val(repv(box, L, base+i*st[L]), 16, "coordinate"); val(SN[s][b][v].d[base+i*st[L]], 16, "value"); }
    }
    eof();
  }
}
static void check2(tGrid *g, const char *od, int b, int v, int nsteps, int lo)
{
  int N, s, i, j; char f[800]; tBox *box = g->box[b]; int n[3] = {box->n1, box->n2, box->n3}, st[3] = {1, box->n1, box->n1*box->n2};
  static const char *XN[3] = {"X", "Y", "Z"}, *PN[3] = {"YZ", "XZ", "XY"};
  for(N = 0; N < 3; N++)
  {
    int a = N == 0 ? 1 : 0, c = N == 2 ? 1 : 2, p; char t[80]; double o;
    snprintf(f, 799, "%s/%s.%s%d", od, NAMES[v], PN[N], b);
    if(!openf(f)) return;
    org(&o, box, N);
    for(s = lo; s < nsteps; s++)
    {
      lit(" # \"time = "); val(SN[s][b][v].time, 16, "the time");
      snprintf(t, 79, "\", %c=", "ijk"[N]); lit(t); p = num(); if(*err) return;
      if(!nearest(box->v[Ind((char*)XN[N])], n[N], st[N], o, p)) { bad("%s: plane %d is not the nearest one", f, p); return; }
      snprintf(t, 79, ", %s=", XN[N]); lit(t); val(box->v[Ind((char*)XN[N])][p*st[N]], 16, "coordinate");
      for(j = 0; j < n[c]; j++) for(i = 0; i < n[a] && !*err; i++)
      { int q = p*st[N] + i*st[a] + j*st[c]; val(repv(box, a, q), 16, "coordinate"); val(repv(box, c, q), 16, "coordinate"); val(SN[s][b][v].d[q], 16, "value"); }
    }
    eof();
  }
}
static double bin(int dbl, int big)
{
  unsigned char c[8]; int i, n = dbl ? 8 : 4; double d; float x;
  if(fp_+n > fb+flen) { bad("%s: ends early", fname); return NAN; }
  for(i = 0; i < n; i++) c[big ? n-1-i : i] = fp_[i];
  fp_ += n;
  if(dbl) { memcpy(&d, c, 8); return d; }
  memcpy(&x, c, 4); return x;
}
static void vtkdata(double **p, int m, int n, int stride, int text, int dbl)
{ /* m arrays interleaved */
  int i, k;
  if(*err) return;
  if(!text) { if(*fp_ != '\n') { bad("%s: no end of line before the data", fname); return; } fp_++; }
  for(i = 0; i < n; i++) for(k = 0; k < m && !*err; k++)
  {
    double v = p[k][i*stride], got;
    if(text) { val(v, dbl ? 16 : 7, "value"); continue; }
    got = bin(dbl, 1);
    if(!*err && (dbl ? memcmp(&got, &v, 8) && !(isnan(got) && isnan(v)) : !same(got, v, 24))) bad("%s: number %d is %.17g, expected %.17g", fname, i, got, v);
  }
}
static void check3(tGrid *g, const char *od, int b, int v, int nsteps, int lo, const char *format, int *nser)
{
  char f[900], t[300]; int s, i; tBox *box = g->box[b];
  int dump = !!strstr(format, "dump"), vtk = !!strstr(format, "vtk"), text = !!strstr(format, "text"), dbl = !!strstr(format, "double"), add = !!strstr(format, "addpoints"), fake = !!strstr(format, "fakepoints"), oned = !!strstr(format, "arrange_as_1d");
  int n1 = box->n1, n2 = box->n2, n3 = box->n3, n = n1*n2*n3; const char *suf = add && !fake ? "xyz" : "XYZ";
  if(dump)
  {
    snprintf(f, 899, "%s/%s.XYZ%d", od, NAMES[v], b); if(!openf(f)) return;
    for(s = lo; s < nsteps && !*err; s++)
    {
      lit("# \"time = "); val(SN[s][b][v].time, 16, "the time"); snprintf(t, 299, "\" , box%d: n1=%d n2=%d n3=%d , N=%d numbers , type=float", b, n1, n2, n3, n); lit(t);
      if(*err) return;
      if(*fp_++ != '\n') { bad("%s: header line", f); return; }
      for(i = 0; i < n && !*err; i++) { double got = bin(0, 0); if(!*err && !same(got, SN[s][b][v].d[i], 24)) bad("%s: number %d is %.9g, expected %.9g", f, i, got, SN[s][b][v].d[i]); }
      if(*err) return;
      if(fp_+2 > fb+flen || fp_[0] != '\n' || fp_[1] != '\n') { bad("%s: end of a record", f); return; }
      fp_ += 2;
    }
    if(!*err && fp_ != fb+flen) bad("%s: more than expected", f);
  }
  if(vtk) for(s = lo; s < nsteps && !*err; s++)
  {
    double *p[3]; const char *ty = dbl ? "double" : "float";
    snprintf(f, 899, "%s/%s.%s%d_vtk/%s.%s%d_%08d.vtk", od, NAMES[v], suf, b, NAMES[v], suf, b, nser[s]);
    if(!openf(f)) return;
    lit("# vtk DataFile Version 2.0 "); snprintf(t, 299, "variable %s, box %d, time ", NAMES[v], b); lit(t); val(SN[s][b][v].time, 16, "the time");
    if(*err) return;
    while(*fp_ && *fp_ != '\n') fp_++;
    lit(text ? " ASCII DATASET " : " BINARY DATASET ");
    if(fake)
    {
      double m[3] = {box->bbox[0], box->bbox[2], box->bbox[4]}, h[3] = {(box->bbox[1]-m[0])/n1, (box->bbox[3]-m[1])/n2, (box->bbox[5]-m[2])/n3}, q;
      snprintf(t, 299, "STRUCTURED_POINTS DIMENSIONS "); lit(t);
      integer(oned ? n : n1, "dimension"); integer(oned ? 1 : n2, "dimension"); integer(oned ? 1 : n3, "dimension"); lit(" ORIGIN ");
      for(i = 0; i < 3; i++) { q = num(); if(!*err && fabs(q - (oned ? 0 : m[i])) > 1e-9*(1+fabs(m[i]))) bad("%s: origin", f); }
      lit(" SPACING "); for(i = 0; i < 3; i++) { q = num(); if(!*err && fabs(q - (oned ? 1 : h[i])) > 1e-9*(1+fabs(h[i]))) bad("%s: spacing", f); }
      lit(" POINT_DATA "); integer(n, "number of points");
    }
    else if(add)
    {
      lit("STRUCTURED_GRID DIMENSIONS "); integer(n1, "dimension"); integer(n2, "dimension"); integer(n3, "dimension");
      lit(" POINTS "); integer(n, "number of points"); lit(" "); lit(ty);
      p[0] = box->v[Ind("x")]; p[1] = box->v[Ind("y")]; p[2] = box->v[Ind("z")]; vtkdata(p, 3, n, 1, text, dbl);
      lit(" POINT_DATA "); integer(n, "number of points");
    }
    else
    {
      lit("RECTILINEAR_GRID DIMENSIONS "); integer(n1, "dimension"); integer(n2, "dimension"); integer(n3, "dimension");
      lit(" X_COORDINATES "); integer(n1, "number"); lit(" "); lit(ty); p[0] = box->v[Ind("X")]; vtkdata(p, 1, n1, 1, text, dbl);
      lit(" Y_COORDINATES "); integer(n2, "number"); lit(" "); lit(ty); p[0] = box->v[Ind("Y")]; vtkdata(p, 1, n2, n1, text, dbl);
      lit(" Z_COORDINATES "); integer(n3, "number"); lit(" "); lit(ty); p[0] = box->v[Ind("Z")]; vtkdata(p, 1, n3, n1*n2, text, dbl);
      lit(" POINT_DATA "); integer(n, "number of points");
    }
    lit(" SCALARS "); if(*err) return;
    while(*fp_ && !isspace(*fp_)) fp_++;
    lit(" "); lit(ty); lit(" LOOKUP_TABLE default");
    p[0] = SN[s][b][v].d; vtkdata(p, 1, n, 1, text, dbl);
    if(text) eof(); else if(!*err && fp_ != fb+flen) bad("%s: more than expected", f);
    snprintf(f, 899, "%s/%s.%s%d_vtk", od, NAMES[v], suf, b); rmdir(f);
  }
}
static void leftover(const char *od)
{
  DIR *p = opendir(od); struct dirent *e;
  if(!p) { bad("no output directory"); return; }
  while((e = readdir(p))) if(e->d_name[0] != '.') bad("%s: unexpected file, or content beyond what was asked for", e->d_name);
  closedir(p);
}
static void run(void *arg)
{
  tGrid *g; int b, d, s, v, nser[2]; char od[600]; double T[2] = {1.0/3, 1e5/7}; int it[2] = {0, 6};
  snprintf(od, 599, "%s/o", S); vr_rmtree(od); mkdir(od, 0700);
  vg_begin(2); vg_par("outdir", "%s", od); vg_par("dt", "0.1");
  for(b = 0; b < 2; b++)
  {
    vg_box(b, C.n[b][0], C.n[b][1], C.n[b][2], BAS[C.bas[b][0]], BAS[C.bas[b][1]], BAS[C.bas[b][2]]);
    if(C.sph) { vg_lim(b, 1, 3, 0, 2*PI, 0, 2*PI); vg_bpar(b, "Coordinates", "SphericalDF"); }
    else { double f = C.tiny ? 1./128 : 1; vg_lim(b, f*(b ? -1.25 : 0.5), f*(b ? 0.75 : 3), f*(b ? 10 : -2), f*(b ? 10.5 : 2.25), f*(b ? -3 : 0), f*(b ? 1 : 5)); vg_bpar(b, "Coordinates", "Cartesian"); }
    for(d = 0; d < 3 && C.rep; d++) { char n[60]; sprintf(n, "outputReplace%cby_box%d", "XYZ"[d], b); vg_par(n, "%s", d == 0 ? "z" : d == 1 ? "rv" : "x"); }
  }
  vg_par("3dformat", "%s", FMT[C.fmt]);
  vg_libs();
  AddVar("ov", "", ""); AddVar("ow", "i", ""); AddVar("off", "", ""); AddVar("rv", "", "");
  g = vg_make(); vg_coords(g);
  enablevar(g, Ind("ov")); enablevar(g, Ind("rv")); enablevar(g, Ind("owx"));
  for(b = 0; b < 2; b++) { int i; forallpoints(g->box[b], i) g->box[b]->v[Ind("rv")][i] = 0.1*i-b; }
  disablevar_inbox(g->box[0], Ind("ov"));
  for(b = 0; b < 2; b++) for(d = 0; d < 3; d++) { char n[60]; double o; sprintf(n, "output%c0_box%d", "XYZ"[d], b); org(&o, g->box[b], d); vg_par(n, "%.17g", o); }
  for(d = 0; d < 4; d++) { char n[60]; sprintf(n, "%ddoutput", d); vg_par(n, "%s", C.all ? "owy ov off" : "off owz ov owx"); sprintf(n, "%ddoutiter", d); vg_par(n, "2"); sprintf(n, "%ddoutputall", d); if(C.all == 2) vg_par(n, "yes"); }
  if(C.all == 1) vg_par("outputall", "yes");
  vg_par("0doutput_normtype", "%s", C.norm ? "L2norm" : "integral");
  vg_par("0doutput_VolumeIntegralJacobian", "%s", C.sph ? "fromCoordinates" : C.fmt % 2 ? "one" : "fromCoordinates");
  for(s = 0; s < 2; s++)
  {
    double *before[2][NV];
    g->time = T[s]; g->iteration = it[s]; nser[s] = it[s]/2; fill(g, s);
    for(b = 0; b < 2; b++) for(v = 0; v < NV; v++) before[b][v] = g->box[b]->v[Ind((char*)NAMES[v])];
    RunFun(OUTPUT, g);
    for(b = 0; b < 2; b++) for(v = 0; v < NV; v++)
    {
      double *p = g->box[b]->v[Ind((char*)NAMES[v])];
      if(!p != !before[b][v]) bad("output changes the storage of %s", NAMES[v]);
      if(p && memcmp(p, SN[s][b][v].d, sizeof(double)*g->box[b]->nnodes)) bad("output changes %s", NAMES[v]);
    }
    if(g->time != T[s] || g->iteration != it[s]) bad("output changes the time");
  }
  for(b = 0; b < 2; b++) for(v = 0; v < 4 && !*err; v++)
  {
    if(!C.all && v == 2) continue;
    if(b == 0 && v == 0) continue;
    check0(g, od, b, v, 2, 0); if(*err) break;
    check1(g, od, b, v, 2, 0); if(*err) break;
    check2(g, od, b, v, 2, 0); if(*err) break;
    check3(g, od, b, v, 2, 0, FMT[C.fmt], nser);
  }
  if(!*err) leftover(od);
  vr_rmtree(od);
}
static void one(const char *sig)
{
  *err = 0; vh_evals++; vh_states++; vh_trans += 2; vh_distinct++;
  vh_at("n %d %d %d / %d %d %d bases %d%d%d/%d%d%d format %s values %d origin %d all %d norm %d rep %d", C.n[0][0], C.n[0][1], C.n[0][2], C.n[1][0], C.n[1][1], C.n[1][2], C.bas[0][0], C.bas[0][1], C.bas[0][2], C.bas[1][0], C.bas[1][1], C.bas[1][2], FMT[C.fmt], C.val, C.org, C.all, C.norm, C.rep);
  vh_fork(run, NULL);
  if(*err) vh_fail(sig, "n=%dx%dx%d/%dx%dx%d bases %d%d%d/%d%d%d 3dformat '%s' values %d origin %d outputall %d norm %d rep %d: %s", C.n[0][0], C.n[0][1], C.n[0][2], C.n[1][0], C.n[1][1], C.n[1][2], C.bas[0][0], C.bas[0][1], C.bas[0][2], C.bas[1][0], C.bas[1][1], C.bas[1][2], FMT[C.fmt], C.val, C.org, C.all, C.norm, C.rep, err);
  else vh_sample("n=%dx%dx%d/%dx%dx%d 3dformat '%s' values %d origin %d: all files decode", C.n[0][0], C.n[0][1], C.n[0][2], C.n[1][0], C.n[1][1], C.n[1][2], FMT[C.fmt], C.val, C.org);
}
/* the debugging entry points */
static void quick(void *arg)
{
  tGrid *g; int b, v, which = *(int*)arg, i, b1; char od[600]; double ar[200]; tVarList *vl; int ns[1];
  static const char *PN[] = {"0doutput", "1doutput", "2doutput", "3doutput", "3dformat", "0doutiter", "1doutiter", "2doutiter", "3doutiter"};
  snprintf(od, 599, "%s/o", S); vr_rmtree(od); mkdir(od, 0700);
  vg_begin(2); vg_par("outdir", "%s", od); vg_par("dt", "0.1");
  memset(&C, 0, sizeof C); C.bas[0][2] = C.bas[1][2] = 2;
  for(b = 0; b < 2; b++) { vg_box(b, 3, 4, 2, BAS[0], BAS[0], BAS[2]); vg_lim(b, -1, b+1, -2, 1, 0, 1); vg_bpar(b, "Coordinates", "Cartesian"); }
  for(i = 0; i < 9; i++) vg_par(PN[i], "%s", i < 4 ? "owy q" : i == 4 ? "dump" : i == 6 ? "-1" : "7");
  vg_libs(); AddVar("ov", "", ""); AddVar("ow", "i", ""); AddVar("off", "", "");
  g = vg_make(); vg_coords(g);
  if(which != 3) enablevar(g, Ind("ov"));
  enablevar(g, Ind("owx"));
  g->time = 4.5; g->iteration = 11; C.org = 0; b1 = 1;
  fill(g, 0);
  for(i = 0; i < 200; i++) ar[i] = cos(i);
  vl = vlalloc(g); vlpushone(vl, Ind("owx")); vlpushone(vl, Ind("ov"));
  if(which == 0) quick_Vars_output(g->box[b1], "owx owz", 0.75, 5);
  if(which == 1) quick_VarList_output(g->box[b1], vl, 0.75, 5);
  if(which >= 2) quick_Array_output(g->box[b1], ar, "ov", 0.75, 5);
  if(g->time != 4.5 || g->iteration != 11) bad("time or iteration not restored");
  for(i = 0; i < 9; i++) if(strcmp(Gets((char*)PN[i]), i < 4 ? "owy q" : i == 4 ? "dump" : i == 6 ? "-1" : "7")) bad("%s not restored: '%s'", PN[i], Gets((char*)PN[i]));
  if(which == 3 && (g->box[1]->v[Ind("ov")] || g->box[0]->v[Ind("ov")])) bad("temporary storage kept");
  if(which == 2) for(b = 0; b < 2; b++) { double *p = g->box[b]->v[Ind("ov")]; if(!p) bad("a variable which had storage in box %d lost it", b); else if(memcmp(p, b == 1 ? ar : SN[0][b][0].d, 24*sizeof(double))) bad("the variable in box %d has other values", b); }
  if(which >= 2) SN[0][1][0].d = cop(ar, 24);
  ns[0] = 5;
  for(b = 0; b < 2; b++) for(v = 0; v < 4; v++)
  {
    int on = which == 0 ? v == 1 || v == 3 : which == 1 ? v == 0 || v == 1 : v == 0 && (b == 1 || which == 2);
    if(!on) continue;
    SN[0][b][v].time = 0.75;
    check0(g, od, b, v, 1, 0); if(*err) break;
    check1(g, od, b, v, 1, 0); if(*err) break;
    check2(g, od, b, v, 1, 0); if(*err) break;
    check3(g, od, b, v, 1, 0, "vtk text double arrange_as_1d", ns);
  }
  if(!*err) leftover(od);
}
/* byte order */
static void endian(void)
{
  int size, n, i, len; char f[600]; unsigned char a[200], b[200], c[200]; FILE *fp; size_t r;
  snprintf(f, 599, "%s/e", S);
  for(size = 1; size <= 16; size++) for(n = 0; n <= 6; n++)
  {
    int w;
    for(i = 0; i < size*n; i++) a[i] = 17*i+size*3+n;
    for(w = 0; w < 3; w++)
    { /* 0 swap, 1 big, 2 little */
      size_t (*W)(const void*, size_t, size_t, FILE*) = w == 0 ? SGRID_fwrite_swapbytes : w == 1 ? SGRID_fwrite_big : SGRID_fwrite_little;
      size_t (*R)(void*, size_t, size_t, FILE*) = w == 0 ? SGRID_fread_swapbytes : w == 1 ? SGRID_fread_big : SGRID_fread_little;
      fp = fopen(f, "wb"); r = W(a, size, n, fp); fclose(fp); vh_evals++; vh_trans++;
      if(r != n) { vh_fail("endian", "writing %d numbers of %d bytes returns %d", n, size, (int)r); return; }
      fp = fopen(f, "rb"); len = fread(c, 1, 200, fp); fclose(fp);
      if(len != size*n) { vh_fail("endian", "%d numbers of %d bytes give %d bytes", n, size, len); return; }
      for(i = 0; i < len; i++) if(c[i] != (w == 2 ? a[i] : a[i/size*size + size-1-i%size])) { vh_fail("endian", "byte %d of numbers of %d bytes is wrong", i, size); return; }
      memset(b, 0xEE, 200); fp = fopen(f, "rb"); r = R(b, size, n, fp); fclose(fp);
      if(r != n || memcmp(a, b, size*n) || b[size*n] != 0xEE) { vh_fail("endian", "%d numbers of %d bytes are not read back", n, size); return; }
      if(n) { if(truncate(f, size*n-1)) _exit(9); fp = fopen(f, "rb"); r = R(b, size, n, fp); fclose(fp); if(r != n-1) { vh_fail("endian", "reading a truncated file of %d numbers returns %d", n, (int)r); return; } }
    }
  }
  for(i = 0; i < 12; i++)
  {
    double d[2] = {value(1, 0, 0, i, 0), value(2, 0, 0, i, 0)}, e[2]; uint64_t u;
    fp = fopen(f, "wb"); r = fwrite_double_little(d, 2, fp); fclose(fp); vh_evals++;
    fp = fopen(f, "rb"); len = fread(c, 1, 200, fp); rewind(fp); if(r != 2 || fread_double_little(e, 2, fp) != 2 || memcmp(d, e, 16) || len != 16) { vh_fail("endian", "doubles are not read back"); return; }
    fclose(fp); memcpy(&u, d, 8);
    for(len = 0; len < 8; len++) if(c[len] != ((u >> (8*len)) & 255)) { vh_fail("endian", "fwrite_double_little is not little endian"); return; }
  }
  vh_states++; vh_distinct++;
}
int main(int argc, char **argv)
{
  static const int NN[6][3] = {{2, 3, 4}, {4, 2, 3}, {3, 4, 2}, {5, 3, 2}, {2, 2, 6}, {3, 6, 5}}; int i, j, k, l;
  vh_init(argc, argv);
  err = mmap(NULL, 1000, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  snprintf(S, 499, "%s", getenv("VH_SCRATCH"));
  for(i = 0; i < 27; i++) for(j = 0; j < 6; j++) if(vh_unit("shape:%d:%d", i, j)) for(k = 0; k < (vh_thorough ? NFMT*8 : 8); k++)
  {
    int d;
    memset(&C, 0, sizeof C);
    for(d = 0; d < 3; d++) { C.n[0][d] = NN[j][d]; C.n[1][d] = NN[(j+1)%6][d]; C.bas[0][d] = i / (d == 0 ? 1 : d == 1 ? 3 : 9) % 3; C.bas[1][d] = (C.bas[0][d] + 1 + d) % 3; }
    C.org = k % 8; C.fmt = vh_thorough ? k/8 : (i*6+j+k) % NFMT; C.norm = (i+k) % 5 == 0; C.rep = (i+j) % 2; C.all = k % 3; C.val = (i+k) % 2 ? 0 : 4; C.tiny = (i+j+k) % 4 == 3;
    one("shape");
  }
  for(i = 0; i < NFMT; i++) for(j = 0; j < 5; j++) for(k = 0; k < 8; k++) if(vh_unit("format:%d:%d:%d", i, j, k)) for(l = 0; l < 3; l++)
  {
    int d;
    memset(&C, 0, sizeof C);
    for(d = 0; d < 3; d++) { C.n[0][d] = NN[(i+j) % 6][d]; C.n[1][d] = NN[(i+k) % 6][d]; C.bas[0][d] = d == 2 ? 2 : 0; C.bas[1][d] = d == 1; }
    C.fmt = i; C.val = j; C.org = k; C.all = l; C.norm = (j+k) % 2; C.rep = (i+l) % 2;
    one("format");
  }
  for(i = 0; i < NFMT; i++) for(j = 0; j < 4; j++) if(vh_unit("spherical:%d:%d", i, j))
  {
    int d;
    memset(&C, 0, sizeof C); C.sph = 1; C.fmt = i; C.org = 2*j; C.norm = j == 2;
    for(d = 0; d < 2; d++) { C.n[d][0] = 8+d; C.n[d][1] = d ? 11 : 12; C.n[d][2] = 8+2*d; C.bas[d][0] = 0; C.bas[d][1] = C.bas[d][2] = 2; }
    one("spherical");
  }
  for(i = 0; i < 4; i++) if(vh_unit("quick:%d", i))
  {
    *err = 0; vh_evals++; vh_states++; vh_distinct++; vh_at("quick output %d", i);
    vh_fork(quick, &i);
    if(*err) vh_fail("quick", "entry point %d: %s", i, err);
  }
  if(vh_unit("endian:0")) endian();
  return vh_done();
}

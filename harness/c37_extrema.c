/* C37: extrema of a function on a box and along coordinate lines, and grid indices of coordinates */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#undef exit
int box_extremum_of_F(tBox *box, int Fi, double *X, double *Y, double *Z, double *Fextr);
int box_extremum_of_F_in_dir(tBox *box, int Fi, int dir, double C1, double C2, double *C, double *Fextr);
int find_i_Of_X(tBox *box, double X0);
int find_j_Of_Y(tBox *box, double Y0);
int find_k_Of_Z(tBox *box, double Z0);
static const char *BAS[] = {"ChebExtrema", "ChebZeros", "Fourier"};
static const double LIM[2][6] = {{-1, 1, 0.5, 2, 3, 3.75}, {0, 2, -4, -2.5, -0.5, 0.5}};
static int N[3], B[3], li, qi, ci; static tGrid *g;
static double c[3], A[3][3], q0; static int other;
static tGrid *make(void)
{
  int d; 
  vg_begin(2); vg_par("Coordinates_set_bfaces", "no");
  for(d = 0; d < 2; d++)
  {
    int b = d == other;    /* the box in question is box other-th */
    vg_box(d, b ? N[0] : 2, b ? N[1] : 3, b ? N[2] : 2, BAS[b ? B[0] : 0], BAS[b ? B[1] : 0], BAS[b ? B[2] : 0]);
    vg_lim(d, LIM[li][0]+(b ? 0 : 9), LIM[li][1]+(b ? 0 : 9), LIM[li][2], LIM[li][3], LIM[li][4], LIM[li][5]); vg_bpar(d, "Coordinates", "Cartesian");
  }
  vg_libs(); AddVar("fF", "", ""); AddVar("fG", "", "");
  g = vg_make(); vg_coords(g); enablevar(g, Ind("fF"));
  return g;
}
static double quad(const double *x) { int i, j; double s = q0; for(i = 0; i < 3; i++) for(j = 0; j < 3; j++) s += A[i][j]*(x[i]-c[i])*(x[j]-c[j]); return s; }
static const double QUAD[][6] = {{1, 1, 1, 0, 0, 0}, {-1, -2, -0.5, 0, 0, 0}, {1, 2, 3, 0.5, 0.25, -0.5}, {-2, -1, -1, 0.5, 0, 0.5}, {1, -2, 1.5, 0, 0, 0}, {2, -1, -1, 0.25, 0.5, 0}};
static const double FR[] = {0.5, 0.25, 0.8, 0.01};
static void set(tBox *b, const double *f)
{
  int i, p; const double *q = QUAD[qi]; double x[3];
  q0 = 0.25*qi; for(i = 0; i < 3; i++) { A[i][i] = q[i]; c[i] = b->bbox[2*i] + f[i]*(b->bbox[2*i+1]-b->bbox[2*i]); }
  A[0][1] = A[1][0] = q[3]; A[0][2] = A[2][0] = q[4]; A[1][2] = A[2][1] = q[5];
  forallpoints(b, p) { x[0] = b->v[Ind("X")][p]; x[1] = b->v[Ind("Y")][p]; x[2] = b->v[Ind("Z")][p]; b->v[Ind("fF")][p] = quad(x); }
}
static double *save(tBox *b) { double *s = malloc(b->nnodes*sizeof(double)); memcpy(s, b->v[Ind("fF")], b->nnodes*sizeof(double)); return s; }
static void same(tBox *b, double *s, const char *what) { if(memcmp(s, b->v[Ind("fF")], b->nnodes*sizeof(double))) vh_fail("input", "%s changes the function", what); free(s); }
static int inbox(tBox *b, const double *x) { int i; for(i = 0; i < 3; i++) if(!(x[i] >= b->bbox[2*i] && x[i] <= b->bbox[2*i+1])) return 0; return 1; }
static void newton(void *v)
{
  tBox *b; int p, i, st, face, out = *(int*)v; double x[3], s[3], F, f[3], *sv;
  b = make()->box[other];
  for(i = 0; i < 3; i++) f[i] = FR[ci >> 2*i & 3];
  if(out) f[(out-1)/2] = out % 2 ? -0.5 : 1.5;
  set(b, f); sv = save(b);
  forallpoints(b, p)
  {
    face = 0; for(i = 0; i < 3; i++) s[i] = x[i] = b->v[Ind("X")+i][p];
    for(i = 0; i < 3; i++) if(x[i] >= b->bbox[2*i+1]-1e-9 || x[i] <= b->bbox[2*i]+1e-9) face = 1;
    F = 1e99; vh_at("n=%d,%d,%d bases %d%d%d quadratic %d extremum %g,%g,%g start %g,%g,%g", N[0], N[1], N[2], B[0], B[1], B[2], qi, c[0], c[1], c[2], s[0], s[1], s[2]); 
    st = box_extremum_of_F(b, Ind("fF"), x, x+1, x+2, &F); vh_trans++; vh_states++; vh_traces++; vh_evals++;
    if(!inbox(b, x)) { vh_fail("inside", "extremum %g,%g,%g start %g,%g,%g: result %.15g,%.15g,%.15g is not in the box", c[0], c[1], c[2], s[0], s[1], s[2], x[0], x[1], x[2]); continue; }
    if(!(fabs(F-quad(x)) < 1e-9)) vh_fail("value", "extremum %g,%g,%g start %g,%g,%g: value at %.15g,%.15g,%.15g is %.15g, not %.15g", c[0], c[1], c[2], s[0], s[1], s[2], x[0], x[1], x[2], F, quad(x));
    if(!out && !face)
    {
      if(st < 0) vh_fail("status", "extremum %g,%g,%g start %g,%g,%g: status %d at %.15g,%.15g,%.15g", c[0], c[1], c[2], s[0], s[1], s[2], st, x[0], x[1], x[2]);
      else for(i = 0; i < 3; i++) if(!(fabs(x[i]-c[i]) < 1e-6)) { vh_fail("point", "extremum %g,%g,%g start %g,%g,%g: found %.15g,%.15g,%.15g", c[0], c[1], c[2], s[0], s[1], s[2], x[0], x[1], x[2]); break; }
    }
    else if(st >= 0) ;
    else if(st > -64)
    {
      int m = -st;
      for(i = 0; i < 6; i++) if(m >> i & 1) { int d = i % 3, e = 2*d + i/3; if(x[d] != b->bbox[e]) { vh_fail("faces", "extremum %g,%g,%g start %g,%g,%g: status %d, but %.15g,%.15g,%.15g is not on that face", c[0], c[1], c[2], s[0], s[1], s[2], st, x[0], x[1], x[2]); break; } }
    }
  }
  same(b, sv, "box_extremum_of_F");
}
/* along lines:  F = a(u,v) (w-c)^2 + e(u,v), with functions of the other coordinates that the bases of their directions contain */
static double along(tBox *b, int d, int k, double t)
{ double l = b->bbox[2*d], h = b->bbox[2*d+1], s = (t-l)/(h-l); return B[d] == 2 ? k ? 1+0.5*cos(2*PI*s) : 0.25*sin(2*PI*s) : k ? 1+s*(1-s) : s; }
static void lines(void *v)
{
  tBox *b; int dir, p, i, j, k, st; double *sv, C, F;
  b = make()->box[other]; (void)v;
  for(dir = 0; dir < 3; dir++) if(B[dir] != 2) for(k = 0; k < 5; k++) for(st = 0; st < 2; st++)
  {
    int u = dir == 0 ? 1 : 0, w = dir == 2 ? 1 : 2, sg = st ? -1 : 1, ru; 
    double l = b->bbox[2*dir], h = b->bbox[2*dir+1], cc = l + (h-l)*(k == 4 ? 0.999 : FR[k]);
    forallpoints(b, p) { double x[3]; for(i = 0; i < 3; i++) x[i] = b->v[Ind("X")+i][p]; b->v[Ind("fF")][p] = sg*along(b, u, 1, x[u])*along(b, w, 1, x[w])*(x[dir]-cc)*(x[dir]-cc)*(1 + (N[dir] >= 5 ? 3*(x[dir]-cc)*(x[dir]-cc) : 0)) + along(b, u, 0, x[u])*along(b, w, 1, x[w]); }
    sv = save(b);
    for(i = 0; i < 6; i++) for(j = 0; j < 6; j++)
    {
      double xu = b->bbox[2*u] + (b->bbox[2*u+1]-b->bbox[2*u])*i/5.0, xw = b->bbox[2*w] + (b->bbox[2*w+1]-b->bbox[2*w])*j/5.0, e = along(b, u, 0, xu)*along(b, w, 1, xw);
      C = 1e9; F = 1e99; vh_at("n=%d,%d,%d bases %d%d%d direction %d extremum at %g of line %g,%g", N[0], N[1], N[2], B[0], B[1], B[2], dir+1, cc, xu, xw);
      ru = box_extremum_of_F_in_dir(b, Ind("fF"), dir+1, xu, xw, &C, &F); vh_trans++; vh_states++; vh_traces++; vh_evals++;
      if(ru < 0 || !(fabs(C-cc) < 1e-6) || !(fabs(F-e) < 1e-8)) { vh_fail("line", "n=%d,%d,%d bases %d%d%d direction %d line %g,%g: status %d, %.12g at %.12g instead of %.12g at %.12g", N[0], N[1], N[2], B[0], B[1], B[2], dir+1, xu, xw, ru, F, C, e, cc); break; }
    }
    same(b, sv, "box_extremum_of_F_in_dir");
  }
}
/* a function without an extremum along the line: reported as such */
static void none(void *v)
{
  tBox *b; int dir, p, i, st, k; double C, F, *sv; (void)v;
  b = make()->box[other];
  for(dir = 0; dir < 3; dir++) if(B[dir] != 2) for(k = 0; k < 4; k++)
  {
    int u = dir == 0 ? 1 : 0, w = dir == 2 ? 1 : 2;
    forallpoints(b, p) { double x[3]; for(i = 0; i < 3; i++) x[i] = b->v[Ind("X")+i][p]; b->v[Ind("fF")][p] = (k % 2 ? -1 : 1)*(k < 2 ? 1 : 300)*along(b, u, 1, x[u])*(x[dir]+2) + along(b, w, 0, x[w]); }
    sv = save(b); C = F = 0;
    vh_at("n=%d,%d,%d bases %d%d%d direction %d no extremum", N[0], N[1], N[2], B[0], B[1], B[2], dir+1);
    st = box_extremum_of_F_in_dir(b, Ind("fF"), dir+1, 0.5*(b->bbox[2*u]+b->bbox[2*u+1]), b->bbox[2*w], &C, &F); vh_evals++; vh_trans++; vh_states++; vh_traces++;
    if(st >= 0) vh_fail("none", "n=%d,%d,%d bases %d%d%d direction %d: status %d (at %g) for a function without extremum", N[0], N[1], N[2], B[0], B[1], B[2], dir+1, st, C);
    same(b, sv, "box_extremum_of_F_in_dir");
  }
}
static void finds(void *v)
{
  tBox *b; int p, d, k; (void)v;
  static const double OFF[] = {0, 4e-11, -4e-11, 1e-8, -1e-8, 1e-4};
  b = make()->box[other];
  for(d = 0; d < 3; d++) forallpoints(b, p) for(k = 0; k < 6; k++)
  {
    int n[3] = {b->n1, b->n2, b->n3}, ix[3] = {p % n[0], p/n[0] % n[1], p/n[0]/n[1]}, want = k < 3 ? ix[d] : -1, got; double x = b->v[Ind("X")+d][p]+OFF[k];
    got = d == 0 ? find_i_Of_X(b, x) : d == 1 ? find_j_Of_Y(b, x) : find_k_Of_Z(b, x); vh_evals++; vh_trans++; vh_states++;
    if(got != want) { vh_fail("find", "n=%d,%d,%d bases %d%d%d direction %d: index of %.12g is %d, expected %d", N[0], N[1], N[2], B[0], B[1], B[2], d+1, x, got, want); return; }
  }
}
int main(int argc, char **argv)
{
  int b, s, q, o, d;
  static const int SH[][3] = {{3, 3, 3}, {3, 4, 5}, {5, 3, 4}, {4, 5, 3}};
  vh_init(argc, argv);
  for(b = 0; b < 8; b++) for(s = 0; s < 4; s++) for(q = 0; q < 6; q++) for(ci = 0; ci < 64; ci++)
  {
    int rot = (b+s+q+ci) % 4;
    if(!vh_thorough && rot) continue;
    for(d = 0; d < 3; d++) { B[d] = b >> d & 1; N[d] = SH[s][d]; } qi = q; li = (b+q+ci/4) & 1; other = s & 1; o = 0;
    if(vh_unit("newton:%d:%d:%d:%d", b, s, q, ci)) vh_fork(newton, &o);
  }
  for(b = 0; b < 8; b++) for(s = 0; s < 4; s++) for(q = 0; q < 4; q++) for(o = 1; o <= 6; o++)
  {
    if(!vh_thorough && (b+s+q) % 2) continue;
    for(d = 0; d < 3; d++) { B[d] = b >> d & 1; N[d] = SH[s][d]; } qi = q; li = (b+q) & 1; other = s & 1; ci = (b*7+s*3+q*11) % 64;
    if(vh_unit("outside:%d:%d:%d:%d", b, s, q, o)) vh_fork(newton, &o);
  }
  for(b = 0; b < 27; b++) for(s = 0; s < 4; s++) for(li = 0; li < 2; li++)
  {
    int bb = b; for(d = 0; d < 3; d++) { B[d] = bb % 3; bb /= 3; N[d] = SH[s][d]; if(B[d] == 2 && N[d] < 4) N[d] = 4; } other = (b+s) & 1;
    if(vh_unit("line:%d:%d:%d", b, s, li)) vh_fork(lines, NULL);
    if(vh_unit("none:%d:%d:%d", b, s, li)) vh_fork(none, NULL);
    if(vh_unit("find:%d:%d:%d", b, s, li)) vh_fork(finds, NULL);
  }
  return vh_done();
}

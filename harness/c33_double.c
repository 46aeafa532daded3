/* C33: double covered points and pole filters */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_spec.h"
#undef exit
static int N[3], nb, co; static char tag[300]; static tGrid *g; static tBox *box;
static const char *CO[] = {"SphericalDF", "Spherical", "Spherical2", "Spherical3", "compactSphericalDF", "Cartesian", "Polar"};
static const char *VN[] = {"qa", "qb", "qc"};
static void grid(int off)
{ /* box 0 as given, the other boxes of other systems */
  int b, v; vg_begin(nb); vg_par("Coordinates_verbose", "no"); vg_par("Coordinates_set_bfaces", "no");
  for(b = 0; b < nb; b++)
  {
    int c = b == 0 ? co : b == 1 ? 5 : b == 2 ? (co == 0 ? 1 : 0) : 4;
    vg_box(b, N[0], N[1]+(b > 0 ? 2*(b > 2) : 0), N[2]+(b == 2 ? 2 : 0), N[0] == 1 ? "Fourier" : "ChebExtrema", c == 1 || c == 2 || c == 3 || c == 5 ? "ChebZeros" : "Fourier", "Fourier");
    vg_bpar(b, "Coordinates", "%s", CO[c]);
    vg_lim(b, c == 4 ? 0.25 : off ? 0 : 1, c == 4 ? 0.75 : 2, c == 2 || c == 3 ? -1 : 0, c == 1 ? VS_PI : c == 2 || c == 3 ? 1 : 2*VS_PI, 0, 2*VS_PI);
  }
  vg_libs(); AddVar("temp1", "", ""); for(v = 0; v < 3; v++) AddVar((char*)VN[v], "", ""); g = vg_make(); box = g->box[0]; vg_coords(g); enablevar(g, Ind("temp1")); for(v = 0; v < 3; v++) enablevar(g, Ind((char*)VN[v]));
}
#define IX(i,j,k) ((i)+N[0]*((j)+N[1]*(k)))
static int other_point(int p) { int i = p % N[0], j = p/N[0]%N[1], k = p/N[0]/N[1]; return IX(i, N[1]-1-j, (k+N[2]/2) % N[2]); }
static int partner[100000];
static void points(void)
{ /* by position: the two points of each place */
  int n = N[0]*N[1]*N[2], p, q; double *x = box->v[Ind("x")], *y = box->v[Ind("y")], *z = box->v[Ind("z")];
  for(p = 0; p < n; p++) { partner[p] = -1; for(q = 0; q < n; q++) if(q != p && q % N[0] == p % N[0] && fabs(x[p]-x[q])+fabs(y[p]-y[q])+fabs(z[p]-z[q]) < 1e-12) { if(partner[p] >= 0) vh_fail("points", "%s: more than two points at the place of point %d", tag, p); partner[p] = q; } if(partner[p] != other_point(p)) vh_fail("points", "%s: point %d has no copy at the expected place", tag, p); }
}
static double val(int v, int b, int p) { return (p*7919 % 1009)*0.25+v*1000+b*0.125; }
static void reset(void *a)
{
  int n, p, v, b, x, md; tVarList *vl; (void)a; co = 0; grid(0); sprintf(tag, "n=%d,%d,%d, %d boxes", N[0], N[1], N[2], nb); n = N[0]*N[1]*N[2]; points();
  for(md = 0; md < 4; md++) for(x = -1; x < (md < 2 ? n : 0); x++)
  { /* md 0: average of one variable, 1: copy, 2: average of two, 3: in another order */
    double *u = box->v[Ind("qb")]; vh_states++; vh_trans++; vh_at("%s mode %d point %d", tag, md, x);
    vl = vlalloc(g); if(md == 2) { vlpush(vl, Ind("qb")); vlpush(vl, Ind("qc")); } else if(md == 3) { vlpush(vl, Ind("qc")); vlpush(vl, Ind("qb")); } else vlpush(vl, Ind("qb"));
    forallboxes(g, b) for(v = 0; v < 3; v++) { double *w = g->box[b]->v[Ind((char*)VN[v])]; forallpoints(g->box[b], p) w[p] = x >= 0 ? v == 1 && p == x && !b : val(v, b, p); }
    if(md == 1) copy_to_doubleCoveredPoints_SphericalDF(box, Ind("qb")); else reset_doubleCoveredPoints(vl);
    forallboxes(g, b) for(v = 0; v < 3; v++)
    {
      double *w = g->box[b]->v[Ind((char*)VN[v])]; int ch = (v == 1 || (v == 2 && md >= 2)), bad = 0; if(b == 2 && md != 1) continue;
      forallpoints(g->box[b], p) { double o = x >= 0 ? v == 1 && p == x && !b : val(v, b, p), e = o; vh_evals++; if(!b && ch) { int q = partner[p]; double o2 = x >= 0 ? v == 1 && q == x : val(v, b, q); e = md == 1 ? (p/N[0]%N[1] < N[1]/2 ? o : o2) : 0.5*(o+o2); } if(w[p] != e && !bad++) vh_fail(b || !ch ? "reset-other" : md == 1 ? "copy" : "reset", "%s mode %d (single point %d), box %d variable %s point %d is %g instead of %g", tag, md, x, b, VN[v], p, w[p], e); }
    }
    if(nb > 2 && md != 1 && co == 0 && x < 0) { tBox *B = g->box[2]; (void)B; }
    /* again: no change */
    { double *s = malloc(n*sizeof(double)); memcpy(s, u, n*sizeof(double)); if(md == 1) copy_to_doubleCoveredPoints_SphericalDF(box, Ind("qb")); else reset_doubleCoveredPoints(vl); vh_evals++; if(memcmp(s, u, n*sizeof(double))) vh_fail("reset-twice", "%s mode %d (single point %d): the second call changes values", tag, md, x); free(s); }
    vlfree(vl); if(vh_fails > 20) return;
  }
}
static void odd(void *a)
{ /* other sizes cannot be reset and are refused */
  volatile int tr = 0; (void)a; co = 0; grid(0); sprintf(tag, "n=%d,%d,%d", N[0], N[1], N[2]); vh_trans += 2; vh_states++;
  { tVarList *vl = vlalloc(g); vlpush(vl, Ind("qb")); VH_TRY { reset_doubleCoveredPoints(vl); VH_END; } else tr |= 1; VH_TRY { copy_to_doubleCoveredPoints_SphericalDF(box, Ind("qb")); VH_END; } else tr |= 2; }
  vh_evals += 2; if(tr != 3) vh_fail("reset-odd", "%s: points without a copy are reset without an error (%d)", tag, tr);
}
static int FO0; /* inner radius 0 */
static void filter(void *a)
{
  int n, p, x, i, j, k, b, m, v; static double M[64][64]; double *w, *u; int amb[200]; tVarList *vl; (void)a; grid(FO0); n = N[0]*N[1]*N[2]; sprintf(tag, "%s n=%d,%d,%d%s", CO[co], N[0], N[1], N[2], FO0 ? " with r=0" : "");
  vl = vlalloc(g); vlpush(vl, Ind("qb")); vlpush(vl, Ind("qc")); u = box->v[Ind("qb")]; w = box->v[Ind("qc")];
  for(x = 0; x < n; x++)
  {
    int xi = x % N[0], xj = x/N[0]%N[1], xk = x/N[0]/N[1], mm; double st, q; vh_at("%s point %d", tag, x); vh_states++; vh_trans++;
    forallboxes(g, b) for(v = 0; v < 3; v++) { double *z = g->box[b]->v[Ind((char*)VN[v])]; forallpoints(g->box[b], p) z[p] = v == 0 ? 3 : v == 1 ? (!b && p == x) : p+1; }
    forallpoints(box, p) w[p] = p == n-1-x ? 2 : 0;
    coordinateDependentFilter(vl);
    for(v = 1; v < 3; v++)
    {
      double *z = v == 1 ? u : w, am = v; int X = v == 1 ? x : n-1-x; xi = X % N[0]; xj = X/N[0]%N[1]; xk = X/N[0]/N[1];
      { int o = IX(N[0]-1, xj, 0); double xx = box->v[Ind("x")][o], yy = box->v[Ind("y")][o], zz = box->v[Ind("z")][o]; st = sqrt(xx*xx+yy*yy)/sqrt(xx*xx+yy*yy+zz*zz); }
      q = (N[2]/2)*st; mm = floor(q); if(co > 3) mm = N[2]; else if(fabs(q-rint(q)) < 1e-9 && st < 1-1e-12) continue; else if(st >= 1-1e-12) mm = N[2]/2;
      for(k = 0; k < N[2]; k++) { double e = 1; for(m = 1; m <= mm && 2*m <= N[2]; m++) e += (2*m == N[2] ? 1 : 2)*cos(2*VS_PI*m*(k-xk)/N[2]); M[0][k] = am*e/N[2]; }
      if(mm >= N[2]/2) for(k = 0; k < N[2]; k++) M[0][k] = k == xk ? am : 0;
      for(k = 0; k < N[2]; k++) for(j = 0; j < N[1]; j++) for(i = 0; i < N[0]; i++) { double e = i == xi && j == xj ? M[0][k] : 0; vh_evals++; if(!(fabs(z[IX(i, j, k)]-e) <= 1e-13)) { vh_fail("filter", "%s: unit vector %d (sin theta=%g): point %d,%d,%d is %g instead of %g", tag, X, st, i, j, k, z[IX(i, j, k)], e); i = N[0]; j = N[1]; k = N[2]; } }
    }
    forallpoints(box, p) if(box->v[Ind("qa")][p] != 3) { vh_fail("filter-other", "%s: changes another variable", tag); break; }
    if(nb > 1) forallpoints(g->box[1], p) if(g->box[1]->v[Ind("qb")][p] != p+1 && g->box[1]->v[Ind("qb")][p] != 0) { vh_fail("filter-other", "%s: changes a Cartesian box", tag); break; }
    if(vh_fails > 20) return;
  }
  (void)amb;
}
int main(int argc, char **argv)
{
  static const int E[] = {2, 4, 6, 8, 10, 12}; int i, j, t;
  vh_init(argc, argv); t = vh_thorough;
  for(i = 0; i < (t ? 6 : 5); i++) for(j = 0; j < (t ? 6 : 5); j++) for(N[0] = 1; N[0] <= 3; N[0]++) for(nb = 1; nb <= 4; nb += 3)
  { N[1] = E[i]; N[2] = E[j]; if(vh_unit("reset:%d:%d:%d:%d", N[0], N[1], N[2], nb)) vh_fork(reset, NULL); }
  for(N[1] = 1; N[1] <= 7; N[1]++) for(N[2] = 1; N[2] <= 7; N[2]++) if(N[1] % 2 || N[2] % 2) { N[0] = 2; nb = 1; if(vh_unit("odd:%d:%d", N[1], N[2])) vh_fork(odd, NULL); }
  for(co = 0; co < 7; co++) for(N[1] = 2; N[1] <= (t ? 10 : 7); N[1]++) for(N[2] = 2; N[2] <= (t ? 16 : 12); N[2]++) for(N[0] = 1; N[0] <= 3; N[0]++) for(FO0 = 0; FO0 < (co >= 1 && co <= 3 && N[0] > 1 ? 2 : 1); FO0++)
  { nb = N[0]; if(N[0] == 1 && co > 3) continue; if(vh_unit("filter:%d:%d:%d:%d:%d", co, N[0], N[1], N[2], FO0)) vh_fork(filter, NULL); }
  return vh_done();
}

/* coordinate systems and layouts for C19 to C23 */
#ifndef VH_SYS_H
#define VH_SYS_H
typedef struct { const char *name, *bas[3]; double lim[3][2]; const char *par, *val; double scale; } tSys;
#define P2 6.283185307179586
#define CHE "ChebExtrema"
#define CHZ "ChebZeros"
#define FOU "Fourier"
static const tSys SYS[] = {
  {"Cartesian", {CHE, FOU, CHZ}, {{-1, 2}, {0, 3}, {1, 1.5}}, NULL, NULL, 1},
  {"Polar", {CHE, FOU, CHE}, {{0.5, 2}, {0, P2}, {-1, 1}}, NULL, NULL, 1},
  {"Polar", {CHE, FOU, FOU}, {{0, 2}, {0, P2}, {-1, 1}}, NULL, NULL, 1},
  {"PolarCE", {CHE, CHE, CHE}, {{0.5, 2}, {0, P2}, {-1, 1}}, NULL, NULL, 1},
  {"SphericalDF", {CHE, FOU, FOU}, {{0.5, 2}, {0, P2}, {0, P2}}, NULL, NULL, 1},
  {"SphericalDF", {CHZ, FOU, FOU}, {{0, 3}, {0, P2}, {0, P2}}, NULL, NULL, 1},
  {"compactSphericalDF", {CHE, FOU, FOU}, {{0, 0.75}, {0, P2}, {0, P2}}, "compactSphericalDF_r0", "0.5", 1},
  {"compactSphericalDF", {CHZ, FOU, FOU}, {{0, 1}, {0, P2}, {0, P2}}, "compactSphericalDF_r0", "0", 1},
  {"Spherical", {CHE, CHZ, FOU}, {{1, 2}, {0, P2/2}, {0, P2}}, NULL, NULL, 1},
  {"Spherical", {CHE, CHE, FOU}, {{0, 2}, {0.5, 1.5}, {0, P2}}, NULL, NULL, 1},
  {"Spherical2", {CHE, CHZ, FOU}, {{0.5, 2}, {-1, 1}, {0, P2}}, NULL, NULL, 1},
  {"Spherical3", {CHE, CHZ, FOU}, {{0.5, 2}, {-1, 1}, {0, P2}}, NULL, NULL, 1},
  {"Spherical3", {CHE, CHZ, FOU}, {{0.5, 2}, {-0.9, 0.9}, {0, P2}}, "Coordinates_Spherical3_c", "1.5", 1},
  {"tan_stretch", {CHE, CHE, CHE}, {{-1, 1}, {-0.5, 1}, {0, 0.75}}, "tan_stretch_s", "0.75", 1},
  {"tan_stretch", {CHE, CHE, CHE}, {{-1, 1}, {-0.5, 1}, {0, 0.75}}, "tan_stretch_s", "0", 1},
  {"AnsorgNS0", {CHE, CHE, FOU}, {{0, 1}, {0, 1}, {0, P2}}, NULL, NULL, 1},
  {"AnsorgNS1", {CHE, CHE, FOU}, {{0, 1}, {0, 1}, {0, P2}}, NULL, NULL, 1},
  {"AnsorgNS2", {CHE, CHE, FOU}, {{0, 1}, {0, 1}, {0, P2}}, NULL, NULL, 1},
  {"AnsorgNS3", {CHE, CHE, FOU}, {{0, 1}, {0, 1}, {0, P2}}, NULL, NULL, 1},
  {"AnsorgNS0", {CHE, FOU, FOU}, {{0, 1}, {0, 2}, {0, P2}}, "Coordinates_AnsorgNS_Bshift", "yes", 1},
  {"AnsorgNS1", {CHE, FOU, FOU}, {{0, 1}, {0, 2}, {0, P2}}, "Coordinates_AnsorgNS_Bshift", "yes", 1},
  {"AnsorgNS2", {CHE, FOU, FOU}, {{0, 1}, {0, 2}, {0, P2}}, "Coordinates_AnsorgNS_Bshift", "yes", 1},
  {"AnsorgNS3", {CHE, FOU, FOU}, {{0, 1}, {0, 2}, {0, P2}}, "Coordinates_AnsorgNS_Bshift", "yes", 1},
};
#define NSYS ((int)(sizeof SYS/sizeof *SYS))
static const char *VER[] = {"AnsorgNS", "NAnsorgNS", "DDAnsorgNS"};
static int sys, ver, nn[3], gen, sigvars, useF, deform, lay, quiet = 1;
static char cfg[300];
static double F(tBox *box, int c, int ind, const double *X)
{ return box->x_of_X[c] ? box->x_of_X[c](box, ind, X[1], X[2], X[3]) : X[c]; }
/* 6th order derivative of f along coordinate l */
typedef double (*fptr)(tBox *, int, const double *, void *);
static double num(fptr f, tBox *box, int a, const double *X, int l, double h, void *p)
{
  double Y[4] = {0, X[1], X[2], X[3]}, s = 0; static const double w[3] = {45, -9, 1}; int k;
  for(k = 1; k <= 3; k++) { double u, v; Y[l] = X[l]+k*h; u = f(box, a, Y, p); Y[l] = X[l]-k*h; v = f(box, a, Y, p); s += w[k-1]*(u-v); }
  return s/(60*h);
}
static double fx(tBox *box, int c, const double *X, void *p) { (void)p; return F(box, c, -1, X); }
static double fdX(tBox *box, int c, const double *X, void *p) { (void)p; return box->dX_dx[c/4][c%4](box, -1, X[1], X[2], X[3]); }
/* J = dx/dX by differences, I its inverse; 0 when (nearly) singular here */
static int jac(tBox *box, const double *X, double J[4][4], double I[4][4], double h)
{
  int i, j; double det, n = 1, m;
  for(j = 1; j <= 3; j++) { for(m = 0, i = 1; i <= 3; i++) { J[i][j] = num(fx, box, i, X, j, h, NULL); if(!isfinite(J[i][j])) return 0; m += J[i][j]*J[i][j]; } n *= sqrt(m); }
  det = J[1][1]*(J[2][2]*J[3][3]-J[2][3]*J[3][2]) - J[1][2]*(J[2][1]*J[3][3]-J[2][3]*J[3][1]) + J[1][3]*(J[2][1]*J[3][2]-J[2][2]*J[3][1]);
  if(!(fabs(det) > 1e-5*n) || n < 1e-9) return 0;
  for(i = 1; i <= 3; i++) for(j = 1; j <= 3; j++)
  { int a = j % 3 + 1, b = a % 3 + 1, c = i % 3 + 1, d = c % 3 + 1; I[i][j] = (J[a][c]*J[b][d] - J[a][d]*J[b][c])/det; }
  return 1;
}
static int have1(tBox *box) { int i, j; for(i = 1; i <= 3; i++) for(j = 1; j <= 3; j++) if(!box->dX_dx[i][j]) return 0; return 1; }
static int safe(const tSys *S, tBox *box, const double *X, double h)
{ /* away from coordinate singularities, by more than the difference stencil */
  double d = 12*h, N = box->n2;
  if(S && !strcmp(S->name, "Polar") && X[1] < d) return 0;
  if(S && !strcmp(S->name, "PolarCE") && (X[2] < d || X[2] > P2-d)) return 0;
  if(S && !strcmp(S->name, "SphericalDF") && (X[1] < d || fabs(sin(X[2]+P2/2/((1+box->n2%2)*N))) < d)) return 0;
  if(S && !strcmp(S->name, "compactSphericalDF") && (X[1] > 0.98 || tan(X[1]*P2/4)+atof(S->val) < d || fabs(sin(X[2]+P2/2/((1+box->n2%2)*N))) < d)) return 0;
  if(S && !strcmp(S->name, "Spherical") && (X[1] < d || X[2] < d || X[2] > P2/2-d)) return 0;
  if(S && !strcmp(S->name, "Spherical2") && fabs(X[2]) > 1-d) return 0;
  if(S && !strcmp(S->name, "Spherical3") && fabs(X[2]) > 1-d) return 0;
  if(S && !strncmp(S->name, "Ansorg", 6))
  {
    double B = X[2]; int v = box->n2;
    if(S->par && ver != 1) B += 1.0/((1+v%2)*v);
    if(B > 1) B = 2-B;
    if(B < .03 || B > .97 || X[1] > 0.95 || X[1] < 0) return 0;
  }
  return 1;
}
static tGrid *single(const tSys *S)
{
  vg_begin(1);
  vg_box(0, nn[0], nn[1], nn[2], S->bas[0], S->bas[1], S->bas[2]);
  vg_lim(0, S->lim[0][0], S->lim[0][1], S->lim[1][0], S->lim[1][1], S->lim[2][0], S->lim[2][1]);
  vg_bpar(0, "Coordinates", "%s", S->name);
  if(S->par) vg_par(S->par, "%s", S->val);
  vg_par("Coordinates_newtMAXITS", "100");
  vg_par("Coordinates_AnsorgNS_version", "%s", VER[ver]);
  if(gen) vg_bpar(0, "CoordinateTransforms_generic", gen == 1 ? "ddXdxdx" : "dXdx");
  vg_libs(); { tGrid *g = vg_make(); vg_coords(g); return g; }
}
static const int NB[] = {13, 26, 32, 38};
static int (*cubes_n)(int b, int d);   /* box dependent number of points */
static tGrid *cubes(void)
{
  int b, i; double xc[4] = {0, 1.0, 0, 0}; tGrid *g;
  vg_begin(NB[lay]);
  for(b = 0; b < NB[lay]; b++)
  { vg_box(b, cubes_n ? cubes_n(b, 0) : nn[0], cubes_n ? cubes_n(b, 1) : nn[1], cubes_n ? cubes_n(b, 2) : nn[2], CHE, CHE, CHE); vg_lim(b, 0, 1, -1, 1, -1, 1); vg_bpar(b, "Coordinates", "Cartesian");
    if(gen) vg_bpar(b, "CoordinateTransforms_generic", "ddXdxdx"); }
  vg_par("Coordinates_CubedSphere_sigma01_lmax", "2");
  vg_libs();
  RunFun(PRE_GRID, 0); g = make_grid(0);
  if(sigvars) for(b = 1; b < 13; b++) enablevar_inbox(g->box[b], Ind("Coordinates_CubedSphere_sigma01_def"));
  if(lay == 0) xc[2] = -0.5, xc[3] = 0.25;
  if(lay == 0) arrange_1box12CubSph_into_full_cube(g, 0, xc, 0.2, 0.4, 0.6);
  else if(lay == 1) two_full_cubes_touching_at_x0(g, 0, 1.0, 0.2, 0.4, 0.25, 0.5);
  else if(lay == 2) sphere_around_two_full_cubes_touching_at_x0(g, 0, 1.0, 0.2, 0.4, 0.25, 0.5, 4.0);
  else two_spheres_around_two_full_cubes(g, 0, 1.0, 0.2, 0.4, 0.25, 0.5, 4.0, 40.0);
  if(sigvars && deform) for(b = 1; b < 13; b++)
  {
    tBox *box = g->box[b]; int n1 = box->n1, n2 = box->n2, n3 = box->n3, j, k, p = b < 7 ? n1-1 : 0; double *sig = box->v[box->CI->iFS[b < 7]];
    forplane1(i, j, k, n1, n2, n3, p)
    { double th, ph; int ijk = Index(i, j, k); ThetaPhi_of_AB_CubSph(box, box->v[Ind("Y")][ijk], box->v[Ind("Z")][ijk], &th, &ph);
      sig[ijk] *= 1 + 0.1*sqrt(15./(8*PI))*sin(th)*cos(th)*cos(ph) + 0.1*sqrt(15./(8*PI))*sin(th)*sin(th)*sin(2*ph); }
    if(useF) box->CI->useF = 1;
  }
  RunFun(POST_GRID, g); vg_coords(g); return g;
}
static void cname(void) { sprintf(cfg, "cubed spheres %d boxes n=%d,%d,%d%s%s%s%s", NB[lay], nn[0], nn[1], nn[2], sigvars ? " surface variables" : "", deform ? " deformed" : "", useF ? " surface function" : "", gen ? " generic second derivatives" : ""); }
#endif

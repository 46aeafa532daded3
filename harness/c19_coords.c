/* C19: coordinate transformations: derivatives against numerical derivatives of the maps, search against constructed points. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#undef exit
#include "vh_sys.h"
static long points; static int onlyinv;
#define SHIFTED(S) ((S) && (S)->par && !strcmp((S)->par, "Coordinates_AnsorgNS_Bshift") && ver != 1)
static int at(const tSys *S, tBox *box, int ind, const double *X)
{
  double J[4][4], I[4][4], h = 1e-3, tol1 = 2e-8, v, e, sc; int i, j, k, l, n, q = ind >= 0 && gen; int id = ind;
  double tx;
  if(S && !strncmp(S->name, "Ansorg", 6)) h = 2e-3;
  if(S && !strcmp(S->name, "tan_stretch")) h = 5e-4;
  if(!safe(S, box, X, h)) return 1;
  if(box->x_of_X[1] == NULL) return 1;
  /* the value does not depend on whether the point is a grid point */
  for(i = 1; i <= 3; i++)
  {
    v = F(box, i, -1, X); e = F(box, i, id, X); sc = 1+fabs(v);
    tx = sigvars || deform ? 1e-8 : 1e-12;
    if(ind >= 0 && !(fabs(v-e) <= tx*sc)) { vh_fail("value", "%s box%d point %d (%.17g,%.17g,%.17g): coordinate %d is %.17g there and %.17g when the same point is not given as a grid point", cfg, box->b, ind, X[1], X[2], X[3], i, e, v); return 0; }
    if(ind >= 0)
    {
      double s = box->v[Ind(i == 1 ? "x" : i == 2 ? "y" : "z")][ind];
      if(!(fabs(s-e) <= 1e-13*sc)) { vh_fail("stored", "%s box%d point %d: stored Cartesian coordinate %d is %.17g, the map gives %.17g", cfg, box->b, ind, i, s, e); return 0; }
    }
  }
  if(!jac(box, X, J, I, h)) return 1;
  points++; vh_trans++;
  if(!have1(box)) { vh_fail("missing", "%s box%d: no first derivatives", cfg, box->b); return 0; }
  for(i = 1, sc = 0; i <= 3; i++) for(j = 1; j <= 3; j++) if(fabs(I[i][j]) > sc) sc = fabs(I[i][j]);
  for(i = 1; i <= 3; i++) for(j = 1; j <= 3; j++)
  {
    for(n = 0; n < 2; n++)
    {
      if(n == 1 && id < 0) continue;
      v = box->dX_dx[i][j](box, n ? id : -1, X[1], X[2], X[3]);
      if(!(fabs(v-I[i][j]) <= ((deform || sigvars) ? 1e-7 : tol1)*(1+sc))) { vh_fail("first", "%s box%d point %d (%.17g,%.17g,%.17g): dX%d/dx%d is %.15g, the inverse of the map has %.15g", cfg, box->b, n ? id : -1, X[1], X[2], X[3], i, j, v, I[i][j]); return 0; }
    }
    if(box->dx_dX[i][j] && (!SHIFTED(S) || onlyinv))
    {
      double m = 0; v = box->dx_dX[i][j](box, id, X[1], X[2], X[3]); for(k = 1; k <= 3; k++) for(l = 1; l <= 3; l++) if(fabs(J[k][l]) > m) m = fabs(J[k][l]);
      if(!(fabs(v-J[i][j]) <= tol1*(1+m))) { vh_fail("inverse", "%s box%d point %d (%.17g,%.17g,%.17g): dx%d/dX%d is %.15g, the map has %.15g", cfg, box->b, id, X[1], X[2], X[3], i, j, v, J[i][j]); return 0; }
    }
    if(id >= 0 && box->v[Ind("dXdx")])
    {
      double s = box->v[Ind(i == 1 ? "dXdx" : i == 2 ? "dYdx" : "dZdx")+j-1][id]; v = box->dX_dx[i][j](box, id, X[1], X[2], X[3]);
      if(!(fabs(s-v) <= 1e-12*(1+sc))) { vh_fail("stored1", "%s box%d point %d: stored dX%d/dx%d is %.15g, the function gives %.15g", cfg, box->b, id, i, j, s, v); return 0; }
    }
  }
  /* second derivatives: d/dx_k of the reported first derivatives */
  for(i = 1; i <= 3; i++)
  {
    double E[4][4], m = 0;
    if(!box->ddX_dxdx[i][1][1] || (SHIFTED(S) && !onlyinv)) continue;
    for(j = 1; j <= 3; j++) for(k = j; k <= 3; k++)
    { for(E[j][k] = 0, l = 1; l <= 3; l++) E[j][k] += num(fdX, box, 4*i+j, X, l, h, NULL)*I[l][k]; if(fabs(E[j][k]) > m) m = fabs(E[j][k]); }
    for(n = 0, j = 1; j <= 3; j++) for(k = j; k <= 3; k++, n++)
    {
      v = box->ddX_dxdx[i][j][k](box, id, X[1], X[2], X[3]);
      if(!(fabs(v-E[j][k]) <= 3e-7*(1+m+sc*sc))) { vh_fail("second", "%s box%d point %d (%.17g,%.17g,%.17g): ddX%d/dx%ddx%d is %.12g, differentiating the reported dX%d/dx%d gives %.12g", cfg, box->b, id, X[1], X[2], X[3], i, j, k, v, i, j, E[j][k]); return 0; }
      if(id >= 0 && box->v[Ind("ddXddxx")])
      {
        double s = box->v[Ind(i == 1 ? "ddXddxx" : i == 2 ? "ddYddxx" : "ddZddxx")+n][id];
        if(!(fabs(s-v) <= 1e-12*(1+m))) { vh_fail("stored2", "%s box%d point %d: stored ddX%d/dx%ddx%d is %.15g, the function gives %.15g", cfg, box->b, id, i, j, k, s, v); return 0; }
      }
    }
  }
  (void)q;
  return 1;
}
static int derivs(tGrid *g, const tSys *S, int onlygrid)
{
  int b, p, i, j, k;
  forallboxes(g, b)
  {
    tBox *box = g->box[b]; double X[4];
    forallpoints(box, p)
    {
      vh_evals++;
      X[1] = box->v[Ind("X")][p]; X[2] = box->v[Ind("Y")][p]; X[3] = box->v[Ind("Z")][p];
      if(!at(S, box, p, X)) return 0;
    }
    if(!onlygrid) for(i = 0; i < 5; i++) for(j = 0; j < 5; j++) for(k = 0; k < 5; k++)
    {
      vh_evals++;
      X[1] = box->bbox[0]+(box->bbox[1]-box->bbox[0])*(0.03+0.235*i); X[2] = box->bbox[2]+(box->bbox[3]-box->bbox[2])*(0.04+.23*j); X[3] = box->bbox[4]+(box->bbox[5]-box->bbox[4])*(0.02+.24*k);
      if(!at(S, box, -1, X)) return 0;
    }
  }
  return 1;
}
static void one(void *arg);
static void shifted(void *arg) { onlyinv = 1; one(arg); }
static void one(void *arg)
{
  const tSys *S = &SYS[sys]; tGrid *g; tBox *box; (void)arg;
  sprintf(cfg, "%s%s%s n=%d,%d,%d X in [%g,%g] Y in [%g,%g]%s%s%s%s", S->name, strncmp(S->name, "Ansorg", 6) ? "" : " version ", strncmp(S->name, "Ansorg", 6) ? "" : VER[ver], nn[0], nn[1], nn[2], S->lim[0][0], S->lim[0][1], S->lim[1][0], S->lim[1][1], S->par ? " " : "", S->par ? S->par : "", S->par ? "=" : "", S->par ? S->val : "");
  g = single(S); box = g->box[0]; points = 0;
  if(!derivs(g, S, 0)) return;
  if(box->x_of_X[1] && points < box->nnodes/4 && points < 50) vh_fail("vacuous", "%s: only %ld points could be checked", cfg, points);
  vh_states += box->nnodes; vh_distinct++;
  vh_sample("%s: %ld points", cfg, points);
}
/* results do not depend on what was asked before: all ordered pairs of points */
static void history(void *arg)
{
  const tSys *S = &SYS[sys]; tGrid *g; tBox *box; double P[64][4], R[64][21]; int np = 0, i, j, k, a, b, c, v; (void)arg;
  sprintf(cfg, "%s %s n=%d,%d,%d %s", S->name, VER[ver], nn[0], nn[1], nn[2], S->par ? S->val : "");
  g = single(S); box = g->box[0]; if(!box->x_of_X[1]) return;
  { double sh = 1.0/((1+nn[1]%2)*nn[1]), Bs[4]; double ph[3] = {0.25, 0.25+P2/2, 1.5}; Bs[0] = 0.125; Bs[1] = 0.125+sh; Bs[2] = S->lim[1][1] > 1.9 ? 2-0.125 : 0.5; Bs[3] = 0.125+2*sh;
    for(i = 0; i < 2; i++) for(j = 0; j < 4; j++) for(k = 0; k < 3; k++) { P[np][1] = S->lim[0][0]+(S->lim[0][1]-S->lim[0][0])*(i ? .5 : .25); P[np][2] = Bs[j]; P[np][3] = ph[k]; np++; } }
#define EVAL(q, r) do { double *x_ = P[q]; int n_ = 0, i_, j_; for(i_ = 1; i_ <= 3; i_++) (r)[n_++] = box->x_of_X[i_](box, -1, x_[1], x_[2], x_[3]); \
  for(i_ = 1; i_ <= 3; i_++) for(j_ = 1; j_ <= 3; j_++) (r)[n_++] = box->dX_dx[i_][j_](box, -1, x_[1], x_[2], x_[3]); } while(0)
  for(i = 0; i < np; i++)
  { /* reference: asked right after points with other X, which no memory can take for this one */
    double Q[2][4] = {{0, P[i][1]+0.013, 0.777, 0.3}, {0, P[i][1]+0.017, 0.771, 0.7}}; int k_;
    for(k_ = 0; k_ < 2; k_++) { double *x_ = Q[k_]; for(a = 1; a <= 3; a++) { box->x_of_X[a](box, -1, x_[1], x_[2], x_[3]); for(b = 1; b <= 3; b++) box->dX_dx[a][b](box, -1, x_[1], x_[2], x_[3]); } }
    EVAL(i, R[i]);
  }
  for(a = 0; a < np; a++) for(b = 0; b < np; b++) for(v = 0; v < 2; v++)
  {
    double r[21]; vh_evals++; vh_trans += 2;
    if(v) { EVAL(a, r); } else for(c = 1; c <= 3; c++) box->x_of_X[c](box, -1, P[a][1], P[a][2], P[a][3]);
    EVAL(b, r);
    for(c = 0; c < 12; c++) if(!(fabs(r[c]-R[b][c]) <= 1e-13*(1+fabs(R[b][c]))) && !(isnan(r[c]) && isnan(R[b][c])))
    { vh_fail("history", "%s: at (%.17g,%.17g,%.17g) result %d is %.17g after asking for (%.17g,%.17g,%.17g), otherwise %.17g", cfg, P[b][1], P[b][2], P[b][3], c, r[c], P[a][1], P[a][2], P[a][3], R[b][c]); return; }
  }
  vh_states += np; vh_distinct++;
}
/* ---- cubed spheres ---- */
static void cder(void *arg)
{
  tGrid *g; int b, i, j, k; (void)arg; cname();
  g = cubes(); points = 0;
  if(gen)
  { /* second derivatives from the grid: compare with the analytic structure only through C20; here the first derivatives */
    ;
  }
  if(!derivs(g, NULL, 0)) return;
  if(points < 1000) vh_fail("vacuous", "%s: only %ld points could be checked", cfg, points);
  /* angles of a point of a cubed sphere, and radius along it */
  forallboxes(g, b)
  {
    tBox *box = g->box[b]; double X[4]; if(box->CI->type == 0) continue;
    for(i = 0; i < 4; i++) for(j = 0; j < 5; j++) for(k = 0; k < 5; k++)
    {
      double th, ph, t2, p2, d[4], x, y, z, r, rr, dr, h = 1e-4, e[4], tt, pp, A, B; int q;
      X[1] = box->bbox[0]+(box->bbox[1]-box->bbox[0])*i/3.; A = X[2] = box->bbox[2]+(box->bbox[3]-box->bbox[2])*(0.11+0.19*j); B = X[3] = box->bbox[4]+(box->bbox[5]-box->bbox[4])*(0.09+.21*k);
      if(fabs(A) < 0.01 && fabs(B) < 0.01) continue;
      vh_evals++;
      x = F(box, 1, -1, X)-box->CI->xc[1]; y = F(box, 2, -1, X)-box->CI->xc[2]; z = F(box, 3, -1, X)-box->CI->xc[3]; r = sqrt(x*x+y*y+z*z);
      ThetaPhi_of_AB_CubSph(box, A, B, &th, &ph); ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A, B, &t2, &p2, &d[0], &d[1], &d[2], &d[3]);
      if(fabs(sin(th)*cos(ph)-x/r) > 1e-10 || fabs(sin(th)*sin(ph)-y/r) > 1e-10 || fabs(cos(th)-z/r) > 1e-10 || t2 != th || p2 != ph)
      { vh_fail("angles", "%s box%d A=%g B=%g: angles %g,%g do not denote the direction (%g,%g,%g)", cfg, b, A, B, th, ph, x/r, y/r, z/r); return; }
      for(q = 0; q < 4; q++)
      {
        double s[2]; int u; for(u = 0; u < 2; u++) { ThetaPhi_of_AB_CubSph(box, A+(q%2 == 0)*(u ? -h : h), B+(q%2 == 1)*(u ? -h : h), &tt, &pp); s[u] = q < 2 ? tt : pp; }
        e[q] = s[0]-s[1]; if(e[q] > 3) e[q] -= P2; if(e[q] < -3) e[q] += P2; e[q] /= 2*h;
        if(fabs(e[q]-d[q]) > 2e-4*(1+fabs(d[q]))) { vh_fail("angles", "%s box%d A=%g B=%g: derivative %d of the angles is %.10g, expected %.10g", cfg, b, A, B, q, d[q], e[q]); return; }
      }
      r_dr_dlam_of_lamAB_CubSph(box, -1, X[1], A, B, &rr, &dr);
      { char s[40]; sprintf(s, "box%d_Coordinates", b); if(!strcmp(Gets(s), "CubedSphere") && fabs(rr-r) > 1e-9*(1+r)) { vh_fail("radius", "%s box%d: radius at (%g,%g,%g) is %.15g, distance from the centre %.15g", cfg, b, X[1], A, B, rr, r); return; } }
    }
  }
  /* boxes of one layout remember their structure in the parameters */
  forallboxes(g, b)
  {
    tBox *box = g->box[b]; double s[6], xc[4]; int dom = box->CI->dom, ty = box->CI->type; char p[60];
    memcpy(s, box->CI->s, sizeof s); memcpy(xc, box->CI->xc, sizeof xc); memset(box->CI->s, 0, sizeof s); memset(box->CI->xc, 0, sizeof xc); box->CI->dom = box->CI->type = -7;
    sprintf(p, "box%d_CI_s", b); set_box_CI_struct_from_pars(g);
    for(i = 0; i < 6; i++) if(fabs(s[i]-box->CI->s[i]) > 1e-13*(1+fabs(s[i]))) { vh_fail("record", "%s box%d: recorded distance %d comes back as %.17g, was %.17g", cfg, b, i, box->CI->s[i], s[i]); return; }
    for(i = 1; i < 4; i++) if(fabs(xc[i]-box->CI->xc[i]) > 1e-13*(1+fabs(xc[i]))) { vh_fail("record", "%s box%d: recorded centre %d comes back as %.17g, was %.17g", cfg, b, i, box->CI->xc[i], xc[i]); return; }
    if(box->CI->dom != dom || box->CI->type != ty) { vh_fail("record", "%s box%d: recorded domain %d type %d come back as %d, %d", cfg, b, dom, ty, box->CI->dom, box->CI->type); return; }
  }
  vh_states += points; vh_distinct++; vh_sample("%s: %ld points", cfg, points);
}
/* ---- search ---- */
static int inside(tBox *box, double X, double Y, double Z)
{ double *bb = box->bbox, e = 1e-9; return X >= bb[0]-e && X <= bb[1]+e && Y >= bb[2]-e && Y <= bb[3]+e && Z >= bb[4]-e && Z <= bb[5]+e; }
static int back(tGrid *g, int b, double X, double Y, double Z, const double *x, const char *what)
{
  tBox *box; double Xs[4] = {0, X, Y, Z}, r[4], s; int i;
  if(b < 0 || b >= g->nboxes) { vh_fail("notfound", "%s: %s does not find (%.17g,%.17g,%.17g) (returns %d)", cfg, what, x[1], x[2], x[3], b); return 0; }
  box = g->box[b]; s = 1+fabs(x[1])+fabs(x[2])+fabs(x[3]);
  if(!inside(box, X, Y, Z)) { vh_fail("outside", "%s: %s gives box%d (%.17g,%.17g,%.17g) outside that box", cfg, what, b, X, Y, Z); return 0; }
  for(i = 1; i <= 3; i++) { r[i] = F(box, i, -1, Xs); if(!(fabs(r[i]-x[i]) <= 1e-8*s)) { vh_fail("mapback", "%s: %s of (%.17g,%.17g,%.17g) gives box%d (%.17g,%.17g,%.17g), which is the place (%.17g,..) in coordinate %d", cfg, what, x[1], x[2], x[3], b, X, Y, Z, r[i], i); return 0; } }
  return 1;
}
static int search_at(tGrid *g, tBox *box, const double *X, int interior, int own, int inner)
{
  double x[4], G[4]; int i, b, bl[64], nb = g->nboxes, v, st; double d, d2; int bi, ind, lax;
  for(i = 1; i <= 3; i++) x[i] = F(box, i, -1, X);
  vh_evals++;
  for(v = 0; v < 3; v++)
  {
    if(v == 0) { nearest_b_XYZ_of_xyz(g, &bi, &ind, &G[1], &G[2], &G[3], x[1], x[2], x[3]); }
    if(v == 1) { if(!own) continue; for(i = 1; i <= 3; i++) G[i] = X[i]; }
    if(v == 2) { if(!own || (box->x_of_X[1] && !box->XYZ_Of_xyz && !inner)) continue; for(i = 1; i <= 3; i++) G[i] = X[i]+1e-3*(box->bbox[2*i-1]-box->bbox[2*i-2])*(X[i] > (box->bbox[2*i-1]+box->bbox[2*i-2])/2 ? -1 : 1); }
    /* away from the solution Newton's method may fail; then only what it reports as found has to be right */
    lax = v == 0 && box->x_of_X[1] && !box->XYZ_Of_xyz;
    vh_trans += 2;
    { double Y[4]; memcpy(Y, G, sizeof Y); b = b_XYZ_of_xyz(g, &Y[1], &Y[2], &Y[3], x[1], x[2], x[3]); if(lax && b < 0) continue; if(!back(g, b, Y[1], Y[2], Y[3], x, v == 0 ? "b_XYZ_of_xyz(from the nearest point)" : v == 1 ? "b_XYZ_of_xyz(from the solution)" : "b_XYZ_of_xyz(from a point near the solution)")) return 0;
      if(interior && b != box->b) { vh_fail("whichbox", "%s: a point inside box%d is said to be in box%d", cfg, box->b, b); return 0; } }
    for(st = 0; st < 2; st++)
    { double Y[4]; int m = 0, k; memcpy(Y, G, sizeof Y); if(st == 0) bl[m++] = box->b; else { for(k = nb-1; k >= 0; k--) bl[m++] = k; }
      b = b_XYZ_of_xyz_inboxlist(g, bl, m, &Y[1], &Y[2], &Y[3], x[1], x[2], x[3]); if(lax && b < 0) continue; if(!back(g, b, Y[1], Y[2], Y[3], x, st ? "b_XYZ_of_xyz_inboxlist(all boxes, last first)" : "b_XYZ_of_xyz_inboxlist(the box itself)")) return 0;
      if(interior && b != box->b) { vh_fail("whichbox", "%s: a point inside box%d is said to be in box%d", cfg, box->b, b); return 0; } }
    if(interior && nb > 1)
    { double Y[4]; int m = 0, k; memcpy(Y, G, sizeof Y); for(k = 0; k < nb; k++) if(k != box->b) bl[m++] = k;
      b = b_XYZ_of_xyz_inboxlist(g, bl, m, &Y[1], &Y[2], &Y[3], x[1], x[2], x[3]);
      if(b >= 0) { vh_fail("phantom", "%s: a point inside box%d, (%g,%g,%g), is found in box%d among the other boxes", cfg, box->b, x[1], x[2], x[3], b); return 0; } }
  }
  (void)d; (void)d2;
  return 1;
}
static void nearest_at(tGrid *g, const double *x)
{
  int b, p, bi = -1, ind = -1, k, pl, bl[2]; double best = 1e300, X, Y, Z, r;
  vh_evals++;
#define DIST(box_, p_) sqrt(pow((box_)->v[Ind("x")][p_]-x[1],2)+pow((box_)->v[Ind("y")][p_]-x[2],2)+pow((box_)->v[Ind("z")][p_]-x[3],2))
#define POINTOK(box_, what) if(ind < 0 || ind >= (box_)->nnodes || !(fabs(r-best) <= 1e-12*(1+best)) || !(fabs(DIST(box_, ind)-best) <= 1e-12*(1+best)) || X != (box_)->v[Ind("X")][ind] || Y != (box_)->v[Ind("Y")][ind] || Z != (box_)->v[Ind("Z")][ind]) \
  { vh_fail("nearest", "%s: %s of (%g,%g,%g) gives point %d at (%g,%g,%g) and distance %.15g; the nearest is at distance %.15g", cfg, what, x[1], x[2], x[3], ind, X, Y, Z, r, best); return; }
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, p) { double d = DIST(box, p); if(d < best) best = d; } }
  r = nearest_b_XYZ_of_xyz(g, &bi, &ind, &X, &Y, &Z, x[1], x[2], x[3]);
  if(bi < 0 || bi >= g->nboxes) { vh_fail("nearest", "%s: nearest point in box %d", cfg, bi); return; }
  POINTOK(g->box[bi], "nearest_b_XYZ_of_xyz");
  for(k = 0; k < g->nboxes; k += 1 + g->nboxes/5)
  {
    tBox *box = g->box[k], *bo; int n1 = box->n1, n2 = box->n2, n3 = box->n3, q;
    best = 1e300; forallpoints(box, p) { double d = DIST(box, p); if(d < best) best = d; }
    ind = -1; r = nearestXYZ_of_xyz(box, &ind, &X, &Y, &Z, x[1], x[2], x[3]); POINTOK(box, "nearestXYZ_of_xyz");
    bl[0] = (k+1) % g->nboxes; bl[1] = k; bo = g->box[bl[0]]; forallpoints(bo, p) { double d = DIST(bo, p); if(d < best) best = d; }
    bi = ind = -1; r = nearest_b_XYZ_of_xyz_inboxlist(g, bl, 2, &bi, &ind, &X, &Y, &Z, x[1], x[2], x[3]); if(bi != bl[0] && bi != bl[1]) { vh_fail("nearest", "%s: nearest point of a list of boxes in box %d", cfg, bi); return; }
    POINTOK(g->box[bi], "nearest_b_XYZ_of_xyz_inboxlist");
    best = 1e300; forallpoints(box, p) { int i = p % n1, j = p/n1 % n2, kk = p/n1/n2; double d = DIST(box, p); if(i && j && kk && i < n1-1 && j < n2-1 && kk < n3-1 && d < best) best = d; }
    if(best < 1e300) { ind = -1; r = nearestinnerXYZ_of_xyz(box, &ind, &X, &Y, &Z, x[1], x[2], x[3]); POINTOK(box, "nearestinnerXYZ_of_xyz"); }
    for(pl = 1; pl <= 3; pl++) for(q = 0; q < (pl == 1 ? n1 : pl == 2 ? n2 : n3); q++)
    {
      best = 1e300; forallpoints(box, p) { int c[3] = {p % n1, p/n1 % n2, p/n1/n2}; double d = DIST(box, p); if(c[pl-1] == q && d < best) best = d; }
      ind = -1; r = nearestXYZ_of_xyz_inplane(box, &ind, &X, &Y, &Z, x[1], x[2], x[3], pl, q); POINTOK(box, "nearestXYZ_of_xyz_inplane");
      { int c[3] = {ind % n1, ind/n1 % n2, ind/n1/n2}; if(c[pl-1] != q) { vh_fail("nearest", "%s: nearest point of plane %d,%d is not in it", cfg, pl, q); return; } }
    }
  }
}
static int misc(tGrid *g)
{
  int b, i, j, k;
  forallboxes(g, b)
  {
    tBox *box = g->box[b]; double *bb = box->bbox; int p;
    forallpoints(box, p)
    {
      int n[3] = {box->n1, box->n2, box->n3}, c[3] = {p % n[0], p/n[0] % n[1], p/n[0]/n[1]};
      if(find_i_Of_X(box, box->v[Ind("X")][p]) != c[0] || find_j_Of_Y(box, box->v[Ind("Y")][p]) != c[1] || find_k_Of_Z(box, box->v[Ind("Z")][p]) != c[2]) { vh_fail("index", "%s box%d point %d: indices are not found from the coordinates", cfg, b, p); return 0; }
    }
    if(find_i_Of_X(box, bb[1]+1) != -1 || find_j_Of_Y(box, bb[3]+1) != -1 || find_k_Of_Z(box, bb[5]+1) != -1) { vh_fail("index", "%s box%d: a coordinate outside is found", cfg, b); return 0; }
    for(i = 0; i < 3; i++) for(j = 0; j < 3; j++) for(k = 0; k < 3; k++)
    {
      int c[3] = {i, j, k}, face[6], d, nf = 0, r; double X[3], Y[3]; vh_evals++;
      for(d = 0; d < 3; d++) { X[d] = bb[2*d]+(bb[2*d+1]-bb[2*d])*(c[d] == 0 ? 0 : c[d] == 1 ? 1 : 0.37); Y[d] = X[d]; nf += c[d] != 2; }
      r = XYZ_on_face(box, face, X[0], X[1], X[2]);
      for(d = 0; d < 3; d++) if(face[2*d] != (c[d] == 0) || face[2*d+1] != (c[d] == 1)) r = -1;
      if(r != nf) { vh_fail("faces", "%s box%d: wrong faces for (%g,%g,%g)", cfg, b, X[0], X[1], X[2]); return 0; }
      r = moveXYZ_off_face(box, &Y[0], &Y[1], &Y[2]);
      for(d = 0; d < 3; d++) if((c[d] == 2 && X[d] != Y[d]) || (c[d] != 2 && !(Y[d] > bb[2*d] && Y[d] < bb[2*d+1] && fabs(X[d]-Y[d]) < 1e-4*(bb[2*d+1]-bb[2*d])))) r = -1;
      if(r != nf || (nf && XYZ_on_face(box, face, Y[0], Y[1], Y[2]))) { vh_fail("faces", "%s box%d: (%g,%g,%g) moved off the faces gives (%g,%g,%g)", cfg, b, X[0], X[1], X[2], Y[0], Y[1], Y[2]); return 0; }
    }
  }
  return 1;
}
static void searchall(tGrid *g, const tSys *S, int own)
{
  int b, i, j, k; double X[4];
  static const double FR[7] = {0, 0.07, 0.25, 0.5, 0.66, 0.93, 1};
  if(!misc(g)) return;
  forallboxes(g, b)
  {
    tBox *box = g->box[b]; int m = g->nboxes > 13 && !vh_thorough ? 3 : 1;
    for(i = 0; i < 7; i++) for(j = 0; j < 7; j++) for(k = 0; k < 7; k++)
    {
      if((i+j+k+b) % m) continue;
      X[1] = box->bbox[0]+(box->bbox[1]-box->bbox[0])*FR[i]; X[2] = box->bbox[2]+(box->bbox[3]-box->bbox[2])*FR[j]; X[3] = box->bbox[4]+(box->bbox[5]-box->bbox[4])*FR[k];
      if(S && !safe(S, box, X, 1e-3)) continue;
      vh_at("box %d at %g,%g,%g", b, X[1], X[2], X[3]);
      if(!search_at(g, box, X, i > 0 && i < 6 && j > 0 && j < 6 && k > 0 && k < 6 && g->nboxes > 1, own, i > 0 && i < 6 && j > 0 && j < 6 && k > 0 && k < 6)) return;
      if((i+2*j+3*k) % (g->nboxes > 1 ? 40 : 7) == 0) { double x[4] = {0, F(box, 1, -1, X), F(box, 2, -1, X), F(box, 3, -1, X)}; long f = vh_fails; nearest_at(g, x); if(vh_fails != f) return; }
      if(S && box->x_of_X[1])
      { /* one coordinate for given others */
        double Y = X[1]*0.999+0.001*(box->bbox[0]+box->bbox[1])/2, x = F(box, 1, -1, X), e = 1e-3, dx, Q[4] = {0, X[1]+e, X[2], X[3]}; int r;
        dx = (F(box, 1, -1, Q)-x)/e; Q[1] = X[1]-e; if(fabs(dx) < 1e-2 || fabs(dx - (x-F(box, 1, -1, Q))/e) > 0.2*fabs(dx)) continue;
        r = b_X_of_x_forgiven_YZ(g, &Y, x, X[2], X[3]); Q[1] = Y;
        if(r != box->b || fabs(F(box, 1, -1, Q)-x) > 1e-8*(1+fabs(x))) { vh_fail("forgiven", "%s: b_X_of_x_forgiven_YZ(x=%.17g, Y=%g, Z=%g) near the solution %g returns %d, X=%g", cfg, x, X[2], X[3], X[1], r, Y); return; }
        r = 0; Y = X[1]*0.999+0.001*(box->bbox[0]+box->bbox[1])/2; { int bl[1] = {0}; r = b_X_of_x_forgiven_YZ_inboxlist(g, bl, 1, &Y, x, X[2], X[3]); } Q[1] = Y;
        if(r != box->b || fabs(F(box, 1, -1, Q)-x) > 1e-8*(1+fabs(x))) { vh_fail("forgiven", "%s: b_X_of_x_forgiven_YZ_inboxlist(x=%.17g, Y=%g, Z=%g) near the solution %g returns %d, X=%g", cfg, x, X[2], X[3], X[1], r, Y); return; }
      }
    }
  }
  vh_states += 343*g->nboxes; vh_distinct++;
}
static void ssingle(void *arg)
{
  const tSys *S = &SYS[sys]; tGrid *g; (void)arg;
  sprintf(cfg, "%s %s n=%d,%d,%d %s", S->name, VER[ver], nn[0], nn[1], nn[2], S->par ? S->val : "");
  g = single(S); searchall(g, S, 1);
}
static void scubes(void *arg)
{
  tGrid *g; double R; int i, j, k; (void)arg; cname();
  g = cubes(); searchall(g, NULL, 1);
  /* places in no box */
  { double rout = lay == 0 ? 0.6*sqrt(3) : lay == 1 ? 2*sqrt(3) : lay == 2 ? 4 : 40, xc[4] = {0, lay == 0 ? 1 : 0, lay == 0 ? -.5 : 0, lay == 0 ? .25 : 0};
    for(i = -2; i <= 2; i++) for(j = -2; j <= 2; j++) for(k = -2; k <= 2; k++) for(R = 1.01; R < 50; R *= 3)
    {
      double n = sqrt(i*i+j*j+k*k), X = 0.5, Y = 0, Z = 0, x[4]; int b; if(n == 0) continue;
      x[1] = xc[1]+rout*R*i/n; x[2] = xc[2]+rout*R*j/n; x[3] = xc[3]+rout*R*k/n; vh_evals++;
      b = b_XYZ_of_xyz(g, &X, &Y, &Z, x[1], x[2], x[3]);
      if(b >= 0) { vh_fail("phantom", "%s: (%g,%g,%g), which lies in no box, is found in box%d at (%g,%g,%g)", cfg, x[1], x[2], x[3], b, X, Y, Z); return; }
    } }
  /* with the inner cube left out, nothing is found in it */
  if(lay == 0)
  {
    int bl[12]; for(i = 0; i < 12; i++) bl[i] = i+1;
    for(i = -3; i <= 3; i++) for(j = -3; j <= 3; j++) for(k = -3; k <= 3; k++)
    {
      double X = 0.5, Y = 0, Z = 0, x[4] = {0, 1+0.06*i, -.5+0.06*j, .25+0.06*k}; int b; vh_evals++;
      b = b_XYZ_of_xyz_inboxlist(g, bl, 12, &X, &Y, &Z, x[1], x[2], x[3]);
      if(b >= 0) { vh_fail("phantom", "%s: (%g,%g,%g), which lies in none of boxes 1 to 12, is found in box%d at (%g,%g,%g)", cfg, x[1], x[2], x[3], b, X, Y, Z); return; }
    }
  }
}
int main(int argc, char **argv)
{
  static const int NS[4][3] = {{4, 6, 6}, {5, 5, 7}, {3, 8, 4}, {7, 9, 10}}; int q;
  vh_init(argc, argv);
  for(sys = 0; sys < NSYS; sys++) for(q = 0; q < (vh_thorough ? 4 : 2); q++) for(ver = 0; ver < 3; ver++)
  {
    if(ver && strncmp(SYS[sys].name, "Ansorg", 6)) continue;
    memcpy(nn, NS[q], sizeof nn); if(!strcmp(SYS[sys].name, "PolarCE")) nn[1]++;
    if(vh_unit("derivs:%d:%d:%d", sys, q, ver)) vh_fork(one, NULL);
    if(SHIFTED(&SYS[sys]) && vh_unit("shifted:%d:%d:%d", sys, q, ver)) vh_fork(shifted, NULL);
    if(vh_unit("history:%d:%d:%d", sys, q, ver)) vh_fork(history, NULL);
    if(vh_unit("search:%d:%d:%d", sys, q, ver)) vh_fork(ssingle, NULL);
  }
  ver = 0;
  for(lay = 0; lay < 4; lay++) for(q = 0; q < (vh_thorough ? 3 : 1); q++) for(sigvars = 0; sigvars < 2; sigvars++) for(deform = 0; deform <= sigvars; deform++) for(useF = 0; useF <= deform; useF++)
  {
    nn[0] = 5+q; nn[1] = 8+q; nn[2] = 9+q; if(sigvars && deform) { nn[1] += 6; nn[2] += 6; }
    if(!vh_thorough && sigvars && lay > 1) continue;
    if(vh_unit("cubes:%d:%d:%d%d%d", lay, q, sigvars, deform, useF)) vh_fork(cder, NULL);
    if(vh_unit("findcubes:%d:%d:%d%d%d", lay, q, sigvars, deform, useF)) vh_fork(scubes, NULL);
  }
  return vh_done();
}

/* multi-box layouts for C21 and C22, and the audit of their face patches */
#ifndef VH_LAY_H
#define VH_LAY_H
static const char *OPT[] = {"setnormalderiv_order3", "setnormalderiv_order0", "setnormalderiv_order1", "setnormalderiv_order2", "setnormalderiv_order4", "populate_bfaces", "populate_bfaces setnormalderiv_order2", "populate_bfaces setnormalderiv_order3"};
typedef struct { int kind, sub, n[4][3], opt, sig; } tLay;  /* kind 0: cubed spheres, 1: Cartesian boxes, 2: shells, 3: Ansorg */
#define POP(o) ((o) >= 5)
static tLay LL[4000]; static int nLL;
static void addl(int kind, int sub, int a, int b, int c, int da, int db, int opt, int sig)
{ tLay *l = &LL[nLL++]; int i; l->kind = kind; l->sub = sub; l->opt = opt; l->sig = sig; for(i = 0; i < 4; i++) { l->n[i][0] = a+(i % 2)*da; l->n[i][1] = b+(i % 2)*db; l->n[i][2] = c+(i % 2)*db; } }
static int nlayouts(void)
{
  int k, o, a, d; if(nLL) return nLL;
  /* 38 boxes: at least 5 points, default algorithm only */
  for(k = 0; k < 4; k++) for(o = 0; o < 8; o++) if(!POP(o) || k < 3) for(a = k == 3 ? 5 : 4; a <= 6; a++) { addl(0, k, a, a, a, 0, 0, o, 0); }
  for(k = 0; k < 4; k++) for(o = 0; o < 8; o += 5) if(!POP(o) || k < 3) addl(0, k, 4, 5, 5, 0, 0, o, 0);
  for(k = 0; k < 3; k++) for(o = 0; o < 8; o += 5) { addl(0, k, 4, 4, 4, 1, 0, o, 1); addl(0, k, 4, 4, 4, 0, 0, o, 2); }
  for(k = 0; k < 4; k++) for(o = 0; o < 8; o++) if(!POP(o) || k < 3) for(a = 5; a <= 6; a++) for(d = 0; d < 3; d++) addl(0, k, a, a, a, d != 1, d != 0, o, 0);
  for(k = 0; k < 12; k++) for(o = 0; o < 8; o++) if(!POP(o) || k < 7) for(a = 3; a <= 5; a++) for(d = 0; d <= 1; d++) addl(1, k, a, a+1, a+2, d, d, o, 0);
  for(k = 0; k < 4; k++) for(o = 0; o < 5; o++) for(a = 3; a <= 5; a++) for(d = 0; d <= 1; d++) addl(2, k, a, 4, 6, d, 2*d, o, 0);
  for(k = 0; k < 2; k++) for(o = 0; o < 5; o++) for(a = 5; a <= 6; a++) addl(3, k, a, a, 4, 0, 0, o, 0);
  return nLL;
}
static tLay *L; static tGrid *g;
static void layout_set(int i) { L = &LL[i]; }
static int nlay(int b, int d) { return L->n[b % 4][d]; }
static tGrid *layout(void)
{
  int b, i; const char *O = OPT[L->opt];
  static const int NC[] = {1, 2, 2, 2, 3, 4, 8, 2, 3, 2, 3, 4}; nn[0] = L->n[0][0]; nn[1] = L->n[0][1]; nn[2] = L->n[0][2]; sprintf(cfg, "kind %d,%d n=%d,%d,%d/%d,%d,%d options %s sig %d", L->kind, L->sub, L->n[0][0], L->n[0][1], L->n[0][2], L->n[1][0], L->n[1][1], L->n[1][2], O, L->sig);
  vg_par("Coordinates_bface_options", "%s", O); 
  if(L->kind == 0) { lay = L->sub; sigvars = L->sig > 0; deform = L->sig > 1; useF = 0; gen = 0; cubes_n = nlay; return cubes(); }
  if(L->kind == 1)
  {
    int N = NC[L->sub]; vg_begin(N);
    for(b = 0; b < N; b++)
    {
      int bx = b % 2, by = b/2 % 2, bz = b/4 % 2;
      vg_box(b, nlay(b, 0), nlay(b, 1), nlay(b, 2), CHE, CHE, CHE); vg_bpar(b, "Coordinates", "Cartesian");
      switch(L->sub)
      {
        case 0: vg_lim(b, 0, 1, -1, 1, 0, 2); break;
        case 1: vg_lim(b, b ? -1 : 0, b ? 0 : 1, -1, 1, -1, 1); break;
        case 2: vg_lim(b, 0, 1, b ? 1 : 0, b ? 1.5 : 1, -1, 1); break;
        case 3: vg_lim(b, 0, 1, 0, 1, b ? -2 : 0, b ? 0 : 1); break;
        case 4: vg_lim(b, b, b+1, 0, 1, 0, 1); break;
        case 5: vg_lim(b, bx, bx+1, by, by+1, 0, 1); break;
        case 6: vg_lim(b, bx, bx+1, by, by+1, bz, bz+1); break;
        case 7: vg_lim(b, b ? -1 : 0, b ? 0.25 : 1, -1, 1, -1, 1); break; /* overlap */
        case 8: vg_lim(b, b > 0, 1+(b > 0), b == 2, b == 1 ? 1 : 2, 0, 1); break; /* two boxes on one face */
        case 9: vg_lim(b, 0, 1, 0, 1, b ? 0.75 : 0, b ? 2 : 1); break;
        case 10: vg_lim(b, 0, 1, b ? b-0.25 : 0, b+1, -1, 1); break;
        case 11: vg_lim(b, bx ? 0.75 : 0, bx+1, 0, 1, by ? 0.5 : 0, by+1); break;
      }
    }
  }
  else if(L->kind == 2)
  {
    int N = L->sub < 2 ? 2 : 3; vg_begin(N);
    for(b = 0; b < N; b++)
    { vg_box(b, nlay(b, 0), nlay(b, 1), nlay(b, 2), CHE, FOU, FOU); vg_bpar(b, "Coordinates", "SphericalDF"); vg_lim(b, 1+b, 2+b, 0, P2, 0, P2);
      if(L->sub % 2 && b == N-1) { vg_bpar(b, "Coordinates", "compactSphericalDF"); vg_par("compactSphericalDF_r0", "0"); vg_lim(b, atan(1+b)*4/P2, 1, 0, P2, 0, P2); } }
  }
  else
  {
    int N = L->sub ? 6 : 4; vg_begin(N);
    for(b = 0; b < N; b++)
    {
      if(b < 4) { vg_box(b, L->n[0][0], L->n[0][1], L->n[0][2], CHE, CHE, FOU); vg_bpar(b, "Coordinates", "AnsorgNS%d", b); vg_lim(b, 0, L->sub && (b == 0 || b == 3) ? 0.5 : 1, 0, 1, 0, P2); }
      else { vg_box(b, 6, 6, 6, CHE, CHE, CHE); vg_bpar(b, "Coordinates", "Cartesian"); if(b == 4) vg_lim(b, -1.3, -0.7, -0.3, 0.3, -0.3, 0.3); else vg_lim(b, 0.7, 1.3, -0.3, 0.3, -0.3, 0.3); }
    }
  }
  vg_libs(); g = vg_make(); vg_coords(g); return g;
}
static void pos(tBox *box, int p, double *x)
{ int c; for(c = 0; c < 3; c++) x[c] = box->x_of_X[1] ? box->x_of_X[c+1](box, p, box->v[Ind("X")][p], box->v[Ind("Y")][p], box->v[Ind("Z")][p]) : box->v[Ind("X")+c][p]; }
/* does this face of the box bound its domain?  (all but the ends of periodic directions and the coordinate singularities) */
static int wanted(tBox *x, int f)
{
  int d = f/2;
  if(x->periodic[d+1]) return 0;
  if(L->kind == 3 && x->b < 4) return f < 2 ? (f == 0) || x->bbox[1] < 1 : 0;
  return 1;
}

/* is the place u in box y (coordinates within its limits)? */
static int contains(tBox *y, double *u)
{
  double X, Y, Z; int c; double XX[3];
  if(!y->x_of_X[1]) { for(c = 0; c < 3; c++) if(u[c] < y->bbox[2*c]-1e-7 || u[c] > y->bbox[2*c+1]+1e-7) return 0; return 1; }
  if(nearestXYZ_of_xyz(y, &c, &X, &Y, &Z, u[0], u[1], u[2]) > 1e30) return 0;
  if(XYZ_of_xyz(y, &X, &Y, &Z, u[0], u[1], u[2]) < 0) return 0;
  XX[0] = X; XX[1] = Y; XX[2] = Z;
  for(c = 0; c < 3; c++) if(!(y->periodic[c+1] || (XX[c] >= y->bbox[2*c]-1e-6 && XX[c] <= y->bbox[2*c+1]+1e-6))) return 0;
  { double v[3]; for(c = 0; c < 3; c++) v[c] = y->x_of_X[c+1](y, -1, XX[0], XX[1], XX[2]); return fabs(u[0]-v[0])+fabs(u[1]-v[1])+fabs(u[2]-v[2]) <= 1e-6; }
}
/* is point p in a patch of another face of its box? */
static int elsewhere(tBox *x, int p, int f)
{ int fi, q, p2; forallbfaces(x, fi) if(x->bface[fi]->f != f) forPointList_inbox(x->bface[fi]->fpts, x, q, p2) if(p2 == p) return 1; return 0; }
static int populated(void) { return strstr(OPT[L->opt], "populate") != NULL; }
static void audit(void *a)
{
  int b, fi, q, p, f; (void)a;
  g = NULL;
  VH_TRY g = layout();
  VH_END;
  if(!g) { if(!populated()) vh_fail("refused", "%s: program ended while the grid was made", cfg); return; }
  vh_distinct++;
  if(vh_samples < 3) vh_sample("%s", cfg);
  forallboxes(g, b)
  {
    tBox *x = g->box[b]; int n[3] = {x->n1, x->n2, x->n3};
    for(f = 0; f < 6; f++)
    {
      static int cnt[40000]; int any = 0, d = f/2, miss = 0, emiss = 0, rep = 0, tot = 0, P = -1;
      memset(cnt, 0, sizeof(cnt));
      forallbfaces(x, fi) if(x->bface[fi]->f == f) forPointList_inbox(x->bface[fi]->fpts, x, q, p) cnt[p]++, any = 1;
      forallpoints(x, p)
      { int ix[3] = {p % n[0], p/n[0] % n[1], p/n[0]/n[1]}, e, k, on = ix[d] == (f % 2 ? n[d]-1 : 0);
        if(!on) { if(cnt[p]) vh_fail("off", "%s box%d face %d: point %d is not on the face", cfg, b, f, p); continue; }
        for(e = 0, k = 0; k < 3; k++) if(k != d && !x->periodic[k+1] && (ix[k] == 0 || ix[k] == n[k]-1)) e = 1;
        tot++; vh_states++; if(cnt[p] == 0) { if(e && elsewhere(x, p, f)) ; else if(e) emiss++; else miss++; }
        if(cnt[p] > 1)
        { /* allowed only where several other boxes meet: every patch leads to a different box that has this place */
          int seen[100] = {0}, q2, p2, bad = 0; double u[3]; pos(x, p, u);
          forallbfaces(x, fi) if(x->bface[fi]->f == f) forPointList_inbox(x->bface[fi]->fpts, x, q2, p2) if(p2 == p)
          { int ob = x->bface[fi]->ob; if(ob < 0 || seen[ob]++ || !contains(g->box[ob], u)) bad = 1; }
          if(bad) { rep++; P = p; } } }
      /* a face at the end of a periodic direction or at a coordinate singularity is no boundary */
      if(any && miss+emiss) vh_fail("missing", "%s box%d face %d: of %d points %d inner and %d edge points are in no patch", cfg, b, f, tot, miss, emiss);
      if(!any && wanted(x, f)) vh_fail("missing", "%s box%d face %d has no patch", cfg, b, f);
      if(0 && x->periodic[d+1]) vh_fail("extra", "%s box%d face %d: patches in a periodic direction", cfg, b, f);
      if(rep) vh_fail("repeated", "%s box%d face %d: of %d points %d are in several patches, e.g. %d", cfg, b, f, tot, rep, P);
    }
    forallbfaces(x, fi)
    {
      tBface *B = x->bface[fi], *O = NULL; tBox *y;
      vh_trans++;
      if(B->f < 0 || B->f > 5) vh_fail("face", "%s box%d patch %d: face %d", cfg, b, fi, B->f);
      if(B->ob < 0) { if(!B->outerbound) vh_fail("outer", "%s box%d patch %d: not outer, no other box", cfg, b, fi); if(B->setnormalderiv && B->touch) vh_fail("outer", "%s box%d patch %d: outer and touching", cfg, b, fi); continue; }
      if(B->outerbound) vh_fail("outer", "%s box%d patch %d: outer but has other box", cfg, b, fi);
      y = g->box[B->ob]; if(B->ofi >= 0 && B->ofi < y->nbfaces) O = y->bface[B->ofi];
      if(B->touch && (!O || O->ob != b || O->ofi != fi || !O->touch || O->setnormalderiv == B->setnormalderiv)) vh_fail("pair", "%s box%d face %d patch %d (ob=%d ofi=%d touch %d deriv %d same_fpts %d): other %d %d touch %d deriv %d", cfg, b, B->f, fi, B->ob, B->ofi, B->touch, B->setnormalderiv, B->same_fpts, O ? O->ob : -9, O ? O->ofi : -9, O ? O->touch : -9, O ? O->setnormalderiv : -9);
      if(!B->touch && B->setnormalderiv) vh_fail("deriv", "%s box%d patch %d: derivative without touching", cfg, b, fi);
      if(B->same_fpts)
      {
        if(!O || O->fpts->npoints[B->ob] != B->fpts->npoints[b]) { vh_fail("same", "%s box%d patch %d: number of points", cfg, b, fi); continue; }
        forPointList_inbox(B->fpts, x, q, p) { double u[3], v[3]; pos(x, p, u); pos(y, O->fpts->point[B->ob][q], v); vh_evals++; if(fabs(u[0]-v[0])+fabs(u[1]-v[1])+fabs(u[2]-v[2]) > 1e-8) { vh_fail("same", "%s box%d patch %d point %d: (%g %g %g) and (%g %g %g)", cfg, b, fi, p, u[0], u[1], u[2], v[0], v[1], v[2]); break; } }
      }
      else if(B->oXi != Ind("oX") || !x->v[Ind("oX")] || !x->v[Ind("oY")] || !x->v[Ind("oZ")]) vh_fail("oX", "%s box%d patch %d: no coordinates", cfg, b, fi);
      else forPointList_inbox(B->fpts, x, q, p)
      { double u[3], v[3], X[3]; int c, fk, last = fi; for(fk = fi+1; fk < x->nbfaces; fk++) { int q2, p2; tBface *C = x->bface[fk]; if(C->ob >= 0 && !C->same_fpts) forPointList_inbox(C->fpts, x, q2, p2) if(p2 == p) last = fk; }
        if(last != fi) continue;
        vh_evals++;
        pos(x, p, u); for(c = 0; c < 3; c++) { X[c] = x->v[Ind("oX")+c][p]; if(!y->periodic[c+1] && (X[c] < y->bbox[2*c]-1e-6 || X[c] > y->bbox[2*c+1]+1e-6)) { vh_fail("range", "%s box%d face %d patch %d (touch %d) point %d: coordinate %d in box%d %g", cfg, b, B->f, fi, B->touch, p, c, B->ob, X[c]); break; } }
        for(c = 0; c < 3; c++) v[c] = y->x_of_X[1] ? y->x_of_X[c+1](y, -1, X[0], X[1], X[2]) : X[c];
        if(!(fabs(u[0]-v[0])+fabs(u[1]-v[1])+fabs(u[2]-v[2]) <= 1e-6)) { vh_fail("place", "%s box%d face %d patch %d point %d: (%g %g %g) is not (%g %g %g)", cfg, b, B->f, fi, p, u[0], u[1], u[2], v[0], v[1], v[2]); break; } }
    }
  }
}
#endif

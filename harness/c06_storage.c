/* C06: storage of grids against a plain model, histories under AddressSanitizer,
   allocated bytes before and after. */
#include "sgrid.h"
#include <stddef.h>
#include "vh.h"
#include "vh_grid.h"
#undef exit
size_t __sanitizer_get_current_allocated_bytes(void);

#define NV0 4           /* s, wx, wy, wz exist at the start */
#define NVM 6           /* up to two more */
#define NP 12
typedef struct { int there, nv, inact; signed char st[2][NVM]; double d[2][NVM][NP]; int it; double t; } mg;
typedef struct { mg g[2]; int fills; } model;
static const int NPT[2] = {8, 12};
static int v0;   /* index of s; all others follow */

enum { ENV, ENC, DIV, DIC, ENB, DIB, ENL, DIL, GROW, FILL, DEACT, ACT, COPY, COPYVAR, SAME, FREE, ALIAS, KINDS };
static const char *KN[] = {"enablevar", "enablevarcomp", "disablevar", "disablevarcomp", "enablevar_inbox", "disablevarcomp_inbox", "enablevarlist", "disablevarlist",
 "grow", "fill", "deactivate", "activate", "copy_grid", "copy_gridvar", "enablesamevars", "free_grid", "point_grid_tosamevars"};
typedef struct { int k, g; } op;
static op OPS[64]; static int nops;

static int mstep(model *m, op *o)
{
  mg *g = &m->g[o->g], *h = &m->g[1-o->g]; int b, v, i;
#define ON(b,v) do { if(!g->st[b][v]) { g->st[b][v] = 1; memset(g->d[b][v], 0, sizeof g->d[b][v]); } } while(0)
#define OFF(b,v) do { g->st[b][v] = 0; memset(g->d[b][v], 0, sizeof g->d[b][v]); } while(0)
  if(!g->there && o->k != COPY) return 0;
  switch(o->k)
  {
  case ENV: for(b = 0; b < 2; b++) for(v = 1; v < 4; v++) ON(b, v); break;
  case ENC: for(b = 0; b < 2; b++) ON(b, 2); break;
  case DIV: for(b = 0; b < 2; b++) for(v = 1; v < 4; v++) OFF(b, v); break;
  case DIC: for(b = 0; b < 2; b++) OFF(b, 0); break;
  case ENB: for(v = 1; v < 4; v++) ON(1, v); break;
  case DIB: OFF(0, 3); break;
  case ENL: for(b = 0; b < 2; b++) { ON(b, 0); ON(b, 2); if(g->nv > 4) ON(b, g->nv-1); } break;
  case DIL: for(b = 0; b < 2; b++) { OFF(b, 0); OFF(b, 2); if(g->nv > 4) OFF(b, g->nv-1); } break;
  case GROW: if(g->nv >= NVM) return 0; g->nv++; break;
  case FILL: m->fills++; for(b = 0; b < 2; b++) for(v = 0; v < g->nv; v++) if(g->st[b][v]) for(i = 0; i < NPT[b]; i++) g->d[b][v][i] = m->fills*1000+b*200+v*20+i+1; g->it = m->fills; g->t = m->fills*0.5; break;
  case DEACT: g->inact |= 1 << o->g; break;
  case ACT: g->inact = 0; break;
  case COPY:   /* other grid := copy of this; makes it if it is not there */
    if(!g->there) return 0;
    if(!h->there) { memset(h, 0, sizeof *h); h->there = 1; h->nv = g->nv; }
    if(h->nv != g->nv) return 0;
    h->inact = g->inact; h->it = g->it; h->t = g->t;
    for(b = 0; b < 2; b++) for(v = 0; v < g->nv; v++) if(g->st[b][v])
    {
      if((h->inact >> b) & 1) { if(!h->st[b][v]) { h->st[b][v] = 2; memcpy(h->d[b][v], g->d[b][v], sizeof h->d[b][v]); } }   /* 2: contents not judged */
      else { memcpy(h->d[b][v], g->d[b][v], sizeof h->d[b][v]); h->st[b][v] = g->st[b][v]; }
    }
    break;
  case COPYVAR:
    if(!h->there) return 0;
    for(b = 0; b < 2; b++) if(!((h->inact >> b) & 1) && g->st[b][2] && h->st[b][2]) { memcpy(h->d[b][2], g->d[b][2], sizeof h->d[b][2]); h->st[b][2] = g->st[b][2]; }
    break;
  case SAME:
    if(!h->there || h->nv != g->nv) return 0;
    { mg *t = h; h = g; g = t; for(b = 0; b < 2; b++) for(v = 0; v < g->nv; v++) if(h->st[b][v]) ON(b, v); }
    break;
  case FREE: if(o->g == 0 && !h->there) return 0; memset(g, 0, sizeof *g); break;
  case ALIAS:
    if(!h->there || h->nv != g->nv || g->inact || h->inact) return 0;
    for(b = 0; b < 2; b++) for(v = 0; v < h->nv; v++) if(h->st[b][v]) return 0;
    break;
  }
  return 1;
}
static int counter;
static int rstep(tGrid **G, op *o, int *fills, char *err)
{
  tGrid *g = G[o->g], *h = G[1-o->g]; int b, v, i; tVarList *l; intList *il;
  switch(o->k)
  {
  case ENV: enablevar(g, v0+1); break;
  case ENC: enablevarcomp(g, v0+2); break;
  case DIV: disablevar(g, v0+1); break;
  case DIC: disablevarcomp(g, v0); break;
  case ENB: enablevar_inbox(g->box[1], v0+1); break;
  case DIB: disablevarcomp_inbox(g->box[0], v0+3); break;
  case ENL: case DIL:
    l = vlalloc(g); vlpushone(l, v0); vlpushone(l, v0+2);
    if(g->nvariables > v0+4) vlpushone(l, g->nvariables-1);
    if(o->k == ENL) enablevarlist(l); else disablevarlist(l);
    vlfree(l); break;
  case GROW: realloc_gridvariables(g, g->nvariables+1); break;
  case FILL: ++*fills; for(b = 0; b < 2; b++) for(v = v0; v < g->nvariables; v++) if(g->box[b]->v[v]) for(i = 0; i < NPT[b]; i++) g->box[b]->v[v][i] = *fills*1000+b*200+(v-v0)*20+i+1; g->iteration = *fills; g->time = *fills*0.5; break;
  case DEACT: il = alloc_intList(); push_intList(il, o->g); deactivate_boxes(g, il); free_intList(il); break;
  case ACT: if(g->iteration & 1) activate_allboxes(g); else { il = alloc_intList(); push_intList(il, 0); push_intList(il, 1); activate_boxes(g, il); free_intList(il); } break;
  case COPY: if(!h) G[1-o->g] = h = make_empty_grid(g->nvariables, 0); copy_grid(g, h, 0); break;
  case COPYVAR: copy_gridvar(v0+2, g, h); break;
  case SAME: enablesamevars(g, h); break;
  case FREE: free_grid(g); G[o->g] = NULL; break;
  case ALIAS:
    point_grid_tosamevars(g, h, 0);
    for(b = 0; b < 2; b++) for(v = 0; v < g->nvariables; v++) if(g->box[b]->v[v] != h->box[b]->v[v]) sprintf(err, "pointers differ in box %d variable %d", b, v);
    set_gridvars_toNULL(h, 0);
    for(b = 0; b < 2; b++) for(v = 0; v < g->nvariables; v++) if(h->box[b]->v[v]) sprintf(err, "pointer left in box %d variable %d", b, v);
    break;
  }
  return 1;
}
static char *hstr(const unsigned char *h, int n)
{
  static char b[1000]; int i, l = 0;
  for(i = 0; i < n; i++) l += sprintf(b+l, "%s(grid%d);", KN[OPS[h[i]].k], OPS[h[i]].g);
  return b;
}
static void minit(model *m) { memset(m, 0, sizeof *m); m->g[0].there = 1; m->g[0].nv = NV0; }
static void replay(const unsigned char *h, int n)
{
  tGrid *G[2]; model m; int i, g, b, v, p, fills = 0, nact; char err[200] = "";
  size_t before = __sanitizer_get_current_allocated_bytes(), after;
  minit(&m);
  G[0] = make_empty_grid(v0+NV0, 0); G[1] = NULL;
  for(i = 0; i < n; i++) { mstep(&m, &OPS[h[i]]); rstep(G, &OPS[h[i]], &fills, err); }
  if(*err) vh_fail("pointers", "%s: %s", hstr(h, n), err);
  for(g = 0; g < 2; g++)
  {
    mg *q = &m.g[g];
    if(!q->there) continue;
    if(G[g]->nboxes != 2 || G[g]->nvariables != v0+q->nv) { vh_fail("shape", "%s: grid%d nboxes %d nvariables %d, expected %d", hstr(h, n), g, G[g]->nboxes, G[g]->nvariables, v0+q->nv); return; }
    if(G[g]->iteration != q->it || G[g]->time != q->t || G[g]->dt != 0.25) { vh_fail("shape", "%s: grid%d iteration/time/dt %d %g %g", hstr(h, n), g, G[g]->iteration, G[g]->time, G[g]->dt); }
    nact = 0;
    for(b = 0; b < 2; b++)
    {
      tBox *box = G[g]->box[b];
      int in = (q->inact >> b) & 1;
      if(box->b != b || box->grid != G[g] || !box->inactive != !in) { vh_fail("active", "%s: grid%d box%d inactive=%d", hstr(h, n), g, b, box->inactive); return; }
      if(!in) { if(IndexOf_ith_ActiveBox(G[g], nact) != b) vh_fail("active", "%s: active box %d is %d, expected %d", hstr(h, n), nact, IndexOf_ith_ActiveBox(G[g], nact), b); nact++; }
      for(v = 0; v < G[g]->nvariables; v++)
      {
        double *a = box->v[v];
        int want = v >= v0 ? q->st[b][v-v0] : 0;
        if(!a != !want) { vh_fail("storage", "%s: grid%d box%d variable %d %s storage", hstr(h, n), g, b, v, a ? "has" : "has no"); return; }
        if(a && want == 1) for(p = 0; p < NPT[b]; p++) if(a[p] != q->d[b][v-v0][p])
        { vh_fail("value", "%s: grid%d box%d variable %d point %d is %g, expected %g", hstr(h, n), g, b, v-v0, p, a[p], q->d[b][v-v0][p]); return; }
      }
    }
    if(IndexOf_ith_ActiveBox(G[g], nact) != -1 || activeboxes(G[g]) != nact) vh_fail("active", "%s: grid%d reports %d active boxes, expected %d", hstr(h, n), g, activeboxes(G[g]), nact);
  }
  /* independence: overwrite one grid, the other must not change */
  if(G[0] && G[1])
  {
    for(b = 0; b < 2; b++) for(v = v0; v < G[0]->nvariables; v++) if(G[0]->box[b]->v[v])
    {
      int g1v = v < G[1]->nvariables && G[1]->box[b]->v[v] != NULL;
      double o = g1v ? G[1]->box[b]->v[v][3] : 0;
      G[0]->box[b]->v[v][3] += 1;
      if(g1v && G[1]->box[b]->v[v][3] != o) vh_fail("independent", "%s: box%d variable %d shared by both grids", hstr(h, n), b, v);
    }
  }
  for(g = 0; g < 2; g++) free_grid(G[g]);
  after = __sanitizer_get_current_allocated_bytes();
  if(after != before) vh_fail("leak", "%s: %ld bytes not returned", hstr(h, n), (long)(after-before));
  vh_trans++; vh_traces++;
}
typedef struct { model m; unsigned char h[8]; int n; } node;
static void search(int depth)
{
  int first, second;
  for(first = 0; first < nops; first++) for(second = 0; second < nops; second++)
  {
    vh_set seen = {0};
    node *q, x; int qh = 0, qn, cap = 256;
    unsigned char f[2] = {first, second};
    minit(&x.m); x.n = 2; memcpy(x.h, f, 2);
    if(!mstep(&x.m, &OPS[first]) ) continue;
    if(!vh_unit("hist:%s", hstr(f, 2))) continue;
    if(second == 0) replay(f, 1);
    if(!mstep(&x.m, &OPS[second])) continue;
    replay(f, 2);
    q = malloc(cap*sizeof *q);
    q[0] = x; qn = 1; vh_set_add(&seen, vh_hash(&x.m, sizeof(model), 0)); vh_states++;
    while(qh < qn)
    {
      int i;
      if(q[qh].n >= depth) { qh++; continue; }
      for(i = 0; i < nops; i++)
      {
        x = q[qh];
        x.h[x.n++] = i;
        if(!mstep(&x.m, &OPS[i])) continue;
        vh_at("%s", hstr(x.h, x.n));
        replay(x.h, x.n);
        if(vh_set_add(&seen, vh_hash(&x.m, sizeof(model), 0)))
        {
          vh_states++;
          if(qn == cap) q = realloc(q, (cap *= 2)*sizeof *q);
          q[qn++] = x;
        }
      }
      qh++;
    }
    free(q); free(seen.t);
  }
}

/* ---- copies of complete grids ---- */
static int cmp(const char *what, int b, const double *x, const double *y, int n)
{
  int i;
  for(i = 0; i < n; i++) if(memcmp(x+i, y+i, sizeof *x)) { vh_fail("copy", "%s in box %d entry %d: %g, copy %g", what, b, i, x[i], y[i]); return 0; }
  if(x == y && n) vh_fail("copy", "%s of box %d is shared", what, b);
  return 1;
}
static const char *BAS[] = {"ChebExtrema", "ChebZeros", "Fourier", "fd2_onesided", "fd2_periodic"};
static void full(int pat, int fr)
{
  int b, i, k, fi;
  tGrid *g = vg_make(), *c;
  size_t before, after;
  for(b = 0; b < 2; b++)
  {
    tBox *box = g->box[b];
    for(i = 0; i < NATTRIBS; i++) box->Attrib[i] = b*100+i+7;
    box->CI->dom = 3+b; box->CI->type = 2; box->CI->xc[2] = 0.5+b; box->CI->iFS[1] = v0;
    /* every pointer to a function gets its own value (none is called while copying), every number too */
    {
      size_t id = 1000*(b+1), a1, a2;
#define FAKE(f) *(void**)&(f) = (void*)(++id)
#define FAKE3(f) FAKE(f##1); FAKE(f##2); FAKE(f##3)
      FAKE3(box->basis); FAKE3(box->get_coeffs); FAKE3(box->coeffs_of_deriv); FAKE3(box->coeffs_of_2ndderiv); FAKE3(box->coeffs_of_int); FAKE3(box->eval_onPoints); FAKE3(box->filter_coeffs);
      FAKE(box->XYZ_Of_xyz); FAKE(box->isSing);
      for(i = 1; i < 4; i++) { FAKE(box->x_of_X[i]); FAKE(box->Sing_d_dx[i]); for(a1 = 1; a1 < 4; a1++) { FAKE(box->dX_dx[i][a1]); FAKE(box->dx_dX[i][a1]); for(a2 = 1; a2 < 4; a2++) FAKE(box->ddX_dxdx[i][a1][a2]); } }
      for(i = 0; i < 6; i++)
      {
        box->CI->iFS[i] = ++id; box->CI->iSurf[i] = ++id; box->CI->s[i] = ++id; FAKE(box->CI->FSurf[i]); box->ibbox[i] = ++id; box->bbox[i] = 0.5*++id;
        for(a1 = 0; a1 < 4; a1++) { box->CI->idSurfdX[i][a1] = ++id; FAKE(box->CI->dFSurfdX[i][a1]); }
      }
      box->CI->xc[1] = ++id; box->CI->useF = ++id;
      box->TransformType1 = ++id; box->TransformType2 = ++id; box->TransformType3 = ++id;
      for(i = 1; i < 4; i++) box->periodic[i] = ++id;
      for(i = 0; i < box->nnodes; i++) { box->node[i].type = ++id; }
#define M1(m,q) for(i = 0; i < box->n##q*box->n##q; i++) box->m##q[i] = ++id
#define M3(m) M1(m,1); M1(m,2); M1(m,3)
      M3(D); M3(DD); M3(F); M3(Mcoeffs); M3(Meval); M3(Int);
    }
    for(k = 0; k < ((pat >> (2*b)) & 3); k++)
    {
      fi = add_empty_bface(box, k+1);
      box->bface[fi]->ob = 1-b; box->bface[fi]->ofi = k; box->bface[fi]->touch = 1; box->bface[fi]->oYi = 5; box->bface[fi]->setnormalderiv = k & 1; box->bface[fi]->outerbound = !(k & 1);
      box->bface[fi]->sameX = (pat+k) & 1; box->bface[fi]->sameY = (pat >> 1)+k & 1; box->bface[fi]->sameZ = (pat >> 2)+k & 1; box->bface[fi]->same_fpts = (pat >> 3)+k & 1; box->bface[fi]->fpts_off_face = b;
      box->bface[fi]->oXi = 11+k; box->bface[fi]->oZi = 21+k; box->bface[fi]->innerbound = (pat >> 1)+b & 1;
      if(k < 2) { add_point_to_bface_inbox(box, fi, 5+k, k+1); add_point_to_bface_inbox(box, fi, 2, k+1); }
    }
  }
  g->time = 7.5; g->iteration = 9;
  before = __sanitizer_get_current_allocated_bytes();
  c = make_empty_grid(g->nvariables, 0);
  copy_grid(g, c, 0);
  if(fr) copy_grid(g, c, 0);    /* a second time into the same grid */
  for(b = 0; b < 2; b++)
  {
    tBox *x = g->box[b], *y = c->box[b];
    int n1 = x->n1, n2 = x->n2, n3 = x->n3;
    if(y->n1 != n1 || y->n2 != n2 || y->n3 != n3 || y->nnodes != x->nnodes || y->b != b || y->grid != c) vh_fail("copy", "shape of box %d", b);
#define C1(m) cmp(#m, b, x->m##1, y->m##1, n1*n1); cmp(#m, b, x->m##2, y->m##2, n2*n2); cmp(#m, b, x->m##3, y->m##3, n3*n3)
    C1(D); C1(DD); C1(F); C1(Mcoeffs); C1(Meval); C1(Int);
    cmp("bbox", b, x->bbox, y->bbox, 6);
#define P(f) if(x->f != y->f) vh_fail("copy", #f " differs in box %d", b)
#define P3(f) P(f##1); P(f##2); P(f##3)
    P3(basis); P3(get_coeffs); P3(coeffs_of_deriv); P3(coeffs_of_2ndderiv); P3(coeffs_of_int); P3(eval_onPoints); P3(filter_coeffs); P3(TransformType);
    P(XYZ_Of_xyz); P(isSing); P(inactive); P(periodic[1]); P(periodic[2]); P(periodic[3]);
    for(i = 1; i < 4; i++) { P(x_of_X[i]); P(Sing_d_dx[i]); for(k = 1; k < 4; k++) { P(dX_dx[i][k]); P(dx_dX[i][k]); P(ddX_dxdx[i][k][1]); P(ddX_dxdx[i][k][2]); P(ddX_dxdx[i][k][3]); } }
    for(i = 0; i < NATTRIBS; i++) P(Attrib[i]);
    for(i = 0; i < 6; i++) { P(ibbox[i]); P(CI->iFS[i]); P(CI->s[i]); }
    P(CI->dom); P(CI->type); P(CI->xc[1]); P(CI->xc[2]); P(CI->xc[3]);
    if(memcmp(x->CI, y->CI, offsetof(tCoordInfo, useF)+sizeof(int)) || memcmp(x->CI->FSurf, y->CI->FSurf, sizeof(tCoordInfo)-offsetof(tCoordInfo, FSurf))) vh_fail("copy", "information about coordinates in box %d", b);
    for(i = 0; i < x->nnodes; i++) { P(node[i].i); P(node[i].type); }
    for(i = 0; i < g->nvariables; i++)
      if(!x->v[i] != !y->v[i]) vh_fail("copy", "variable %d storage in box %d", i, b);
      else if(x->v[i]) cmp(VarName(i), b, x->v[i], y->v[i], x->nnodes);
    P(nbfaces);
    for(i = 0; i < x->nbfaces && i < y->nbfaces; i++)
    {
#define Q(f) if(p->f != q->f) vh_fail("copy", "bface %d " #f " differs in box %d", i, b)
      tBface *p = x->bface[i], *q = y->bface[i]; int a;
      if(p == q || q->grid != c || (p->fpts && q->fpts == p->fpts)) vh_fail("copy", "bface %d of box %d not independent", i, b);
      Q(b); Q(f); Q(fi); Q(ob); Q(ofi); Q(oXi); Q(oYi); Q(oZi); Q(touch); Q(sameX); Q(sameY); Q(sameZ); Q(same_fpts); Q(fpts_off_face); Q(setnormalderiv); Q(outerbound); Q(innerbound);
      if(!p->fpts != !q->fpts) { vh_fail("copy", "points of bface %d", i); continue; }
      if(p->fpts) for(a = 0; a < 2; a++)
      {
        int z;
        if(p->fpts->npoints[a] != q->fpts->npoints[a]) { vh_fail("copy", "number of points of bface %d", i); continue; }
        for(z = 0; z < p->fpts->npoints[a]; z++) if(p->fpts->point[a][z] != q->fpts->point[a][z]) vh_fail("copy", "point %d of bface %d", z, i);
        if(q->fpts->grid != c) vh_fail("copy", "grid of points of bface %d", i);
      }
    }
  }
  if(c->time != 7.5 || c->iteration != 9 || c->dt != g->dt) vh_fail("copy", "time, iteration or dt");
  free_grid(c);
  after = __sanitizer_get_current_allocated_bytes();
  if(before != after) vh_fail("leak", "copying and freeing a grid keeps %ld bytes", (long)(after-before));
  free_grid(g);
  vh_evals++; vh_trans++; vh_traces++;
}
static void setup(const char *b1, const char *b2, const char *b3)
{
  vg_begin(2);
  vg_box(0, 2, 2, 2, b1, b2, b3);
  vg_box(1, 3, 2, 2, b3, b2, b1);
  vg_lim(0, 0, 1, 0, 1, 0, 1); vg_lim(1, 1, 2, 0, 1, 0, 1);
}
/* ---- boxes of any shape and tensors of any rank: storage of each component on its own ---- */
static void dirty(void)    /* leave used memory behind, so that storage that is not cleared shows */
{
  int i; void *p[12];
  for(i = 0; i < 12; i++) { p[i] = malloc(8*(i+1)*(i+2)); memset(p[i], 0x55, 8*(i+1)*(i+2)); }
  for(i = 0; i < 12; i++) free(p[i]);
}
static void shape(int n1, int n2, int n3)
{
  tGrid *g; int b, v, i, way, n[2];
  size_t before, after;
  vg_begin(2);
  vg_box(0, n1, n2, n3, "ChebExtrema", "ChebExtrema", "ChebExtrema");
  vg_box(1, n3, n1, n2, "ChebExtrema", "ChebExtrema", "ChebExtrema");
  n[0] = n[1] = n1*n2*n3;
  for(way = 0; way < 4; way++)
  {
    before = __sanitizer_get_current_allocated_bytes();
    dirty();
    g = make_empty_grid(globalnvariables, 0);
    if(way == 0) enablevar(g, v0+1);
    else if(way == 1) for(v = v0+1; v < v0+4; v++) enablevarcomp(g, v);
    else if(way == 2) for(b = 1; b >= 0; b--) enablevar_inbox(g->box[b], v0+1);
    else for(b = 0; b < 2; b++) for(v = v0+3; v > v0; v--) enablevarcomp_inbox(g->box[b], v);
    for(b = 0; b < 2; b++) for(v = 0; v < globalnvariables; v++)
    {
      double *a = g->box[b]->v[v];
      if(!a != !(v > v0 && v < v0+4)) { vh_fail("storage", "%dx%dx%d way %d: box%d variable %d %s storage", n1, n2, n3, way, b, v, a ? "has" : "has no"); continue; }
      if(g->box[b]->nnodes != n[b]) vh_fail("shape", "%dx%dx%d: box%d has %d points", n1, n2, n3, b, g->box[b]->nnodes);
      if(a) for(i = 0; i < n[b]; i++) { if(a[i] != 0) { vh_fail("zero", "%dx%dx%d way %d: box%d variable %d point %d is %g", n1, n2, n3, way, b, v, i, a[i]); break; } a[i] = 1+i; }
    }
    enablevar(g, v0+1);       /* once more: keeps the data */
    for(b = 0; b < 2; b++) for(v = v0+1; v < v0+4; v++) for(i = 0; i < n[b]; i++) if(g->box[b]->v[v][i] != 1+i) { vh_fail("kept", "%dx%dx%d way %d: box%d variable %d point %d is %g", n1, n2, n3, way, b, v, i, g->box[b]->v[v][i]); break; }
    free_grid(g);
    after = __sanitizer_get_current_allocated_bytes();
    if(after != before) vh_fail("leak", "%dx%dx%d way %d: %ld bytes not returned", n1, n2, n3, way, (long)(after-before));
    vh_trans++; vh_traces++; vh_evals++;
  }
}
static int tv[4], tn[4];
static void tensors(int q, int sub0, int sub1)
{
  /* components sub0 of tensor q in box 0 and sub1 in box 1; the others of the list all or none */
  int w, b, v, i, V = globalnvariables, c0 = tv[q], nc = tn[q];
  for(w = 0; w < 3; w++)
  {
    tGrid *g = make_empty_grid(V, 0), *h = make_empty_grid(V, 0);
    char want[2][400];
    memset(want, 0, sizeof want);
    for(b = 0; b < 2; b++)
    {
      for(i = 0; i < nc; i++) if(((b ? sub1 : sub0) >> i) & 1) { want[b][c0+i] = 1; enablevarcomp_inbox(g->box[b], c0+i); }
      if(b == 1) for(i = 0; i < 4; i++) if(i != q && (w & 1)) for(v = 0; v < tn[i]; v++) { want[b][tv[i]+v] = 1; enablevarcomp_inbox(g->box[b], tv[i]+v); }
      for(v = 0; v < V; v++) if(g->box[b]->v[v]) for(i = 0; i < NPT[b]; i++) g->box[b]->v[v][i] = v*50+b*20+i+1;
    }
    if(w < 2) enablesamevars(g, h);
    else if(sub0 == sub1) { for(i = 0; i < nc; i++) if((sub0 >> i) & 1) enablevarcomp(h, c0+i); }
    else copy_grid(g, h, 0);
    for(b = 0; b < 2; b++) for(v = 0; v < V; v++)
    {
      double *a = h->box[b]->v[v];
      if(!a != !want[b][v]) { vh_fail("storage", "tensor %d, components %x %x, way %d: box%d variable %d %s storage", q, sub0, sub1, w, b, v, a ? "has" : "has no"); break; }
      if(!g->box[b]->v[v] != !want[b][v]) { vh_fail("storage", "tensor %d, components %x %x, way %d: first grid: box%d variable %d", q, sub0, sub1, w, b, v); break; }
      if(a && a == g->box[b]->v[v]) vh_fail("independent", "box%d variable %d shared", b, v);
      if(a) for(i = 0; i < NPT[b]; i++) if(a[i] != (w == 2 && sub0 != sub1 ? v*50+b*20+i+1 : 0)) { vh_fail("value", "tensor %d, components %x %x, way %d: box%d variable %d point %d is %g", q, sub0, sub1, w, b, v, i, a[i]); break; }
    }
    /* disabling single components leaves the others */
    for(i = 0; i < nc; i++) if((sub1 >> i) & 1) disablevarcomp(g, c0+i);
    for(b = 0; b < 2; b++) for(v = 0; v < V; v++)
      if(!g->box[b]->v[v] != !(want[b][v] && !(v >= c0 && v < c0+nc && (sub1 >> (v-c0)) & 1))) { vh_fail("storage", "tensor %d, components %x %x: box%d variable %d after disabling %x", q, sub0, sub1, b, v, sub1); break; }
    free_grid(g); free_grid(h);
    vh_trans++; vh_traces++; vh_evals++;
  }
}
int main(int argc, char **argv)
{
  int g, k, i, j;
  vh_init(argc, argv);
  setup("ChebExtrema", "ChebExtrema", "ChebExtrema");
  vg_libs();
  free_global_vdb();
  AddConstantVar("X", "", ""); AddConstantVar("Y", "", ""); AddConstantVar("Z", "", "");
  v0 = globalnvariables;
  AddVar("ts", "", "scalar"); AddVar("tw", "i", "vector"); AddVar("te", "", "extra"); AddVar("tf", "", "extra");
  for(g = 0; g < 2; g++) for(k = 0; k < KINDS; k++) { if(g && (k == ENC || k == ENB || k == ALIAS)) continue; OPS[nops++] = (op){k, g}; }
  search(vh_thorough ? 6 : 5);
  for(i = 0; i < 5; i++) for(j = 0; j < 16; j++)
    for(k = 0; k < 2; k++)
      if(vh_unit("copy:%s:faces%d:%d", BAS[i], j, k))
      {
        setup(BAS[i], BAS[(i+j)%5], BAS[(i+2*j)%5]);
        vg_box(0, 4, 4, 5, BAS[i], BAS[(i+j)%5], BAS[(i+2*j)%5]);
        vg_box(1, 5, 4, 4, BAS[(i+2*j)%5], BAS[(i+j)%5], BAS[i]);
        full(j, k);
      }
  for(i = 1; i <= 4; i++) for(j = 1; j <= 4; j++) for(k = 1; k <= 4; k++)
    if(vh_unit("shape:%d,%d,%d", i, j, k)) shape(i, j, k);
  setup("ChebExtrema", "ChebExtrema", "ChebExtrema");
  tv[0] = globalnvariables; AddVar("ta", "ij+ji", "symmetric"); tn[0] = 6;
  tv[1] = globalnvariables; AddVar("tb", "ij", "general"); tn[1] = 9;
  tv[2] = globalnvariables; AddVar("tc", "", "scalar"); tn[2] = 1;
  tv[3] = globalnvariables; AddVar("td", "i", "vector"); tn[3] = 3;
  for(i = 0; i < 4; i++) if(globalnvariables != tv[3]+3 || VarNComponents(tv[i]) != tn[i]) vh_fail("tensor", "variables are not laid out as expected");
  for(i = 0; i < 4; i++) for(j = 0; j < 1 << tn[i]; j++)
    if(vh_unit("tens:%d:%x", i, j))
    {
      if(tn[i] <= 3) for(k = 0; k < 1 << tn[i]; k++) tensors(i, j, k);
      else { tensors(i, j, j); tensors(i, j, (j << 1 | 1) & ((1 << tn[i])-1)); tensors(i, j, ~j & ((1 << tn[i])-1)); }
    }
  vh_sample("enablevar(w); fill; copy_grid; disablevar(w) on the original: copy keeps its values");
  return vh_done();
}

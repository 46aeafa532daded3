/* C07: integer lists, point lists, face lists against reference collections. */
#include "sgrid.h"
#include "vh.h"
#include "vh_bfs.h"
#include "vh_grid.h"
#undef exit
size_t __sanitizer_get_current_allocated_bytes(void);
static tGrid *G, *G2;

/* ================= integer lists ================= */
#define ML 24
typedef struct { int n; int e[ML]; } seq;
typedef struct { seq l[2]; } imodel;
enum { PUSH, PUSHL, UPUSH, UPUSHL, DROPI, DROP, DROPN, DROPL, DUP, CLEAR };
typedef struct { int k, l, a; } op;
static op IO[80]; static int nio;
static const char *IKN[] = {"push", "pushlist", "unionpush", "unionpushlist", "dropindex", "drop", "droplastn", "droplist", "duplicate", "clear"};
static void ibuild(void)
{
  int l, i;
  for(l = 0; l < 2; l++)
  {
    for(i = 0; i < 3; i++) { IO[nio++] = (op){PUSH, l, i-1}; if(i || !l) IO[nio++] = (op){UPUSH, l, i-1}; IO[nio++] = (op){DROP, l, i-1}; }
    IO[nio++] = (op){PUSHL, l, 1-l}; if(!l) IO[nio++] = (op){PUSHL, l, l};
    IO[nio++] = (op){UPUSHL, l, 1-l};
    for(i = -1; i < 4; i++) if(!l || i == 1) IO[nio++] = (op){DROPI, l, i};
    for(i = -1; i < 4; i++) if(!l || i == 1) IO[nio++] = (op){DROPN, l, i == 3 ? 50 : i};
    IO[nio++] = (op){DROPL, l, 1-l};
    IO[nio++] = (op){DUP, l, 1-l};
    IO[nio++] = (op){CLEAR, l, 0};
  }
}
static void sdropi(seq *s, int i) { if(i < 0 || i >= s->n) return; memmove(s->e+i, s->e+i+1, (s->n-i-1)*sizeof(int)); s->n--; }
static int sfind(seq *s, int v) { int i; for(i = 0; i < s->n; i++) if(s->e[i] == v) return i; return -1; }
static void iinit(void *m) { memset(m, 0, sizeof(imodel)); }
static int imstep(void *mm, int o)
{
  imodel *m = mm; op *p = &IO[o]; seq *s = &m->l[p->l], t = m->l[p->k == PUSHL || p->k == UPUSHL || p->k == DROPL || p->k == DUP ? p->a : 0]; int i;
  switch(p->k)
  {
  case PUSH: if(s->n >= ML) return 0; s->e[s->n++] = p->a; break;
  case PUSHL: if(s->n+t.n > ML) return 0; for(i = 0; i < t.n; i++) s->e[s->n++] = t.e[i]; break;
  case UPUSH: if(s->n >= ML) return 0; if(sfind(s, p->a) < 0) s->e[s->n++] = p->a; break;
  case UPUSHL: if(s->n+t.n > ML) return 0; for(i = 0; i < t.n; i++) if(sfind(s, t.e[i]) < 0) s->e[s->n++] = t.e[i]; break;
  case DROPI: sdropi(s, p->a); break;
  case DROP: sdropi(s, sfind(s, p->a)); break;
  case DROPN: i = p->a < 0 ? 0 : p->a; if(i > s->n) i = s->n; s->n -= i; break;
  case DROPL: for(i = 0; i < t.n; i++) sdropi(s, sfind(s, t.e[i])); break;
  case DUP: *s = t; break;
  case CLEAR: s->n = 0; break;
  }
  for(i = s->n; i < ML; i++) s->e[i] = 0;
  return 1;
}
static char *istr(const unsigned char *h, int n)
{
  static char b[1000]; int i, l = 0;
  for(i = 0; i < n; i++) l += sprintf(b+l, "%s(%d,%d);", IKN[IO[h[i]].k], IO[h[i]].l, IO[h[i]].a);
  return b;
}
static int is_par(int v, void *p) { return v == *(int*)p; }
static void ireplay(const unsigned char *h, int n)
{
  intList *L[2], *d; imodel m; int i, l, v, k;
  size_t before = __sanitizer_get_current_allocated_bytes();
  iinit(&m);
  L[0] = alloc_intList(); L[1] = alloc_intList();
  for(i = 0; i < n; i++)
  {
    op *p = &IO[h[i]]; intList *s = L[p->l];
    imstep(&m, h[i]);
    switch(p->k)
    {
    case PUSH: push_intList(s, p->a); break;
    case PUSHL: pushlist_intList(s, L[p->a]); break;
    case UPUSH: unionpush_intList(s, p->a); break;
    case UPUSHL: unionpushlist_intList(s, L[p->a]); break;
    case DROPI: dropindex_intList(s, p->a); break;
    case DROP: drop_intList(s, p->a); break;
    case DROPN: droplastn_intList(s, p->a); break;
    case DROPL: droplist_intList(s, L[p->a]); break;
    case DUP: d = duplicate_intList(L[p->a]); free_intList(s); L[p->l] = d; break;
    case CLEAR: clear_intList(s); break;
    }
  }
  for(l = 0; l < 2; l++)
  {
    seq *s = &m.l[l];
    if(L[l]->n != s->n) { vh_fail("intlist", "%s: list %d has %d entries, expected %d", istr(h, n), l, L[l]->n, s->n); return; }
    for(i = 0; i < s->n; i++) if(L[l]->e[i] != s->e[i]) { vh_fail("intlist", "%s: entry %d of list %d is %d, expected %d", istr(h, n), i, l, L[l]->e[i], s->e[i]); return; }
    for(v = -2; v < 3; v++)
    {
      int f = sfind(s, v);
      if(!in_intList(L[l], v) != (f < 0) || index_intList(L[l], v) != f) vh_fail("intlist-query", "%s: %d in list %d", istr(h, n), v, l);
      for(k = -1; k < 4; k++)
      {
        int w; for(w = k < 0 ? 0 : k; w < s->n && s->e[w] != v; w++); if(w >= s->n) w = -1;
        if(index_prop_intList(L[l], k, is_par, &v) != w) vh_fail("intlist-query", "%s: first %d from %d in list %d", istr(h, n), v, k, l);
      }
    }
  }
  free_intList(L[0]); free_intList(L[1]);
  if(__sanitizer_get_current_allocated_bytes() != before) vh_fail("leak", "%s", istr(h, n));
}

/* ================= point lists ================= */
#define MP 10
typedef struct { int there; int n[3]; int p[3][MP]; } plist;
typedef struct { plist l[2]; } pmodel;
enum { PADD, PDROP, PDROPL, PDUP, PDUPG, PFREE, PACT };
typedef struct { int k, l, b, a; } pop;
static pop PO[80]; static int npo;
static const char *PKN[] = {"Add", "Drop", "DropList", "Duplicate", "DuplicateForGrid", "Free", "active"};
static void pbuild(void)
{
  int b, i;
  for(b = 0; b < 3; b++) for(i = 0; i < 3; i++) { if(b < 2 || i < 2) PO[npo++] = (pop){PADD, 0, b, i*3}; if(b < 2) PO[npo++] = (pop){PDROP, 0, b, i*3}; }
  PO[npo++] = (pop){PADD, 1, 0, 1}; PO[npo++] = (pop){PADD, 1, 2, 1}; PO[npo++] = (pop){PDROP, 1, 0, 0}; PO[npo++] = (pop){PDROP, 0, 2, 0};
  PO[npo++] = (pop){PDROPL, 0, 0, 0}; PO[npo++] = (pop){PDROPL, 0, 1, 1};
  PO[npo++] = (pop){PDUP, 0, 0, 0}; PO[npo++] = (pop){PDUP, 1, 0, 0}; PO[npo++] = (pop){PDUPG, 1, 0, 0}; PO[npo++] = (pop){PFREE, 1, 0, 0}; PO[npo++] = (pop){PFREE, 0, 0, 0};
}
static void pinit(void *m) { pmodel *p = m; memset(p, 0, sizeof *p); p->l[0].there = 1; }
static void pdrop(plist *s, int b, int v)
{
  int i;
  for(i = 0; i < s->n[b]; i++) if(s->p[b][i] == v) { memmove(s->p[b]+i, s->p[b]+i+1, (s->n[b]-i-1)*sizeof(int)); s->p[b][--s->n[b]] = 0; return; }
}
static int pmstep(void *mm, int o)
{
  pmodel *m = mm; pop *p = &PO[o]; plist *s = &m->l[p->l];
  switch(p->k)
  {
  case PADD: if(!s->there || s->n[p->b] >= MP) return 0; s->p[p->b][s->n[p->b]++] = p->a; break;
  case PDROP: if(!s->there) return 0; pdrop(s, p->b, p->a); break;
  case PDROPL: if(!s->there) return 0; pdrop(s, p->b, 0); pdrop(s, p->b, p->a ? 3 : 6); pdrop(s, p->b, 77); break;
  case PDUP: case PDUPG: if(!m->l[1-p->l].there) { if(s->there == 0) return 0; memset(s, 0, sizeof *s); break; } *s = m->l[1-p->l]; if(p->k == PDUPG) s->there = 2; break;
  case PFREE: if(!s->there) return 0; memset(s, 0, sizeof *s); break;
  }
  return 1;
}
static char *pstr(const unsigned char *h, int n)
{
  static char b[1000]; int i, l = 0;
  for(i = 0; i < n; i++) l += sprintf(b+l, "%s(list%d,box%d,%d);", PKN[PO[h[i]].k], PO[h[i]].l, PO[h[i]].b, PO[h[i]].a);
  return b;
}
static void preplay(const unsigned char *h, int n)
{
  tPointList *L[2] = {NULL, NULL}; pmodel m; int i, l, b, k, ijk, in; char *hs;
  size_t before = __sanitizer_get_current_allocated_bytes();
  pinit(&m);
  L[0] = AllocatePointList(G);
  for(i = 0; i < n; i++)
  {
    pop *p = &PO[h[i]]; tPointList *d;
    intList *il;
    pmstep(&m, h[i]);
    switch(p->k)
    {
    case PADD: AddToPointList(L[p->l], p->b, p->a); break;
    case PDROP: DropFromPointList(L[p->l], p->b, p->a); break;
    case PDROPL: il = alloc_intList(); push_intList(il, 0); push_intList(il, p->a ? 3 : 6); push_intList(il, 77); DropListFromPointList(L[p->l], p->b, il); free_intList(il); break;
    case PDUP: d = DuplicatePointList(L[1-p->l]); FreePointList(L[p->l]); L[p->l] = d; break;
    case PDUPG: d = DuplicatePointList_for_grid(L[1-p->l], G2); FreePointList(L[p->l]); L[p->l] = d; break;
    case PFREE: FreePointList(L[p->l]); L[p->l] = NULL; break;
    }
  }
  hs = pstr(h, n);
  for(l = 0; l < 2; l++)
  {
    plist *s = &m.l[l]; tPointList *P = L[l]; int want = 0;
    if(!P != !s->there) { vh_fail("pointlist", "%s: list %d is %s", hs, l, P ? "there" : "NULL"); return; }
    if(!P) continue;
    if(s->there == 2 && P->grid != G2) vh_fail("pointlist", "%s: grid of list %d", hs, l);
    for(b = 0; b < 3; b++)
    {
      int found = 0;
      if(P->npoints[b] != s->n[b]) { vh_fail("pointlist", "%s: list %d box %d has %d points, expected %d", hs, l, b, P->npoints[b], s->n[b]); return; }
      for(k = 0; k < s->n[b]; k++) if(P->point[b][k] != s->p[b][k]) { vh_fail("pointlist", "%s: list %d box %d point %d is %d, expected %d", hs, l, b, k, P->point[b][k], s->p[b][k]); return; }
      k = -1;
      forPointList_inbox(P, P->grid->box[b], i, ijk) { if(i != ++k || ijk != s->p[b][i]) vh_fail("pointlist-loop", "%s: box %d point %d visited as %d", hs, b, i, ijk); }
      if(k+1 != s->n[b]) vh_fail("pointlist-loop", "%s: %d of %d points of box %d visited", hs, k+1, s->n[b], b);
      for(k = 0; k < P->nblist; k++) if(P->blist[k] == b) found++;
      if(s->n[b]) want++;
      if(found != (s->n[b] > 0)) { vh_fail("pointlist-boxes", "%s: box %d with %d points is %d times in the box list", hs, b, s->n[b], found); return; }
    }
    if(P->nblist != want) vh_fail("pointlist-boxes", "%s: %d boxes in list, expected %d", hs, P->nblist, want);
    /* the loop over all boxes visits every point of every active box, in order */
    for(in = 0; in < 8; in += n < 3 ? 1 : 5)
    {
      int vb = 0, vp = 0, bad = 0;
      for(b = 0; b < 3; b++) { G->box[b]->inactive = (in >> b) & 1; G2->box[b]->inactive = (in >> b) & 1; }
      forPointList(P, b, i, ijk)
      {
        while(vb < 3 && (((in >> vb) & 1) || vp >= s->n[vb])) { vb++; vp = 0; }
        if(vb >= 3 || b != vb || i != vp || ijk != s->p[vb][vp]) bad = 1;
        vp++;
      }
      while(vb < 3 && (((in >> vb) & 1) || vp >= s->n[vb])) { vb++; vp = 0; }
      if(bad || vb != 3) vh_fail("pointlist-loop", "%s: loop over list %d with inactive pattern %d", hs, l, in);
    }
    for(b = 0; b < 3; b++) G->box[b]->inactive = G2->box[b]->inactive = 0;
  }
  if(L[0] && L[1]) for(b = 0; b < 3; b++) if(L[0]->point[b] && L[0]->point[b] == L[1]->point[b]) vh_fail("pointlist-shared", "%s: box %d", hs, b);
  FreePointList(L[0]); FreePointList(L[1]);
  if(__sanitizer_get_current_allocated_bytes() != before) vh_fail("leak", "%s", hs);
}

/* ================= faces ================= */
#define MF 6
typedef struct { int f, id, fp, np; int p[5]; } face;   /* id: which face it is, kept in oXi */
typedef struct { face c[MF]; int n, id; } fmodel;
enum { FADDE, FADDP, FREM, FREMNULL, FALL, FDUP };
static pop FO[80]; static int nfo;
static const char *FKN[] = {"add_empty", "add_point", "remove", "remove_null", "free_all", "duplicate"};
static void fbuild(void)
{
  int i;
  FO[nfo++] = (pop){FADDE, 0, 2, 0}; FO[nfo++] = (pop){FADDE, 0, 5, 0};
  for(i = -1; i < 3; i++) { FO[nfo++] = (pop){FADDP, i, 2, 4+i}; if(i != 2) FO[nfo++] = (pop){FADDP, i, 3, 1}; }
  for(i = -1; i < 4; i++) FO[nfo++] = (pop){FREM, i, 0, 0};
  FO[nfo++] = (pop){FREMNULL, 0, 0, 0}; FO[nfo++] = (pop){FALL, 0, 0, 0}; FO[nfo++] = (pop){FDUP, 0, 0, 0};
}
static void facinit(void *m) { memset(m, 0, sizeof(fmodel)); }
static int fmstep(void *mm, int o)
{
  fmodel *m = mm; pop *p = &FO[o]; int i;
  switch(p->k)
  {
  case FADDE: if(m->n >= MF) return 0; m->c[m->n++] = (face){p->b, ++m->id}; break;
  case FADDP:
    i = p->l;
    if(i < 0 || i >= m->n) { if(m->n >= MF) return 0; i = m->n; m->c[m->n++] = (face){p->b, ++m->id}; }
    if(m->c[i].np >= 5) return 0;
    m->c[i].fp = 1; m->c[i].p[m->c[i].np++] = p->a;
    if(m->c[i].f != p->b) m->c[i].f = -1;
    break;
  case FREM: if(p->l < 0 || p->l >= m->n) break; memmove(m->c+p->l, m->c+p->l+1, (m->n-p->l-1)*sizeof(face)); m->n--; memset(m->c+m->n, 0, sizeof(face)); break;
  case FREMNULL: for(i = 0; i < m->n; ) if(!m->c[i].fp) { memmove(m->c+i, m->c+i+1, (m->n-i-1)*sizeof(face)); m->n--; memset(m->c+m->n, 0, sizeof(face)); } else i++; break;
  case FALL: memset(m->c, 0, sizeof m->c); m->n = 0; break;
  }
  return 1;
}
static char *fstr(const unsigned char *h, int n)
{
  static char b[1000]; int i, l = 0;
  for(i = 0; i < n; i++) l += sprintf(b+l, "%s(%d,%d,%d);", FKN[FO[h[i]].k], FO[h[i]].l, FO[h[i]].b, FO[h[i]].a);
  return b;
}
static void fcheck(const char *hs, fmodel *m, tBox *box)
{
  int i, k;
  if(box->nbfaces != m->n) { vh_fail("faces", "%s: %d faces, expected %d", hs, box->nbfaces, m->n); return; }
  for(i = 0; i < m->n; i++)
  {
    tBface *B = box->bface[i]; face *F = &m->c[i];
    if(B->fi != i) vh_fail("face-index", "%s: face %d says it is %d", hs, i, B->fi);
    if(B->f != F->f || B->b != box->b || B->grid != box->grid || B->oXi != F->id+100) vh_fail("faces", "%s: face %d is f=%d id=%d, expected f=%d id=%d", hs, i, B->f, B->oXi-100, F->f, F->id);
    if(B->ob != -1 || B->ofi != -1 || B->oYi != -1 || B->oZi != -1 || B->touch || B->outerbound || B->innerbound || B->setnormalderiv) vh_fail("faces", "%s: new face is not empty", hs);
    if(!B->fpts != !F->fp) { vh_fail("faces", "%s: face %d points", hs, i); continue; }
    if(!B->fpts) continue;
    for(k = 0; k < 3; k++) if(B->fpts->npoints[k] != (k == box->b ? F->np : 0)) { vh_fail("faces", "%s: face %d has %d points in box %d", hs, i, B->fpts->npoints[k], k); return; }
    for(k = 0; k < F->np; k++) if(B->fpts->point[box->b][k] != F->p[k]) vh_fail("faces", "%s: face %d point %d", hs, i, k);
  }
}
static void freplay(const unsigned char *h, int n)
{
  tBox *box = G->box[1]; fmodel m; int i, r, w, nb, k; char *hs = fstr(h, n);
  size_t before = __sanitizer_get_current_allocated_bytes();
  facinit(&m);
  for(i = 0; i < n; i++)
  {
    pop *p = &FO[h[i]];
    int n0 = m.n;
    nb = box->nbfaces;
    fmstep(&m, h[i]);
    r = w = 0;
    switch(p->k)
    {
    case FADDE: r = add_empty_bface(box, p->b); w = n0; break;
    case FADDP: r = add_point_to_bface_inbox(box, p->l, p->a, p->b); w = p->l < 0 || p->l >= n0 ? n0 : p->l; break;
    case FREM: r = remove_bface(box, p->l); w = n0-m.n; break;
    case FREMNULL: r = remove_bfaces_with_NULL_fpts(box); w = n0-m.n; break;
    case FALL: free_all_bfaces(box); break;
    case FDUP:
      for(k = 0; k < nb; k++)
      {
        tBface *d = duplicate_bface_for_grid(box->bface[k], G2), *e = duplicate_bface_without_fpts_for_grid(box->bface[k], G2);
        if(e->fpts || e->grid != G2 || e->fi != k) vh_fail("face-dup", "%s", hs);
        free_bface(e);
        free_bface(box->bface[k]); d->grid = G; box->bface[k] = d;     /* go on with the duplicate */
        if(d->fpts) d->fpts->grid = G;
      }
      break;
    }
    if(r != w) vh_fail("face-return", "%s: step %d returned %d, expected %d", hs, i, r, w);
    if(box->nbfaces > nb) box->bface[nb]->oXi = m.id+100;
  }
  fcheck(hs, &m, box);
  if(duplicate_bface_without_fpts_for_grid(NULL, G)) vh_fail("face-dup", "NULL");
  free_all_bfaces(box);
  if(box->nbfaces || box->bface) vh_fail("faces", "%s: not empty after free_all_bfaces", hs);
  if(__sanitizer_get_current_allocated_bytes() != before) vh_fail("leak", "%s", hs);
}

/* ================= neighbours and attributes ================= */
static void neighbours(void)
{
  /* all directed graphs on 3 boxes with up to two faces each to {none, any box}, and all attribute patterns */
  int c, b, k, i;
  for(c = 0; c < 15625; c++)
  {
    int ob[3][2], x = c;
    if(c % 125 == 0 && !vh_unit("neighbours:%d", c/125)) { c += 124; continue; }
    for(b = 0; b < 3; b++) for(k = 0; k < 2; k++) { ob[b][k] = x%5-1; x /= 5; }   /* -1 none, 0..2, 3: no face */
    for(b = 0; b < 3; b++) for(k = 0; k < 2; k++) if(ob[b][k] < 3) { i = add_empty_bface(G->box[b], k); G->box[b]->bface[i]->ob = ob[b][k]; }
    for(b = 0; b < 3; b++)
    {
      int pre;
      for(pre = 0; pre < 2; pre++)
      {
        seq N = {0}, NN = {0}; int w; intList *l = alloc_intList(), *l2 = alloc_intList();
        if(pre) { push_intList(l, 1); push_intList(l2, 1); N.e[N.n++] = 1; NN.e[NN.n++] = 1; }
        for(k = 0; k < 2; k++) if(ob[b][k] >= 0 && ob[b][k] < 3 && sfind(&N, ob[b][k]) < 0) N.e[N.n++] = ob[b][k];
        {
          seq M = {0}, R = {0};
          for(k = 0; k < 2; k++) if(ob[b][k] >= 0 && ob[b][k] < 3 && sfind(&M, ob[b][k]) < 0) M.e[M.n++] = ob[b][k];
          for(i = 0; i < M.n; i++) for(k = 0; k < 2; k++) { w = ob[M.e[i]][k]; if(w >= 0 && w < 3 && sfind(&R, w) < 0) R.e[R.n++] = w; }
          for(i = 0; i < R.n; i++) if(sfind(&M, R.e[i]) < 0 && R.e[i] != b) NN.e[NN.n++] = R.e[i];
        }
        w = bladd_neighbors(G->box[b], l);
        if(w != N.n || l->n != N.n || memcmp(l->e, N.e, N.n*sizeof(int))) vh_fail("neighbours", "graph %d box %d: %d neighbours, expected %d", c, b, l->n, N.n);
        w = bladd_neighbors_of_neighbors(G->box[b], l2);
        if(w != NN.n || l2->n != NN.n || (NN.n && memcmp(l2->e, NN.e, NN.n*sizeof(int)))) vh_fail("neighbours2", "graph %d box %d: %d next neighbours, expected %d", c, b, l2->n, NN.n);
        free_intList(l); free_intList(l2);
        vh_evals++;
      }
    }
    for(b = 0; b < 3; b++) free_all_bfaces(G->box[b]);
  }
  if(vh_unit("attributes"))
    for(c = 0; c < 27*8; c++)
    {
      int x = c, at[3], in = c/27, v, q;
      for(b = 0; b < 3; b++) { at[b] = x%3; x /= 3; G->box[b]->Attrib[4] = at[b]; G->box[b]->Attrib[5] = 9; G->box[b]->inactive = (in >> b) & 1; }
      for(v = 0; v < 4; v++) for(q = 0; q < 4; q++)
      {
        seq w = {0}; intList *l = alloc_intList(), *sub = alloc_intList(); int r;
        push_intList(sub, 2); push_intList(sub, 0);
        w.e[w.n++] = 7; push_intList(l, 7);
        if(q < 2) { for(b = 0; b < 3; b++) if(!((in >> b) & 1) && (at[b] == v) == !q) w.e[w.n++] = b; }
        else for(i = 0; i < 2; i++) { b = sub->e[i]; if((at[b] == v) == (q == 2)) w.e[w.n++] = b; }
        r = q == 0 ? bladd_ifAttrib(G, 4, v, l) : q == 1 ? bladd_ifnotAttrib(G, 4, v, l) : q == 2 ? bl2_ifAttrib(G, sub, 4, v, l) : bl2_ifnotAttrib(G, sub, 4, v, l);
        if(r != w.n || l->n != w.n || memcmp(l->e, w.e, w.n*sizeof(int))) vh_fail("attributes", "pattern %d value %d query %d", c, v, q);
        free_intList(l); free_intList(sub);
        vh_evals++;
      }
      for(b = 0; b < 3; b++) G->box[b]->inactive = 0;
    }
}
/* loops over planes visit each point of the plane once */
static void planes(void)
{
  int n1, n2, n3, N, p, i, j, k;
  if(!vh_unit("planes")) return;
  for(n1 = 1; n1 < 5; n1++) for(n2 = 1; n2 < 5; n2++) for(n3 = 1; n3 < 5; n3++) for(N = 1; N < 4; N++)
  {
    int n[4] = {0, n1, n2, n3};
    for(p = 0; p < n[N]; p++)
    {
      int c[5][64], ijk, x, want, inner, e;
      memset(c, 0, sizeof c);
      forplaneN(N, i,j,k, n1,n2,n3, p) c[0][i+n1*(j+n2*k)]++;
      if(N == 1) { forplane1(i,j,k, n1,n2,n3, p) c[1][i+n1*(j+n2*k)]++; forplane1_nojump(i,j,k, n1,n2,n3, p) c[2][i+n1*(j+n2*k)]++; }
      if(N == 2) { forplane2(i,j,k, n1,n2,n3, p) c[1][i+n1*(j+n2*k)]++; forplane2_nojump(i,j,k, n1,n2,n3, p) c[2][i+n1*(j+n2*k)]++; }
      if(N == 3) { forplane3(i,j,k, n1,n2,n3, p) c[1][i+n1*(j+n2*k)]++; forplane3_nojump(i,j,k, n1,n2,n3, p) c[2][i+n1*(j+n2*k)]++; }
      forinnerplaneN(N, i,j,k, n1,n2,n3, p) c[3][i+n1*(j+n2*k)]++;
      for(k = 0; k < n3; k++) for(j = 0; j < n2; j++) for(i = 0; i < n1; i++)
      {
        ijk = i+n1*(j+n2*k);
        if(kOfInd_n1n2(ijk, n1, n2) != k || jOfInd_n1n2_k(ijk, n1, n2, k) != j || iOfInd_n1n2_jk(ijk, n1, n2, j, k) != i || Ind_n1n2(i, j, k, n1, n2) != ijk || Index(i,j,k) != ijk) vh_fail("index", "%d %d %d", i, j, k);
        want = (N == 1 ? i : N == 2 ? j : k) == p;
        inner = want && (N == 1 || (i > 0 && i < n1-1)) && (N == 2 || (j > 0 && j < n2-1)) && (N == 3 || (k > 0 && k < n3-1));
        for(e = 0; e < 3; e++) if(c[e][ijk] != want) vh_fail("planes", "loop %d over plane %d=%d of %dx%dx%d visits point %d,%d,%d %d times", e, N, p, n1, n2, n3, i, j, k, c[e][ijk]);
        if(c[3][ijk] != inner) vh_fail("planes", "inner loop over plane %d=%d of %dx%dx%d visits point %d,%d,%d %d times", N, p, n1, n2, n3, i, j, k, c[3][ijk]);
        (void)x;
      }
      vh_evals++;
    }
  }
}
int main(int argc, char **argv)
{
  int b;
  vh_init(argc, argv);
  vg_begin(3);
  for(b = 0; b < 3; b++) { vg_box(b, 2, 2, 2, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, b, b+1, 0, 1, 0, 1); }
  vg_libs();
  G = vg_make();
  G2 = make_empty_grid(globalnvariables, 0);
  ibuild(); pbuild(); fbuild();
  { vh_bfs_t B = {"intlist", sizeof(imodel), nio, vh_thorough ? 6 : 5, iinit, imstep, ireplay, istr}; vh_bfs(&B); }
  { vh_bfs_t B = {"pointlist", sizeof(pmodel), npo, vh_thorough ? 6 : 5, pinit, pmstep, preplay, pstr}; vh_bfs(&B); }
  { vh_bfs_t B = {"faces", sizeof(fmodel), nfo, vh_thorough ? 7 : 6, facinit, fmstep, freplay, fstr}; vh_bfs(&B); }
  neighbours();
  planes();
  vh_sample("Add(list0,box1,3); Duplicate(list1); Drop(list0,box1,3): list0 empty, list1 keeps the point");
  return vh_done();
}

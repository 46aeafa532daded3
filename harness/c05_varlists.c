/* C05: variable lists against plain sequences; list arithmetic on real grids. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#undef exit

#define ML 40
typedef struct { int n; short e[ML]; } seq;
typedef struct { seq l[2]; } model;

static int is, iw, iq;          /* scalar, vector, symmetric tensor */
static tGrid *G;

/* ---------------- sequences ---------------- */
typedef struct { int k, l, a; } op;
enum { PUSH, PUSHONE, PUSHVL, DROPONE, DROP, DROPN, DUP, KINDS };
static op OPS[64]; static int nops;
static void build(void)
{
  int l, i;
  int one[] = {0, 1, 2, 4, 5}, dn[] = {-1, 0, 1, 2, 50};
  for(l = 0; l < 2; l++)
  {
    for(i = 0; i < 3; i++) OPS[nops++] = (op){PUSH, l, i == 0 ? is : i == 1 ? iw : iq};
    for(i = 0; i < 5; i++) if(l == 0 || i < 3) OPS[nops++] = (op){PUSHONE, l, is+one[i]};
    OPS[nops++] = (op){PUSHVL, l, 0};
    OPS[nops++] = (op){PUSHVL, l, 1};
    for(i = 0; i < 5; i++) if(l == 0 || i < 3) OPS[nops++] = (op){DROPONE, l, is+one[i]};
    for(i = 0; i < 3; i++) OPS[nops++] = (op){DROP, l, i == 0 ? is : i == 1 ? iw : iq};
    for(i = 0; i < 5; i++) OPS[nops++] = (op){DROPN, l, dn[i]};
    OPS[nops++] = (op){DUP, l, 0};
  }
}
static void sdrop(seq *s, int v)
{
  int i;
  for(i = 0; i < s->n; i++) if(s->e[i] == v) { memmove(s->e+i, s->e+i+1, (s->n-i-1)*sizeof(short)); s->n--; return; }
}
static int ncomp(int v) { return v == is ? 1 : v == iw ? 3 : 6; }
static int mstep(model *m, op *o)
{
  seq *s = &m->l[o->l], t; int i;
  switch(o->k)
  {
  case PUSH: if(s->n+6 > ML) return 0; for(i = 0; i < ncomp(o->a); i++) s->e[s->n++] = o->a+i; break;
  case PUSHONE: if(s->n+1 > ML) return 0; s->e[s->n++] = o->a; break;
  case PUSHVL: t = m->l[o->a]; if(s->n+t.n > ML) return 0; for(i = 0; i < t.n; i++) s->e[s->n++] = t.e[i]; break;
  case DROPONE: sdrop(s, o->a); break;
  case DROP: for(i = 0; i < ncomp(o->a); i++) sdrop(s, o->a+i); break;
  case DROPN: i = o->a; if(i < 0) i = 0; if(i > s->n) i = s->n; s->n -= i; break;
  case DUP: m->l[o->l] = m->l[1-o->l]; break;
  }
  for(i = s->n; i < ML; i++) s->e[i] = 0;
  for(i = m->l[o->l].n; i < ML; i++) m->l[o->l].e[i] = 0;
  return 1;
}
static void rstep(tVarList **L, op *o)
{
  tVarList *s = L[o->l];
  switch(o->k)
  {
  case PUSH: vlpush(s, o->a); break;
  case PUSHONE: vlpushone(s, o->a); break;
  case PUSHVL: vlpushvl(s, L[o->a]); break;
  case DROPONE: vldropone(s, o->a); break;
  case DROP: vldrop(s, o->a); break;
  case DROPN: vldropn(s, o->a); break;
  case DUP: { tVarList *n = vlduplicate(L[1-o->l]); vlfree(s); L[o->l] = n; } break;
  }
}
static const char *KN[] = {"push", "pushone", "pushvl", "dropone", "drop", "dropn", "dup"};
static char *hstr(const unsigned char *h, int n)
{
  static char b[1000]; int i, l = 0;
  for(i = 0; i < n; i++) l += sprintf(b+l, "%s(%d,%d);", KN[OPS[h[i]].k], OPS[h[i]].l, OPS[h[i]].a);
  return b;
}
static int replay(const unsigned char *h, int n)
{
  tVarList *L[2]; model m; int i, k, l, ok = 1;
  memset(&m, 0, sizeof m);
  for(l = 0; l < 2; l++) { L[l] = vlalloc(G); L[l]->time = 1+l; }
  for(i = 0; i < n; i++) { mstep(&m, &OPS[h[i]]); rstep(L, &OPS[h[i]]); }
  for(l = 0; l < 2; l++)
  {
    if(L[l]->n != m.l[l].n) ok = 0;
    for(k = 0; ok && k < L[l]->n; k++) if(L[l]->index[k] != m.l[l].e[k]) ok = 0;
    if(L[l]->grid != G) ok = 0;
  }
  if(!ok) vh_fail("sequence", "%s: lists differ from plain sequences (n=%d,%d want %d,%d)", hstr(h, n), L[0]->n, L[1]->n, m.l[0].n, m.l[1].n);
  /* duplicates are independent: change one after the other */
  if(L[0]->n && L[1]->n) { int o = L[1]->index[0]; L[0]->index[0] += 100; if(L[1]->index[0] != o) vh_fail("alias", "%s", hstr(h, n)); }
  vlfree(L[0]); vlfree(L[1]);
  vh_trans++; vh_traces++;
  return ok;
}
typedef struct { model m; unsigned char h[8]; int n; } node;
static void sequences(int depth)
{
  /* every shard explores the suffixes of its own first operations */
  int first;
  for(first = 0; first < nops; first++)
  {
    vh_set seen = {0};
    node *q; int qh = 0, qn = 0, cap = 1024;
    if(!vh_unit("seq:%s", hstr((unsigned char[]){first}, 1))) continue;
    q = malloc(cap*sizeof *q);
    memset(q, 0, sizeof *q);
    q[0].n = 1; q[0].h[0] = first;
    if(!mstep(&q[0].m, &OPS[first])) continue;
    replay(q[0].h, 1);
    qn = 1; vh_set_add(&seen, vh_hash(&q[0].m, sizeof(model), 0)); vh_states++;
    while(qh < qn)
    {
      int i;
      if(q[qh].n >= depth) { qh++; continue; }
      for(i = 0; i < nops; i++)
      {
        node x = q[qh];
        x.h[x.n++] = i;
        if(!mstep(&x.m, &OPS[i])) continue;
        replay(x.h, x.n);
        if(vh_set_add(&seen, vh_hash(&x.m, sizeof(model), 0)))
        {
          vh_states++;
          if(qn == cap) q = realloc(q, (cap *= 2)*sizeof *q);
          q[qn++] = x;
        }
      }
      qh++;
    }
    free(q); free(seen.t);
  }
}

/* ---------------- arithmetic ---------------- */
/* lists A,B,C of two variables each on a grid of two boxes of different size,
   and one variable that nothing may touch */
#define NV 7
static int vi[NV];
static tVarList *VL[3];
typedef struct { double d[2][NV][12], t[3]; int stor[3]; int inact; } data;
static data M;
static int npt[2];
static void fill(int kind, int stor, int inact)
{
  int b, v, i;
  memset(&M, 0, sizeof M);
  for(b = 0; b < 2; b++)
  {
    G->box[b]->inactive = (inact >> b) & 1;
    for(v = 0; v < NV; v++)
    {
      int l = v/2;
      if(v < 6 && !((stor >> l) & 1)) { disablevarcomp_inbox(G->box[b], vi[v]); continue; }
      enablevarcomp_inbox(G->box[b], vi[v]);
      for(i = 0; i < npt[b]; i++)
      {
        double x = (double)((i*7+v*5+b*3) % 32 - 15)/4;
        if(kind && v/2 == kind-1) x = i % 3 == 0 ? NAN : i % 3 == 1 ? INFINITY : x;
        G->box[b]->v[vi[v]][i] = M.d[b][v][i] = x;
      }
    }
  }
  for(i = 0; i < 3; i++) { M.stor[i] = (stor >> i) & 1; VL[i]->time = M.t[i] = i*0.75-0.5; VL[i]->grid = G; }
  M.inact = inact;
}
enum { VADD, VADDTO, VCOPY, VSWAP, VAVG, VSUB, VSET, VARCOPY, VARSWAP, VARADD, VCOPYG, ACT };
typedef struct { int k, r, a, b; double ca, cb; } aop;
static const char *AN[] = {"vladd", "vladdto", "vlcopy", "vlswap", "vlaverage", "vlsubtract", "vlsetconstant", "varcopy", "varswap", "varadd", "vlcopygrid", "activate"};
static aop AO[4000]; static int nao;
static void amodel(aop *o)
{
  int b, n, i;
  double t, *r, *x, *y;
  int one = o->k == VARCOPY || o->k == VARSWAP || o->k == VARADD;
  if(o->k == ACT) { M.inact = o->r; return; }
  for(b = 0; b < 2; b++)
    if(!((M.inact >> b) & 1))
      for(n = 0; n < (one ? 1 : 2); n++)
      {
        r = M.d[b][2*o->r+n]; x = M.d[b][2*o->a+n]; y = M.d[b][2*o->b+n];
        for(i = 0; i < npt[b]; i++)
          switch(o->k)
          {
          case VADD: case VARADD: r[i] = (o->ca == 0 ? 0 : o->ca*x[i]) + (o->cb == 0 ? 0 : o->cb*y[i]); break;
          case VADDTO: if(o->ca != 0) r[i] = r[i] + o->ca*x[i]; break;
          case VCOPY: case VARCOPY: case VCOPYG: r[i] = x[i]; break;
          case VSWAP: case VARSWAP: t = r[i]; r[i] = x[i]; x[i] = t; break;
          case VAVG: r[i] = 0.5*(x[i]+y[i]); break;
          case VSUB: r[i] = x[i]-y[i]; break;
          case VSET: r[i] = o->ca; break;
          }
      }
  switch(o->k)
  {
  case VADD: M.t[o->r] = (o->ca == 0 ? 0 : o->ca*M.t[o->a]) + (o->cb == 0 ? 0 : o->cb*M.t[o->b]); break;
  case VADDTO: M.t[o->r] += o->ca*M.t[o->a]; break;
  case VCOPY: case VCOPYG: M.t[o->r] = M.t[o->a]; break;
  case VSWAP: t = M.t[o->r]; M.t[o->r] = M.t[o->a]; M.t[o->a] = t; break;
  case VAVG: M.t[o->r] = 0.5*(M.t[o->a]+M.t[o->b]); break;
  case VSUB: M.t[o->r] = M.t[o->a]-M.t[o->b]; break;
  }
}
static void areal(aop *o)
{
  tVarList *r = VL[o->r < 3 ? o->r : 0], *a = VL[o->a], *b = VL[o->b];
  switch(o->k)
  {
  case VADD: vladd(r, o->ca, a, o->cb, b); break;
  case VADDTO: vladdto(r, o->ca, a); break;
  case VCOPY: vlcopy(r, a); break;
  case VCOPYG: vlcopygrid(G, r, a); break;
  case VSWAP: vlswap(r, a); break;
  case VAVG: vlaverage(r, a, b); break;
  case VSUB: vlsubtract(r, a, b); break;
  case VSET: vlsetconstant(r, o->ca); break;
  case VARCOPY: varcopy(G, r->index[0], a->index[0]); break;
  case VARSWAP: varswap(G, r->index[0], a->index[0]); break;
  case VARADD: varadd(G, r->index[0], o->ca, a->index[0], o->cb, b->index[0]); break;
  case ACT:
  {
    intList *l = alloc_intList(); int i;
    activate_allboxes(G);
    for(i = 0; i < 2; i++) if((o->r >> i) & 1) push_intList(l, i);
    deactivate_boxes(G, l);
    free_intList(l);
  } break;
  }
}
static int acheck(const char *h)
{
  int b, v, i;
  for(b = 0; b < 2; b++)
    for(v = 0; v < NV; v++)
    {
      double *p = G->box[b]->v[vi[v]];
      if(v < 6 && !M.stor[v/2]) { if(p) { vh_fail("storage", "%s var %d got storage", h, v); return 0; } continue; }
      if(!p) { vh_fail("storage", "%s var %d lost storage", h, v); return 0; }
      for(i = 0; i < npt[b]; i++)
        if(!(p[i] == M.d[b][v][i] || (isnan(p[i]) && isnan(M.d[b][v][i]))))
        { vh_fail("value", "%s: box%d variable %c%d point %d is %g, expected %g", h, b, "ABCZ"[v/2], v%2, i, p[i], M.d[b][v][i]); return 0; }
    }
  for(i = 0; i < 3; i++) if(VL[i]->time != M.t[i]) { vh_fail("time", "%s: time of list %c is %g, expected %g", h, "ABC"[i], VL[i]->time, M.t[i]); return 0; }
  return 1;
}
static char *astr(aop **o, int n)
{
  static char s[500]; int i, l = 0;
  for(i = 0; i < n; i++) l += sprintf(s+l, "%s(%c=%g*%c,%g*%c);", AN[o[i]->k], "ABCD"[o[i]->r], o[i]->ca, "ABC"[o[i]->a], o[i]->cb, "ABC"[o[i]->b]);
  return s;
}
static void abuild(int small)
{
  static const double C[] = {0, 1, -1, 0.5, -2};
  int r, a, b, i, j;
  nao = 0;
  for(r = 0; r < 3; r++) for(a = 0; a < 3; a++)
  {
    for(i = 0; i < 5; i++)
    {
      if(!small || i < 3) AO[nao++] = (aop){VADDTO, r, a, 0, C[i], 0};
      for(b = 0; b < 3; b++) for(j = 0; j < 5; j++)
        if(!small || (i != 1 && j != 2 && (i == 0 || i == 3) && (j == 0 || j == 4)))
        {
          AO[nao++] = (aop){VADD, r, a, b, C[i], C[j]};
          if(!small) AO[nao++] = (aop){VARADD, r, a, b, C[i], C[j]};
        }
    }
    for(b = 0; b < 3; b++) { if(small && b == r) continue; AO[nao++] = (aop){VAVG, r, a, b}; AO[nao++] = (aop){VSUB, r, a, b}; }
    AO[nao++] = (aop){VCOPY, r, a}; AO[nao++] = (aop){VSWAP, r, a};
    if(!small) { AO[nao++] = (aop){VCOPYG, r, a}; AO[nao++] = (aop){VARCOPY, r, a}; AO[nao++] = (aop){VARSWAP, r, a}; }
  }
  for(r = 0; r < 3; r++) AO[nao++] = (aop){VSET, r, 0, 0, 2.5};
  for(r = 0; r < 4; r++) AO[nao++] = (aop){ACT, r};
}
static int needs(aop *o, int l)
{
  if(o->k == ACT) return 0;
  if(o->r == l && !(o->k == VADDTO && o->ca == 0)) return 1;
  switch(o->k)
  {
  case VADD: case VARADD: return (o->a == l && o->ca != 0) || (o->b == l && o->cb != 0);
  case VADDTO: return o->a == l && o->ca != 0;
  case VSET: return 0;
  case VAVG: case VSUB: return o->a == l || o->b == l;
  default: return o->a == l;
  }
}
static void arithmetic(int depth)
{
  int i, j, k, kind, stor, in, l;
  vh_set seen = {0};
  aop *h[3];
  /* every operation from every kind of data, every storage and activity pattern */
  abuild(0);
  for(in = 0; in < 4; in++) for(kind = 0; kind < 4; kind++)
    if(vh_unit("arith1:inactive%d:special%d", in, kind))
      for(stor = 0; stor < 8; stor++)
        for(i = 0; i < nao; i++)
        {
          int ok = 1;
          for(l = 0; l < 3; l++) if(needs(&AO[i], l) && !((stor >> l) & 1)) ok = 0;
          if(!ok) continue;
          fill(kind, stor, in);
          h[0] = &AO[i];
          vh_at("%s stor%d", astr(h, 1), stor);
          areal(h[0]); amodel(h[0]);
          acheck(astr(h, 1));
          vh_trans++; vh_traces++;
        }
  activate_allboxes(G);
  /* histories */
  abuild(1);
  for(i = 0; i < nao; i++)
    if(vh_unit("arith:%s", (h[0] = &AO[i], astr(h, 1))))
      for(j = 0; j < nao; j++)
        for(k = (depth < 3 ? nao-1 : 0); k < nao; k++)
        {
          int n;
          h[0] = &AO[i]; h[1] = &AO[j]; h[2] = &AO[k];
          fill(0, 7, 0);
          activate_allboxes(G);
          for(n = 0; n < depth; n++) { areal(h[n]); amodel(h[n]); vh_trans++; }
          vh_traces++;
          acheck(astr(h, depth));
          if(vh_set_add(&seen, vh_hash(&M, sizeof M, 0))) vh_states++;
        }
}

/* ---------------- duplicates with new variables ---------------- */
static void duplicates(void)
{
  int a, b, c, i;
  static const char *PF[3] = {"_p", "_r", ""};
  for(a = 0; a < 8; a++) for(b = 0; b < 3; b++) for(c = 0; c < 2; c++)
    if(vh_unit("AddDuplicate:list%d:%s:enable%d", a, PF[b], c))
    {
      int want[20], n = 0, n0 = globalnvariables, nnew = 0, bx;
      tVarList *u = vlalloc(G), *d, *d2;
      u->time = 3.5;
      if(a & 1) vlpush(u, is);
      if(a & 2) vlpush(u, iw);
      if(a & 4) { vlpushone(u, iq+2); if(a & 1) vlpushone(u, is); }
      d = c ? AddDuplicateEnable(u, (char*)PF[b]) : AddDuplicate(u, (char*)PF[b]);
      if(d->n != u->n || d->grid != G) vh_fail("dup", "length %d of %d", d->n, u->n);
      if(G->nvariables != globalnvariables) vh_fail("dup", "grid has room for %d of %d variables", G->nvariables, globalnvariables);
      for(i = 0; i < d->n; i++)
      {
        char nm[200]; int v = d->index[i], o = u->index[i];
        sprintf(nm, "%s%s", VarName(o), PF[b]);
        if(strcmp(VarName(v), nm)) vh_fail("dup", "name %s expected %s", VarName(v), nm);
        if(VarComponent(v) != VarComponent(o) || VarFallOff(v) != VarFallOff(o) || VarFarLimit(v) != VarFarLimit(o) || VarPropSpeed(v) != VarPropSpeed(o) ||
           VarSymmetry(v, 0) != VarSymmetry(o, 0) || VarSymmetry(v, 1) != VarSymmetry(o, 1) || VarSymmetry(v, 2) != VarSymmetry(o, 2) ||
           VarConstantFlag(v) != VarConstantFlag(o) || strcmp(VarTensorIndices(v), VarTensorIndices(o)))
          vh_fail("dup", "attributes of %s differ from the original", nm);
        for(bx = 0; bx < 2; bx++)
          if(v >= n0 && !c != !G->box[bx]->v[v]) vh_fail("dup", "storage of %s in box %d", nm, bx);
          else if(c) { int p; for(p = 0; p < npt[bx]; p++) if(v >= n0 && G->box[bx]->v[v][p] != 0) vh_fail("dup", "%s not zero", nm); }
      }
      d2 = AddDuplicate(u, (char*)PF[b]);
      for(i = 0; i < d->n; i++) if(d2->index[i] != d->index[i]) vh_fail("dup", "second duplicate makes other variables");
      vh_evals++; vh_trans++; vh_traces++;
      vlfree(u); vlfree(d); vlfree(d2);
      (void)want; (void)n; (void)nnew;
    }
}

int main(int argc, char **argv)
{
  int i;
  vh_init(argc, argv);
  vg_begin(2);
  vg_box(0, 2, 2, 2, "ChebExtrema", "ChebExtrema", "ChebExtrema");
  vg_box(1, 3, 2, 2, "ChebExtrema", "ChebExtrema", "ChebExtrema");
  vg_lim(0, 0, 1, 0, 1, 0, 1); vg_lim(1, 1, 2, 0, 1, 0, 1);
  vg_libs();
  AddVar("ts", "", "scalar"); AddVar("tw", "i", "vector"); AddVar("tq", "(ij)", "tensor");
  for(i = 0; i < NV; i++) { char nm[20]; sprintf(nm, "v%d", i); AddVar(nm, "", "x"); }
  is = Ind("ts"); iw = Ind("twx"); iq = Ind("tqxx");
  VarNameSetBoundaryInfo("twy", 1, 2, 3); VarNameSetBoundaryInfo("ts", 4, 5, 6); VarNameSetConstantFlag("tqxy");
  G = vg_make();
  for(i = 0; i < 2; i++) npt[i] = G->box[i]->nnodes;
  for(i = 0; i < NV; i++) { char nm[20]; sprintf(nm, "v%d", i); vi[i] = Ind(nm); }
  for(i = 0; i < 3; i++) { VL[i] = vlalloc(G); vlpushone(VL[i], vi[2*i]); vlpushone(VL[i], vi[2*i+1]); }
  build();
  sequences(vh_thorough ? 6 : 4);
  arithmetic(vh_thorough ? 3 : 2);
  duplicates();
  vh_sample("A=0.5*B-2*C, then swap(A,B), every point of both boxes compared");
  return vh_done();
}

/* C04: tensor index lists and the variable data base. */
#include "sgrid.h"
#include "vh.h"
#undef exit

/* ---- reference for index specifications ---- */
typedef struct { int n, dim[8], off[8], rel[8]; /* rel[i]: 0 free, 1 >= previous, 2 > previous */ } spec;
static int kind(char c, int *dim)
{
  c = tolower(c);
  if(c >= 'i' && c <= 'l') { *dim = 3; return 1; }
  if(c >= 'a' && c <= 'c') { *dim = 4; return 1; }
  if(c >= 'q' && c <= 't') { *dim = 2; return 1; }
  return 0;
}
/* parse indices with (..) and [..] pairs, and sums like ij+ji that list the
   permutations of pairs; returns 0 if this is not such a specification */
static int parse_spec(const char *s0, spec *r)
{
  char base[32], s[64]; int i, k, d;
  memset(r, 0, sizeof *r);
  for(i = 0; s0[i] && i < 63; i++) s[i] = tolower(s0[i]);
  s[i] = 0;
  if(strpbrk(s, "+-"))
  {
    /* sum form: first term is the base, the others exchange adjacent pairs */
    char *term[8], sg[8], t[64]; int nt = 0, n, swapped[8] = {0};
    strcpy(t, s);
    term[nt] = t; sg[nt++] = '+';
    for(i = 0; t[i]; i++) if(t[i] == '+' || t[i] == '-') { if(nt >= 8) return 0; sg[nt] = t[i]; t[i] = 0; term[nt++] = t+i+1; }
    n = strlen(term[0]);
    if(n > 4) return 0;
    for(i = 0; i < n; i++) { if(!kind(term[0][i], &d)) return 0; r->dim[i] = d; for(k = 0; k < i; k++) if(term[0][k] == term[0][i]) return 0; }
    for(k = 1; k < nt; k++)
    {
      if((int)strlen(term[k]) != n) return 0;
      for(i = 0; i < n; i++)
        if(term[k][i] != term[0][i])
        {
          if(i+1 < n && term[k][i] == term[0][i+1] && term[k][i+1] == term[0][i]) { swapped[i] = sg[k] == '-' ? 2 : swapped[i] ? swapped[i] : 1; i++; }
          else return 0;
        }
    }
    for(i = 0, d = 0; i < n; i++) if(swapped[i]) { r->rel[i+1] = swapped[i]; d++; if(r->dim[i] != r->dim[i+1]) return 0; i++; }
    if(nt != 1 << d) return 0;
    r->n = n;
    return 1;
  }
  for(i = 0; s[i]; )
  {
    if(s[i] == '(' || s[i] == '[')
    {
      int d1, d2;
      if(!kind(s[i+1], &d1) || !kind(s[i+2], &d2) || d1 != d2) return 0;
      if(s[i+3] != (s[i] == '(' ? ')' : ']')) return 0;
      if(r->n > 5) return 0;
      base[r->n] = s[i+1]; r->dim[r->n++] = d1;
      base[r->n] = s[i+2]; r->dim[r->n] = d2; r->rel[r->n++] = s[i] == '(' ? 1 : 2;
      i += 4;
    }
    else { if(!kind(s[i], &d) || r->n > 5) return 0; base[r->n] = s[i]; r->dim[r->n++] = d; i++; }
  }
  for(i = 0; i < r->n; i++) for(k = 0; k < i; k++) if(base[i] == base[k]) return 0;
  return 1;
}
/* all independent components in lexical order */
static int comps(const spec *r, char name[][8], int sg[][3])
{
  int v[8] = {0}, n = 0, i;
  while(1)
  {
    int ok = 1;
    for(i = 1; i < r->n; i++) if((r->rel[i] == 1 && v[i] < v[i-1]) || (r->rel[i] == 2 && v[i] <= v[i-1])) ok = 0;
    if(ok)
    {
      sg[n][0] = sg[n][1] = sg[n][2] = 1;
      for(i = 0; i < r->n; i++)
      {
        name[n][i] = r->dim[i] == 3 ? "xyz"[v[i]] : r->dim[i] == 4 ? "txyz"[v[i]] : "12"[v[i]];
        if(r->dim[i] == 3) sg[n][v[i]] *= -1;
        if(r->dim[i] == 4 && v[i]) sg[n][v[i]-1] *= -1;
      }
      name[n++][r->n] = 0;
    }
    for(i = r->n-1; i >= 0; i--) { if(++v[i] < r->dim[i]) break; v[i] = 0; }
    if(i < 0) break;
  }
  return n;
}
static int has2d(const spec *r) { int i; for(i = 0; i < r->n; i++) if(r->dim[i] == 2) return 1; return 0; }

static int check_spec(const char *s, int must)
{
  static char *il[NINDEXLIST]; static int sym[3*NINDEXLIST]; int n = 0, i, k;
  static char nm[300][8]; static int sg[300][3];
  spec r; int p = parse_spec(s, &r), rn;
  vh_evals++;
  memset(il, 0, sizeof il);
  VH_TRY { tensorindexlist((char*)s, &n, il, sym); VH_END; }
  else n = 0;
  VH_END;
  if(!n) { if(must) vh_fail("rejected", "%s is not accepted", s); return 0; }
  vh_distinct++;
  if(!p) { vh_fail("accepted", "%s is accepted with %d components", s, n); return n; }
  rn = comps(&r, nm, sg);
  if(n != rn) vh_fail("ncomp", "%s has %d components, expected %d", s, n, rn);
  else for(i = 0; i < n; i++)
  {
    if(strcmp(il[i], nm[i])) { vh_fail("label", "%s component %d is %s, expected %s", s, i, il[i], nm[i]); break; }
    if(!has2d(&r)) for(k = 0; k < 3; k++) if(sym[3*i+k] != sg[i][k]) { vh_fail("sign", "%s component %s direction %d has sign %d", s, il[i], k, sym[3*i+k]); break; }
  }
  for(i = 0; i < n; i++) free(il[i]);
  return n;
}

/* ---- variable data base histories ---- */
typedef struct { char name[24], ti[12]; int comp, nc; double far, fall, sp; int cst, sym[3]; } mv;
typedef struct { int n; mv v[60]; } mdl;
static int mfind(const mdl *m, const char *n) { int i; for(i = 0; i < m->n; i++) if(!strcmp(m->v[i].name, n)) return i; return -1; }
static const char *NM[] = {"g", "gx", "h"};
static const char *TI[] = {"", "i", "(ij)"};
/* ops: 0-8 AddVar(n,t) 9-11 AddConstantVar(n,"i") 12-13 AddDuplicate(all of first tensor / all, "_p") 14-15 set boundary info of first/last var
   16 constant flag of the last var 17-18 move the search start to first/last 19 boundary info by name of middle */
#define NOPS 20
static int madd(mdl *m, const char *name, const char *ti)
{
  spec r; static char nm[300][8]; static int sg[300][3]; int n, i;
  parse_spec(ti, &r); n = comps(&r, nm, sg);
  for(i = 0; i < n; i++)
  {
    char f[32]; mv *v;
    sprintf(f, "%s%s", name, nm[i]);
    if(mfind(m, f) >= 0) return 1;
    v = &m->v[m->n++];
    memset(v, 0, sizeof *v);
    strcpy(v->name, f); strcpy(v->ti, ti); v->comp = i; v->nc = n; memcpy(v->sym, sg[i], sizeof v->sym);
  }
  return 0;
}
static int mdup(mdl *m, int i0, int n)
{
  int i;
  for(i = i0; i < i0+n; i++)
  {
    char f[40];
    sprintf(f, "%s_p", m->v[i].name);
    if(mfind(m, f) >= 0) return -1; /* mixed case: not explored */
    if(strlen(f) > 20) return -1;
  }
  for(i = i0; i < i0+n; i++) { mv *v = &m->v[m->n++]; *v = m->v[i]; strcat(v->name, "_p"); }
  return 0;
}
static void check_db(const mdl *m, const char *h)
{
  int i;
  tGrid *g = NULL;
  for(i = 0; i < m->n; i++)
  {
    const mv *v = &m->v[i];
    if(IndLax((char*)v->name) != i || Ind((char*)v->name) != i || strcmp(VarName(i), v->name)) { vh_fail("lookup", "%s: %s has index %d", h, v->name, IndLax((char*)v->name)); continue; }
    if(VarComponent(i) != v->comp || IndComponent0(i) != i - v->comp || VarNComponents(i) != v->nc || strcmp(VarTensorIndices(i), v->ti) ||
       strcmp(VarNameComponent0((char*)v->name), m->v[i-v->comp].name))
      vh_fail("component", "%s: %s component %d of %d, indices %s", h, v->name, VarComponent(i), VarNComponents(i), VarTensorIndices(i));
    if(VarFarLimit(i) != v->far || VarFallOff(i) != v->fall || VarPropSpeed(i) != v->sp) vh_fail("boundary", "%s: %s", h, v->name);
    if(!!VarConstantFlag(i) != v->cst) vh_fail("constant", "%s: %s is %d", h, v->name, VarConstantFlag(i));
    if(VarSymmetry(i, 0) != v->sym[0] || VarSymmetry(i, 1) != v->sym[1] || VarSymmetry(i, 2) != v->sym[2]) vh_fail("sym", "%s: %s", h, v->name);
  }
  if(IndLax("gg") >= 0 || IndLax("") >= 0 || IndLax("g_q") >= 0) vh_fail("lookup", "%s: found a variable that does not exist", h);
  { volatile int r = 0; VH_TRY { Ind("nope"); r = 1; VH_END; } VH_END; if(r) vh_fail("lookup", "%s: Ind of a missing variable returned", h); }
  { volatile int r = 0; VH_TRY { VarName(m->n); r = 1; VH_END; } VH_END; if(r) vh_fail("lookup", "%s: name of index %d", h, m->n); }
  { volatile int r = 0; VH_TRY { VarName(-1); r = 1; VH_END; } VH_END; if(r) vh_fail("lookup", "%s: name of index -1", h); }
  (void)g;
}
/* returns 0 ok, 1 error expected, -1 op not possible */
static int mapply(mdl *m, int o)
{
  int i;
  if(o < 9) return madd(m, NM[o/3], TI[o%3]);
  if(o < 12) { int e = madd(m, NM[o-9], "i"); if(!e) for(i = m->n-3; i < m->n; i++) m->v[i].cst = 1; return e; }
  if(!m->n) return -1;
  if(o == 12) return mdup(m, 0, m->v[0].nc);
  if(o == 13) { if(m->n > 14) return -1; return mdup(m, 0, m->n); }
  if(o == 14 || o == 15 || o == 19) { mv *v = &m->v[o == 14 ? 0 : o == 15 ? m->n-1 : m->n/2]; v->far = o; v->fall = 2*o; v->sp = 3*o; return 0; }
  if(o == 16) { mv *v = &m->v[m->n-1]; int i0 = m->n-1-v->comp; for(i = 0; i < v->nc; i++) m->v[i0+i].cst = 1; return 0; }
  return 0;
}
static int rapply(mdl *m, int o) /* m: model before the operation */
{
  VH_TRY
  {
    if(o < 9) AddVar((char*)NM[o/3], (char*)TI[o%3], "d");
    else if(o < 12) AddConstantVar((char*)NM[o-9], "i", "d");
    else if(o == 12 || o == 13)
    {
      tVarList *vl = vlalloc(NULL), *d; int i, n = o == 12 ? m->v[0].nc : m->n;
      for(i = 0; i < n; i++) vlpushone(vl, i);
      d = AddDuplicate(vl, "_p");
      if(d->n != n) vh_fail("dup", "duplicate list has %d variables", d->n);
      else for(i = 0; i < n; i++) if(d->index[i] != m->n+i) vh_fail("dup", "duplicate list entry %d is %d", i, d->index[i]);
      vlfree(vl); vlfree(d);
    }
    else if(o == 14 || o == 15 || o == 19) VarNameSetBoundaryInfo(m->v[o == 14 ? 0 : o == 15 ? m->n-1 : m->n/2].name, o, 2*o, 3*o);
    else if(o == 16) VarNameSetConstantFlag(m->v[m->n-1].name);
    else Set_vdb_iStart_AtPar(m->v[o == 17 ? 0 : m->n-1].name);
    VH_END;
    return 0;
  }
  VH_END;
  return 1;
}

int main(int argc, char **argv)
{
  static const char AL[] = "ijkabqr()[]";
  static const char *LEGAL[] = {"", "i", "ij", "(ij)", "[ij]", "ij+ji", "ij-ji", "ijk", "i(jk)", "(ij)k", "[ij]k", "ijk+ikj", "ijk+jik", "ijk-jik", "ijkl", "(ij)(kl)", "ijkl+ijlk+jikl+jilk",
    "a", "ab", "ai", "ab+ba", "(ab)", "abc+acb", "a(bc)", "aij+aji", "a(ij)", "abc+bac", "(ab)c", "abi+bai", "(ab)i", "(ab)(ij)", "abij+abji+baij+baji",
    "q", "qr", "qr+rq", "(qr)", "qrs+rqs", "(qr)s", "qrst+qrts+rqst+rqts", "(qr)(st)", "iq", "iqr", "iqr+irq", "i(qr)", "I", "Ij", "(IJ)K", "iA", NULL};
  int i, len, L, D, j;
  vh_init(argc, argv);
  if(vh_unit("documented specifications")) for(i = 0; LEGAL[i]; i++) check_spec(LEGAL[i], strcmp(LEGAL[i], "iA") != 0);
  L = vh_thorough ? 6 : 5;
  for(len = 1; len <= L; len++)
  {
    long tot = 1, x; int na = 11;
    for(i = 0; i < len; i++) tot *= na;
    for(x = 0; x < tot; )
    {
      long e = x+8192; if(e > tot) e = tot;
      if(!vh_unit("specifications of %d characters %ld..%ld", len, x, e-1)) { x = e; continue; }
      for(; x < e; x++)
      {
        char s[16]; long y = x;
        for(i = 0; i < len; i++) { s[i] = AL[y % na]; y /= na; }
        s[len] = 0;
        if(check_spec(s, 0)) vh_sample("%s", s);
      }
    }
  }
  D = vh_thorough ? 5 : 4;
  for(i = 0; i < NOPS; i++) for(j = 0; j < NOPS; j++) if(vh_unit("histories starting with %d,%d", i, j))
  {
    int n, k;
    for(n = 1; n <= D; n++)
    {
      long tot = 1, x;
      if(n == 1 && j) continue;
      for(k = 2; k < n; k++) tot *= NOPS;
      for(x = 0; x < tot; x++)
      {
        int h[8]; long y = x; mdl m; char hist[100] = ""; int stop = 0;
        h[0] = i; h[1] = j;
        for(k = 2; k < n; k++) { h[k] = y % NOPS; y /= NOPS; }
        m.n = 0;
        free_global_vdb();
        for(k = 0; k < n && !stop; k++)
        {
          mdl before = m; int e = mapply(&m, h[k]), r;
          sprintf(hist+strlen(hist), "%d;", h[k]);
          if(e < 0) { stop = 1; break; }
          vh_at("%s", hist);
          r = rapply(&before, h[k]);
          if(e != r) { vh_fail("add", "history %s: %s", hist, r ? "stopped with an error" : "a duplicate variable was accepted"); stop = 1; }
          if(e) { m = before; if(k < n-1) stop = 1; break; }
        }
        if(stop) continue;
        vh_trans++; vh_traces++; vh_states++;
        check_db(&m, hist);
      }
    }
  }
  return vh_done();
}

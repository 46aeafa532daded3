/* C01: the parameter database against an ordered map.
   Breadth first search over operation sequences; every transition runs the real
   functions from an empty database, the reference is a plain array. */
#include "sgrid.h"
#include "vh.h"
#undef exit

tParameter *GetPointerTo_pbd(void);
extern int npdbmax;

#define NN 3
static const char *NAMES[NN] = {"a", "ab", "b"};
static const char *VALS[] = {"x", "yx x", "", "3", "x y on", "2*pi"};
#define NV 6
static const char *WORDS[] = {"x", "y", "yx", "on", "3"};
#define NW 5

typedef struct { char name[8], val[64], desc[8]; } ment;
typedef struct { int n; ment e[NN]; int istart; } model;

enum { ADD, SETS, ADDMOD, APPEND, SETI, SETD, START, KINDS };
typedef struct { int k, n, v; } op;
static op OPS[256];
static int nops;

static void build_ops(void)
{
  int n, v;
  for(n = 0; n < NN; n++)
  {
    for(v = 0; v < NV; v++) OPS[nops++] = (op){ADD, n, v};
    for(v = 0; v < NV; v++) OPS[nops++] = (op){SETS, n, v};
    OPS[nops++] = (op){ADDMOD, n, 0};
    OPS[nops++] = (op){ADDMOD, n, 4};
    for(v = 0; v < 3; v++) OPS[nops++] = (op){APPEND, n, v};
    OPS[nops++] = (op){SETI, n, -7};
    OPS[nops++] = (op){SETD, n, 1};
    OPS[nops++] = (op){START, n, 0};
  }
}
static void op_str(const op *o, char *s)
{
  static const char *kn[] = {"AddPar", "Sets", "AddOrModifyPar", "Appends", "Seti", "Setd", "StartAt"};
  sprintf(s, "%s(%s,%s)", kn[o->k], NAMES[o->n],
          o->k <= ADDMOD ? VALS[o->v] : o->k == APPEND ? WORDS[o->v] : "");
}

static ment *mfind(model *m, const char *n)
{
  int i;
  for(i = 0; i < m->n; i++) if(!strcmp(m->e[i].name, n)) return &m->e[i];
  return NULL;
}
static void xlate(const char *v, char *out)
{
  if(!strcmp(v, "2*pi")) sprintf(out, "%.18e", 2*PI);
  else strcpy(out, v);
}
static int words(const char *v, char w[16][64])
{
  int n = 0;
  const char *p = v;
  while(*p)
  {
    int l = 0;
    while(*p == ' ') p++;
    if(!*p) break;
    while(*p && *p != ' ') w[n][l++] = *p++;
    w[n][l] = 0; n++;
  }
  return n;
}
static int has_word(const char *v, const char *w)
{
  char ws[16][64];
  int i, n = words(v, ws);
  for(i = 0; i < n; i++) if(!strcmp(ws[i], w)) return 1;
  return 0;
}

/* apply to the model; returns 1 if the real call must stop with an error */
static int m_apply(model *m, const op *o, int serial)
{
  ment *e = mfind(m, NAMES[o->n]);
  char v[64], t[64];
  switch(o->k)
  {
    case ADD: case ADDMOD:
      if(!e)
      {
        e = &m->e[m->n++];
        strcpy(e->name, NAMES[o->n]);
        xlate(VALS[o->v], e->val);
        sprintf(e->desc, "d%d", serial);
      }
      else if(o->k == ADD) sprintf(e->desc, "d%d", serial);
      else xlate(VALS[o->v], e->val);
      return 0;
    case SETS: if(!e) return 1; xlate(VALS[o->v], e->val); return 0;
    case APPEND:
      if(!e) return 1;
      if(has_word(e->val, WORDS[o->v])) return 0;
      if(e->val[0]) sprintf(v, "%s %s", e->val, WORDS[o->v]); else strcpy(v, WORDS[o->v]);
      xlate(v, t); strcpy(e->val, t);
      return 0;
    case SETI: if(!e) return 1; sprintf(e->val, "%d", o->v); return 0;
    case SETD: if(!e) return 1; sprintf(e->val, "%.20e", 0.1); return 0;
    case START: if(!e) return 1; m->istart = e - m->e; return 0;
  }
  return 0;
}
static int r_apply(const op *o, int serial)
{
  char d[8];
  sprintf(d, "d%d", serial);
  VH_TRY
  {
    switch(o->k)
    {
      case ADD: AddPar((char*)NAMES[o->n], (char*)VALS[o->v], d); break;
      case ADDMOD: AddOrModifyPar((char*)NAMES[o->n], (char*)VALS[o->v], d); break;
      case SETS: Sets((char*)NAMES[o->n], (char*)VALS[o->v]); break;
      case APPEND: Appends((char*)NAMES[o->n], (char*)WORDS[o->v]); break;
      case SETI: Seti((char*)NAMES[o->n], o->v); break;
      case SETD: Setd((char*)NAMES[o->n], 0.1); break;
      case START: Set_pdb_iStart_AtPar((char*)NAMES[o->n]); break;
    }
    VH_END;
    return 0;
  }
  VH_END;
  return 1;
}

static void check_all(model *m, const char *hist)
{
  int i, k, w;
  if(GetnParameters() != m->n) { vh_fail("count", "%s: %d parameters, expected %d", hist, GetnParameters(), m->n); return; }
  for(i = 0; i < NN; i++)
  {
    char *n = (char*)NAMES[i];
    ment *e = mfind(m, n);
    char *g = GetsLax(n);
    if(!e)
    {
      volatile int stopped = 1;
      if(g) vh_fail("lax", "%s: GetsLax(%s)=%s but it was never added", hist, n, g);
      for(w = 0; w < NW; w++) if(GetvLax(n, (char*)WORDS[w])) vh_fail("lax", "%s: GetvLax(%s) true but it was never added", hist, n);
      VH_TRY { Gets(n); VH_END; stopped = 0; }
      VH_END;
      if(!stopped) vh_fail("missing", "%s: Gets(%s) of a missing parameter returned", hist, n);
      continue;
    }
    if(!g || strcmp(g, e->val) || strcmp(Gets(n), e->val)) { vh_fail("value", "%s: %s=%s expected %s", hist, n, g ? g : "(none)", e->val); continue; }
    if(Geti(n) != atoi(e->val)) vh_fail("geti", "%s: Geti(%s)=%d value %s", hist, n, Geti(n), e->val);
    if(Getd(n) != atof(e->val)) vh_fail("getd", "%s: Getd(%s)=%g value %s", hist, n, Getd(n), e->val);
    for(w = 0; w < NW; w++)
    {
      int want = has_word(e->val, WORDS[w]);
      int got = Getv(n, (char*)WORDS[w]), got2 = GetvLax(n, (char*)WORDS[w]);
      if(!!got != want || !!got2 != want)
        vh_fail("getv", "%s: Getv(%s,%s)=%d/%d but the value is |%s|", hist, n, WORDS[w], got, got2, e->val);
    }
    k = GetParIndex(n);
    if(k != e - m->e) vh_fail("index", "%s: index of %s is %d expected %d", hist, n, k, (int)(e - m->e));
    else
    {
      int bv = atoi(e->val);
      if(strstr(e->val, "on")) bv = 1;
      if(!GetsInd(k) || strcmp(GetsInd(k), e->val) || strcmp(GetnameInd(k), n)) vh_fail("byindex", "%s: by index %d: %s=%s", hist, k, GetnameInd(k), GetsInd(k));
      if(GetCachedNumValByParIndex(k) != atof(e->val)) vh_fail("cachenum", "%s: cached number of %s is %g, value |%s|", hist, n, GetCachedNumValByParIndex(k), e->val);
      if(GetCachedBoolValByParIndex(k) != bv) vh_fail("cachebool", "%s: cached boolean of %s is %d, value |%s|", hist, n, GetCachedBoolValByParIndex(k), e->val);
      if(strcmp(GetPointerTo_pbd()[k].description, e->desc)) vh_fail("desc", "%s: description of %s is %s expected %s", hist, n, GetPointerTo_pbd()[k].description, e->desc);
    }
    { /* entries: a complete iteration, then a partial one that is reset, then again complete */
      char ws[16][64];
      int nw = words(e->val, ws), rep;
      for(rep = 0; rep < 3; rep++)
      {
        char *s;
        int c = 0, bad = 0, stop = rep == 1 ? 1 : 99;
        while(c < stop && (s = NextEntry(Gets(n))))
        {
          if(c >= nw || strcmp(s, ws[c])) { bad = 1; break; }
          if(++c > 20) { bad = 1; break; }
        }
        if(bad || (rep != 1 && c != nw))
        { vh_fail("nextentry", "%s: entries of |%s| (round %d): stopped at %d of %d", hist, e->val, rep, c, nw); NextEntry(0); break; }
        if(rep == 1) NextEntry(e->val[0] && nw > 1 ? NULL : "");
      }
      NextEntry(0);
    }
  }
  if(GetsInd(-1) || GetsInd(m->n) || GetnameInd(m->n)) vh_fail("byindex", "%s: entry outside the database", hist);
}

/* copies: equal, independent, and survive changes of the original */
static void check_copy(model *m, const char *hist)
{
  tParameter *p2 = NULL, *p3;
  int i, c, n = m->n;
  if(!n) return;
  create_copy_of_pdb1_in_pdb2(GetPointerTo_pbd(), n, npdbmax, &p2);
  p3 = make_empty_pdb(NN+1);
  copy_pdb(GetPointerTo_pbd(), n, p3);
  copy_pdb(GetPointerTo_pbd(), n, p3); /* again over existing content */
  for(i = 0; i < n; i++) Sets(m->e[i].name, "a much longer value than before, really");
  for(c = 0; c < 2; c++)
  {
    tParameter *p = c ? p3 : p2;
    for(i = 0; i < n; i++)
    {
      if(strcmp(p[i].name, m->e[i].name) || strcmp(p[i].value, m->e[i].val) || strcmp(p[i].description, m->e[i].desc) ||
         p[i].numericalvalue != atof(m->e[i].val))
        vh_fail("copy", "%s: copy %d entry %d is %s=%s", hist, c, i, p[i].name, p[i].value);
      if(p[i].value[0]) p[i].value[0] = 33;
      if(strcmp(Gets(m->e[i].name), "a much longer value than before, really")) vh_fail("copyalias", "%s: copy shares memory", hist);
    }
  }
  /* copying back restores everything */
  for(i = 0; i < n; i++) { free(p3[i].value); p3[i].value = strdup("zz"); }
  copy_pdb(p3, n, GetPointerTo_pbd());
  for(i = 0; i < n; i++) if(strcmp(Gets(m->e[i].name), "zz")) vh_fail("copyback", "%s: value after copying back %s", hist, Gets(m->e[i].name));
  free_pdb(p2, n);
  free_pdb(p3, n);
}

typedef struct { int len; unsigned char h[12]; } node;

int main(int argc, char **argv)
{
  node *q;
  long qh = 0, qt = 0, qcap = 1 << 22;
  vh_set seen = {0};
  int maxdepth, i;
  vh_init(argc, argv);
  build_ops();
  maxdepth = vh_thorough ? 6 : 4;

  /* all histories, split over the shards by their first operation */
  for(i = 0; i < nops; i++)
  {
    node first;
    char us[300];
    op_str(&OPS[i], us);
    if(!vh_unit("sequences starting with %s", us)) continue;
    q = calloc(qcap, sizeof(node));
    qh = qt = 0;
    first.len = 1; first.h[0] = i;
    q[qt++] = first;
    memset(&seen, 0, sizeof seen);
    while(qh < qt)
    {
      node nd = q[qh++];
      model m;
      char hist[900] = "";
      int k, stop = 0;
      memset(&m, 0, sizeof m);
      free_global_parameter_database_contents();
      for(k = 0; k < nd.len; k++)
      {
        char s[100];
        int es, rs;
        op_str(&OPS[nd.h[k]], s);
        strcat(hist, s); strcat(hist, ";");
        if(k == nd.len-1) vh_at("%s", hist);
        es = m_apply(&m, &OPS[nd.h[k]], OPS[nd.h[k]].v);
        rs = r_apply(&OPS[nd.h[k]], OPS[nd.h[k]].v);
        if(es != rs) { vh_fail("stop", "%s: %s", hist, rs ? "stopped with an error" : "accepted a missing parameter"); stop = 1; break; }
        if(es) { stop = 1; if(k == nd.len-1) { check_all(&m, hist); } break; }
      }
      vh_trans++; vh_traces++;
      if(stop) continue;
      check_all(&m, hist);
      for(k = 0; k < m.n; k++) if(strlen(m.e[k].val) > 24) stop = 1;
      if(vh_set_add(&seen, vh_hash(&m, sizeof m, 0)))
      {
        vh_states++;
        if(vh_states % 997 == 5) vh_sample("%s", hist);
        if(nd.len <= 4) check_copy(&m, hist);
        if(!stop && nd.len < maxdepth && vh_fails < 20)
          for(k = 0; k < nops; k++)
          {
            if(qt >= qcap) { fprintf(vh_out, "@NOTE\tqueue full in %s\n", us); break; }
            q[qt] = nd; q[qt].h[nd.len] = k; q[qt].len++; qt++;
          }
      }
    }
    free(q); free(seen.t);
  }

  /* every power of two and its neighbours survive being stored as a real */
  if(vh_unit("reals"))
  {
    int e, s;
    free_global_parameter_database_contents();
    AddPar("a", "0", "");
    for(e = -1074; e <= 1023; e++)
      for(s = -2; s <= 2; s++)
      {
        double d = ldexp(1.0, e);
        if(s == 1) d = nextafter(d, 1e308);
        if(s == -1) d = nextafter(d, 0);
        if(s == 2) d = -d;
        if(s == -2) d = -d/3;
        Setd("a", d);
        vh_evals++;
        if(Getd("a") != d || GetCachedNumValByParIndex(GetParIndex("a")) != d) vh_fail("setd", "%a came back as %a", d, Getd("a"));
      }
    for(e = 0; e < 32; e++) for(s = -1; s <= 1; s++)
    {
      int v = (int)((1u << e) + s);
      Seti("a", v); vh_evals++;
      if(Geti("a") != v) vh_fail("seti", "%d came back as %d", v, Geti("a"));
      Seti("a", -v);
      if(Geti("a") != -v) vh_fail("seti", "%d came back as %d", -v, Geti("a"));
    }
  }
  /* many parameters: order, start position anywhere, lookups and the reset of the database */
  if(vh_unit("many"))
  {
    int N = 40, r, st;
    char b[32], v[32];
    for(r = 0; r < 2; r++)
    {
      free_global_parameter_database_contents();
      if(GetnParameters() != 0) vh_fail("reset", "%d parameters after the database was emptied", GetnParameters());
      for(i = 0; i < N; i++) { sprintf(b, "par%d", i*7%N); sprintf(v, "%d", i + 100*r); AddPar(b, v, "d"); }
      for(st = 0; st < N; st++)
      {
        sprintf(b, "par%d", st);
        Set_pdb_iStart_AtPar(b);
        for(i = 0; i < N; i++)
        {
          sprintf(b, "par%d", i*7%N); vh_evals++;
          if(Geti(b) != i + 100*r || GetParIndex(b) != i) vh_fail("many", "start %d: %s=%s index %d", st, b, Gets(b), GetParIndex(b));
        }
        if(GetsLax("par") || GetsLax("par400") || GetsLax("")) vh_fail("many", "found a parameter that does not exist");
      }
    }
  }
  return vh_done();
}

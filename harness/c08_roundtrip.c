/* C08: write a checkpoint in one process, read it in another one that has built
   a fresh grid: every bit of every selected variable, parameters, time, iteration. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#undef exit
void checkpoint_write(tGrid *grid);
void checkpoint_read(tGrid *grid);
void evolve_vlregister(tVarList *u);
size_t fwrite_double_little(const double *, size_t, FILE *);
size_t fread_double_little(double *, size_t, FILE *);

#define NV 4   /* u (2 components, evolved), v, w, s (3 components) */
static const char *VN[NV] = {"cku", "ckv", "ckw", "cks"};
static const char *TI[NV] = {"i2", "", "", "i"};
typedef struct {
  int keep, nb, n[3][3], all, add, wen, ren, shift, reg; const char *pv, *pv2; double time; int it; double xmax; const char *bas, *text, *name, *list;
  int fail, tv; char msg[600];
} conf;
static conf *C;   /* in shared memory */

static const uint64_t SPEC[] = {
 0, 0x8000000000000000ULL, 1, 0x8000000000000001ULL, 0x000fffffffffffffULL, 0x0010000000000000ULL, 0x7fefffffffffffffULL, 0xffefffffffffffffULL,
 0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x7ff8000000000000ULL, 0xfff8000000000000ULL, 0x7ff0000000000001ULL, 0xfff4deadbeef1234ULL, 0x7fffffffffffffffULL,
 0x3ff0000000000000ULL, 0x3fd5555555555555ULL, 0x0102030405060708ULL, 0x0a0a0a0a0a0a0a0aULL, 0x0d0a0d0a20090a0aULL, 0x2020202020202020ULL,
 0x62616972617624ULL /* "$variab" */, 0x656c6261697261ULL, 0x203d20656c6261ULL, 0x3d3d3d3d3d3d3d3dULL, 0x5f444e4524ULL, 0xffffffffffffffffULL, 0x1a1a1a1a1a1a1a1aULL, 0x0a656c6261697261ULL};
#define NSPEC ((int)(sizeof(SPEC)/8))
/* bit pattern of component c of variable v at point i of box b */
static uint64_t pat(int b, int v, int c, int i, int sh)
{
  if(C->text && v == C->tv) { char t[8]; int k, n = strlen(C->text); uint64_t x; for(k = 0; k < 8; k++) t[k] = C->text[(8*i+k+sh) % n]; memcpy(&x, t, 8); return x; }
  return SPEC[(i + 5*b + 7*v + 3*c + sh) % NSPEC];
}
static uint64_t mark(int b, int v, int c, int i) { return 0x4030000000000000ULL + (b<<20) + (v<<16) + (c<<12) + i; }

static int ncomp(int v) { return VarNComponents(Ind((char*)(v == 0 ? "ckux" : v == 3 ? "cksx" : VN[v]))); }
static int ind0(int v) { return Ind((char*)(v == 0 ? "ckux" : v == 3 ? "cksx" : VN[v])); }

static tGrid *build(int reading)
{
  int b, v; tGrid *g; tVarList *vl;
  AddOrModifyPar("firstpar", (char*)(reading ? "other" : C->pv), "");
  vg_begin(C->nb);
  vg_par("outdir", "%s/o", getenv("VH_SCRATCH"));
  vg_par("checkpoint", "yes");
  for(b = 0; b < C->nb; b++) { vg_box(b, C->n[b][0], C->n[b][1], C->n[b][2], C->bas, C->bas, C->bas); vg_lim(b, b, b+1, 0, 1, -1, reading ? 1 : C->xmax); }
  AddOrModifyPar("tp1", (char*)(reading ? "other" : C->pv), "");
  AddOrModifyPar("tp2", (char*)(reading ? "fresh" : C->pv2), "");
  vg_par("tp3", "%s", "same");
  vg_par("iterations", "%s", reading ? "99" : "11");   /* in the list of parameters that keep a new value */
  if(!reading) vg_par("onlyold", "1"); else vg_par("onlynew", "1");
  vg_par("checkpoint_variables", C->all ? "all" : "auto");
  if(C->name) { vg_par(C->name, reading ? "fresh value" : "old value"); vg_par(C->name, reading ? "fresh value" : "old value"); if(C->list) vg_par("checkpoint_no_read_parlist", "%s", C->list); }
  { char s[200] = ""; if(C->add & 1) strcat(s, " ckv"); if(C->add & 2) strcat(s, " ckw"); if(C->add & 4) strcat(s, " cksy"); if(C->add & 8) strcat(s, " ckux"); vg_par("checkpoint_additional_variables", "%s", s[0] ? s+1 : ""); }
  vg_libs();
  AddVar("cku", "i", ""); AddVar("ckv", "", ""); AddVar("ckw", "", ""); AddVar("cks", "i", "");
  g = vg_make();
  for(v = 0; v < NV; v++) if(((reading ? C->ren : C->wen) >> v) & 1) enablevar(g, ind0(v));
  vl = vlalloc(g);
  vlpush(vl, ind0(0));
  if(C->reg) evolve_vlregister(vl);
  return g;
}
static void writer(void *a)
{
  tGrid *g = build(0); int b, v, c, i;
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++) for(c = 0; c < ncomp(v); c++)
  { double *d = g->box[b]->v[ind0(v)+c]; if(d) for(i = 0; i < g->box[b]->nnodes; i++) { uint64_t x = pat(b, v, c, i, C->shift); memcpy(d+i, &x, 8); } }
  g->time = C->time; g->iteration = C->it;
  checkpoint_write(g);
}
static int bad(const char *f, ...)
{
  va_list ap;
  if(C->fail) return 0;
  C->fail = 1; va_start(ap, f); vsnprintf(C->msg, 599, f, ap); va_end(ap);
  return 0;
}
static void reader(void *a)
{
  tGrid *g = build(1); int b, v, c, i;
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++) for(c = 0; c < ncomp(v); c++)
  { double *d = g->box[b]->v[ind0(v)+c]; if(d) for(i = 0; i < g->box[b]->nnodes; i++) { uint64_t x = mark(b, v, c, i); memcpy(d+i, &x, 8); } }
  checkpoint_read(g);
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++) for(c = 0; c < ncomp(v); c++)
  {
    double *d = g->box[b]->v[ind0(v)+c]; int w = (C->wen >> v) & 1, r = (C->ren >> v) & 1, sel;
    sel = C->all || (v == 0 && C->reg) || (v == 1 && (C->add & 1)) || (v == 2 && (C->add & 2)) || (v == 3 && (C->add & 4)) || (v == 0 && (C->add & 8));
    if((d != NULL) != r) { bad("variable %d of box %d %s storage after reading", v, b, d ? "has" : "has no"); continue; }
    if(!r) continue;
    if(g->box[b]->nnodes != C->n[b][0]*C->n[b][1]*C->n[b][2]) { bad("box %d has %d points", b, g->box[b]->nnodes); continue; }
    for(i = 0; i < g->box[b]->nnodes; i++)
    {
      uint64_t x, want = (sel && w) ? pat(b, v, c, i, C->shift) : mark(b, v, c, i);
      memcpy(&x, d+i, 8);
      if(x != want) bad("%s component %d box %d point %d is %016llx, expected %016llx", VN[v], c, b, i, (long long)x, (long long)want);
    }
  }
  if(memcmp(&g->time, &C->time, 8)) bad("time is %.17g, was %.17g", g->time, C->time);
  if(g->iteration != C->it) bad("iteration is %d, was %d", g->iteration, C->it);
  if(strcmp(Gets("tp1"), C->pv)) bad("parameter is |%s|, was |%.100s|", Gets("tp1"), C->pv);
  if(strcmp(Gets("tp2"), C->pv2)) bad("parameter 2 is |%s|, was |%.100s|", Gets("tp2"), C->pv2);
  if(strcmp(Gets("tp3"), "same")) bad("parameter 3 is |%s|", Gets("tp3"));
  if(strcmp(Gets("firstpar"), C->pv)) bad("the first parameter is |%s|, was |%.100s|", Gets("firstpar"), C->pv);
  if(C->name)
  {
    int keep = C->keep;
    if(strcmp(Gets((char*)C->name), keep ? "fresh value" : "old value")) bad("parameter %s is |%s|, but it is %s the list of parameters which are not read (%s)", C->name, Gets((char*)C->name), keep ? "in" : "not in", C->list ? C->list : "default");
  }
  if(C->list ? 0 : Geti("iterations") != 99) bad("parameter iterations did not keep its new value");
  if(Geti("onlynew") != 1) bad("new parameter changed");
  for(b = 0; b < C->nb; b++) if(g->box[b]->bbox[5] != C->xmax) bad("box %d ends at %g, expected %g", b, g->box[b]->bbox[5], C->xmax);
}
static void clean(void)
{
  char d[600];
  snprintf(d, 599, "%s/o", getenv("VH_SCRATCH")); vr_rmtree(d); mkdir(d, 0700);
  snprintf(d, 599, "%s/o_previous", getenv("VH_SCRATCH")); vr_rmtree(d);
}
static void one(const char *what)
{
  char a[600], b[600];
  C->fail = 0;
  vh_at("%s: boxes %d, %dx%dx%d, all %d, additional %d, written %d, read %d, shift %d, par |%.60s| |%.60s|", what, C->nb, C->n[0][0], C->n[0][1], C->n[0][2], C->all, C->add, C->wen, C->ren, C->shift, C->pv, C->pv2);
  clean();
  vh_fork(writer, NULL);
  snprintf(a, 599, "%s/o", getenv("VH_SCRATCH")); snprintf(b, 599, "%s/o_previous", getenv("VH_SCRATCH"));
  rename(a, b);
  vh_fork(reader, NULL);
  vh_evals++; vh_states++; vh_trans += 2; vh_distinct++;
  vh_sample("%s: %d boxes %dx%dx%d, all=%d additional=%d written=%d read=%d", what, C->nb, C->n[0][0], C->n[0][1], C->n[0][2], C->all, C->add, C->wen, C->ren);
  if(C->fail) vh_fail("roundtrip", "%s [boxes %d, %dx%dx%d, all %d additional %d written %d read %d shift %d par |%.60s| |%.60s|]", C->msg, C->nb, C->n[0][0], C->n[0][1], C->n[0][2], C->all, C->add, C->wen, C->ren, C->shift, C->pv, C->pv2);
}
static void dflt(void)
{
  int b;
  C->nb = 2; C->all = 1; C->add = 0; C->wen = C->ren = 15; C->shift = 0; C->pv = "a b"; C->pv2 = "1.5"; C->time = 0.1; C->it = 7; C->xmax = 2; C->bas = "ChebExtrema"; C->reg = 1; C->text = NULL; C->tv = 0; C->name = C->list = NULL; C->keep = 0;
  for(b = 0; b < 3; b++) { C->n[b][0] = 2; C->n[b][1] = 2; C->n[b][2] = 2+b; }
}
static char longv[8000];
int main(int argc, char **argv)
{
  int i, j, k, l, m;
  vh_init(argc, argv);
  C = mmap(NULL, sizeof(conf), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  memset(longv, 'q', 7990); longv[5] = ' '; longv[3000] = ' ';
  /* every value at every position */
  for(k = 0; k < NSPEC; k++) if(vh_unit("value:%d", k)) { dflt(); C->shift = k; one("values"); C->all = 0; C->add = 7; one("values, selected"); }
  /* data that looks like the text of a checkpoint, in variables that are or are not read back */
  {
    const char *T[] = {"$variable = ckw : box = 0 , box->nnodes = 8 \n                ", "$END_variables\n", "$END_variables\n$variable = ckv : box = 1 , box->nnodes = 12 \n ", "$", "$$variable", "$variable = ", "\n$variable = ckw\n", "$BEGIN_variables:\n", "$END_parameter_database\n$variable", "     ", "\n", "box = 7 "};
    for(k = 0; k < (int)(sizeof(T)/sizeof(T[0])); k++) for(m = 0; m < NV; m++) if(vh_unit("text:%d:%d", k, m))
      for(i = 0; i < 4; i++) for(j = 0; j < (vh_thorough ? (int)strlen(T[k]) : 3); j++)
      {
        dflt(); C->text = T[k]; C->tv = m; C->shift = j; C->all = 1; C->n[0][0] = 3;
        if(i & 1) C->ren = 15 & ~(1 << m);
        if(i & 2) { C->all = 0; C->add = 7; }
        one("text as data");
      }
  }
  /* selections */
  for(m = 0; m < 16; m++) for(k = 0; k < 2; k++) if(vh_unit("select:%d:%d", m, k))
    for(i = 0; i < 16; i++)
      for(j = 0; j < 16; j++)
      {
        if(!vh_thorough && !((i == 15 && j == 15) || ((m == 0 || m == 6) && (i == 15 || j == 15)) || (m == 9 && i == j))) continue;
        if(k && m && !vh_thorough) continue;
        dflt(); C->all = k; C->add = m; C->wen = i; C->ren = j; C->reg = (i+m) & 1; if(!(i & 1)) C->reg = 0;
        one("selection");
      }
  /* grid shapes */
  for(i = 1; i <= 4; i++) for(j = 1; j <= 4; j++) if(vh_unit("shape:%d:%d", i, j))
    for(k = 1; k <= 4; k++) for(l = 1; l <= 3; l++)
    {
      dflt(); C->nb = l; C->n[0][0] = i; C->n[0][1] = j; C->n[0][2] = k; C->n[1][0] = k; C->n[1][1] = i; C->n[1][2] = j; C->shift = i*j*k; C->all = (i+j+k+l) & 1;
      C->bas = "Fourier";
      one("shape");
    }
  /* parameter values */
  {
    const char *P[] = {"", "a", "a b", "x=y", "= z", " lead", "  two", "trail ", "a  b", "$END_parameter_database", "$BEGIN_variables:", "$variable = ckw", "#x", "\"q\"", "1e-300", "-0.1", "a=b=c", longv, "tp1 = 3", "=", " ", "%s%d"};
    int NP = sizeof(P)/sizeof(P[0]);
    for(i = 0; i < NP; i++) if(vh_unit("par:%d", i)) for(j = 0; j < NP; j++) { if(!vh_thorough && j && j != NP-1 && j != i && j != (i*7+3)%NP) continue; dflt(); C->pv = P[i]; C->pv2 = P[j]; C->wen = C->ren = 3; one("parameters"); }
  }
  /* parameters whose name resembles one in the list of those which are not read */
  {
    const char *E[] = {"checkpoint", "finaltime", "iterations", "outdir", "parameterfile", "iterate_parameters"};
    static char nm[200][60]; static char kp[200]; int nn = 0, a, b; const char *LS[] = {NULL, "aa bb cc", "aa  bb cc", " aa bb cc", "aa bb cc ", "aa", "ccc bb aaa", "aaa aa a", "aabb bbcc"};
    const char *Q[] = {"aa", "bb", "cc", "a", "b", "aaa", "aab", "aabb", "bbcc", "ccc", "bb cc"};
    for(i = 0; i < 6; i++)
    {
      int L = strlen(E[i]);
      for(a = 0; a < L; a++) for(b = a+1; b <= L; b++)
      {
        if(a && b < L && !(a == 1 && b == L-1)) continue;
        if(b-a == L) continue;
        if(!vh_thorough && b-a != L-1 && b-a != 4 && b-a != 5 && !strchr("_", E[i][a ? a-1 : b])) continue;
        sprintf(nm[nn], "%.*s", b-a, E[i]+a); nn++;
      }
      sprintf(nm[nn++], "%sx", E[i]); sprintf(nm[nn++], "x%s", E[i]); sprintf(nm[nn++], "%s_dir", E[i]);
      if(nn > 190) break;
    }
    for(i = 0; i < nn; i++)
    {
      for(k = 0, j = 0; j < 6; j++) if(!strcmp(nm[i], E[j])) k = 1;
      kp[i] = k || !strcmp(nm[i], "checkpoint_no_read_parlist");
      if(kp[i] || !strcmp(nm[i], "checkpoint") || !strcmp(nm[i], "checkpoint_outdir") || !strcmp(nm[i], "checkpoint_dir")) continue;
      if(vh_unit("name:%s", nm[i])) { dflt(); C->name = nm[i]; C->wen = C->ren = 3; one("parameter names"); }
    }
    for(j = 1; j < 9; j++) if(vh_unit("list:%d", j)) for(i = 0; i < 10; i++)
    {
      char t[100], q[100]; sprintf(t, " %s ", LS[j]); sprintf(q, " %s ", Q[i]);
      static char full[200]; sprintf(full, "%s", LS[j]);
      dflt(); C->name = Q[i]; C->list = full; C->keep = strstr(t, q) != NULL; C->wen = C->ren = 3; one("parameter list");
    }
  }
  /* time and iteration, changed box limits */
  {
    double T[] = {0, 0.1, 1./3, 1e-9, 123456.789012345, 1e300, -2.5, 5e-324, 0.30000000000000004, 1234567.1};
    int I[] = {0, 1, 7, 1000000, 2147483647};
    double X[] = {2, 1, 1.1, 1e-3+1, 3.0000000000000004};
    for(i = 0; i < 10; i++) if(vh_unit("time:%d", i)) for(j = 0; j < 5; j++) for(k = 0; k < 5; k++) { if(!vh_thorough && (i+j+k)%3) continue; dflt(); C->time = T[i]; C->it = I[j]; C->xmax = X[k]; C->wen = C->ren = 3; one("time"); }
  }
  return vh_done();
}

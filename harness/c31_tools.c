/* C31: the stand-alone tools.  Checkpoints are written by the program, changed by
   a tool, looked at with an independent parser and read by the program again. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#undef exit
void checkpoint_write(tGrid *grid);
void checkpoint_read(tGrid *grid);
void dump3d_boxvar(tBox *box, char *name);

#define NV 5
static const char *VN[NV] = {"ckux", "ckuy", "ckuz", "ckv", "ckvx"};
#define PV0 "a b"
typedef struct {
  int nb, n[3][3], shift, wen; double time; int it; const char *p1, *p2;
  /* what the reader has to find */
  int keep, others, mvar; double mul, add; const char *mpar, *mval;
  int fail; char msg[600];
} conf;
static conf *C;
static char DO[600], DP[600], IN[700], OUT[700], TMP[700], TMP2[700];

static const uint64_t SPEC[] = {
 0, 0x8000000000000000ULL, 1, 0x000fffffffffffffULL, 0x7fefffffffffffffULL, 0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x7ff8000000000000ULL, 0xfff8000000000000ULL,
 0x3ff0000000000000ULL, 0x3fd5555555555555ULL, 0x0102030405060708ULL, 0x0a0a0a0a0a0a0a0aULL, 0x0d0a0d0a20090a0aULL, 0x2020202020202020ULL,
 0x3ff00000000a0a00ULL, 0x0a61616972617624ULL, 0x656c6261697261ULL, 0x3d3d3d3d3d3d3d3dULL, 0x5f444e4524ULL, 0xffffffffffffffffULL, 0x1a1a1a1a1a1a1a1aULL, 0x40934a456d5cfaadULL, 0xc0c81cd6c8b43958ULL};
#define NSPEC ((int)(sizeof(SPEC)/8))
static double pat(int b, int v, int i)
{ double x; uint64_t k = SPEC[(i + 5*b + 7*v + C->shift) % NSPEC]; memcpy(&x, &k, 8); return x; }
static double mark(int b, int v, int i) { return 64 + b + 0.125*v + 1e-3*i; }
static int same(double a, double b) { return !memcmp(&a, &b, 8) || (a != a && b != b); }
static int bits(double a, double b) { return !memcmp(&a, &b, 8); }

static tGrid *build(int reading)
{
  int b, v; tGrid *g;
  vg_begin(C->nb);
  vg_par("outdir", "%s", DO);
  vg_par("checkpoint", "yes");
  for(b = 0; b < C->nb; b++) { vg_box(b, C->n[b][0], C->n[b][1], C->n[b][2], "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, b, b+1, 0, 1, -1, 1); }
  AddOrModifyPar("tp1", (char*)(reading ? "other" : C->p1), "");
  AddOrModifyPar("tp12", (char*)(reading ? "fresh" : C->p2), "");
  AddOrModifyPar("tp", (char*)(reading ? "new" : "12.5"), "");
  vg_par("checkpoint_variables", "all");
  vg_libs();
  AddVar("cku", "i", ""); AddVar("ckv", "", ""); AddVar("ckvx", "", "");
  g = vg_make();
  enablevar(g, Ind("ckux")); enablevar(g, Ind("ckv")); enablevar(g, Ind("ckvx"));
  return g;
}
static void writer(void *a)
{
  tGrid *g = build(0); int b, v, i;
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++)
  { double *d = g->box[b]->v[Ind((char*)VN[v])]; for(i = 0; i < g->box[b]->nnodes; i++) d[i] = pat(b, v, i); }
  g->time = C->time; g->iteration = C->it;
  checkpoint_write(g);
}
static int bad(const char *f, ...)
{
  va_list ap;
  if(C->fail) return 0;
  C->fail = 1; va_start(ap, f); vsnprintf(C->msg, 599, f, ap); va_end(ap);
  return 0;
}
static double want(int b, int v, int i)
{
  double x = pat(b, v, i);
  if(v == C->mvar) { x *= C->mul; x += C->add; }
  return x;
}
static int okval(double x, int b, int v, int i)
{
  double p = pat(b, v, i), w;
  if(v != C->mvar) return bits(x, p);
  if(C->mul == 1 && C->add == 0) return bits(x, p) || same(x, p);
  w = want(b, v, i);
  return same(x, w) || same(x, fma(p, C->mul, C->add)) || (x == 0 && w == 0);
}
static void reader(void *a)
{
  tGrid *g = build(1); int b, v, i;
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++)
  { double *d = g->box[b]->v[Ind((char*)VN[v])]; for(i = 0; i < g->box[b]->nnodes; i++) d[i] = mark(b, v, i); }
  checkpoint_read(g);
  for(b = 0; b < C->nb; b++) for(v = 0; v < NV; v++)
  {
    double *d = g->box[b]->v[Ind((char*)VN[v])];
    for(i = 0; i < g->box[b]->nnodes; i++)
      if((C->keep >> v) & 1) { if(!okval(d[i], b, v, i)) bad("the program reads %s box %d point %d as %.17g, expected %.17g", VN[v], b, i, d[i], want(b, v, i)); }
      else if(!bits(d[i], mark(b, v, i))) bad("the program reads %s box %d point %d, which was pruned, as %.17g", VN[v], b, i, d[i]);
  }
  if(memcmp(&g->time, &C->time, 8)) bad("the program reads the time as %.17g, was %.17g", g->time, C->time);
  if(g->iteration != C->it) bad("the program reads the iteration as %d, was %d", g->iteration, C->it);
  { const char *P[] = {"tp1", "tp12", "tp"}, *V[] = {C->p1, C->p2, "12.5"}; for(i = 0; i < 3; i++) { const char *w = C->mpar && !strcmp(C->mpar, P[i]) ? C->mval : V[i]; if(strcmp(Gets((char*)P[i]), w)) bad("the program reads parameter %s as |%.100s|, expected |%.100s|", P[i], Gets((char*)P[i]), w); } }
}

/* ------------------------------------------------------------------ */
static char *slurp(const char *f, long *n)
{
  FILE *fp = fopen(f, "rb"); char *b; long m;
  if(!fp) { *n = -1; return NULL; }
  fseek(fp, 0, SEEK_END); m = ftell(fp); rewind(fp);
  b = malloc(m+1); *n = fread(b, 1, m, fp); b[*n] = 0; fclose(fp);
  return b;
}
static void spit(const char *f, const void *d, long n) { FILE *fp = fopen(f, "wb"); if(!fp || (long)fwrite(d, 1, n, fp) != n) _exit(98); fclose(fp); }
static char tout[65536];
/* run a tool, returns exit status (1000+signal, 2000 on a sanitizer report) */
static int tool(const char *name, ...)
{
  char exe[700], *av[30]; int n = 1, p[2], st, r, m = 0; va_list ap; pid_t pid;
  snprintf(exe, 699, "%s/%s", getenv("VH_TOOLS"), name);
  av[0] = exe;
  va_start(ap, name); while((av[n] = va_arg(ap, char*))) n++; va_end(ap);
  fflush(NULL);
  if(pipe(p)) _exit(97);
  pid = fork();
  if(pid == 0) { dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]); alarm(60); execv(exe, av); _exit(127); }
  close(p[1]);
  while((r = read(p[0], tout+m, 65000-m)) > 0) m += r;
  while(m >= 65000 && (r = read(p[0], exe, 600)) > 0);
  close(p[0]); tout[m] = 0;
  waitpid(pid, &st, 0);
  vh_trans++;
  if(WIFSIGNALED(st)) return 1000+WTERMSIG(st);
  if(WEXITSTATUS(st) == 77) return 2000;
  if(WEXITSTATUS(st) == 127) _exit(95);
  return WEXITSTATUS(st);
}
static void crash(const char *what, int rc)
{
  char *e = strstr(tout, "ERROR: AddressSanitizer"); char m[200] = ""; int i;
  if(!e) e = strstr(tout, "runtime error");
  if(e) { snprintf(m, 199, "%s", e); for(i = 0; m[i]; i++) if(m[i] == '\n' || m[i] == '\t') m[i] = ' '; }
  vh_fail("tool-crash", "%s ends with %d %s", what, rc, m);
}

/* independent parser of checkpoints: text before the variables, then blocks */
typedef struct { char name[100]; int box, n; const char *d; } blk;
typedef struct { char *buf; long len, head; int nblk; blk b[200]; int end; } ckpt;
static int parse(const char *f, ckpt *c)
{
  char *p, *e;
  memset(c, 0, sizeof(*c));
  c->buf = slurp(f, &c->len);
  if(!c->buf) return 0;
  for(p = c->buf; ; p = e+1)   /* text lines until the one that starts the variables */
  {
    e = memchr(p, '\n', c->buf+c->len-p);
    if(!e) return 0;
    if(e-p >= 17 && !memcmp(p, "$BEGIN_variables:", 17)) { p = e+1; break; }
  }
  c->head = p-c->buf;
  while(c->nblk < 200)
  {
    blk *b = c->b+c->nblk;
    while(p < c->buf+c->len && isspace(*p)) p++;
    if(c->buf+c->len-p >= 14 && !memcmp(p, "$END_variables", 14))
    { p += 14; c->end = 1; while(p < c->buf+c->len && isspace(*p)) p++; return p == c->buf+c->len; }
    if(sscanf(p, "$variable = %99s : box = %d , box->nnodes = %d", b->name, &b->box, &b->n) != 3) return 0;
    e = memchr(p, '\n', c->buf+c->len-p);
    if(!e || e+1+8L*b->n > c->buf+c->len) return 0;
    b->d = e+1; p = e+1+8L*b->n;
    c->nblk++;
  }
  return 0;
}
static void write_input(void)
{
  vr_rmtree(DO); mkdir(DO, 0700); vr_rmtree(DP);
  vh_fork(writer, NULL);
  mkdir(DP, 0700);
}
static char ctx[1000];
static void report(const char *sig) { if(C->fail) vh_fail(sig, "%s [%s]", C->msg, ctx); C->fail = 0; }
/* compare a changed checkpoint with the input */
static void compare(const char *sig, int readit)
{
  ckpt a, b; int i, j, k; long n0; static char *saved; 
  C->fail = 0;
  vh_evals++; vh_distinct++;
  if(!parse(IN, &a)) { bad("the input cannot be parsed any more"); report(sig); return; }
  if(!parse(OUT, &b)) { bad("the output is not a complete checkpoint"); report(sig); free(a.buf); free(b.buf); return; }
  /* text, line by line */
  {
    char *p = a.buf, *q = b.buf, *pe = a.buf+a.head, *qe = b.buf+b.head;
    while(p < pe && q < qe)
    {
      char *e = memchr(p, '\n', pe-p), *f = memchr(q, '\n', qe-q); int lp = e-p, lq = f-q; char line[9000];
      int ismod = 0;
      if(C->mpar) { int l = strlen(C->mpar); ismod = lp >= l+3 && !memcmp(p, C->mpar, l) && !memcmp(p+l, " = ", 3); }
      if(ismod) { snprintf(line, 8999, "%s = %s", C->mpar, C->mval); if(lq != (int)strlen(line) || memcmp(q, line, lq)) bad("line |%.*s| became |%.*s|, expected |%.80s|", lp > 80 ? 80 : lp, p, lq > 80 ? 80 : lq, q, line); }
      else if(lp != lq || memcmp(p, q, lp)) bad("line |%.*s| became |%.*s|", lp > 80 ? 80 : lp, p, lq > 80 ? 80 : lq, q);
      p = e+1; q = f+1;
    }
    if(p != pe || q != qe) bad("the text before the variables has another number of lines");
  }
  for(i = j = 0; i < a.nblk; i++)
  {
    int v = -1;
    for(k = 0; k < NV; k++) if(!strcmp(a.b[i].name, VN[k])) v = k;
    if(v < 0 ? !C->others : !((C->keep >> v) & 1)) continue;
    if(j >= b.nblk) { bad("%s of box %d is missing", a.b[i].name, a.b[i].box); break; }
    if(strcmp(b.b[j].name, a.b[i].name) || b.b[j].box != a.b[i].box || b.b[j].n != a.b[i].n) { bad("instead of %s box %d with %d points there is %s box %d with %d", a.b[i].name, a.b[i].box, a.b[i].n, b.b[j].name, b.b[j].box, b.b[j].n); break; }
    if(v < 0) { if(memcmp(a.b[i].d, b.b[j].d, 8*a.b[i].n)) bad("%s of box %d has changed", a.b[i].name, a.b[i].box); }
    else for(k = 0; k < a.b[i].n; k++)
    { double x; memcpy(&x, b.b[j].d+8*k, 8); if(!okval(x, a.b[i].box, v, k)) bad("%s box %d point %d is %.17g, expected %.17g", VN[v], a.b[i].box, k, x, want(a.b[i].box, v, k)); }
    j++;
  }
  if(j < b.nblk && !C->fail) bad("there is an additional variable %s in box %d", b.b[j].name, b.b[j].box);
  free(a.buf); free(b.buf);
  if(!C->fail && readit) { vh_traces++; vh_fork(reader, NULL); }
  report(sig);
}

/* --- blocks of 3d output --- */
typedef struct { double time; int box, n[3], N, ascii; float *f; double *d; } dump;
static int rddump(const char *f, dump *D, int max)
{
  long len; char *b = slurp(f, &len), *p = b, *e; int m = 0, i;
  if(!b) return -1;
  for(;;)
  {
    char typ[50] = "";
    while(p < b+len && isspace(*p)) p++;
    if(p >= b+len) break;
    if(m >= max) { m = -2; break; }
    if(sscanf(p, "# \"time = %lf\" , box%d: n1=%d n2=%d n3=%d , N=%d numbers , type=%49s", &D[m].time, &D[m].box, D[m].n, D[m].n+1, D[m].n+2, &D[m].N, typ) != 7) { m = -3; break; }
    if(D[m].N != D[m].n[0]*D[m].n[1]*D[m].n[2]) { m = -4; break; }
    e = memchr(p, '\n', b+len-p); if(!e) { m = -3; break; }
    p = e+1;
    D[m].ascii = !strcmp(typ, "ascii");
    D[m].f = NULL; D[m].d = NULL;
    if(D[m].ascii)
    { D[m].d = calloc(D[m].N, 8); for(i = 0; i < D[m].N; i++) { D[m].d[i] = strtod(p, &e); if(e == p) { free(b); return -5; } p = e; } }
    else
    { if(p+4L*D[m].N > b+len) { free(b); return -6; } D[m].f = calloc(D[m].N, 4); memcpy(D[m].f, p, 4L*D[m].N); p += 4L*D[m].N; }
    m++;
  }
  free(b);
  return m;
}
static void frdump(dump *D, int m) { int i; for(i = 0; i < m; i++) { free(D[i].f); free(D[i].d); } }
static int closeg(double x, double y)   /* agree to the 6 digits of %g */
{
  if(x != x || y != y) return x != x && y != y;
  if(isinf(x) || isinf(y)) return x == y;
  return fabs(x-y) <= 1e-5*fabs(y) || (fabs(y) < 1e-300 && fabs(x) < 1e-300);
}
/* next line with something in it; for 2d also the number of blank lines skipped */
static char *nextl(char **s, int *blank)
{
  char *p = *s, *e;
  for(;;)
  {
    if(!*p) return NULL;
    e = strchr(p, '\n');
    if(e) { *e = 0; *s = e+1; } else *s = p+strlen(p);
    if(p[strspn(p, " \t")]) return p;
    (*blank)++; p = *s;
  }
}
/* all cuts of a file with 3d output: f has nt blocks in D, all float */
static void cuts(const char *f, dump *D, int nt)
{
  int mode, a, c, t, x, y, rc, bl; char o1[50], o2[50], *s, *l;
  int *n = D[0].n, A[3] = {1, 0, 0}, B[3] = {2, 2, 1};
  /* lines: free direction m, fixed directions A < B */
  for(mode = 0; mode < 3; mode++) for(a = 0; a < n[A[mode]]; a++) for(c = 0; c < n[B[mode]]; c++)
  {
    int id[3];
    sprintf(o1, "-%c=%d", "ijk"[A[mode]], a); sprintf(o2, "-%c=%d", "ijk"[B[mode]], c);
    rc = tool("sgrid3d_to_1d", o1, o2, f, NULL); vh_evals++; vh_distinct++;
    if(rc > 255) { crash("sgrid3d_to_1d", rc); return; }
    C->fail = 0; snprintf(ctx, 999, "sgrid3d_to_1d %s %s, %dx%dx%d, %d times", o1, o2, n[0], n[1], n[2], nt);
    if(rc) bad("exit status %d", rc);
    for(s = tout, t = 0; t < nt && !C->fail; t++)
    {
      double tm; char *q;
      bl = 0;
      l = nextl(&s, &bl);
      if(!l || !(q = strstr(l, "time"))) { bad("no line with the time of block %d", t); break; }
      q += strcspn(q, "="); tm = atof(q+1);
      if(!(fabs(tm-D[t].time) <= 1e-6+1e-6*fabs(D[t].time))) bad("time of block %d is %g, expected %g", t, tm, D[t].time);
      id[A[mode]] = a; id[B[mode]] = c;
      for(x = 0; x < n[mode]; x++)
      {
        int k; double v; float w; char val[100];
        id[mode] = x; w = D[t].f[id[0]+n[0]*(id[1]+n[1]*id[2])];
        l = nextl(&s, &bl);
        if(!l || sscanf(l, "%d %99s", &k, val) != 2) { bad("line %d of block %d is missing", x, t); break; }
        v = strtod(val, NULL);
        if(k != x || !closeg(v, w)) { bad("line %d of block %d is |%s|, expected %d %g", x, t, l, x, w); break; }
      }
    }
    bl = 0;
    if(!C->fail && nextl(&s, &bl)) bad("there is more than the selected line");
    report("cut");
  }
  /* planes */
  for(mode = 0; mode < 3; mode++) for(a = 0; a < n[mode]; a++)
  {
    int id[3], d1 = mode == 0 ? 1 : 0, d2 = mode == 2 ? 1 : 2;
    sprintf(o1, "-%c=%d", "ijk"[mode], a);
    rc = tool("sgrid3d_to_2d", o1, f, NULL); vh_evals++; vh_distinct++;
    if(rc > 255) { crash("sgrid3d_to_2d", rc); return; }
    C->fail = 0; snprintf(ctx, 999, "sgrid3d_to_2d %s, %dx%dx%d, %d times", o1, n[0], n[1], n[2], nt);
    if(rc) bad("exit status %d", rc);
    for(s = tout, t = 0; t < nt && !C->fail; t++)
    {
      double tm; char *q;
      bl = 0;
      l = nextl(&s, &bl);
      if(!l || !(q = strstr(l, "time"))) { bad("no line with the time of block %d", t); break; }
      q += strcspn(q, "="); tm = atof(q+1);
      if(!(fabs(tm-D[t].time) <= 1e-6+1e-6*fabs(D[t].time))) bad("time of block %d is %g, expected %g", t, tm, D[t].time);
      id[mode] = a;
      for(y = 0; y < n[d2] && !C->fail; y++) for(x = 0; x < n[d1]; x++)
      {
        int k, k2; double v; float w; char val[100];
        id[d1] = x; id[d2] = y; w = D[t].f[id[0]+n[0]*(id[1]+n[1]*id[2])];
        l = nextl(&s, &bl);
        if(!l || sscanf(l, "%d %d %99s", &k, &k2, val) != 3) { bad("line %d %d of block %d is missing", x, y, t); break; }
        v = strtod(val, NULL);
        if(k != x || k2 != y || !closeg(v, w)) { bad("line %d %d of block %d is |%s|, expected %d %d %g", x, y, t, l, x, y, w); break; }
      }
    }
    bl = 0;
    if(!C->fail && nextl(&s, &bl)) bad("there is more than the selected plane");
    report("cut");
  }
}
static void dflt(void)
{
  int b;
  memset(C, 0, sizeof(*C));
  C->nb = 2; C->time = 0.1; C->it = 7; C->p1 = PV0; C->p2 = "x=1"; C->keep = 31; C->others = 1; C->mvar = -1; C->mul = 1;
  for(b = 0; b < 3; b++) { C->n[b][0] = 2; C->n[b][1] = 2+b; C->n[b][2] = 3; }
}
static void do_extract(int chain)
{
  int b, v, asc, i, rc; char bs[20];
  for(b = 0; b <= C->nb; b++) for(v = 0; v <= NV; v++) for(asc = 0; asc < 2; asc++)
  {
    const char *vn = v < NV ? VN[v] : "cku"; dump D[4]; int m;
    sprintf(bs, "%d", b); unlink(TMP);
    rc = asc ? tool("extractvar_from_checkpoint", "-V", vn, bs, "-A", IN, TMP, NULL) : tool("extractvar_from_checkpoint", "-V", vn, bs, IN, TMP, NULL);
    snprintf(ctx, 999, "extractvar -V %s %d %s: %d boxes %dx%dx%d time %.17g shift %d", vn, b, asc ? "-A" : "", C->nb, C->n[0][0], C->n[0][1], C->n[0][2], C->time, C->shift);
    vh_evals++; vh_distinct++; vh_states++;
    if(rc > 255) { crash(ctx, rc); continue; }
    C->fail = 0;
    m = rddump(TMP, D, 4);
    if(v == NV || b == C->nb)
    { if(m > 0) bad("something is extracted that does not exist"); else if(rc == 0 && !strstr(tout, "could not find")) bad("no message about a variable that does not exist"); if(m > 0) frdump(D, m); report("extract"); continue; }
    if(rc) bad("exit status %d", rc);
    else if(m != 1) bad("the output cannot be parsed (%d)", m);
    else
    {
      if(D->time != C->time) bad("time is %.17g", D->time);
      if(D->box != b || D->n[0] != C->n[b][0] || D->n[1] != C->n[b][1] || D->n[2] != C->n[b][2]) bad("box %d with %dx%dx%d points", D->box, D->n[0], D->n[1], D->n[2]);
      else if(D->ascii != asc) bad("wrong type");
      else for(i = 0; i < D->N; i++)
      {
        double x = pat(b, v, i);
        if(asc) { if(!closeg(D->d[i], x)) bad("value at %d is %g, expected %g", i, D->d[i], x); }
        else { float f = x; if(memcmp(&f, D->f+i, 4) && !(f != f && D->f[i] != D->f[i])) bad("value at %d is %g, expected %g", i, D->f[i], f); }
      }
    }
    if(!C->fail && chain && !asc && (v+b)%3 == 0) cuts(TMP, D, 1);
    if(m > 0) frdump(D, m);
    report("extract");
  }
}
static int ndt;
static void dumper(void *a)
{
  tGrid *g = build(0); int b, i, t;
  for(t = 0; t < ndt; t++)
  {
    g->time = C->time*(1+t) + 0.25*t;
    for(b = 0; b < C->nb; b++) { double *d = g->box[b]->v[Ind("ckuy")]; for(i = 0; i < g->box[b]->nnodes; i++) d[i] = pat(b, 3*t, i); dump3d_boxvar(g->box[b], "ckuy"); }
  }
}

/* ---------------- floatdiff ---------------- */
#define MAXW 4
typedef struct { int nl, nw[6]; const char *w[6][MAXW]; } txt;
static void wrtxt(const char *f, txt *t)
{
  char b[4000] = ""; int i, j;
  for(i = 0; i < t->nl; i++) { for(j = 0; j < t->nw[i]; j++) { if(j) strcat(b, " "); strcat(b, t->w[i][j]); } strcat(b, "\n"); }
  spit(f, b, strlen(b));
}
static int sameline(txt *a, int i, txt *b, int j) { int k; if(a->nw[i] != b->nw[j]) return 0; for(k = 0; k < a->nw[i]; k++) if(strcmp(a->w[i][k], b->w[j][k])) return 0; return 1; }
/* 0: no relevant difference, 2: difference, 1: depends on how diff aligns the lines */
static int judge(txt *a, txt *b, double rt, double at)
{
  int i, j, res = 0;
  if(a->nl != b->nl) return 2;
  for(i = 0; i < a->nl; i++)
  {
    if(sameline(a, i, b, i)) continue;
    if(a->nw[i] != b->nw[i]) { res = 2; continue; }
    for(j = 0; j < a->nw[i]; j++)
    {
      double x = atof(a->w[i][j]), y = atof(b->w[i][j]), d = fabs(x-y);
      if(!strcmp(a->w[i][j], b->w[i][j]) && x == x && !isinf(x)) continue;
      if(x == 0 && y == 0) continue;
      if(isinf(x) != isinf(y)) { res = 2; continue; }
      if(d <= at || d <= rt*fabs(x == 0 ? y : x)) continue;
      res = 2;
    }
  }
  if(res == 2) return 2;
  /* lines that are equal to another line elsewhere may be aligned by diff */
  for(i = 0; i < a->nl; i++) for(j = 0; j < b->nl; j++) if(i != j && sameline(a, i, b, j)) return 1;
  return 0;
}
static void fdiff(txt *a, txt *b, const char *rt, const char *at)
{
  int rc, w = judge(a, b, rt ? atof(rt) : 0, at ? atof(at) : 0), i, j; char s[1000] = "";
  wrtxt(TMP, a); wrtxt(TMP2, b);
  if(rt && at) rc = tool("floatdiff", "-rt", rt, "-at", at, TMP, TMP2, NULL);
  else if(rt) rc = tool("floatdiff", "-rt", rt, TMP, TMP2, NULL);
  else if(at) rc = tool("floatdiff", "-at", at, "-d", "2", TMP, TMP2, NULL);
  else rc = tool("floatdiff", "-d", "0", TMP, TMP2, NULL);
  vh_evals++; vh_states++; vh_distinct++;
  for(i = 0; i < a->nl; i++) { for(j = 0; j < a->nw[i]; j++) { strcat(s, a->w[i][j]); strcat(s, " "); } strcat(s, "/ "); }
  strcat(s, "versus ");
  for(i = 0; i < b->nl; i++) { for(j = 0; j < b->nw[i]; j++) { strcat(s, b->w[i][j]); strcat(s, " "); } strcat(s, "/ "); }
  if(rc > 255) { crash("floatdiff", rc); return; }
  if(w == 2 && rc != 2) vh_fail("floatdiff", "exit status %d although the files differ, -rt %s -at %s: %s", rc, rt ? rt : "0", at ? at : "0", s);
  if(w == 0 && rc != 0) vh_fail("floatdiff", "exit status %d although the files agree, -rt %s -at %s: %s", rc, rt ? rt : "0", at ? at : "0", s);
}
static void list(const char *what, const char **L)
{
  char b[2000] = ""; int i;
  for(i = 0; L[i]; i++) { strcat(b, L[i]); strcat(b, "\n"); }
  spit(TMP, b, strlen(b));
}
static char longv[8000];
int main(int argc, char **argv)
{
  int i, j, k, l, m, rc; const char *sc;
  vh_init(argc, argv);
  C = mmap(NULL, sizeof(conf), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  sc = getenv("VH_SCRATCH");
  snprintf(DO, 599, "%s/o", sc); snprintf(DP, 599, "%s/o_previous", sc);
  snprintf(IN, 699, "%s/checkpoint.0", DO); snprintf(OUT, 699, "%s/checkpoint.0", DP); snprintf(TMP, 699, "%s/tmp", sc); snprintf(TMP2, 699, "%s/tmp2", sc);
  if(chdir(sc)) return 1;
  memset(longv, 'q', 7990); longv[5] = ' '; longv[3000] = ' ';

  /* extraction: every variable of every box, both types, all values and shapes */
  for(i = 1; i <= 4; i++) for(j = 1; j <= 4; j++) for(k = 1; k <= 4; k++) if(vh_unit("extract:%d%d%d", i, j, k))
  {
    if(!vh_thorough && (i*j*k)%2 == 0 && (i+2*j+3*k)%3) continue;
    dflt(); C->nb = 1+(i+j+k)%3; C->n[0][0] = i+1; C->n[0][1] = j+1; C->n[0][2] = k+1; C->n[1][0] = k+1; C->n[1][1] = i+1; C->n[1][2] = j+1; C->shift = i+4*j+16*k;
    C->time = (double[]){0, 0.1, 1./3, 123456.789, 1e-9, 1e22}[(i+j+k)%6];
    write_input();
    do_extract(1);
  }
  /* 3d output of several times */
  for(i = 1; i <= 3; i++) for(j = 1; j <= 3; j++) if(vh_unit("dump:%d%d", i, j)) for(k = 1; k <= 3; k++) for(ndt = 1; ndt <= 3; ndt++)
  {
    dump D[5]; int b, t, q; char f[700];
    if(!vh_thorough && (k+ndt+i)%3) continue;
    dflt(); C->n[0][0] = i+1; C->n[0][1] = j+1; C->n[0][2] = k+1; C->shift = i+j+k; C->time = 0.5*k;
    C->n[1][0] = 2; C->n[1][1] = 4; C->n[1][2] = 3;
    vr_rmtree(DO); mkdir(DO, 0700);
    vh_fork(dumper, NULL);
    for(b = 0; b < C->nb; b++)
    {
      snprintf(f, 699, "%s/ckuy.XYZ%d", DO, b);
      C->fail = 0; snprintf(ctx, 999, "3d output of box %d, %d times", b, ndt);
      m = rddump(f, D, 5); vh_states++;
      if(m != ndt) { bad("%d blocks can be read", m); report("dump3d"); continue; }
      for(t = 0; t < ndt; t++) for(q = 0; q < D[t].N; q++) { float w = pat(b, 3*t, q); if(memcmp(&w, D[t].f+q, 4) && !(w != w && D[t].f[q] != D[t].f[q])) bad("value %d of time %d is %g, expected %g", q, t, D[t].f[q], w); }
      report("dump3d");
      cuts(f, D, ndt);
      frdump(D, m);
    }
    vh_sample("3d output with %d times cut along all lines and planes", ndt);
  }
  /* blocks of different sizes in one file (extracted boxes put together) */
  for(i = 0; i < 6; i++) if(vh_unit("cat:%d", i))
  {
    dump D[5]; long n; char *b; FILE *fp; int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}, t, tot = 0; char bs[5], *s, *ln; int bl = 0, x;
    dflt(); C->nb = 3; C->n[0][0] = 2; C->n[0][1] = 2; C->n[0][2] = 2; C->n[1][0] = 4; C->n[1][1] = 5; C->n[1][2] = 6; C->n[2][0] = 9; C->n[2][1] = 8; C->n[2][2] = 7;
    write_input();
    fp = fopen(TMP2, "wb");
    for(t = 0; t < 3; t++) { sprintf(bs, "%d", P[i][t]); tool("extractvar_from_checkpoint", "-V", "ckv", bs, IN, TMP, NULL); b = slurp(TMP, &n); if(b) { fwrite(b, 1, n, fp); free(b); } }
    fclose(fp);
    m = rddump(TMP2, D, 5);
    vh_evals++; vh_states++; vh_distinct++;
    C->fail = 0; snprintf(ctx, 999, "blocks of boxes %d %d %d in one file", P[i][0], P[i][1], P[i][2]);
    if(m != 3) { bad("cannot be parsed (%d)", m); report("cut"); continue; }
    rc = tool("sgrid3d_to_1d", "-j=1", "-k=1", TMP2, NULL);
    if(rc > 255) { crash("sgrid3d_to_1d", rc); continue; }
    for(s = tout, t = 0; t < 3 && !C->fail; t++)
    {
      ln = nextl(&s, &bl);
      if(!ln || !strstr(ln, "time")) { bad("no time of block %d", t); break; }
      for(x = 0; x < D[t].n[0]; x++)
      { int kk; char val[100]; ln = nextl(&s, &bl); if(!ln || sscanf(ln, "%d %99s", &kk, val) != 2 || kk != x || !closeg(strtod(val, NULL), D[t].f[x+D[t].n[0]*(1+D[t].n[1])])) { bad("line %d of block %d is |%s|", x, t, ln ? ln : "missing"); break; } }
    }
    report("cut");
    rc = tool("sgrid3d_to_2d", "-k=1", TMP2, NULL);
    if(rc > 255) { crash("sgrid3d_to_2d", rc); continue; }
    snprintf(ctx, 999, "blocks of boxes %d %d %d in one file, plane", P[i][0], P[i][1], P[i][2]);
    for(s = tout, t = 0; t < 3 && !C->fail; t++)
    {
      int y;
      ln = nextl(&s, &bl);
      if(!ln || !strstr(ln, "time")) { bad("no time of block %d", t); break; }
      for(y = 0; y < D[t].n[1] && !C->fail; y++) for(x = 0; x < D[t].n[0]; x++)
      { int kk, k2; char val[100]; ln = nextl(&s, &bl); if(!ln || sscanf(ln, "%d %d %99s", &kk, &k2, val) != 3 || kk != x || k2 != y || !closeg(strtod(val, NULL), D[t].f[x+D[t].n[0]*(y+D[t].n[1])])) { bad("line %d %d of block %d is |%s|", x, y, t, ln ? ln : "missing"); break; } }
    }
    report("cut");
    frdump(D, 3);
  }
  /* pruning: all subsets of the variables, in several orders, with other words */
  for(m = 0; m < 32; m++) if(vh_unit("prune:%d", m)) for(l = 0; l < 5; l++)
  {
    const char *L[20]; int n = 0;
    dflt(); C->nb = 1+(m+l)%3; C->shift = m+l; C->keep = m; C->others = 0; if(l == 3) { C->time = 1./3; C->it = 1000000; }
    if(l == 2) L[n++] = "nosuchvar";
    if(l == 4) L[n++] = "ck"; 
    if(l == 1) { for(k = NV-1; k >= 0; k--) if((m >> k) & 1) L[n++] = VN[k]; }
    else for(k = 0; k < NV; k++) if((m >> k) & 1) { L[n++] = VN[k]; if(l == 2) L[n++] = VN[k]; if(l == 3) L[n++] = "ckvv"; if(l == 4) L[n++] = ""; }
    if(n == 0) L[n++] = "cku";
    L[n] = NULL;
    list("vars", L);
    write_input();
    rc = tool("prune_checkpoint", TMP, IN, OUT, NULL);
    snprintf(ctx, 999, "prune, variables %d variant %d, %d boxes", m, l, C->nb);
    vh_states++;
    vh_sample("%s", ctx);
    if(rc > 255) { crash(ctx, rc); continue; }
    if(rc) { C->fail = 0; bad("exit status %d", rc); report("prune"); continue; }
    compare("prune", 1);
  }
  /* modification of a variable */
  {
    const char *MM[] = {NULL, "2", "-0.5", "0", "1", "1e300", "-1"}, *AA[] = {NULL, "0.1", "-3", "0", "1e-300", "1e22"};
    for(m = -1; m <= NV; m++) for(i = 0; i < 7; i++) if(vh_unit("modify:%d:%d", m, i)) for(j = 0; j < 6; j++) for(l = 0; l < 3; l++)
    {
      const char *vn = m < 0 ? NULL : m < NV ? VN[m] : "cku", *A[14]; int n = 0;
      if(!vh_thorough && l && (i+j+l)%3) continue;
      dflt(); C->nb = 1+l; C->shift = m+j+7*l; if(m >= 0 && m < NV) { C->mvar = m; if(MM[i]) C->mul = atof(MM[i]); if(AA[j]) C->add = atof(AA[j]); }
      if(l == 1) { C->mpar = "tp1"; C->mval = "new value"; }
      if(l == 2) { if(AA[j]) { A[n++] = "-A"; A[n++] = AA[j]; } if(MM[i]) { A[n++] = "-M"; A[n++] = MM[i]; } if(vn) { A[n++] = "-V"; A[n++] = vn; } }
      else { if(vn) { A[n++] = "-V"; A[n++] = vn; } if(MM[i]) { A[n++] = "-M"; A[n++] = MM[i]; } if(AA[j]) { A[n++] = "-A"; A[n++] = AA[j]; } }
      if(l == 1) { A[n++] = "-P"; A[n++] = C->mpar; A[n++] = C->mval; }
      A[n++] = IN; A[n++] = OUT;
      while(n < 14) A[n++] = NULL;
      write_input();
      rc = tool("modify_checkpoint", A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], NULL);
      snprintf(ctx, 999, "modify, -V %s -M %s -A %s -P %s, %d boxes", vn ? vn : "none", MM[i] ? MM[i] : "-", AA[j] ? AA[j] : "-", C->mpar ? C->mpar : "-", C->nb);
      vh_states++;
      vh_sample("%s", ctx);
      if(rc > 255) { crash(ctx, rc); continue; }
      if(rc) { C->fail = 0; bad("exit status %d", rc); report("modify"); continue; }
      compare("modify", (i+j)%2 == 0 || vh_thorough);
    }
  }
  /* modification of a parameter */
  {
    const char *P[] = {"tp1", "tp12", "tp", "tpx", "t", "$END_parameter_database"}, *V[] = {"", "a", "x=y", " two", "a b  c", "1e-300", longv, "tp12 = 3", "%s%d"}, *O[] = {"", "old", "a much longer old value = 4", "12"};
    for(i = 0; i < 5; i++) for(j = 0; j < 9; j++) if(vh_unit("par:%d:%d", i, j)) for(k = 0; k < 4; k++)
    {
      dflt(); C->nb = 1; C->p1 = O[k]; C->p2 = O[(k+1)%4];
      C->mpar = P[i]; C->mval = V[j];
      write_input();
      rc = tool("modify_checkpoint", "-P", P[i], V[j], IN, OUT, NULL);
      snprintf(ctx, 999, "modify -P %s |%.50s|, old values |%s| |%s|", P[i], V[j], C->p1, C->p2);
      vh_states++;
      if(rc > 255) { crash(ctx, rc); continue; }
      if(rc) { C->fail = 0; bad("exit status %d", rc); report("modify-par"); continue; }
      if(i > 2) { C->mval = "unused"; }
      compare("modify-par", 1);
    }
  }
  /* the output of one tool is the input of another one */
  for(m = 0; m < 32; m++) if(vh_unit("chain:%d", m)) for(k = 0; k < NV; k++)
  {
    const char *L[8]; int n = 0;
    if(!((m >> k) & 1) && k) continue;
    dflt(); C->keep = m; C->others = 0; C->mvar = k; C->mul = 0.5; C->add = 1; C->mpar = "tp"; C->mval = "99";
    for(i = 0; i < NV; i++) if((m >> i) & 1) L[n++] = VN[i];
    if(!n) L[n++] = "other";
    L[n] = NULL; list("", L);
    write_input();
    rc = tool("modify_checkpoint", "-V", VN[k], "-M", "0.5", "-A", "1", IN, TMP2, NULL);
    if(!rc) rc = tool("prune_checkpoint", TMP, TMP2, DO[0] ? "tmp3" : "", NULL);
    if(!rc) rc = tool("modify_checkpoint", "-P", "tp", "99", "tmp3", OUT, NULL);
    snprintf(ctx, 999, "modify %s, prune to %d, modify tp", VN[k], m);
    vh_states++;
    if(rc > 255) { crash(ctx, rc); continue; }
    if(rc) { C->fail = 0; bad("exit status %d", rc); report("chain"); continue; }
    compare("chain", 1);
    if(m == 31) { C->fail = 0; }
  }
  /* comparison of numbers: all pairs of short files */
  {
    const char *W[] = {"1", "1.0", "1.05", "2", "0", "-1", "1e-3", "abc", "nan", "0.0", "-0", "inf", "1e30"}; const char *T[][2] = {{NULL, NULL}, {"0.1", NULL}, {NULL, "0.1"}, {"0.01", "1e-2"}, {"1e-20", "3"}};
    int nw = 13;
    for(i = 0; i < nw; i++) if(vh_unit("fd1:%d", i)) for(j = 0; j < nw; j++) for(l = 0; l < 5; l++)
    {
      txt a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
      a.nl = b.nl = 1; a.nw[0] = b.nw[0] = 1; a.w[0][0] = W[i]; b.w[0][0] = W[j];
      fdiff(&a, &b, T[l][0], T[l][1]);
      a.nl = b.nl = 3; a.nw[1] = b.nw[1] = 3; a.nw[2] = b.nw[2] = 1; a.w[0][0] = b.w[0][0] = "7"; a.w[1][0] = b.w[1][0] = "3"; a.w[1][1] = W[i]; b.w[1][1] = W[j]; a.w[1][2] = b.w[1][2] = "4"; a.w[2][0] = b.w[2][0] = "8"; a.nw[0] = b.nw[0] = 1;
      fdiff(&a, &b, T[l][0], T[l][1]);
    }
    /* several lines and columns: shapes and positions of a difference */
    for(i = 1; i <= 4; i++) for(j = 1; j <= 4; j++) if(vh_unit("fd2:%d%d", i, j)) for(k = 0; k < i*4; k++) for(m = 0; m < 6; m++) for(l = 0; l < 3; l++)
    {
      static const char *N[] = {"11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26"}; txt a, b; int r = k/4, c = k%4, x, y;
      if(c >= j) continue;
      memset(&a, 0, sizeof a); a.nl = i; for(x = 0; x < i; x++) { a.nw[x] = j; for(y = 0; y < j; y++) a.w[x][y] = N[4*x+y]; }
      b = a;
      if(m == 0) b.w[r][c] = "11.5";
      if(m == 1) b.w[r][c] = "word";
      if(m == 2) b.nw[r]--;
      if(m == 3) { for(x = r; x+1 < i; x++) { b.nw[x] = b.nw[x+1]; for(y = 0; y < MAXW; y++) b.w[x][y] = b.w[x+1][y]; } b.nl--; }
      if(m == 4) { b.w[r][c] = "1e2"; if(r+1 < i) b.w[r+1][0] = "5"; }
      if(m == 5) { for(x = 0; x < i; x++) b.w[x][c] = (const char*[]){"11.0", "15.0", "19.0", "2.3e1"}[x]; }
      if(l == 2) { txt q = a; a = b; b = q; }
      fdiff(&a, &b, l == 1 ? "0.3" : NULL, l ? "1" : NULL);
    }
  }
  /* files that do not exist */
  if(vh_unit("missing"))
  {
    dflt(); C->nb = 1; write_input();
    spit(TMP, "ckux\n", 5);
    if((rc = tool("prune_checkpoint", TMP, "nothere", OUT, NULL)) == 0 || rc > 255) vh_fail("missing", "prune_checkpoint exit status %d without input", rc);
    if((rc = tool("prune_checkpoint", "nothere", IN, OUT, NULL)) == 0 || rc > 255) vh_fail("missing", "prune_checkpoint exit status %d without list", rc);
    if((rc = tool("modify_checkpoint", "nothere", OUT, NULL)) == 0 || rc > 255) vh_fail("missing", "modify_checkpoint exit status %d without input", rc);
    if((rc = tool("extractvar_from_checkpoint", "-V", "ckux", "0", "nothere", OUT, NULL)) == 0 || rc > 255) vh_fail("missing", "extractvar exit status %d without input", rc);
    if((rc = tool("sgrid3d_to_1d", "-j=0", "-k=0", "nothere", NULL)) == 0 || rc > 255) vh_fail("missing", "sgrid3d_to_1d exit status %d without input", rc);
    if((rc = tool("sgrid3d_to_2d", "-k=0", "nothere", NULL)) == 0 || rc > 255) vh_fail("missing", "sgrid3d_to_2d exit status %d without input", rc);
    /* points that do not exist */
    tool("extractvar_from_checkpoint", "-V", "ckux", "0", IN, TMP, NULL);
    { const char *o[] = {"-j=2", "-j=-1", "-j=100"}; for(i = 0; i < 3; i++) { if((rc = tool("sgrid3d_to_1d", o[i], "-k=0", TMP, NULL)) == 0 || rc > 255) vh_fail("missing", "sgrid3d_to_1d %s exit status %d", o[i], rc); if((rc = tool("sgrid3d_to_2d", o[i], TMP, NULL)) == 0 || rc > 255) vh_fail("missing", "sgrid3d_to_2d %s exit status %d", o[i], rc); } }
    vh_evals += 12; vh_states++;
  }
  return vh_done();
}

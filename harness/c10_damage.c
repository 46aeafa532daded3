/* C10: every point at which writing a checkpoint can fail, every length at which
   a checkpoint can end. */
#define _GNU_SOURCE
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#include <sys/resource.h>
#undef exit
void checkpoint_write(tGrid *grid);
void checkpoint_read(tGrid *grid);
FILE *__real_fopen(const char *f, const char *m);

/* ---------- faulty stream ---------- */
static int fault_at = -1, fault_kind, ncalls; static FILE *wrapped; static int inj;
typedef struct { int fd; } ck;
static ssize_t ck_write(void *c, const char *b, size_t n)
{
  ck *k = c; int my = ncalls++; ssize_t r = 0, w;
  if(fault_at >= 0)
  {
    if(fault_kind == 0 && my >= fault_at) { inj = 1; errno = ENOSPC; return 0; }         /* full from here on */
    if(fault_kind == 1 && my == fault_at) { inj = 1; errno = EIO; return 0; }            /* one failed write */
    if(fault_kind == 2 && my == fault_at) { inj = 1; w = write(k->fd, b, n/2); errno = ENOSPC; return w < n ? 0 : w; } /* half of it arrives */
  }
  while(r < n) { w = write(k->fd, b+r, n-r); if(w <= 0) return 0; r += w; }
  return n;
}
static int ck_close(void *c) { ck *k = c; int r = close(k->fd); if(fault_at >= 0 && fault_kind == 3) { inj = 1; errno = EDQUOT; r = -1; } free(k); return r; }
FILE *__wrap_fopen(const char *f, const char *m)
{
  if(fault_at >= -1 && strstr(f, "/o/checkpoint") && (m[0] == 'w' || m[0] == 'a') && fault_kind >= 0)
  {
    cookie_io_functions_t io = {0}; ck *k = malloc(sizeof *k); FILE *fp;
    k->fd = open(f, O_WRONLY|O_CREAT|(m[0] == 'a' ? O_APPEND : O_TRUNC), 0600);
    if(k->fd < 0) { free(k); return NULL; }
    io.write = ck_write; io.close = ck_close;
    fp = fopencookie(k, m, io);
    setvbuf(fp, NULL, _IOFBF, 512);
    return fp;
  }
  return __real_fopen(f, m);
}

static char S[500], OUT[600], PREV[600], CKP[700], CKPP[700];
static tGrid *G; static char *full; static int nfull;
static char *slurp(const char *f, int *n)
{
  int fd = open(f, O_RDONLY), r; char *b; struct stat st;
  *n = -1; if(fd < 0) return NULL;
  fstat(fd, &st); b = malloc(st.st_size+1); *n = 0;
  while((r = read(fd, b + *n, st.st_size - *n)) > 0) *n += r;
  close(fd); return b;
}
static void spit(const char *f, const char *b, int n) { int fd = open(f, O_WRONLY|O_CREAT|O_TRUNC, 0600); if(fd < 0 || write(fd, b, n) != n) _exit(98); close(fd); }
static void fillvars(double x) { int b, i; forallboxes(G, b) forallpoints(G->box[b], i) G->box[b]->v[Ind("cku")][i] = x + i + 10*b; }
static void setup(int n3)
{
  int b;
  snprintf(S, 499, "%s", getenv("VH_SCRATCH")); snprintf(OUT, 599, "%s/o", S); snprintf(PREV, 599, "%s/o_previous", S);
  snprintf(CKP, 699, "%s/checkpoint.0", OUT); snprintf(CKPP, 699, "%s/checkpoint.0", PREV);
  vr_rmtree(OUT); vr_rmtree(PREV); mkdir(OUT, 0700); mkdir(PREV, 0700);
  vg_begin(2); vg_par("outdir", "%s", OUT); vg_par("checkpoint", "yes"); vg_par("checkpoint_variables", "all");
  for(b = 0; b < 2; b++) { vg_box(b, 2, 2, n3, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, b, b+1, 0, 1, 0, 1); }
  vg_libs();
  AddVar("cku", "", ""); G = vg_make(); enablevar(G, Ind("cku")); fillvars(1.1);
  G->time = 0.3; G->iteration = 3;
  fault_kind = -1; checkpoint_write(G); full = slurp(CKP, &nfull);
}
static long lim = -1;
static int guarded(void (*f)(void))   /* exit status of f() in a child, 1000+signal */
{
  int st; pid_t p; int q[2]; char c = 0;
  if(pipe(q)) _exit(97);
  fflush(NULL); p = fork();
  if(p == 0) { if(lim >= 0) { struct rlimit r = {lim, lim}; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); } f(); if(inj) c = 1; if(c && write(q[1], &c, 1) != 1) _exit(90); _exit(0); }
  close(q[1]); if(read(q[0], &c, 1) == 1) inj = 1; close(q[0]);
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) ? 1000+WTERMSIG(st) : WEXITSTATUS(st);
}
static void dowrite(void) { checkpoint_write(G); }
static void doread(void) { checkpoint_read(G); }
static void judge_write(const char *what, long at, int code, const char *old, int nold, int must)
{
  int n; char *b = slurp(CKP, &n);
  vh_evals++; vh_trans++; vh_distinct++;
  if(code >= 1000) vh_fail("crash", "%s at %ld: signal %d", what, at, code-1000);
  if(n == nold && !memcmp(b, old, n)) { if(!must) return; vh_fail("nowrite", "%s at %ld: a successful write did not replace the checkpoint (exit %d)", what, at, code); }
  else if(n == nfull && !memcmp(b, full, n)) { if(must && code) vh_fail("status", "%s: exit %d although everything was written", what, code); }
  else vh_fail("lost", "%s at %ld: the good checkpoint was replaced by a file of %d bytes, complete are %d (exit %d)", what, at, n, nfull, code);
  free(b);
}
static const char *PARF = "physics=evolve_test\nevolution_method=euler\nn1=2\nn2=2\nn3=2\ndt=0.1\nnboxes=1\nbox0_basis1=ChebExtrema\nbox0_basis2=ChebExtrema\nbox0_basis3=ChebExtrema\niterations=2\ncheckpoint=yes\ncheckpoint_di=1\n";
int main(int argc, char **argv)
{
  static char old[] = "the old good checkpoint"; int nold = sizeof(old)-1, i, k, part;
  vh_init(argc, argv);
  snprintf(S, 499, "%s", getenv("VH_SCRATCH"));
  /* whole program: truncated checkpoint of an earlier run */
  for(part = 0; part < 8; part++) if(vh_unit("program:%d", part))
  {
    char d[700], f[900], *av[3] = {"sgrid", "a.par", NULL}, out[2000], *ck; int n, c, j = 0;
    snprintf(d, 699, "%s/run", S); vr_rmtree(d); mkdir(d, 0700);
    snprintf(f, 899, "%s/a.par", d); vr_file(f, PARF);
    c = vr_run(d, 2, av, NULL, out, 1999, 20);
    snprintf(f, 899, "%s/a/checkpoint.0", d); ck = slurp(f, &n);
    if(c || !ck) { vh_fail("run", "the uninterrupted run failed: exit %d", c); continue; }
    for(k = 0; k < n; k++)
    {
      int lost = 0;
      for(i = k; i < n; i++) if(!isspace((unsigned char)ck[i])) lost = 1;
      if(!lost) break;
      if(!(k == 0 || ck[k-1] == '\n' || ck[k] == '\n' || ck[k-1] == '$' || ck[k] == '=' || ck[k] == ',' || k > n-60 || (vh_thorough && k%3 == 0))) continue;
      if(j++ % 8 != part) continue;
      vh_at("program with the first %d of %d bytes", k, n);
      snprintf(f, 899, "%s/a_previous", d); vr_rmtree(f);
      snprintf(f, 899, "%s/a", d); vr_rmtree(f); mkdir(f, 0700);
      snprintf(f, 899, "%s/a/checkpoint.0", d); spit(f, ck, k);
      c = vr_run(d, 2, av, NULL, out, 1999, 20);
      vh_evals++; vh_trans++; vh_states++; vh_distinct++;
      if(c == 0) vh_fail("accepted", "the program continued from the first %d of %d bytes of a checkpoint", k, n);
      if(c >= 1000) vh_fail("crash", "program with the first %d of %d bytes: signal %d", k, n, c-1000);
    }
    snprintf(f, 899, "%s/a_previous", d); vr_rmtree(f);
    snprintf(f, 899, "%s/a", d); vr_rmtree(f); mkdir(f, 0700);
    snprintf(f, 899, "%s/a/checkpoint.0", d); spit(f, ck, n);
    if((c = vr_run(d, 2, av, NULL, out, 1999, 20))) vh_fail("refused", "the program did not restart from a complete checkpoint: exit %d", c);
  }
  setup(2);
  /* file size limit (disk full) at every byte */
  for(part = 0; part < 16; part++) if(vh_unit("full-disk:%d", part))
    for(lim = part; lim <= nfull+2; lim += 16)
    {
      int must = lim >= nfull;
      if(!vh_thorough && lim > 64 && lim < nfull-700 && (lim/16) % 4) continue;
      vh_at("limit %ld of %d", lim, nfull);
      spit(CKP, old, nold); { char f[800]; snprintf(f, 799, "%s_new", CKP); unlink(f); }
      fault_kind = -1; i = guarded(dowrite);
      judge_write("size limit", lim, i, old, nold, must);
    }
  lim = -1;
  /* k-th write fails, in four ways, and for a larger file */
  for(part = 0; part < 4; part++) if(vh_unit("write-fault:%d", part))
  {
    for(k = 0; ; k++)
    {
      vh_at("write call %d", k);
      spit(CKP, old, nold);
      fault_kind = part; fault_at = k; ncalls = 0; inj = 0;
      i = guarded(dowrite);
      if(i == 0 && !inj) { if(part == 3) vh_fail("internal", "close fault not injected"); break; }
      judge_write(part == 0 ? "full disk" : part == 1 ? "one failed write" : part == 2 ? "short write" : "failed close", k, i, old, nold, 0);
      if(part == 3) break;
      if(k > 2000) break;
    }
    fault_kind = -1; fault_at = -1;
    vh_states += k;
  }
  /* the file ends at every length */
  for(part = 0; part < 16; part++) if(vh_unit("truncated:%d", part))
    for(k = part; k < nfull; k += 16)
    {
      int lost = 0;
      for(i = k; i < nfull; i++) if(!isspace((unsigned char)full[i])) lost = 1;
      vh_at("first %d of %d bytes", k, nfull);
      spit(CKPP, full, k);
      fillvars(-5); fault_kind = -1;
      i = guarded(doread);
      vh_evals++; vh_trans++; vh_states++; vh_distinct++;
      if(lost && i == 0) vh_fail("accepted", "a checkpoint with the first %d of %d bytes was accepted", k, nfull);
      if(!lost && i) vh_fail("refused", "a checkpoint without only trailing white space was refused (exit %d)", i);
      if(i >= 1000) vh_fail("crash", "reading the first %d of %d bytes: signal %d", k, nfull, i-1000);
      vh_sample("restart with the first %d of %d bytes: exit %d", k, nfull, i);
    }
  return vh_done();
}

/* C09: all states of the disk that can arise when runs that write checkpoints are
   killed before any of their file system operations, to a depth of kills; from
   every state the run must be recoverable. */
#define _GNU_SOURCE
#include "sgrid.h"
#include "vh.h"
#include "vh_run.h"
#include "vh_kill.h"
#undef exit

static char S[500];
typedef struct { int id, depth, best; uint64_t h; char how[300]; } node;
static node *N; static int nn, capn;
static const char *CONF[] = {   /* name, parameters */
 "checkpoint_di=2\n",
 "checkpoint_di=2\ncheckpoint_previous=yes\n",
 "checkpoint_di=1\ncheckpoint_restart_it=0\n0doutput=evolve_test_u\n0doutiter=3\n",
 "checkpoint_di=1\ncheckpoint_restart_it=-1\ncheckpoint_previous=yes\nevolve_persist=no\n",
 "checkpoint_di=1\ncheckpoint_variables=all\n1doutput=evolve_test_u\n1doutiter=4\n1doutputx=yes\n",
 "checkpoint_dt=0.2\ncheckpoint_previous=yes\n0doutput=evolve_test_u\n0doutiter=4\n" };
#define NCONF 6
static const char *PARF = "physics=evolve_test\nevolution_method=rk\nevolution_method_rk=rk2\nevolution_method_order=2\nn1=2\nn2=2\nn3=2\ndt=0.1\nnboxes=1\nbox0_basis1=ChebExtrema\nbox0_basis2=ChebExtrema\nbox0_basis3=ChebExtrema\niterations=4\ncheckpoint=yes\n";

/* ---------- trees ---------- */
static uint64_t hash_tree(const char *d, uint64_t h)
{
  DIR *p = opendir(d); struct dirent *e; char *nm[200], f[2000]; int n = 0, i, j; uint64_t x = 0;
  if(!p) return h;
  while((e = readdir(p))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < 200) nm[n++] = strdup(e->d_name);
  closedir(p);
  for(i = 0; i < n; i++) for(j = i+1; j < n; j++) if(strcmp(nm[i], nm[j]) > 0) { char *t = nm[i]; nm[i] = nm[j]; nm[j] = t; }
  for(i = 0; i < n; i++)
  {
    struct stat st;
    snprintf(f, 1999, "%s/%s", d, nm[i]); lstat(f, &st);
    h = vh_hash(nm[i], strlen(nm[i])+1, h);
    if(S_ISDIR(st.st_mode)) { h = vh_hash("(", 1, h); h = hash_tree(f, h); h = vh_hash(")", 1, h); }
    else
    {
      int fd = open(f, O_RDONLY), r; static char b[65536]; long tot = 0;
      while((r = read(fd, b, 65536)) > 0) { h = vh_hash(b, r, h); tot += r; }
      close(fd); h = vh_hash(&tot, sizeof tot, h);
    }
    free(nm[i]);
  }
  (void)x;
  return h;
}
static void copy_tree(const char *a, const char *b)
{
  DIR *p = opendir(a); struct dirent *e; char f[2000], g[2000]; struct stat st;
  mkdir(b, 0700);
  if(!p) return;
  while((e = readdir(p)))
  {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    snprintf(f, 1999, "%s/%s", a, e->d_name); snprintf(g, 1999, "%s/%s", b, e->d_name);
    lstat(f, &st);
    if(S_ISDIR(st.st_mode)) copy_tree(f, g);
    else { static char buf[65536]; int i = open(f, O_RDONLY), o = open(g, O_WRONLY|O_CREAT|O_TRUNC, 0600), r; while((r = read(i, buf, 65536)) > 0) if(write(o, buf, r) != r) _exit(98); close(i); close(o); }
  }
  closedir(p);
}
/* iteration of a complete checkpoint file (-1: none), lineage in *tag, bits of u in *u */
static int ckpt(const char *f, int *tag, uint64_t *u)
{
  static char b[200000]; int fd = open(f, O_RDONLY), n, it = -1; char *p;
  if(tag) *tag = -1;
  if(fd < 0) return -1;
  n = read(fd, b, 199999); close(fd); if(n < 0) n = 0; b[n] = 0;
  while(n > 0 && isspace((unsigned char)b[n-1])) n--;
  if(n < 14 || memcmp(b+n-14, "$END_variables", 14)) return -1;
  p = memmem(b, n, "$iteration = ", 13); if(!p) return -1;
  it = atoi(p+13);
  p = memmem(b, n, "\nruntag = ", 10); if(p && tag) *tag = atoi(p+10);
  p = memmem(b, n, "$variable = evolve_test_u :", 27);
  if(p && u) { p = memchr(p, '\n', b+n-p); if(p) memcpy(u, p+1, 8); }
  return it;
}
/* most recent complete checkpoint anywhere in the tree */
static int best_on_disk(const char *d)
{
  DIR *p = opendir(d); struct dirent *e; char f[2000]; int best = -1, x; struct stat st;
  if(!p) return -1;
  while((e = readdir(p)))
  {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    snprintf(f, 1999, "%s/%s", d, e->d_name);
    if(!lstat(f, &st) && S_ISDIR(st.st_mode)) x = best_on_disk(f);
    else if(!strcmp(e->d_name, "checkpoint.0")) x = ckpt(f, NULL, NULL);
    else x = -1;
    if(x > best) best = x;
  }
  closedir(p);
  return best;
}
/* ---------- runs ---------- */
static int tagval;
static int settag(tGrid *g) { AddPar("runtag", tagval ? "1" : "0", "1 if this run started although there was a checkpoint"); return 0; }
static void before(void) { AddFun(POST_PARAMETERS, settag, "settag"); }
static int run(const char *dir, int keep, int best, long k, long *nops, char *op)
{
  char *av[4] = {"sgrid", "a.par", "--keep_previous", NULL};
  tagval = best >= 0;
  return vk_run(dir, keep ? 3 : 2, av, before, k, nops, op, 30);
}
static uint64_t finalu; static int finalit;
static vh_set seen;
static void add_node(const char *work, int depth, int best, const char *how)
{
  uint64_t h = hash_tree(work, 0); char d[700];
  h = vh_hash(&best, sizeof best, h);
  if(!vh_set_add(&seen, h)) return;
  if(nn == capn) { capn = capn ? 2*capn : 256; N = realloc(N, capn*sizeof(node)); }
  N[nn].id = nn; N[nn].depth = depth; N[nn].best = best; N[nn].h = h; snprintf(N[nn].how, 299, "%s", how);
  snprintf(d, 699, "%s/st/%d", S, nn); copy_tree(work, d);
  nn++; vh_states++;
}
static void judge(const char *w, node *x, int code, const char *cmd)
{
  char f[800]; int it, tag; uint64_t u = 0;
  snprintf(f, 799, "%s/a/checkpoint.0", w);
  it = ckpt(f, &tag, &u);
  if(code != 0) { vh_fail("stuck", "after kills [%s], %s ends with exit %d although checkpoint %d was completed", x->how, cmd, code, x->best); return; }
  if(it != finalit || u != finalu) { vh_fail("result", "after kills [%s], %s ends with iteration %d and data %016llx, uninterrupted run: %d %016llx", x->how, cmd, it, (long long)u, finalit, (long long)finalu); return; }
  if(x->best >= 0 && tag != 0) vh_fail("lost", "after kills [%s], %s starts again from the initial data although checkpoint %d was completed", x->how, cmd, x->best);
}
/* which iteration does a run started here continue from?  seen as the first checkpoint in a */
static void explore(int conf, int maxdepth, int part, int parts)
{
  char w[700], st[700], f[800], par[3000], op[50], how[400]; long nops, k, n2; int i, c, keep, b; uint64_t h0;
  snprintf(w, 699, "%s/w", S); snprintf(st, 699, "%s/st", S);
  nn = 0; memset(&seen, 0, sizeof seen);
  vr_rmtree(w); vr_rmtree(st); mkdir(w, 0700); mkdir(st, 0700);
  snprintf(par, 2999, "%s%s", PARF, CONF[conf]); snprintf(f, 799, "%s/a.par", w); vr_file(f, par);
  add_node(w, 0, -1, "");
  c = run(w, 0, -1, -1, &nops, op);
  snprintf(f, 799, "%s/a/checkpoint.0", w); finalit = ckpt(f, NULL, &finalu);
  if(c || finalit < 3) { vh_fail("run", "uninterrupted run: exit %d, checkpoint %d", c, finalit); return; }
  for(i = 0; i < nn; i++)
  {
    node x = N[i];
    if(x.depth == 1 && i % parts != part) continue;
    snprintf(st, 699, "%s/st/%d", S, i);
    vh_at("state %d after kills [%s]", i, x.how);
    /* the same command, not killed */
    vr_rmtree(w); copy_tree(st, w); h0 = hash_tree(w, 0);
    c = run(w, 0, x.best, -1, &nops, op); keep = 0; vh_evals++; vh_traces++;
    if(c != 0 && c < 1000 && x.best >= 0)
    { /* it refuses: nothing may have been lost, and keep_previous must work */
      if(hash_tree(w, 0) != h0) vh_fail("refusal", "after kills [%s] the program stops with exit %d but changed files", x.how, c);
      vr_rmtree(w); copy_tree(st, w);
      c = run(w, 1, x.best, -1, &nops, op); keep = 1; vh_evals++; vh_traces++;
    }
    judge(w, &x, c, keep ? "a run with --keep_previous" : "the same command");
    vh_sample("conf %d: after kills [%s] (completed checkpoint %d): %s has %ld operations", conf, x.how, x.best, keep ? "run with --keep_previous" : "same command", nops);
    if(c || x.depth >= maxdepth) continue;
    /* ... killed before each of its operations */
    b = x.best;
    for(k = 0; k < nops; k++)
    {
      int d; char f2[800]; int rit;
      vr_rmtree(w); copy_tree(st, w);
      c = run(w, keep, x.best, k, &n2, op);
      vh_trans++; vh_evals++;
      if(c != 2000) { vh_fail("internal", "run was not killed at operation %ld of %ld: %d", k, nops, c); break; }
      d = best_on_disk(w); if(d > b) b = d;
      if(d < b) vh_fail("lost", "kills [%s] and then before operation %ld (%s): the most recent checkpoint %d is gone, only %d is left", x.how, k, op, b, d);
      /* a continued run must not write checkpoints older than the one it should continue from */
      snprintf(f2, 799, "%s/a/checkpoint.0", w); rit = ckpt(f2, &d, NULL);
      if(rit >= 0 && x.best >= 0 && rit < x.best) vh_fail("older", "after kills [%s] the next run has written checkpoint %d although %d was completed", x.how, rit, x.best);
      snprintf(how, 399, "%s%s%s%ld(%s)", x.how, x.how[0] ? ", " : "", keep ? "keep_previous:" : "", k, op);
      add_node(w, x.depth+1, b, how);
    }
  }
}
int main(int argc, char **argv)
{
  int c, p;
  vh_init(argc, argv);
  snprintf(S, 499, "%s", getenv("VH_SCRATCH"));
  for(c = 0; c < NCONF; c++) for(p = 0; p < 8; p++) if(vh_unit("kill:%d:%d", c, p)) explore(c, vh_thorough ? 3 : 2, p, 8);
  return vh_done();
}

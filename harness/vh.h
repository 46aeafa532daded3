/* common code of the harnesses: sharding, case bookkeeping, protocol with the
   driver (lib/driver.py).  Include exactly once per harness. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <setjmp.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <errno.h>
#include <ctype.h>
#include <signal.h>

static FILE *vh_out;              /* protocol stream (the original stdout) */
static int vh_shard, vh_nshards = 1;
static int vh_thorough;
static const char *vh_only;       /* run only the case with this name */
static const char *vh_mode = "";
static char *vh_status;           /* mmapped: current case, read by the driver on a crash */
static long vh_unit_no = -1;
/* counters live in shared memory: forked children count too */
typedef struct { long evals, states, trans, distinct, fails, traces; int samples; } vh_counters;
static vh_counters *vh_c;
#define vh_evals    (vh_c->evals)
#define vh_states   (vh_c->states)
#define vh_trans    (vh_c->trans)
#define vh_distinct (vh_c->distinct)
#define vh_fails    (vh_c->fails)
#define vh_traces   (vh_c->traces)
#define vh_samples  (vh_c->samples)
static char vh_case_name[4096];

static void vh_flush_stats(void)
{
  fprintf(vh_out, "@STAT evaluations %ld\n@STAT states %ld\n@STAT transitions %ld\n@STAT distinct %ld\n@STAT traces %ld\n",
          vh_evals, vh_states, vh_trans, vh_distinct, vh_traces);
  fflush(vh_out);
}

static void vh_init(int argc, char **argv)
{
  int i, fd;
  const char *st = NULL;
  for(i = 1; i < argc; i++)
  {
    if(!strcmp(argv[i], "--shard") && i+1 < argc) sscanf(argv[++i], "%d/%d", &vh_shard, &vh_nshards);
    else if(!strcmp(argv[i], "--tier") && i+1 < argc) vh_thorough = !strcmp(argv[++i], "thorough");
    else if(!strcmp(argv[i], "--case") && i+1 < argc) vh_only = argv[++i];
    else if(!strcmp(argv[i], "--status") && i+1 < argc) st = argv[++i];
    else if(!strcmp(argv[i], "--mode") && i+1 < argc) vh_mode = argv[++i];
  }
  vh_c = mmap(NULL, sizeof(vh_counters), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  vh_out = fdopen(dup(1), "w");
  if(!getenv("VH_VERBOSE"))
  {
    fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    close(fd);
  }
  if(st)
  {
    fd = open(st, O_RDWR|O_CREAT, 0600);
    if(fd >= 0 && ftruncate(fd, 8192) == 0)
    {
      vh_status = mmap(NULL, 8192, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
      if(vh_status == MAP_FAILED) vh_status = NULL;
    }
    if(fd >= 0) close(fd);
  }
}

/* start of a work unit: returns 1 if this process has to do it */
static int vh_unit(const char *fmt, ...)
{
  va_list ap;
  vh_unit_no++;
  if(!vh_only && vh_unit_no % vh_nshards != vh_shard) return 0;
  va_start(ap, fmt);
  vsnprintf(vh_case_name, sizeof(vh_case_name)-1, fmt, ap);
  va_end(ap);
  if(vh_only && strcmp(vh_only, vh_case_name)) return 0;
  if(vh_status) { strncpy(vh_status, vh_case_name, 4000); vh_status[4000] = 0; vh_status[4096] = 0; }
  return 1;
}

/* what is being done right now inside the unit (reported on a crash) */
static void vh_at(const char *fmt, ...)
{
  va_list ap;
  if(!vh_status) return;
  va_start(ap, fmt);
  vsnprintf(vh_status+4096, 4000, fmt, ap);
  va_end(ap);
}

/* sig identifies the kind of failure (used to match known findings) */
static void vh_fail(const char *sig, const char *fmt, ...)
{
  char b[4096];
  int i;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof(b)-1, fmt, ap);
  va_end(ap);
  for(i = 0; b[i]; i++) if(b[i]=='\n' || b[i]=='\t') b[i] = ' ';
  vh_fails++;
  if(vh_fails <= 200)
    fprintf(vh_out, "@FAIL\t%s\t%s\t%s\n", sig, vh_case_name, b);
  fflush(vh_out);
}

static void vh_sample(const char *fmt, ...)
{
  char b[1024];
  int i;
  va_list ap;
  if(vh_samples++ >= 3) return;
  va_start(ap, fmt);
  vsnprintf(b, sizeof(b)-1, fmt, ap);
  va_end(ap);
  for(i = 0; b[i]; i++) if(b[i]=='\n' || b[i]=='\t') b[i] = ' ';
  fprintf(vh_out, "@SAMPLE\t%s\n", b);
}

static int vh_done(void)
{
  vh_flush_stats();
  fprintf(vh_out, "@DONE\n");
  fflush(vh_out);
  if(vh_status) { vh_status[0] = 0; vh_status[4096] = 0; }
  _exit(0);
  return 0;
}

/* run f(arg) in a forked child (fresh copy of all static data of the program);
   a crash there ends this process too, so that the driver reports it */
static void vh_fork(void (*f)(void *), void *arg)
{
  int st;
  pid_t p;
  fflush(NULL);
  p = fork();
  if(p == 0) { f(arg); fflush(vh_out); _exit(0); }
  waitpid(p, &st, 0);
  if(!WIFEXITED(st) || WEXITSTATUS(st)) { fflush(vh_out); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 70); }
}

/* trap exit()/abort() of the code under test: link with -Wl,--wrap=exit,--wrap=abort */
static jmp_buf vh_trap_buf;
static volatile int vh_trap_on;
#define VH_TRY   if((vh_trap_on = 1, setjmp(vh_trap_buf)) == 0)
#define VH_END   (vh_trap_on = 0)
#ifdef VH_WRAP_EXIT
void __real_exit(int);
void __wrap_exit(int c) { if(vh_trap_on) { vh_trap_on = 0; longjmp(vh_trap_buf, 1); } fflush(NULL); _exit(c); }
void __real_abort(void);
void __wrap_abort(void) { if(vh_trap_on) { vh_trap_on = 0; longjmp(vh_trap_buf, 2); } __real_abort(); }
#endif

/* a hash set of 64 bit values (distinct states) */
typedef struct { uint64_t *t; size_t cap, n; } vh_set;
static uint64_t vh_hash(const void *p, size_t n, uint64_t h)
{
  const unsigned char *c = p;
  if(!h) h = 1469598103934665603ULL;
  while(n--) { h ^= *c++; h *= 1099511628211ULL; }
  h ^= h >> 32;
  return h ? h : 1;
}
static int vh_set_add(vh_set *s, uint64_t v)
{
  size_t i;
  if(!v) v = 1;
  if((s->n+1)*2 > s->cap)
  {
    size_t oc = s->cap, k;
    uint64_t *o = s->t;
    s->cap = oc ? oc*2 : 1024;
    s->t = calloc(s->cap, sizeof(uint64_t));
    for(k = 0; k < oc; k++) if(o[k])
    { i = o[k] % s->cap; while(s->t[i]) i = (i+1) % s->cap; s->t[i] = o[k]; }
    free(o);
  }
  i = v % s->cap;
  while(s->t[i]) { if(s->t[i] == v) return 0; i = (i+1) % s->cap; }
  s->t[i] = v; s->n++;
  return 1;
}
#endif

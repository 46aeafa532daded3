/* A controlled OpenMP runtime.  The code under test is compiled with
   -fopenmp -fsanitize=thread but linked neither with libgomp nor with libtsan:
   both interfaces are provided here.  The threads of a parallel region are
   coroutines of one operating system thread, every instrumented memory access
   is a possible switching point, and a happens-before detector (vector clocks;
   critical sections, barriers and atomics order accesses) looks at every
   access.  Threads are switched by a policy, or at synchronisation points as
   told by a list of choices (for an exhaustive search). */
#ifndef VH_OMP_H
#define VH_OMP_H
#include <link.h>
#define VO_MAXT 64
#define VO_STACK (4*1024*1024)
enum { VO_ASC, VO_DESC, VO_RR, VO_PREEMPT, VO_CHOICES };
typedef struct
{
  int T, policy; long at; int first;          /* VO_PREEMPT: switch away from thread `first` at its access number `at` */
  int nchoice, choice[4000], nopt[4000], budget;   /* VO_CHOICES: in: prefix of length npre; out: all choices made and numbers of options */
  int npre, overflow; long rsync[2000];       /* synchronisations seen in each region: choices matter only there */
  long regions, accesses, maxacc, races, syncs, checked, maxiter; int deadlock;
  char race[400], rsig[200];
} vo_cfg;
static vo_cfg *vo;                             /* shared memory */
static int vo_on;                              /* scheduler active (inside the scenario) */
typedef struct { void *sp; char *stk; int state, depth; void *want; uint32_t vc[VO_MAXT]; long loopno, singleno, acc; } vo_thr;
enum { VO_READY, VO_BLOCK, VO_BAR, VO_DONE };
static vo_thr vo_t[VO_MAXT];
static int vo_in, vo_cur, vo_nt;               /* inside a region, current coroutine, number of coroutines */
static volatile int vo_inrep, vo_rt;   /* vo_rt: inside this runtime */
static void *vo_main_sp; static void (*vo_fn)(void *); static void *vo_data;
/* ---- switching ---- */
void vo_switch(void **save, void *to);
__asm__(".text\n.globl vo_switch\n.type vo_switch,@function\nvo_switch:\n"
  "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\nsubq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
  "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
  "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\npopq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size vo_switch,.-vo_switch\n"
  ".globl vo_tramp\nvo_tramp:\nandq $-16,%rsp\ncall vo_entry\nhlt\n"
  ".section .note.GNU-stack,\"\",@progbits\n.text\n");
void vo_tramp(void);
/* variables of the program that are private to a thread (threadprivate): every
   coroutine has its own copy, kept between regions; thread 0 is the initial one */
static char *vo_tls, *vo_tlscopy[VO_MAXT]; static size_t vo_tlsn; static const char *vo_tlsinit; static size_t vo_tlsinitn; static int vo_tlscur;
static int vo_tlsfind(struct dl_phdr_info *i, size_t n, void *d)
{
  int k; (void)n; (void)d;
  for(k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_TLS)
  { vo_tls = i->dlpi_tls_data; vo_tlsn = i->dlpi_phdr[k].p_memsz; vo_tlsinit = (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; vo_tlsinitn = i->dlpi_phdr[k].p_filesz; }
  return 1; /* only the program itself */
}
static void vo_tlsgo(int t)
{
  int i;
  if(!vo_tls || t == vo_tlscur) return;
  for(i = 0; i < VO_MAXT && !vo_tlscopy[VO_MAXT-1]; i++)
  { vo_tlscopy[i] = calloc(1, vo_tlsn); memcpy(vo_tlscopy[i], vo_tlsinit, vo_tlsinitn); }
  memcpy(vo_tlscopy[vo_tlscur], vo_tls, vo_tlsn); memcpy(vo_tls, vo_tlscopy[t], vo_tlsn); vo_tlscur = t;
}
static void vo_go(int t) { if(t != vo_cur) { int o = vo_cur; vo_rt++; vo_tlsgo(t); vo_rt--; vo_cur = t; vo_switch(&vo_t[o].sp, vo_t[t].sp); } }
/* ---- locks ---- */
typedef struct { void *id; int owner; uint32_t vc[VO_MAXT]; } vo_lock;
static vo_lock vo_locks[4096]; static int vo_nlocks;
static vo_lock *vo_getlock(void *id)
{
  int i; for(i = 0; i < vo_nlocks; i++) if(vo_locks[i].id == id) return &vo_locks[i];
  if(vo_nlocks == 4096) { fprintf(stderr, "vh_omp: too many locks\n"); _exit(95); }
  memset(&vo_locks[vo_nlocks], 0, sizeof(vo_lock)); vo_locks[vo_nlocks].id = id; vo_locks[vo_nlocks].owner = -1; return &vo_locks[vo_nlocks++];
}
static int vo_ready(int t)
{
  if(vo_t[t].state == VO_READY) return 1;
  if(vo_t[t].state == VO_BLOCK) return vo_getlock(vo_t[t].want)->owner < 0;
  return 0;
}
/* choose among n options (0 = the default) */
static int vo_choose(int n)
{
  int c = 0;
  if(n <= 1 || vo->regions >= 2000 || !vo->rsync[vo->regions]) return 0;
  if(vo->nchoice >= 4000) { vo->overflow = 1; return 0; }
  if(vo->nchoice < vo->npre) c = vo->choice[vo->nchoice];
  if(c >= n) c = 0;
  vo->choice[vo->nchoice] = c; vo->nopt[vo->nchoice] = n; vo->nchoice++;
  return c;
}
static int vo_budget_left;
/* current coroutine cannot go on (blocked, at a barrier or done): go to another one */
static void vo_next(void)
{
  int cand[VO_MAXT], n = 0, i, t;
  for(i = 1; i <= vo_nt; i++)
  {
    t = vo->policy == VO_DESC ? (vo_cur - i + 2*vo_nt) % vo_nt : (vo_cur + i) % vo_nt;
    if(vo_ready(t)) cand[n++] = t;
  }
  if(n)
  {
    t = cand[vo->policy == VO_CHOICES ? vo_choose(n) : 0];
    if(vo_t[t].state == VO_BLOCK) vo_t[t].state = VO_READY;
    vo_go(t); return;
  }
  /* all done, or all at a barrier */
  for(i = 0, n = 0; i < vo_nt; i++) if(vo_t[i].state == VO_BAR) n++;
  if(n)
  {
    uint32_t m[VO_MAXT] = {0}; int k, d = 0;
    for(i = 0; i < vo_nt; i++) if(vo_t[i].state == VO_DONE || vo_t[i].state == VO_BLOCK) d++;
    if(d) { vo->deadlock = 1; _exit(0); }
    for(i = 0; i < vo_nt; i++) for(k = 0; k < vo_nt; k++) if(vo_t[i].vc[k] > m[k]) m[k] = vo_t[i].vc[k];
    for(i = 0; i < vo_nt; i++) { memcpy(vo_t[i].vc, m, sizeof m); vo_t[i].vc[i]++; vo_t[i].state = VO_READY; }
    if(vo->policy == VO_DESC) t = vo_nt-1; else if(vo->policy == VO_CHOICES) t = vo_choose(vo_nt); else t = 0;
    vo_go(t); return;
  }
  for(i = 0; i < vo_nt; i++) if(vo_t[i].state == VO_BLOCK) { vo->deadlock = 1; _exit(0); }
  { void *s; vo_switch(&s, vo_main_sp); }
}
void vo_entry(void)
{
  vo_fn(vo_data);
  vo_t[vo_cur].state = VO_DONE;
  vo_next();
}
/* a possible preemption before a synchronisation */
static void vo_sync(void)
{
  int cand[VO_MAXT], n = 1, i, c; vo->syncs++; if(vo->regions < 2000) vo->rsync[vo->regions]++;
  if(vo->policy != VO_CHOICES || vo_budget_left <= 0) return;
  cand[0] = vo_cur;
  for(i = 1; i < vo_nt; i++) if(vo_ready((vo_cur+i) % vo_nt)) cand[n++] = (vo_cur+i) % vo_nt;
  c = vo_choose(n);
  if(c) { vo_budget_left--; if(vo_t[cand[c]].state == VO_BLOCK) vo_t[cand[c]].state = VO_READY; vo_go(cand[c]); }
}
static int vo_active(void) { return vo_in && vo_t[vo_cur].depth == 0; }
static void vo_acquire(void *id)
{
  vo_lock *l; int k;
  if(!vo_in || vo_nt < 2) return;
  vo_sync();
  l = vo_getlock(id);
  while(l->owner >= 0) { vo_t[vo_cur].state = VO_BLOCK; vo_t[vo_cur].want = id; vo_next(); l = vo_getlock(id); }
  l->owner = vo_cur;
  for(k = 0; k < vo_nt; k++) if(l->vc[k] > vo_t[vo_cur].vc[k]) vo_t[vo_cur].vc[k] = l->vc[k];
}
static void vo_release(void *id)
{
  vo_lock *l;
  if(!vo_in || vo_nt < 2) return;
  l = vo_getlock(id); l->owner = -1;
  memcpy(l->vc, vo_t[vo_cur].vc, sizeof l->vc); vo_t[vo_cur].vc[vo_cur]++;
}
static void vo_check(uintptr_t a, size_t n, int write, void *pc);
static void vo_atomic(void *a, int n, int write, void *pc) /* acquire and release at once, no blocking */
{
  vo_lock *l; int k;
  if(!vo_in || vo_nt < 2) return;
  vo_sync(); l = vo_getlock(a);
  for(k = 0; k < vo_nt; k++) if(l->vc[k] > vo_t[vo_cur].vc[k]) vo_t[vo_cur].vc[k] = l->vc[k];
  vo_rt++; vo_check((uintptr_t)a, n, write, pc); vo_rt--;
  memcpy(l->vc, vo_t[vo_cur].vc, sizeof l->vc);
  vo_t[vo_cur].vc[vo_cur]++;
}
/* ---- shadow memory: one cell per 4 bytes ---- */
typedef struct { uintptr_t key; uint32_t region, wclk; int16_t wt; uint8_t wm, rm; void *wpc, *rpc; uint32_t *rclk; } vo_cell;
static vo_cell *vo_sh; static size_t vo_shn = 1<<21; static uint32_t vo_region; static size_t vo_shused;
static uint32_t *vo_arena; static size_t vo_arn, vo_arcap = (size_t)1<<28;
static void vo_where(void *pc, char *s, char *fun, int n)
{
  char cmd[300], a[200] = "?", b[300] = "?"; FILE *p; char exe[200]; int k;
  k = readlink("/proc/self/exe", exe, 199); exe[k > 0 ? k : 0] = 0;
  snprintf(cmd, 299, "addr2line -f -i -e %s %#lx 2>/dev/null", exe, (unsigned long)((uintptr_t)pc - 1));
  p = popen(cmd, "r");
  if(p) { for(;;) { if(fgets(a, 199, p)) a[strcspn(a, "\n")] = 0; if(fgets(b, 299, p)) b[strcspn(b, "\n")] = 0; else break; if(strstr(b, "/src/")) break; } pclose(p); }
  { char *q = strstr(b, "/src/"); if(strchr(a, '.')) *strchr(a, '.') = 0; snprintf(s, n, "%s at %s", a, q ? q+5 : b); snprintf(fun, 80, "%s", a); }
}
static void vo_race(const char *how, void *addr, int t1, void *pc1, int t2, void *pc2)
{
  char a[300], b[300], fa[100], fb[100];
  if(vo->races++) return;
  vo_inrep = 1; vo_where(pc1, a, fa, 299); vo_where(pc2, b, fb, 299); vo_inrep = 0;
  snprintf(vo->race, 399, "%s: thread %d in %s, thread %d in %s (%d threads)", how, t1, a, t2, b, vo_nt);
  snprintf(vo->rsig, 199, "race:%s", strcmp(fa, fb) < 0 ? fa : fb); (void)addr;
}
/* neighbours stay on the same page */
#define VO_HASH(k) ((((k)>>6)*0x9E3779B97F4A7C15ull >> 24 << 6 | ((k)&63)) & (vo_shn-1))
static vo_cell *vo_find(uintptr_t key)
{
  size_t i = VO_HASH(key);
  while(vo_sh[i].region == vo_region && vo_sh[i].key != key) i = (i+64) & (vo_shn-1);
  if(vo_sh[i].region != vo_region)
  {
    if(++vo_shused > vo_shn*3/4) { fprintf(stderr, "vh_omp: shadow memory full\n"); _exit(94); }
    memset(&vo_sh[i], 0, sizeof(vo_cell)); vo_sh[i].region = vo_region; vo_sh[i].key = key; vo_sh[i].wt = -1;
  }
  return &vo_sh[i];
}
static void vo_point(void)
{
  long n = ++vo_t[vo_cur].acc; vo->accesses++;
  if(vo->policy == VO_RR)
  { int i; for(i = 1; i < vo_nt; i++) { int t = (vo_cur+i) % vo_nt; if(vo_t[t].state == VO_READY) { vo_go(t); return; } } }
  else if(vo->policy == VO_PREEMPT && vo_cur == vo->first && n == vo->at)
  { int i; for(i = 1; i < vo_nt; i++) { int t = (vo_cur+i) % vo_nt; if(vo_t[t].state == VO_READY) { vo_go(t); return; } } }
}
static void vo_check(uintptr_t a, size_t n, int write, void *pc)
{
  uintptr_t end = a+n; int me = vo_cur, k;
  vo->checked++;
  while(a < end)
  {
    uintptr_t e = (a|3)+1; uint8_t m; vo_cell *c; if(e > end) e = end;
    m = ((1u<<(e-a))-1)<<(a&3);
    c = vo_find(a>>2);
    if(c->wt >= 0 && c->wt != me && (c->wm & m) && c->wclk > vo_t[me].vc[c->wt]) vo_race(write ? "two threads write the same location" : "one thread reads what another writes", (void*)a, me, pc, c->wt, c->wpc);
    if(write)
    {
      if(c->rclk && (c->rm & m)) for(k = 0; k < vo_nt; k++) if(k != me && c->rclk[k] > vo_t[me].vc[k]) { vo_race("one thread writes what another reads", (void*)a, me, pc, k, c->rpc); break; }
      if(c->wt == me && c->wclk == vo_t[me].vc[me]) c->wm |= m; else c->wm = m;
      c->wt = me; c->wclk = vo_t[me].vc[me]; c->wpc = pc;
    }
    else
    {
      if(!c->rclk) { if(vo_arn + vo_nt > vo_arcap) { fprintf(stderr, "vh_omp: arena full\n"); _exit(94); } c->rclk = vo_arena + vo_arn; vo_arn += vo_nt; memset(c->rclk, 0, 4*vo_nt); }
      c->rclk[me] = vo_t[me].vc[me]; c->rm |= m; c->rpc = pc;
    }
    a = e;
  }
}
static void vo_clear(uintptr_t a, size_t n)
{
  uintptr_t k; vo_rt++;
  for(k = a>>2; k <= (a+n-1)>>2; k++)
  {
    size_t i = VO_HASH(k);
    while(vo_sh[i].region == vo_region && vo_sh[i].key != k) i = (i+64) & (vo_shn-1);
    if(vo_sh[i].region == vo_region) { vo_sh[i].wt = -1; vo_sh[i].wm = 0; vo_sh[i].rm = 0; if(vo_sh[i].rclk) memset(vo_sh[i].rclk, 0, 4*vo_nt); }
  }
  vo_rt--;
}
static void vo_access(void *p, size_t n, int write, void *pc)
{
  char *s;
  if(!vo_in || vo_nt < 2 || vo_inrep || !n) return;
  if((char*)p >= vo_tls && (char*)p < vo_tls + vo_tlsn) return;
  s = vo_t[vo_cur].stk;
  if((char*)p >= s && (char*)p < s + VO_STACK) return;
  vo_rt++; vo_check((uintptr_t)p, n, write, pc); vo_rt--;
  vo_point();
}
#define VO_PC __builtin_return_address(0)
#define VO_ACC(sz) void __tsan_read##sz(void *p) { vo_access(p, sz, 0, VO_PC); } void __tsan_write##sz(void *p) { vo_access(p, sz, 1, VO_PC); } \
  void __tsan_unaligned_read##sz(void *p) { vo_access(p, sz, 0, VO_PC); } void __tsan_unaligned_write##sz(void *p) { vo_access(p, sz, 1, VO_PC); } \
  void __tsan_volatile_read##sz(void *p) { vo_access(p, sz, 0, VO_PC); } void __tsan_volatile_write##sz(void *p) { vo_access(p, sz, 1, VO_PC); }
VO_ACC(1) VO_ACC(2) VO_ACC(4) VO_ACC(8) VO_ACC(16)
void __tsan_read_range(void *p, unsigned long n) { vo_access(p, n, 0, VO_PC); }
void __tsan_write_range(void *p, unsigned long n) { vo_access(p, n, 1, VO_PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void *p) { (void)p; }
#define VO_AT(b, ty) \
 ty __tsan_atomic##b##_load(const volatile ty *a, int mo) { (void)mo; vo_atomic((void*)a, b/8, 0, VO_PC); return *a; } \
 void __tsan_atomic##b##_store(volatile ty *a, ty v, int mo) { (void)mo; vo_atomic((void*)a, b/8, 1, VO_PC); *a = v; } \
 ty __tsan_atomic##b##_exchange(volatile ty *a, ty v, int mo) { ty o; (void)mo; vo_atomic((void*)a, b/8, 1, VO_PC); o = *a; *a = v; return o; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty *a, ty v, int mo) { ty o; (void)mo; vo_atomic((void*)a, b/8, 1, VO_PC); o = *a; *a = o+v; return o; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty *a, ty v, int mo) { ty o; (void)mo; vo_atomic((void*)a, b/8, 1, VO_PC); o = *a; *a = o-v; return o; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty *a, ty v, int mo) { ty o; (void)mo; vo_atomic((void*)a, b/8, 1, VO_PC); o = *a; *a = o&v; return o; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty *a, ty v, int mo) { ty o; (void)mo; vo_atomic((void*)a, b/8, 1, VO_PC); o = *a; *a = o|v; return o; } \
 ty __tsan_atomic##b##_fetch_xor(volatile ty *a, ty v, int mo) { ty o; (void)mo; vo_atomic((void*)a, b/8, 1, VO_PC); o = *a; *a = o^v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int f) { (void)mo; (void)f; vo_atomic((void*)a, b/8, 1, VO_PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int f) { (void)mo; (void)f; vo_atomic((void*)a, b/8, 1, VO_PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int f) { ty o; (void)mo; (void)f; vo_atomic((void*)a, b/8, 1, VO_PC); o = *a; if(o == c) *a = v; return o; }
VO_AT(8, unsigned char) VO_AT(16, unsigned short) VO_AT(32, unsigned int) VO_AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
/* ---- OpenMP ---- */
static void *vo_text0, *vo_text1; extern char __executable_start, etext;
static void vo_run_region(void (*fn)(void *), void *data, unsigned nt)
{
  int i, k;
  if(vo_in || !vo_on || vo->T < 2 || nt == 1 || (char*)fn < &__executable_start || (char*)fn >= &etext)
  { /* nested or serial: a team of one thread */
    if(vo_in) vo_t[vo_cur].depth++;
    fn(data);
    if(vo_in) vo_t[vo_cur].depth--;
    return;
  }
  vo_nt = vo->T; if(nt && (int)nt < vo_nt) vo_nt = nt;
  if(!vo_sh)
  {
    dl_iterate_phdr(vo_tlsfind, NULL);
    vo_sh = mmap(NULL, vo_shn*sizeof(vo_cell), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    vo_arena = mmap(NULL, vo_arcap*4, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  }
  vo_region++; vo_shused = 0; vo_arn = 0; vo_nlocks = 0; vo->regions++;
  for(i = 0; i < vo_nt; i++)
  {
    void **s;
    if(!vo_t[i].stk) vo_t[i].stk = mmap(NULL, VO_STACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    s = (void**)(vo_t[i].stk + VO_STACK - 64);
    *--s = (void*)vo_tramp;
    for(k = 0; k < 6; k++) *--s = 0;
    --s; { unsigned mx; unsigned short cw; __asm__ volatile("stmxcsr %0" : "=m"(mx)); __asm__ volatile("fnstcw %0" : "=m"(cw)); ((unsigned*)s)[0] = mx; ((unsigned*)s)[1] = cw; }
    vo_t[i].sp = s; vo_t[i].state = VO_READY; vo_t[i].depth = 0; vo_t[i].loopno = vo_t[i].singleno = 0; vo_t[i].acc = 0;
    memset(vo_t[i].vc, 0, sizeof vo_t[i].vc); vo_t[i].vc[i] = 1;
  }
  vo_fn = fn; vo_data = data; vo_in = 1;
  vo_cur = vo->policy == VO_DESC ? vo_nt-1 : vo->policy == VO_PREEMPT ? vo->first % vo_nt : vo->policy == VO_CHOICES ? vo_choose(vo_nt) : 0;
  vo_rt++; vo_tlsgo(vo_cur); vo_rt--;
  vo_switch(&vo_main_sp, vo_t[vo_cur].sp);
  vo_tlsgo(0); vo_in = 0; vo_cur = 0;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) { (void)flags; vo_run_region(fn, data, nt); }
void GOMP_barrier(void) { if(!vo_active() || vo_nt < 2) return; vo_sync(); vo_t[vo_cur].state = VO_BAR; vo_next(); }
static int vo_dummy_lock, vo_atomic_lock;
void GOMP_critical_name_start(void **p) { vo_acquire(p); }
void GOMP_critical_name_end(void **p) { vo_release(p); }
void GOMP_critical_start(void) { vo_acquire(&vo_dummy_lock); }
void GOMP_critical_end(void) { vo_release(&vo_dummy_lock); }
void GOMP_atomic_start(void) { vo_acquire(&vo_atomic_lock); }
void GOMP_atomic_end(void) { vo_release(&vo_atomic_lock); }
int omp_get_thread_num(void) { return vo_active() ? vo_cur : 0; }
int omp_get_num_threads(void) { return vo_active() ? vo_nt : 1; }
int omp_get_max_threads(void) { return vo_on ? (vo->T > 0 ? vo->T : 1) : 1; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return vo_in; }
void omp_set_num_threads(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
void omp_set_dynamic(int n) { (void)n; }
int omp_get_level(void) { return vo_in ? 1+vo_t[vo_cur].depth : 0; }
double omp_get_wtime(void) { return 0; }
typedef struct { void *p; } omp_lock_t_;
void omp_init_lock(void *l) { (void)l; }
void omp_destroy_lock(void *l) { (void)l; }
void omp_set_lock(void *l) { vo_acquire(l); }
void omp_unset_lock(void *l) { vo_release(l); }
/* work sharing loops with dynamic distribution */
typedef struct { long start, end, incr, chunk; int set; } vo_ws;
static vo_ws vo_loops[256]; static long vo_loop_region = -1;
static vo_ws vo_serial[64];
static vo_ws *vo_ws_get(void)
{
  if(!vo_active() || vo_nt < 2) return &vo_serial[vo_in ? vo_cur : 63];
  return &vo_loops[vo_t[vo_cur].loopno & 255];
}
static char vo_loop_next(long *s, long *e)
{
  vo_ws *w = vo_ws_get();
  if(vo_active() && vo_nt > 1) vo_sync();
  if(w->incr > 0 ? w->start >= w->end : w->start <= w->end) return 0;
  *s = w->start; *e = w->start + w->incr*w->chunk;
  if(w->incr > 0 ? *e > w->end : *e < w->end) *e = w->end;
  w->start = *e; return 1;
}
static char vo_loop_start(long a, long b, long incr, long chunk, long *s, long *e)
{
  vo_ws *w;
  if(vo_active() && vo_nt > 1)
  {
    if(vo_loop_region != (long)vo_region) { memset(vo_loops, 0, sizeof vo_loops); vo_loop_region = vo_region; }
    vo_t[vo_cur].loopno++; w = vo_ws_get(); if(!w->set) { w->set = 1; w->start = a; w->end = b; w->incr = incr; w->chunk = chunk > 0 ? chunk : 1; }
  }
  else { w = vo_ws_get(); w->start = a; w->end = b; w->incr = incr; w->chunk = chunk > 0 ? chunk : 1; }
  return s ? vo_loop_next(s, e) : 1;
}
typedef struct { void (*fn)(void *); void *data; long a, b, incr, chunk; } vo_pl;
static vo_pl vo_plarg;
static void vo_plfn(void *p) { vo_pl *q = p; vo_loop_start(q->a, q->b, q->incr, q->chunk, NULL, NULL); q->fn(q->data); }
#define VO_PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long a, long b, long incr, long chunk, unsigned fl) { vo_pl q = {fn, data, a, b, incr, chunk}; (void)fl; vo_run_region(vo_plfn, &q, nt); }
VO_PLOOP(static) VO_PLOOP(dynamic) VO_PLOOP(guided) VO_PLOOP(nonmonotonic_dynamic) VO_PLOOP(nonmonotonic_guided)
#define VO_PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long a, long b, long incr, unsigned fl) { vo_pl q = {fn, data, a, b, incr, 1}; (void)fl; vo_run_region(vo_plfn, &q, nt); }
VO_PLOOPR(runtime) VO_PLOOPR(nonmonotonic_runtime) VO_PLOOPR(maybe_nonmonotonic_runtime)
#define VO_LOOP(name) _Bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return vo_loop_start(a, b, i, c, s, e); } _Bool GOMP_loop_##name##_next(long *s, long *e) { return vo_loop_next(s, e); }
VO_LOOP(static) VO_LOOP(dynamic) VO_LOOP(guided) VO_LOOP(nonmonotonic_dynamic) VO_LOOP(nonmonotonic_guided)
#define VO_LOOPR(name) _Bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { return vo_loop_start(a, b, i, 1, s, e); } _Bool GOMP_loop_##name##_next(long *s, long *e) { return vo_loop_next(s, e); }
VO_LOOPR(runtime) VO_LOOPR(nonmonotonic_runtime) VO_LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) { GOMP_barrier(); }
static long vo_singles[256]; static long vo_single_region = -1;
_Bool GOMP_single_start(void)
{
  long k; if(!vo_active() || vo_nt < 2) return 1;
  vo_sync();
  if(vo_single_region != (long)vo_region) { memset(vo_singles, 0, sizeof vo_singles); vo_single_region = vo_region; }
  k = vo_t[vo_cur].singleno++ & 255; if(vo_singles[k]) return 0; vo_singles[k] = 1; return 1;
}
/* ---- memory functions of the C library, for the objects of the tree ---- */
/* malloc and its family are replaced for the whole process, libraries too */
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
#include <malloc.h>
#include <errno.h>
extern char __executable_start, etext;
#define VO_TRACK (vo_in && vo_nt > 1 && !vo_inrep && !vo_rt)
#define VO_INPROG(pc) ((char*)(pc) >= &__executable_start && (char*)(pc) < &etext)
static void *vo_new(void *p) { if(VO_TRACK && p) vo_clear((uintptr_t)p, malloc_usable_size(p)); return p; }
static void vo_gone(void *p, void *pc) { if(VO_TRACK && p) { size_t n = malloc_usable_size(p); if(VO_INPROG(pc)) vo_access(p, n, 1, pc); vo_clear((uintptr_t)p, n); } }
void *malloc(size_t n) { return vo_new(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return vo_new(__libc_calloc(a, b)); }
void free(void *p) { vo_gone(p, VO_PC); __libc_free(p); }
void *realloc(void *p, size_t n) { vo_gone(p, VO_PC); return vo_new(__libc_realloc(p, n)); }
void *memalign(size_t a, size_t n) { return vo_new(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return vo_new(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = vo_new(__libc_memalign(a, n)); if(!q) return ENOMEM; *p = q; return 0; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if(VO_TRACK) { vo_access((void*)s, n, 0, VO_PC); vo_access(d, n, 1, VO_PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if(VO_TRACK) { vo_access((void*)s, n, 0, VO_PC); vo_access(d, n, 1, VO_PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if(VO_TRACK) vo_access(d, n, 1, VO_PC); return __real_memset(d, c, n); }
/* FFTW: only fftw_execute* is thread safe; the planner is one shared object */
static int vo_planner; struct vo_pl_n { void *p; int n; } vo_plans[1000]; static int vo_nplans;
static int vo_plan_n(void *p) { int i; for(i = vo_nplans-1; i >= 0; i--) if(vo_plans[i].p == p) return vo_plans[i].n; return 0; }
static void *vo_newplan(void *p, int n) { if(vo_nplans < 1000) { vo_plans[vo_nplans].p = p; vo_plans[vo_nplans++].n = n; } return p; }
void *__real_fftw_plan_dft_r2c_1d(int, double *, void *, unsigned); void *__real_fftw_plan_dft_c2r_1d(int, void *, double *, unsigned); void *__real_fftw_plan_r2r_1d(int, double *, double *, int, unsigned); void __real_fftw_destroy_plan(void *);
void *__wrap_fftw_plan_dft_r2c_1d(int n, double *a, void *b, unsigned f) { if(VO_TRACK) vo_access(&vo_planner, 4, 1, VO_PC); return vo_newplan(__real_fftw_plan_dft_r2c_1d(n, a, b, f), n); }
void *__wrap_fftw_plan_dft_c2r_1d(int n, void *a, double *b, unsigned f) { if(VO_TRACK) vo_access(&vo_planner, 4, 1, VO_PC); return vo_newplan(__real_fftw_plan_dft_c2r_1d(n, a, b, f), n); }
void *__wrap_fftw_plan_r2r_1d(int n, double *a, double *b, int k, unsigned f) { if(VO_TRACK) vo_access(&vo_planner, 4, 1, VO_PC); return vo_newplan(__real_fftw_plan_r2r_1d(n, a, b, k, f), n); }
void __wrap_fftw_destroy_plan(void *p) { if(VO_TRACK) vo_access(&vo_planner, 4, 1, VO_PC); __real_fftw_destroy_plan(p); }
void __real_fftw_execute_dft_r2c(void *, double *, void *); void __real_fftw_execute_dft_c2r(void *, void *, double *); void __real_fftw_execute_r2r(void *, double *, double *);
void __wrap_fftw_execute_dft_r2c(void *p, double *a, void *b) { int n = vo_plan_n(p); if(VO_TRACK) { vo_access(a, 8*n, 0, VO_PC); vo_access(b, 16*(n/2+1), 1, VO_PC); } __real_fftw_execute_dft_r2c(p, a, b); }
void __wrap_fftw_execute_dft_c2r(void *p, void *a, double *b) { int n = vo_plan_n(p); if(VO_TRACK) { vo_access(a, 16*(n/2+1), 1, VO_PC); vo_access(b, 8*n, 1, VO_PC); } __real_fftw_execute_dft_c2r(p, a, b); }
void __wrap_fftw_execute_r2r(void *p, double *a, double *b) { int n = vo_plan_n(p); if(VO_TRACK) { vo_access(a, 8*n, 0, VO_PC); vo_access(b, 8*n, 1, VO_PC); } __real_fftw_execute_r2r(p, a, b); }
#endif

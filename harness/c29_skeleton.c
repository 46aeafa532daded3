/* C29: registered functions per phase; argument files. */
#include "sgrid.h"
#include "vh.h"
#include "vh_run.h"
#undef exit

static char trace[4000];
static int tl;
static tGrid *G1 = (tGrid*)0x1000, *G2 = (tGrid*)0x2000;
#define F(n) static int f##n(tGrid *g) { if(tl < 3990) { trace[tl++] = '0'+n; trace[tl++] = g == G1 ? 'x' : g == G2 ? 'y' : g ? '?' : 'z'; } return n; }
F(0) F(1) F(2)
static int (*FUN[3])(tGrid*) = {f0, f1, f2};
static const int PH[3] = {POST_PARAMETERS, EVOLVE, LAST};

/* ops: 0..8 AddFun(phase,f), 9..11 RunFun(phase) on grid, 12 remove all */
#define NOPS 13
static void replay(const unsigned char *h, int n)
{
  char reg[3][20]; int rn[3] = {0, 0, 0}, i, k; char want[400]; int wl = 0, run = 0;
  char hist[200] = "";
  remove_all_Funs();
  tl = 0;
  for(i = 0; i < n; i++)
  {
    int o = h[i];
    if(o < 9) { char nm[8]; sprintf(nm, "f%d", o%3); sprintf(hist+strlen(hist), "Add(%d,f%d);", o/3, o%3); AddFun(PH[o/3], FUN[o%3], nm); reg[o/3][rn[o/3]++] = o%3; }
    else if(o < 12)
    {
      tGrid *g = run % 3 == 0 ? G1 : run % 3 == 1 ? G2 : NULL;
      sprintf(hist+strlen(hist), "Run(%d);", o-9);
      RunFun(PH[o-9], g);
      for(k = 0; k < rn[o-9]; k++) { want[wl++] = '0'+reg[o-9][k]; want[wl++] = run % 3 == 0 ? 'x' : run % 3 == 1 ? 'y' : 'z'; }
      run++;
    }
    else { strcat(hist, "Clear;"); remove_all_Funs(); rn[0] = rn[1] = rn[2] = 0; }
  }
  /* every phase once at the end: also those nobody registered for */
  for(k = 0; k < NFUNCTIONS; k++)
  {
    int p;
    RunFun(k, G1);
    for(p = 0; p < 3; p++) if(PH[p] == k) for(i = 0; i < rn[p]; i++) { want[wl++] = '0'+reg[p][i]; want[wl++] = 'x'; }
  }
  vh_trans++; vh_traces++;
  if(tl != wl || memcmp(trace, want, wl)) { trace[tl] = 0; want[wl] = 0; vh_fail("phase", "%s calls %s, expected %s", hist, trace, want); }
}

/* ------------- argument files ------------- */
static int probe(tGrid *g)
{
  static const char *W[] = {"p", "new", "sgrid_arg2", "sgrid_arg3", "sgrid_arg4", "outdir", "parameterfile", "sgrid_options"};
  int i;
  vr_put("RUN");
  for(i = 0; i < 8; i++) { char *v = GetsLax((char*)W[i]); if(v) vr_put(" %s=%s", W[i], v); }
  vr_put("\n");
  return 0;
}
static int grid_there(tGrid *g) { vr_put(g ? "G%d\n" : "?\n", g ? g->nboxes : 0); return 0; }
static int done(tGrid *g) { vr_put("END\n"); return 0; }
static void before(void) { AddFun(POST_PARAMETERS, probe, "probe"); AddFun(POST_GRID, grid_there, "grid"); AddFun(LAST, done, "done"); }
static const char *BASE = "physics=none\nn1=2\nn2=2\nn3=2\ndt=0.1\nbox0_basis1=ChebExtrema\nbox0_basis2=ChebExtrema\nbox0_basis3=ChebExtrema\nbox1_basis1=ChebExtrema\nbox1_basis2=ChebExtrema\nbox1_basis3=ChebExtrema\n";
typedef struct { const char *line, *want; } al;
static const al LINES[] = {
  {"a.par", "RUN p=A outdir=a parameterfile=a.par\nG1\n"},
  {"b", "RUN p=B outdir=b parameterfile=b.par\nG2\n"},
  {"a.par --modify-par:p=7", "RUN p=7 outdir=a parameterfile=a.par sgrid_options=--modify-par:p=7\nG1\n"},
  {"b.par word --modify-par:new=1 --keep_previous", "RUN p=B new=1 sgrid_arg2=word outdir=b parameterfile=b.par sgrid_options=--modify-par:new=1 --keep_previous\nG2\n"},
  {"  a   other  ", "RUN p=A sgrid_arg2=other outdir=a parameterfile=a.par\nG1\n"},
  {"# a.par", ""}, {"", ""}, {"#", ""},
  {"b w#1 --modify-par:p=x#y # z", "RUN p=x#y sgrid_arg2=w#1 sgrid_arg3=# sgrid_arg4=z outdir=b parameterfile=b.par sgrid_options=--modify-par:p=x#y\nG2\n"}};
#define NL 9

int main(int argc, char **argv)
{
  int i, j, n, D, max;
  vh_init(argc, argv);
  D = vh_thorough ? 6 : 5;
  for(i = 0; i < NOPS; i++) for(j = 0; j < NOPS; j++) if(vh_unit("registrations starting with %d,%d", i, j))
  {
    for(n = 2; n <= D; n++)
    {
      long tot = 1, x; int k;
      for(k = 2; k < n; k++) tot *= NOPS;
      for(x = 0; x < tot; x++)
      {
        unsigned char h[8]; long y = x;
        h[0] = i; h[1] = j;
        for(k = 2; k < n; k++) { h[k] = y % NOPS; y /= NOPS; }
        replay(h, n);
        vh_states++;
      }
    }
  }
  /* many functions in one phase */
  if(vh_unit("many functions"))
  {
    char want[4000]; int wl = 0;
    remove_all_Funs(); tl = 0;
    for(i = 0; i < 300; i++) { AddFun(ANALYZE, FUN[(i*i) % 3], "f"); want[wl++] = '0'+(i*i) % 3; want[wl++] = 'y'; }
    RunFun(ANALYZE, G2);
    if(tl != wl || memcmp(trace, want, wl)) vh_fail("phase", "300 functions");
    vh_trans++; vh_traces++;
  }
  remove_all_Funs();
  max = vh_thorough ? 4 : 3;
  for(n = 1; n <= max; n++) for(i = 0; i < NL; i++) for(j = 0; j < 2; j++) if(vh_unit("argument files of %d lines starting with line %d, final newline %d", n, i, j))
  {
    long tot = 1, x; int k;
    for(k = 1; k < n; k++) tot *= NL;
    for(x = 0; x < tot; x++)
    {
      char file[2000] = "", want[3000] = "", got[8000], dir[300], f[400], *av[] = {"sgrid", "--argsfile", "args.txt"};
      long y = x; int l[4], c, runs = 0;
      l[0] = i; for(k = 1; k < n; k++) { l[k] = y % NL; y /= NL; }
      for(k = 0; k < n; k++)
      {
        strcat(file, LINES[l[k]].line);
        if(k < n-1 || j) strcat(file, "\n");
        strcat(want, LINES[l[k]].want);
        runs += LINES[l[k]].want[0] != 0;
      }
      if(!runs) continue;
      if(n == max && n > 2 && !vh_thorough && x % 2 != j) continue; /* with or without final newline for the longest */
      strcat(want, "END\n");
      snprintf(dir, 299, "%s/c", getenv("VH_SCRATCH"));
      vr_rmtree(dir); mkdir(dir, 0700);
      { char t[2000]; sprintf(t, "%snboxes=1\np=A\n", BASE); snprintf(f, 399, "%s/a.par", dir); vr_file(f, t);
        sprintf(t, "%snboxes=2\np=B\n", BASE); snprintf(f, 399, "%s/b.par", dir); vr_file(f, t); }
      snprintf(f, 399, "%s/args.txt", dir); vr_file(f, file);
      vh_at("%s", file);
      c = vr_run(dir, 3, av, before, got, 8000, 60);
      vh_trans++; vh_traces++; vh_states++;
      if(runs > 1) vh_sample("%s", file);
      if(c || strcmp(got, want)) vh_fail("argsfile", "|%s| exit %d gives |%s| expected |%s|", file, c, got, want);
    }
  }
  return vh_done();
}

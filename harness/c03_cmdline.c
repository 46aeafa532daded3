/* C03: command line, output directories and parameter iteration: every small
   combination, each as a complete run of the real program in a child process. */
#include "sgrid.h"
#include "vh.h"
#include "vh_run.h"
#undef exit

static const char *WATCH[] = {"p", "q", "new", "keep", "iterations", "sgrid_arg2", "sgrid_arg3", "outdir", "parameterfile", "outdir_previous_iteration"};
#define NWATCH 10
static int probe(tGrid *g)
{
  int i;
  vr_put("RUN\n");
  for(i = 0; i < NWATCH; i++) { char *v = GetsLax((char*)WATCH[i]); if(v) vr_put("%s=%s\n", WATCH[i], v); }
  vr_put("dir=%d\n", access(Gets("outdir"), F_OK));
  return 0;
}
static int done(tGrid *g) { vr_put("END\n"); return 0; }
static void before(void) { AddFun(POST_PARAMETERS, probe, "probe"); AddFun(LAST, done, "done"); }

static const char *BASE = "physics=none\nn1=2\nn2=2\nn3=2\ndt=0.1\nnboxes=1\nbox0_basis1=ChebExtrema\nbox0_basis2=ChebExtrema\nbox0_basis3=ChebExtrema\n";

static void expect(const char *what, const char *got, const char *want, int code, int wantcode)
{
  vh_evals++;
  if(code != wantcode || strcmp(got, want)) vh_fail(what, "exit %d (want %d) got |%s| want |%s|", code, wantcode, got, want);
}

/* ---------- options ---------- */
typedef struct { const char *arg; const char *par, *val; int pos; } opt;
static const opt OPT[] = {
  {"--modify-par:p=1", "p", "1"}, {"--modify-par:p=-2 x", "p", "-2 x"}, {"--modify-par:q=a=b", "q", "a=b"},
  {"--modify-par:new=z", "new", "z"}, {"--keep_previous"}, {"word", NULL, NULL, 1}, {"other", NULL, NULL, 1},
  {"--modify-par:q=3 -4.5 +x -y=z", "q", "3 -4.5 +x -y=z"}, {"--modify-par:outdir=there", "outdir", "there"}, {"--modify-par:p=", "p", ""}};
#define NOPT 10
static const char *PNAME[][3] = { /* argument, file to create, expected outdir */
  {"a.par", "a.par", "a"}, {"a", "a.par", "a"}, {"./a.par", "./a.par", "./a"}, {"d/a.par", "d/a.par", "d/a"},
  {"my.params/x.par", "my.params/x.par", "my.params/x"}, {"x.par.y", "x.par.y.par", "x.par.y"}, {"b.c", "b.c.par", "b.c"}};
#define NPN 7

static void one_cmdline(int pn, int od, const int *sel, int ns)
{
  char *av[20], dir[300], f[700], want[4000] = "", got[8000], file[2000];
  char p[50] = "file p", q[50] = "file q", nw[50] = "", arg[2][50] = {"", ""}, outdir[100];
  int ac = 0, i, na = 0, c;
  snprintf(dir, 299, "%s/c", getenv("VH_SCRATCH"));
  vr_rmtree(dir); mkdir(dir, 0700);
  snprintf(f, 699, "%s/d", dir); mkdir(f, 0700);
  snprintf(f, 699, "%s/my.params", dir); mkdir(f, 0700);
  strcpy(outdir, od ? "elsewhere" : PNAME[pn][2]);
  sprintf(file, "%sp=file p\nq=file q\nkeep = kept\n%s", BASE, od ? "outdir=elsewhere\n" : "");
  snprintf(f, 699, "%s/%s", dir, PNAME[pn][1]); vr_file(f, file);
  av[ac++] = "sgrid"; av[ac++] = (char*)PNAME[pn][0];
  for(i = 0; i < ns; i++)
  {
    const opt *o = &OPT[sel[i]];
    av[ac++] = (char*)o->arg;
    if(o->pos) strcpy(arg[na++], o->arg);
    if(o->par) strcpy(!strcmp(o->par, "p") ? p : !strcmp(o->par, "q") ? q : !strcmp(o->par, "outdir") ? outdir : nw, o->val);
  }
  sprintf(want, "RUN\np=%s\nq=%s\n", p, q);
  if(nw[0]) sprintf(want+strlen(want), "new=%s\n", nw);
  sprintf(want+strlen(want), "keep=kept\niterations=0\n");
  for(i = 0; i < na; i++) sprintf(want+strlen(want), "sgrid_arg%d=%s\n", i+2, arg[i]);
  sprintf(want+strlen(want), "outdir=%s\nparameterfile=%s\ndir=0\nEND\n", outdir, PNAME[pn][1]);
  vh_distinct += ns > 0;
  c = vr_run(dir, ac, av, before, got, 8000, 60);
  expect("cmdline", got, want, c, 0);
  { const char *b = strrchr(PNAME[pn][1], '/'); char *t;
    snprintf(f, 699, "%s/%s/%s", dir, outdir, b ? b+1 : PNAME[pn][1]);
    t = vr_read(f);
    if(!t || strcmp(t, file)) vh_fail("parcopy", "the parameter file is not copied to the output directory %s", outdir);
  }
}
static void rec(int pn, int od, int *sel, int ns, int max)
{
  int i, j;
  one_cmdline(pn, od, sel, ns);
  if(ns == max) return;
  for(i = 0; i < NOPT; i++)
  {
    for(j = 0; j < ns; j++) if(sel[j] == i) break;
    if(j < ns) continue;
    sel[ns] = i;
    rec(pn, od, sel, ns+1, max);
  }
}

int main(int argc, char **argv)
{
  int pn, od, i, j, max;
  vh_init(argc, argv);
  max = vh_thorough ? 4 : 2;
  for(pn = 0; pn < NPN; pn++) for(od = 0; od < 2; od++) for(i = -1; i < NOPT; i++)
    if(vh_unit("parameter file %s, outdir %d, first option %d", PNAME[pn][0], od, i))
    {
      int sel[8];
      vh_sample("sgrid %s %s", PNAME[pn][0], i < 0 ? "" : OPT[i].arg);
      if(i < 0) one_cmdline(pn, od, sel, 0);
      else { sel[0] = i; rec(pn, od, sel, 1, max + (pn == 0 && !od)); }
    }

  /* long option lists */
  for(i = 1; i <= 40; i += 3) if(vh_unit("%d long options", i))
  {
    char *av[60], dir[300], f[700], got[8000], want[2000], last[200];
    int c;
    snprintf(dir, 299, "%s/c", getenv("VH_SCRATCH"));
    vr_rmtree(dir); mkdir(dir, 0700);
    snprintf(f, 699, "%s/a.par", dir); vr_file(f, BASE);
    av[0] = "sgrid"; av[1] = "a.par";
    for(j = 0; j < i; j++) { av[2+j] = malloc(200); sprintf(av[2+j], "--modify-par:p=%d_%0100d", j, j); }
    sprintf(last, "%d_%0100d", i-1, i-1);
    sprintf(want, "RUN\np=%s\niterations=0\noutdir=a\nparameterfile=a.par\ndir=0\nEND\n", last);
    c = vr_run(dir, 2+i, av, before, got, 8000, 60);
    expect("manyoptions", got, want, c, 0);
    vh_distinct++;
  }

  /* parameter iteration: 1..3 parameters, 1..4 values */
  {
    static const char *V[] = {"1", "2.5", "w", "-3e-1"};
    static const char *N[] = {"p", "q", "keep"};
    int np, nv, sh, of, base, fv;
    for(np = 0; np <= 3; np++) for(nv = 1; nv <= 4; nv++) for(sh = 0; sh < 4; sh++) for(of = 0; of < 2; of++) for(base = 0; base < 3; base++) for(fv = 0; fv < 4; fv++)
      if((np || (nv == 1 && !sh)) && (!fv || np) && !(fv && of) && !(fv && fv > nv) && vh_unit("iterate %d parameters over %d values, shift %d, switched %s, file %d, file values %d", np, nv, sh, of ? "off" : "on", base, fv))
      {
        static const char *B[] = {"a", "my.params/a", "x.par.y"};
        char *av[3] = {"sgrid", NULL, NULL}, dir[300], f[700], fn[100], got[8000], want[8000] = "", file[3000], pd[200] = "", f0[3][20] = {"fp", "fq", "fk"};
        int c, k, on = np && !of;
        snprintf(dir, 299, "%s/c", getenv("VH_SCRATCH"));
        vr_rmtree(dir); mkdir(dir, 0700);
        snprintf(f, 699, "%s/my.params", dir); mkdir(f, 0700);
        /* the values in the file can be among those of the list */
        if(fv) for(i = 0; i < np; i++) strcpy(f0[i], V[(fv-1+sh*(i+1)) % 4]);
        sprintf(file, "%sp=%s\nq=%s\nkeep=%s\niterate_parameters=%s\n", BASE, f0[0], f0[1], f0[2], on ? "yes" : "no");
        for(i = 0; i < np; i++)
        {
          sprintf(file+strlen(file), "iterate_parameter%d = %s", i+1, N[i]);
          for(k = 0; k < nv; k++) sprintf(file+strlen(file), " %s", V[(k+sh*(i+1)) % 4]);
          strcat(file, "\n");
        }
        sprintf(fn, "%s.par", B[base]); av[1] = fn;
        snprintf(f, 699, "%s/%s", dir, fn); vr_file(f, file);
        for(k = 0; k < (on ? nv : 1); k++)
        {
          char od[300];
          strcpy(od, B[base]);
          strcat(want, "RUN\n");
          for(i = 0; i < 3; i++)
          {
            const char *v = on && i < np ? V[(k+sh*(i+1)) % 4] : f0[i];
            sprintf(want+strlen(want), "%s=%s\n", N[i], v);
            if(on && i < np) { strcat(od, "_"); strcat(od, v); }
          }
          sprintf(want+strlen(want), "iterations=0\noutdir=%s\nparameterfile=%s\n", od, fn);
          if(k) sprintf(want+strlen(want), "outdir_previous_iteration=%s\n", pd);
          strcat(want, "dir=0\n");
          strcpy(pd, od);
        }
        strcat(want, "END\n");
        vh_distinct++;
        c = vr_run(dir, 2, av, before, got, 8000, 60);
        expect("iterate", got, want, c, 0);
      }
  }

  /* many iterated parameters */
  for(i = 4; i <= 14; i++) if(vh_unit("iterate %d parameters", i))
  {
    char *av[3] = {"sgrid", "a.par", NULL}, dir[300], f[700], got[8000], want[8000] = "", file[3000], od[400], pd[400] = ""; int k, c;
    snprintf(dir, 299, "%s/c", getenv("VH_SCRATCH")); vr_rmtree(dir); mkdir(dir, 0700);
    sprintf(file, "%sp=fp\niterate_parameters=yes\n", BASE);
    for(j = 1; j <= i; j++) sprintf(file+strlen(file), "%s = 0\niterate_parameter%d = %s %dx %dy\n", j == i ? "q" : j == i-1 ? "keep" : "new", j, j == i ? "q" : j == i-1 ? "keep" : "new", j, j);
    snprintf(f, 699, "%s/a.par", dir); vr_file(f, file);
    for(k = 0; k < 2; k++)
    {
      strcpy(od, "a"); for(j = 1; j <= i; j++) sprintf(od+strlen(od), "_%d%c", j, "xy"[k]);
      sprintf(want+strlen(want), "RUN\np=fp\nq=%d%c\nnew=%d%c\nkeep=%d%c\niterations=0\noutdir=%s\nparameterfile=a.par\n", i, "xy"[k], i-2, "xy"[k], i-1, "xy"[k], od);
      if(k) sprintf(want+strlen(want), "outdir_previous_iteration=%s\n", pd);
      strcat(want, "dir=0\n"); strcpy(pd, od);
    }
    strcat(want, "END\n"); vh_distinct++;
    c = vr_run(dir, 2, av, before, got, 8000, 60);
    expect("iteratemany", got, want, c, 0);
  }

  /* directories of earlier runs with iteration: each becomes the previous one */
  { int st; for(st = 0; st < 81; st++) if(vh_unit("iterate with old directories %d", st))
    {
      char *av[3] = {"sgrid", "a.par", NULL}, dir[300], f[700], got[8000], file[3000]; int k, c, d[4] = {st%3, st/3%3, st/9%3, st/27%3};
      snprintf(dir, 299, "%s/c", getenv("VH_SCRATCH")); vr_rmtree(dir); mkdir(dir, 0700);
      sprintf(file, "%sp=fp\niterate_parameters=yes\niterate_parameter1 = p 1 2\n", BASE);
      snprintf(f, 699, "%s/a.par", dir); vr_file(f, file);
      for(k = 0; k < 4; k++) if(d[k]) { char m[20]; snprintf(f, 699, "%s/a_%d%s", dir, k/2+1, k%2 ? "_previous" : ""); mkdir(f, 0700); sprintf(m, "old%d", k); snprintf(f, 699, "%s/a_%d%s/%s", dir, k/2+1, k%2 ? "_previous" : "", d[k] == 2 ? "other" : "data"); vr_file(f, m); }
      vh_distinct++; vh_evals++;
      c = vr_run(dir, 2, av, before, got, 8000, 60);
      if(c || !strstr(got, "END")) vh_fail("iterdirs", "exit %d", c);
      for(k = 0; k < 4; k++) { const char *nm[2] = {"data", "other"}; int w;
        for(w = 0; w < 2; w++) { char *t, want[20] = "-"; snprintf(f, 699, "%s/a_%d%s/%s", dir, k/2+1, k%2 ? "_previous" : "", nm[w]); t = vr_read(f);
          if(k%2 && d[k-1] && (d[k-1] == 2) == w) sprintf(want, "old%d", k-1);
          if(k%2 && !d[k-1]) continue;
          if(strcmp(t ? t : "-", want)) vh_fail("iterdirs", "a_%d%s/%s has %s instead of %s", k/2+1, k%2 ? "_previous" : "", nm[w], t ? t : "-", want); } }
    }
  }

  /* what happens to directories of earlier runs */
  {
    int cur, prev, keep, ab;
    for(cur = 0; cur < 3; cur++) for(prev = 0; prev < 3; prev++) for(keep = 0; keep < 2; keep++) for(ab = 0; ab < 2; ab++)
      if(vh_unit("current directory %d, previous %d, keep %d, absolute %d", cur, prev, keep, ab))
      {
        /* 0: absent, 1: without checkpoint, 2: with checkpoint */
        char *av[4] = {"sgrid", NULL, "--keep_previous", NULL}, dir[300], f[700], par[600], got[8000], od[700], pd[700];
        int c, refuse = !keep && prev == 2 && cur != 2;
        snprintf(dir, 299, "%s/c", getenv("VH_SCRATCH"));
        vr_rmtree(dir); mkdir(dir, 0700);
        snprintf(f, 699, "%s/a.par", dir); vr_file(f, BASE);
        snprintf(od, 699, "%s/a", dir); snprintf(pd, 699, "%s/a_previous", dir);
        if(cur) { mkdir(od, 0700); snprintf(f, 699, "%s/data", od); vr_file(f, "cur"); }
        if(cur == 2) { snprintf(f, 699, "%s/checkpoint.0", od); vr_file(f, "cpcur"); }
        if(prev) { mkdir(pd, 0700); snprintf(f, 699, "%s/data", pd); vr_file(f, "prev"); snprintf(f, 699, "%s/sub", pd); mkdir(f, 0700); snprintf(f, 699, "%s/sub/deep", pd); vr_file(f, "x"); }
        if(prev == 2) { snprintf(f, 699, "%s/checkpoint.0", pd); vr_file(f, "cpprev"); }
        snprintf(par, 599, ab ? "%s/a.par" : "%.0sa.par", dir); av[1] = par;
        vh_distinct++; vh_evals++;
        c = vr_run(dir, keep ? 3 : 2, av, before, got, 8000, 60);
        {
          char *t; char curd[50] = "-", prevd[50] = "-", wcur[50] = "-", wprev[50] = "-"; int ran = strstr(got, "END") != NULL;
          snprintf(f, 699, "%s/data", od); if((t = vr_read(f))) strcpy(curd, t);
          snprintf(f, 699, "%s/data", pd); if((t = vr_read(f))) strcpy(prevd, t);
          if(keep || refuse) { if(cur) strcpy(wcur, "cur"); if(prev) strcpy(wprev, "prev"); }
          else { if(cur) strcpy(wprev, "cur"); else strcpy(wprev, "-"); }
          if(!keep && !refuse && !cur && prev == 1) strcpy(wprev, "-");
          if(ran == refuse || (c == 0) == refuse) vh_fail("olddirs", "run %s (exit %d)", ran ? "was not refused" : "did not happen", c);
          if(strcmp(curd, wcur) || strcmp(prevd, wprev)) vh_fail("olddirs", "current has %s (want %s), previous has %s (want %s)", curd, wcur, prevd, wprev);
          snprintf(f, 699, "%s/a.par", od);
          if(!refuse && !vr_read(f)) vh_fail("olddirs", "no parameter file in the output directory");
          snprintf(f, 699, "%s/sub/deep", pd);
          if(!keep && !refuse && vr_read(f)) vh_fail("olddirs", "old previous directory not removed");
        }
      }
  }
  return vh_done();
}

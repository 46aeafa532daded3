/* C14: when is output written.
   A: timeforoutput_di_dt against exact integer arithmetic; B: the combinations of
   timeforoutput_any/_index/timeforoutput; C: complete runs, the times found in all files. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#undef exit

/* exact: time step 8 units, interval k units; number of the output (1..) or 0 */
static int model(int it, int di, int k, int *alt)
{
  long T = 8L*it, i, best;
  *alt = 0;
  if(di > 0 && it % di == 0) return it/di + 1;
  if(k <= 0) return 0;
  i = (2*T + k)/(2*k);   /* nearest multiple, halves up */
  best = T - i*k;
  if(2*best == -k) *alt = i;  /* a tie: i-1 is as near (its number is i) */
  if(-4 < best && best <= 4) return i+1;
  *alt = 0;
  return 0;
}
static void partA(double dT, int sgn, int di, int k, int N)
{
  static tGrid g; char s[60]; double dt; int it;
  sprintf(s, "%.12g", k*dT/8); dt = atof(s);
  if(k <= 0) dt = k == 0 ? 0 : -1;
  g.dt = sgn*dT;
  for(it = 0; it <= N; it++)
  {
    int alt, w = model(it, di, k, &alt), r;
    g.iteration = it; g.time = it*g.dt;
    r = timeforoutput_di_dt(&g, di, dt);
    vh_evals++; if(w) vh_trans++;
    if(r != w && !(alt && r == alt))
    { vh_fail("when", "time step %g, every %d iterations or time %.12g: iteration %d gives %d, expected %d", g.dt, di, dt, it, r, w); return; }
  }
  vh_states++; vh_distinct++;
  vh_sample("time step %g, interval %.12g, every %d iterations: iterations 0 to %d", g.dt, dt, di, N);
}

/* B */
static const char *PARS[20] = {"0doutput", "1doutput", "2doutput", "3doutput", "0doutputmax", "0doutputmin", "0doutputrms", "0doutputmeanAbs", "0doutputmean", "0doutputVolInt",
  "1doutputX", "1doutputY", "1doutputZ", "1doutputD", "2doutputXY", "2doutputXZ", "2doutputYZ", "2doutputXD", "2doutputYD", "2doutputZD"};
static void partB(void *a)
{
  tGrid *g; int d, c, p, hit[4], any, it; tVarList *vl, *none;
  vg_begin(1); vg_box(0, 2, 2, 2, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(0, 0, 1, 0, 1, 0, 1);
  vg_par("dt", "0.1"); vg_libs(); AddVar("ova", "", ""); AddVar("ovb", "", ""); AddVar("ovab", "", "");
  g = vg_make();
  vl = vlalloc(g); vlpush(vl, Ind("ovb")); vlpush(vl, Ind("ova")); none = vlalloc(g);
  /* per dimension: 0 off, 1 by iteration, 2 by time, 3 due later; the current iteration is 6 */
  for(c = 0; c < 256; c++) for(it = 6; it <= 7; it++)
  {
    any = 0;
    for(d = 0; d < 4; d++)
    {
      char n[30]; int o = (c >> (2*d)) & 3;
      sprintf(n, "%ddoutiter", d); vg_par(n, "%d", o == 1 ? 3 : o == 3 ? 4 : -1);
      sprintf(n, "%ddouttime", d); vg_par(n, "%s", o == 2 ? "0.3" : o == 3 ? "5" : "-1");
      hit[d] = it == 6 && (o == 1 || o == 2);
      any |= hit[d];
    }
    g->iteration = it; g->time = it*0.1; g->dt = 0.1;
    vh_evals++; vh_states++; vh_distinct++;
    if(!!timeforoutput_any(g) != any) { vh_fail("any", "timings %x at iteration %d: timeforoutput_any is %d", c, it, timeforoutput_any(g)); return; }
    for(p = -1; p < 20; p++)
    {
      int dim = p < 0 ? 0 : PARS[p][0]-'0', q;
      for(q = 0; q < 20; q++) vg_par(PARS[q], "%s", q == p ? "ovab ova" : q == (p+7)%20 ? "ovab" : "");
      vh_trans++;
      if(!!timeforoutput_index(g, Ind("ova")) != (p >= 0 && hit[dim])) { vh_fail("index", "timings %x, %s: timeforoutput_index is wrong", c, p < 0 ? "none" : PARS[p]); return; }
      if(timeforoutput_index(g, Ind("ovb"))) { vh_fail("index", "timings %x, %s: timeforoutput_index of a variable that is not listed", c, p < 0 ? "none" : PARS[p]); return; }
      if(!!timeforoutput(g, vl) != (p >= 0 && hit[dim])) { vh_fail("list", "timings %x, %s: timeforoutput is wrong", c, p < 0 ? "none" : PARS[p]); return; }
      if(timeforoutput(g, none)) { vh_fail("list", "timeforoutput of an empty list"); return; }
    }
  }
}

/* C */
static char S[500];
typedef struct { int di, k; } when;   /* k in eighths of the time step */
static const when WH[] = {{-1, -8}, {1, -8}, {2, -8}, {0, 12}, {-1, 20}, {3, 16}};
#define NWH 6
#define NIT 7
static void collect(const char *d, const char *rel, char lines[][200], int *n)
{
  /* every instant of every file as "name time" */
  DIR *p = opendir(d); struct dirent *e; char f[2000], r[600]; struct stat st;
  if(!p) return;
  while((e = readdir(p)))
  {
    static char b[300000]; int fd, len, i;
    if(e->d_name[0] == '.') continue;
    snprintf(f, 1999, "%s/%s", d, e->d_name); snprintf(r, 599, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
    if(!lstat(f, &st) && S_ISDIR(st.st_mode)) { collect(f, r, lines, n); continue; }
    if(strstr(e->d_name, ".par") || !strcmp(e->d_name, "stdout.01")) continue;
    fd = open(f, O_RDONLY); len = read(fd, b, 299999); close(fd); b[len > 0 ? len : 0] = 0;
    if(*rel || strchr(e->d_name, '.')[1] > '9')
    {
      char *key = *rel ? "time " : "time = ";
      for(i = 0; i+8 < len; i++) if(!memcmp(b+i, key, strlen(key)) && *n < 3000) { snprintf(lines[(*n)++], 199, "%s %.10g", r, atof(b+i+strlen(key))); }
    }
    else { char *q = b; while(*q && *n < 3000) { snprintf(lines[(*n)++], 199, "%s %.10g", r, atof(q)); q = strchr(q, '\n'); if(!q) break; q++; } }
  }
  closedir(p);
}
static int cmp(const void *a, const void *b) { return strcmp(a, b); }
static int addc(tGrid *g) { AddConstantVar("occ", "", ""); return 0; }
static int enc(tGrid *g) { enablevar(g, Ind("occ")); return 0; }
static void before(void) { AddFun(POST_PARAMETERS, addc, "addc"); AddFun(INITIALDATA, enc, "enc"); }
static char got[3000][200], want[3000][200];
static void partC(int c, int list, int fmt, const char *dts, int nb)
{
  char d[600], f[800], par[4000], *av[4] = {"sgrid", "a.par", NULL, NULL}, out[100], x[500]; int n = 0, i, it, b, dim, q, ng = 0, nw = 0, r, v, w;
  double dT = atof(dts);
  const char *LST[] = {"evolve_test_u", "evolve_test_error evolve_test_u", "  evolve_test_error   evolve_test_u ", "nosuch evolve_test_u nosuch2", "evolve_test_u occ"};
  const char *VARS[3] = {"evolve_test_u", "evolve_test_error", "occ"}; int on[3];
  on[0] = 1; on[1] = list == 1 || list == 2; on[2] = list == 4;
  n = sprintf(par, "physics=evolve_test\nevolution_method=rk\nn1=2\nn2=2\nn3=3\ndt=%s\niterations=%d\nnboxes=%d\n", dts, NIT, nb);
  for(b = 0; b < nb; b++) n += sprintf(par+n, "box%d_basis1=ChebExtrema\nbox%d_basis2=ChebExtrema\nbox%d_basis3=ChebExtrema\nbox%d_Coordinates=Cartesian\nbox%d_min1=%d\nbox%d_max1=%d\n", b, b, b, b, b, b, b, b+1);
  for(dim = 0, q = c; dim < 4; dim++, q /= NWH)
  {
    w = q % NWH;
    n += sprintf(par+n, "%ddoutiter=%d\n%ddouttime=%.12g\n", dim, WH[w].di, dim, WH[w].k > 0 ? WH[w].k*dT/8 : -1);
    n += sprintf(par+n, "%ddoutput=%s\n", dim, list == 2 ? "" : LST[list]);
  }
  n += sprintf(par+n, "3dformat=%s\n", fmt == 0 ? "dump float binary" : fmt == 1 ? "vtk text double" : "dump vtk binary float addpoints");
  snprintf(d, 599, "%s/r", S); vr_rmtree(d); mkdir(d, 0700); snprintf(f, 799, "%s/a.par", d); vr_file(f, par);
  if(list == 2) { sprintf(x, "--modify-par:0doutput=%s", LST[2]); sprintf(x, "--modify-par:0doutput=%s", LST[2]); av[2] = x; }
  vh_at("timings %d lists %d format %d dt %s boxes %d", c, list, fmt, dts, nb);
  if(list == 2)
  { /* all four lists with several blanks */
    char o[4][200], *av2[7] = {"sgrid", "a.par", o[0], o[1], o[2], o[3], NULL};
    for(i = 0; i < 4; i++) sprintf(o[i], "--modify-par:%ddoutput=%s", i, LST[2]);
    r = vr_run(d, 6, av2, before, out, 99, 30);
  }
  else r = vr_run(d, 2, av, before, out, 99, 30);
  vh_evals++; vh_states++; vh_distinct++; vh_trans += NIT;
  if(r) { vh_fail("exit", "timings %d, list %d, format %d, dt=%s: the program ends with %d", c, list, fmt, dts, r); return; }
  for(dim = 0, q = c; dim < 4; dim++, q /= NWH)
  {
    w = q % NWH;
    for(it = 0; it <= NIT; it++)
    {
      int alt, no = model(it, WH[w].di, WH[w].k, &alt);
      if(!no) continue;
      for(v = 0; v < 3; v++) if(on[v] && !(v == 2 && it)) for(b = 0; b < nb; b++)
      {
        const char *SF[4][6] = {{"_max.", "_min.", "_rms.", "_meanAbs.", "_mean.", "_VolInt."}, {".X", ".Y", ".Z"}, {".XY", ".XZ", ".YZ"}, {".XYZ"}};
        if(dim < 3) { for(i = 0; i < 6 && SF[dim][i]; i++) snprintf(want[nw++], 199, "%s%s%d %.10g", VARS[v], SF[dim][i], b, it*dT + 0.0); }
        else
        {
          if(fmt != 1) snprintf(want[nw++], 199, "%s.XYZ%d %.10g", VARS[v], b, it*dT + 0.0);
          if(fmt == 1) snprintf(want[nw++], 199, "%s.XYZ%d_vtk/%s.XYZ%d_%08d.vtk %.10g", VARS[v], b, VARS[v], b, no-1, it*dT + 0.0);
          if(fmt == 2) snprintf(want[nw++], 199, "%s.xyz%d_vtk/%s.xyz%d_%08d.vtk %.10g", VARS[v], b, VARS[v], b, no-1, it*dT + 0.0);
        }
      }
    }
  }
  snprintf(f, 799, "%s/a", d);
  collect(f, "", got, &ng);
  qsort(got, ng, 200, cmp); qsort(want, nw, 200, cmp);
  for(i = 0; i < ng && i < nw && !strcmp(got[i], want[i]); i++) ;
  if(i < ng || i < nw)
  {
    int both = 0, k = 0, i2;
    /* is all that is wrong that a later vtk file has the number and name of an earlier one? */
    for(i2 = 0; i2 < nw; i2++)
    {
      char *sp = strrchr(want[i2], ' '); int later = 0, j, l = sp-want[i2]+1;
      if(strstr(want[i2], "_vtk/")) for(j = 0; j < nw; j++) if(!strncmp(want[j], want[i2], l) && atof(want[j]+l) > atof(sp)) later = 1;
      if(later) continue;
      if(k >= ng || strcmp(got[k], want[i2])) { k = -1; break; }
      k++;
    }
    both = k == ng;
    vh_fail(both ? "vtk-both" : "rows", "timings %d, list %d, format %d, dt=%s, %d boxes: found |%s|, expected |%s|", c, list, fmt, dts, nb, i < ng ? got[i] : "nothing", i < nw ? want[i] : "nothing");
  }
}
int main(int argc, char **argv)
{
  double DT[] = {0.1, 0.25, 0.05, 0.3, 0.01, 0.02, 1, 0.125, 0.7, 1e-3, 3.0, 0.015}; int i, j, k, s;
  vh_init(argc, argv);
  snprintf(S, 499, "%s", getenv("VH_SCRATCH"));
  for(i = 0; i < 12; i++) for(k = -1; k <= (vh_thorough ? 400 : 120); k++) if(vh_unit("times:%d:%d", i, k)) for(j = -1; j <= (vh_thorough ? 12 : 5); j++) for(s = -1; s <= 1; s += 2)
    partA(DT[i], s, j == 0 ? 0 : j, k, vh_thorough ? 3000 : 600);
  if(vh_unit("select:0")) vh_fork(partB, NULL);
  for(i = 0; i < NWH*NWH*NWH*NWH; i++) if(vh_unit("run:%d", i))
  {
    if(vh_thorough) { for(j = 0; j < 5; j++) for(k = 0; k < 3; k++) for(s = 1; s <= 2; s++) partC(i, j, k, "0.1", s); partC(i, 0, 0, "0.05", 1); partC(i, 1, 1, "0.3", 1); }
    else partC(i, (i + i/6 + i/36) % 5, (i + i/216 + i/5) % 3, i % 4 ? "0.1" : "0.05", 1 + i % 7 / 5);
  }
  /* backwards in time */
  for(i = 0; i < 81; i++) if(vh_unit("back:%d", i))
  {
    int c = i%3 + NWH*(i/3%3) + NWH*NWH*(i/9%3) + NWH*NWH*NWH*(i/27);
    for(j = 0; j < 5; j++) if(vh_thorough || j == 4 || j == i%4) partC(c, j, (i + j + i/9)%3, i%2 ? "-0.1" : "-0.3", 1 + i%2);
  }
  return vh_done();
}

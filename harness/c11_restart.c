/* C11: all ways of cutting an evolution into restarted pieces: the files at the
   end are those of the run that never stopped. */
#include "sgrid.h"
#include "vh.h"
#include "vh_run.h"
#undef exit
static char S[500];
#define G1 "n1=2\nn2=2\nn3=2\ndt=0.1\nnboxes=1\nbox0_basis1=ChebExtrema\nbox0_basis2=ChebExtrema\nbox0_basis3=ChebExtrema\n"
#define G2 "nboxes=2\nn1=5\nn2=3\nn3=4\ndt=0.05\nbox0_min1=-1\nbox0_max1=0\nbox1_min1=0\nbox1_max1=1\nbox0_basis1=ChebExtrema\nbox0_basis2=ChebExtrema\nbox0_basis3=Fourier\nbox1_basis1=ChebExtrema\nbox1_basis2=ChebExtrema\nbox1_basis3=Fourier\nScalarWave_x0=0.3\n"
#define OUT1 "0doutiter=1\n0doutput=evolve_test_u evolve_test_error\n1doutiter=2\n1doutput=evolve_test_u\n3douttime=0.2\n3doutput=evolve_test_u\n"
#define OUT2 "0doutiter=1\n0doutput=ScalarWave_psi\n1doutiter=2\n1doutput=ScalarWave_psi ScalarWave_psidot\n3douttime=0.1\n3doutput=ScalarWave_psi\n"
static const char *METH[] = {"evolution_method=euler\n", "evolution_method=icn\n", "evolution_method=rk\nevolution_method_rk=rk1\n", "evolution_method=rk\nevolution_method_rk=rk2\n",
 "evolution_method=rk\nevolution_method_rk=rk2a\n", "evolution_method=rk\nevolution_method_rk=rk3\n", "evolution_method=rk\nevolution_method_rk=rk3a\n", "evolution_method=rk\nevolution_method_rk=rk3b\n",
 "evolution_method=rk\nevolution_method_rk=rk4\n", "evolution_method=rk\nevolution_method_rk=rk4a\n", "evolution_method=rk\nevolution_method_rk=rk5\n", "evolution_method=rk\nevolution_method_rk=midpoint\n"};
#define NM 12
static const char *EXTRA[] = {"", "evolve_persist=no\n", "checkpoint_variables=all\n", "checkpoint_previous=yes\n", "evolve_compute_change=evolve_test_u ScalarWave_psi\ncheckpoint_additional_variables=evolve_test_u_change ScalarWave_psi_change\n"};
#define NE 5
static const char *SW[] = {"boundary=radiative\n", "boundary=constant\n", "", "boundary=radiative\nevolve_Dissipation=yes\nevolve_DissipationFactor=0.1\n", "boundary=radiative_analytic\n"};
#define NSW 5
static const char *RI[] = {"1", "0", "-1"};

static int slurp(const char *f, char *b, int len) { int fd = open(f, O_RDONLY), n = 0, r; if(fd < 0) return -1; while(n < len-1 && (r = read(fd, b+n, len-1-n)) > 0) n += r; close(fd); b[n] = 0; return n; }
/* remove the line that starts with key */
static int cut(char *b, int n, const char *key)
{
  char k[100]; int m = sprintf(k, "\n%s = ", key), i, j;
  for(i = 0; i+m < n; i++) if(!memcmp(b+i, k, m)) { for(j = i+1; j < n && b[j] != '\n'; j++) ; memmove(b+i, b+j, n-j+1); return n-(j-i); }
  return n;
}
static char A[400000], B[400000];
static int compare(const char *d1, const char *d2, char *msg)
{
  DIR *p = opendir(d1); struct dirent *e; char f[2000], g[2000]; int nf = 0, n, m, i; struct stat st;
  msg[0] = 0;
  if(!p) { strcpy(msg, "no output directory"); return 0; }
  while((e = readdir(p)))
  {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..") || strstr(e->d_name, ".par")) continue;
    snprintf(f, 1999, "%s/%s", d1, e->d_name); snprintf(g, 1999, "%s/%s", d2, e->d_name);
    if(!lstat(f, &st) && S_ISDIR(st.st_mode)) { if(!compare(f, g, msg)) { closedir(p); return 0; } continue; }
    n = slurp(f, A, 399999); m = slurp(g, B, 399999); nf++;
    if(n < 0 || m < 0) { sprintf(msg, "file %.100s is missing", e->d_name); closedir(p); return 0; }
    if(!strncmp(e->d_name, "checkpoint", 10))
    {
      const char *K[] = {"iterations", "outdir", "parameterfile", "finaltime", "checkpoint", "outdir_previous_iteration", "checkpoint_DeltaT", "sgrid_options"};
      for(i = 0; i < 8; i++) { n = cut(A, n, K[i]); m = cut(B, m, K[i]); }
      { char *x = memmem(A, n, "$number_of_parameters", 21), *y = memmem(B, m, "$number_of_parameters", 21); if(x && y) { memset(x, 32, 28); memset(y, 32, 28); } }
    }
    if(n != m || memcmp(A, B, n))
    {
      int k = 0, s; while(k < n && k < m && A[k] == B[k]) k++;
      for(s = k; s > 0 && A[s-1] != '\n' && k-s < 60; s--) ;
      for(i = s; i < s+80; i++) { if(i < n && (unsigned char)A[i] < 32) A[i] = ' '; if(i < m && (unsigned char)B[i] < 32) B[i] = ' '; }
      sprintf(msg, "%.100s differs at byte %d: |%.80s| in the uninterrupted run, |%.80s| after restarts", e->d_name, k, A+s, B+s);
      closedir(p); return 0;
    }
  }
  closedir(p);
  if(!nf) { strcpy(msg, "no files"); return 0; }
  return 1;
}
static int once(const char *dir, const char *par, int iters, const char *more)
{
  char f[800], t[6000], out[2000], *av[3] = {"sgrid", "a.par", NULL};
  snprintf(f, 799, "%s/a.par", dir);
  snprintf(t, 5999, "%siterations=%d\n%s", par, iters, more); vr_file(f, t);
  return vr_run(dir, 2, av, NULL, out, 1999, 60);
}
/* n iterations, mask: bit k-1 set = stop after k */
static void chains(const char *name, const char *par, int n, const int *masks, int nm)
{
  char d0[600], d1[600], a0[700], a1[700], msg[1000], how[200]; int i, k, c;
  snprintf(d0, 599, "%s/ref", S); snprintf(d1, 599, "%s/cut", S); snprintf(a0, 699, "%s/a", d0); snprintf(a1, 699, "%s/a", d1);
  vr_rmtree(d0); mkdir(d0, 0700);
  vh_at("%s uninterrupted", name);
  c = once(d0, par, n, "");
  if(c) { vh_fail("run", "%s: the uninterrupted run ends with exit %d", name, c); return; }
  for(i = 0; i < nm; i++)
  {
    vr_rmtree(d1); mkdir(d1, 0700); how[0] = 0;
    for(k = 1; k <= n; k++) if(k == n || (masks[i] >> (k-1)) & 1)
    {
      sprintf(how+strlen(how), "%s%d", how[0] ? "," : "", k);
      vh_at("%s stopped after %s", name, how);
      c = once(d1, par, k, ""); vh_trans++;
      /* what is in the directory is carried over: the run is really continued and not repeated */
      if(!c && k < n) { char f[800]; FILE *fp; snprintf(f, 799, "%s/marker", a1); fp = fopen(f, "a"); if(fp) { fprintf(fp, "%d\n", k); fclose(fp); } }
      if(c) { vh_fail(c == 1011 && strstr(name, "radiative_analytic") && !strstr(name, "restart_it=1") ? "analytic-restart0" : "run", "%s: run up to iteration %s ends with exit %d", name, how, c); break; }
    }
    vh_evals++; vh_states++; vh_distinct++;
    if(c) continue;
    { char f[800], t[200] = ""; snprintf(f, 799, "%s/marker", a0); unlink(f); for(k = 1; k < n; k++) if((masks[i] >> (k-1)) & 1) sprintf(t+strlen(t), "%d\n", k); if(t[0]) vr_file(f, t); }
    if(!compare(a0, a1, msg)) vh_fail("restart", "%s stopped after iterations %s: %s", name, how, msg);
    vh_sample("%s stopped after iterations %s", name, how);
  }
}
int main(int argc, char **argv)
{
  char par[4000], name[300]; int m, e, r, i, all[64], few[] = {1, 2, 5, 7, 8};
  vh_init(argc, argv);
  snprintf(S, 499, "%s", getenv("VH_SCRATCH"));
  for(i = 0; i < 64; i++) all[i] = i+1;
  for(m = 0; m < NM; m++) for(r = 0; r < 3; r++) if(vh_unit("ode:%d:%d", m, r)) for(e = 0; e < NE; e++)
  {
    if(e && !vh_thorough && (m+r+e)%3) continue;
    if(e == 4 && r) continue;   /* _change variables do not exist before the first step */
    snprintf(par, 3999, "physics=evolve_test\n%s%s%scheckpoint=yes\ncheckpoint_di=1\ncheckpoint_restart_it=%s\n%s", G1, OUT1, METH[m], RI[r], EXTRA[e]);
    snprintf(name, 299, "evolve_test %.40s restart_it=%s %.60s", METH[m], RI[r], EXTRA[e]);
    if(vh_thorough) chains(name, par, 6, all, 31); else if(e == 0) chains(name, par, 5, all, 15); else chains(name, par, 4, few, 3);
  }
  for(m = 0; m < NM; m++) for(r = 0; r < 3; r++) if(vh_unit("wave:%d:%d", m, r)) for(i = 0; i < NSW; i++) for(e = 0; e < NE; e++)
  {
    if(!vh_thorough && (m*5+i*7+e*11+r*3)%9 && !(r && i == 4 && m == 8 && e == 0)) continue;
    if(r && e == 4) continue;
    if(r && i == 4 && (m != 8 || e)) continue;
    snprintf(par, 3999, "physics=ADMvars ScalarWave\n%s%s%s%scheckpoint=yes\ncheckpoint_di=1\ncheckpoint_restart_it=%s\n%s", G2, OUT2, METH[m], SW[i], RI[r], EXTRA[e]);
    snprintf(name, 299, "ScalarWave %.40s restart_it=%s %.60s %.60s", METH[m], RI[r], SW[i], EXTRA[e]);
    chains(name, par, 4, vh_thorough ? all : few, vh_thorough ? 7 : 4);
  }
  /* run for DeltaT beyond the checkpoint; checkpoints every second iteration or in time */
  for(i = 0; i < 3; i++) for(m = 1; m <= 6; m++) if(vh_unit("delta:%d:%d", i, m)) for(e = 1; e <= (vh_thorough ? 9 : 5); e++)
  {
    char d0[600], d1[600], a0[700], a1[700], msg[1000], dl[100]; int c1, c2, c3; const char *dt = (m+e)&1 ? "0.1" : "0.05"; 
    const char *P = "physics=evolve_test\nevolution_method=rk\n" G1 "0doutiter=1\n0doutput=evolve_test_u\ncheckpoint=yes\n";
    const char *X[] = {"checkpoint_di=1\n", "checkpoint_di=2\n", "checkpoint_dt=0.2\n"};
    if(i && m % (i == 1 || dt[3] == 0 ? 2 : 4)) continue;   /* the stop must be at a checkpoint */
    snprintf(d0, 599, "%s/ref", S); snprintf(d1, 599, "%s/cut", S); snprintf(a0, 699, "%s/a", d0); snprintf(a1, 699, "%s/a", d1);
    vr_rmtree(d0); mkdir(d0, 0700); vr_rmtree(d1); mkdir(d1, 0700);
    snprintf(par, 3999, "%sdt=%s\n%s", P, dt, X[i]);
    snprintf(dl, 99, "checkpoint_DeltaT=%.10g\n", e*atof(dt));
    vh_at("DeltaT %s: %d iterations, then %d more", X[i], m, e);
    c1 = once(d0, par, m+e, dl);
    c2 = once(d1, par, m, dl); c3 = once(d1, par, m, dl);
    vh_evals++; vh_states++; vh_distinct++; vh_trans += 3;
    if(c1 || c2 || c3) vh_fail("run", "DeltaT: exits %d %d %d", c1, c2, c3);
    else if(!compare(a0, a1, msg)) vh_fail("deltaT", "%d time steps of %s beyond the checkpoint at iteration %d: %s", e, dt, m, msg);
  }
  /* when checkpoints are written: after every k-th iteration or time step multiple, for every number of iterations */
  for(i = 0; i < 2; i++) for(m = 0; m < 5; m++) if(vh_unit("when:%d:%d", i, m)) for(r = 0; r < 3; r++) for(e = 1; e <= (vh_thorough ? 7 : 4); e++)
  {
    static const char *DT[] = {"0.1", "0.3", "0.25", "0.7", "0.01"}; int it;
    for(it = 0; it <= (vh_thorough ? 14 : 9); it++)
    {
      char d1[600], f[800], par2[4000]; int c, last = it/e*e, got = -1, n; char *t;
      if(!vh_thorough && i == 0 && m) continue;
      snprintf(d1, 599, "%s/cut", S); vr_rmtree(d1); mkdir(d1, 0700);
      if(i) snprintf(f, 799, "checkpoint_dt=%.15g\n", e*atof(DT[m])); else snprintf(f, 799, "checkpoint_di=%d\n", e);
      snprintf(par2, 3999, "physics=evolve_test\nevolution_method=euler\n%sdt=%s\ncheckpoint=yes\ncheckpoint_restart_it=%s\n%s", G1, DT[m], RI[r], f);
      vh_at("%s, dt %s, restart_it %s, %d iterations", f, DT[m], RI[r], it);
      c = once(d1, par2, it, ""); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
      if(last == 0 && r == 0) last = -1; /* no checkpoint of initial data */
      snprintf(f, 799, "%s/a/checkpoint.0", d1); n = slurp(f, A, 399999);
      if(n > 0 && (t = strstr(A, "$iteration = "))) got = atoi(t+13);
      if(c || got != last) vh_fail("when", "a run of %d iterations (dt %s, checkpoint every %d by %s, restart_it %s) ends with exit %d and the checkpoint of iteration %d, expected %d", it, DT[m], e, i ? "time" : "iteration", RI[r], c, got, last);
    }
  }
  /* continuing from a directory that is to be kept: it stays as it is */
  for(m = 1; m <= 4; m++) for(i = 0; i < 2; i++) if(vh_unit("keep:%d:%d", m, i)) for(r = 0; r < 3; r++) for(e = 0; e < 3; e++)
  {
    char d0[600], d1[600], a0[700], a1[700], b0[700], b1[700], msg[1000], out[2000], *av[4] = {"sgrid", "a.par", "--keep_previous", NULL}; int c;
    snprintf(d0, 599, "%s/ref", S); snprintf(d1, 599, "%s/cut", S); snprintf(a0, 699, "%s/a", d0); snprintf(a1, 699, "%s/a", d1); snprintf(b0, 699, "%s/a_saved", d1); snprintf(b1, 699, "%s/a_previous", d1);
    vr_rmtree(d0); mkdir(d0, 0700); vr_rmtree(d1); mkdir(d1, 0700);
    snprintf(par, 3999, "physics=evolve_test\nevolution_method=rk\n%s0doutiter=1\n0doutput=evolve_test_u\ncheckpoint=yes\ncheckpoint_di=1\ncheckpoint_restart_it=%s\n%s", G1, RI[r], i ? "checkpoint_previous=yes\n" : "");
    vh_at("keep the previous directory, %d iterations, restart_it %s, case %d", m, RI[r], e);
    c = once(d0, par, m+2, ""); c |= once(d1, par, m, "");
    { char cmd[2100]; snprintf(cmd, 2099, "cp -r %s %s && mv %s %s", a1, b0, a1, b1); c |= system(cmd); if(e == 2) { snprintf(cmd, 2099, "cp -r %s %s && rm %s/checkpoint.0", b1, a1, a1); c |= system(cmd); } if(e == 1) mkdir(a1, 0700); }
    { char f[800], t[6000]; snprintf(f, 799, "%s/a.par", d1); snprintf(t, 5999, "%siterations=%d\n", par, m+2); vr_file(f, t); }
    if(!c) c = vr_run(d1, 3, av, NULL, out, 1999, 60);
    vh_evals++; vh_states++; vh_distinct++; vh_trans += 3;
    if(c) vh_fail("keep", "a run with --keep_previous ends with exit %d", c);
    else if(!compare(b0, b1, msg)) vh_fail("keep", "--keep_previous does not keep the previous directory: %s", msg);
    else if(!compare(a0, a1, msg)) vh_fail("keep", "a run with --keep_previous from iteration %d: %s", m, msg);
  }
  /* checkpoints in a directory of their own */
  for(m = 1; m <= 4; m++) for(i = 0; i < 3; i++) if(vh_unit("dirs:%d:%d", m, i)) for(r = 0; r < 3; r++) for(e = 1; e <= 3; e++)
  {
    char d0[600], d1[600], a0[700], a1[700], f[800], msg[1000]; int c, c2, c3, k;
    const char *X[] = {"checkpoint_outdir=cp\ncheckpoint_indir=cp\n", "checkpoint_outdir=cp/dir\ncheckpoint_indir=cp/dir\ncheckpoint_previous=yes\n", "checkpoint_indir=a_previous\n"};
    snprintf(d0, 599, "%s/ref", S); snprintf(d1, 599, "%s/cut", S); snprintf(a0, 699, "%s/a", d0); snprintf(a1, 699, "%s/a", d1);
    for(k = 0; k < 2; k++) { vr_rmtree(k ? d1 : d0); mkdir(k ? d1 : d0, 0700); snprintf(f, 799, "%s/cp", k ? d1 : d0); mkdir(f, 0700); if(i == 1) { strcat(f, "/dir"); mkdir(f, 0700); } }
    snprintf(par, 3999, "physics=evolve_test\nevolution_method=icn\n%s0doutiter=1\n0doutput=evolve_test_u\ncheckpoint=yes\ncheckpoint_di=%d\ncheckpoint_restart_it=%s\n%s", G1, e == 3 ? 1 : e, RI[r], X[i]);
    if(m % (e == 3 ? 1 : e)) continue;
    vh_at("%s, %d iterations, then %d more, restart_it %s", X[i], m, e, RI[r]);
    c = once(d0, par, m+e, ""); c2 = once(d1, par, m, "");
    snprintf(f, 799, "%s/%s/checkpoint.0", d1, i == 0 ? "cp" : i == 1 ? "cp/dir" : "a");
    k = access(f, F_OK); snprintf(f, 799, "%s/checkpoint.0", a1); if(i < 2 && access(f, F_OK) == 0) k = 2;
    snprintf(f, 799, "%s/marker", a0); vr_file(f, "x\n"); snprintf(f, 799, "%s/marker", a1); vr_file(f, "x\n");
    c3 = once(d1, par, m+e, "");
    vh_evals++; vh_states++; vh_distinct++; vh_trans += 3;
    if(c || c2 || c3) vh_fail("run", "%s: exits %d %d %d", X[i], c, c2, c3);
    else if(k) vh_fail("dirs", "%s: the checkpoint is %s", X[i], k == 2 ? "in the output directory" : "not there");
    else if(!compare(a0, a1, msg)) vh_fail("dirs", "%s, stopped after %d of %d iterations, restart_it %s: %s", X[i], m, m+e, RI[r], msg);
    else if(i < 2)
    {
      char b0[800], b1[800]; snprintf(b0, 799, "%s/cp%s", d0, i ? "/dir" : ""); snprintf(b1, 799, "%s/cp%s", d1, i ? "/dir" : "");
      if(!compare(b0, b1, msg)) vh_fail("dirs", "%s, stopped after %d of %d iterations: %s", X[i], m, m+e, msg);
    }
  }
  return vh_done();
}

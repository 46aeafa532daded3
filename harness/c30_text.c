/* C30: text scanning helpers on all strings up to a bounded length.  Every
   buffer has exactly the size the caller may rely on, so ASan sees overruns. */
#include "sgrid.h"
#include "vh.h"
#include <dirent.h>
#undef exit

int fgotonext(FILE *in, const char *label);
int fgetparameter(FILE *in, const char *par, char *str);
int extract_after_EQ(char *str);
int extrstr_before_after_EQ(const char *str, char *before, char *after);
int extrstr_before_after(const char *str, char *before, char *after, char z);
int fscanline(FILE *in,char *str);
int find_before_after(const char *str, char *before, char *after, const char *z);
int pfind_before_after(const char *str,int p,char *before,char *after,const char *z);
int sscan_word_at_p(const char *str, int p, char *word);

static const char AL[] = "ab= \n";
#define NA 5

static int tokens(const char *s, char t[12][12], int *end)
{
  int n = 0, i = 0, k;
  while(s[i])
  {
    while(s[i] && isspace(s[i])) i++;
    if(!s[i]) break;
    for(k = 0; s[i] && !isspace(s[i]); i++) t[n][k++] = s[i];
    t[n][k] = 0; end[n] = i; n++;
  }
  return n;
}
static FILE *mem(const char *s, int n)
{
  FILE *f;
  if(!n) return fopen("/dev/null", "r");
  f = fmemopen((void*)s, n, "r");
  return f;
}
/* what is left in the stream, up to a line end counted as white space */
static int rest_is(FILE *f, const char *want)
{
  char b[32]; int n = fread(b, 1, 31, f);
  b[n] = 0;
  return !strcmp(b, want);
}

static void streams(const char *s, int n)
{
  static const char *PAR[] = {"a", "ab", "b"};
  char t[12][12]; int e[12], nt = tokens(s, t, e), p, i;
  for(p = 0; p < 3; p++)
  {
    FILE *f = mem(s, n);
    int z = fgotonext(f, PAR[p]), want = -1;
    for(i = 0; i < nt; i++) if(!strcmp(t[i], PAR[p])) { want = i; break; }
    vh_evals++;
    if((z == EOF) != (want < 0)) vh_fail("fgotonext", "|%s| label %s gives %d", s, PAR[p], z);
    if(want >= 0 && !rest_is(f, s + e[want])) vh_fail("fgotonext", "|%s| label %s: wrong place", s, PAR[p]);
    fclose(f);

    { /* parameter = value */
      char *val = malloc(n+2); const char *v = NULL; int lp = strlen(PAR[p]), last = -1, judge = 1;
      for(i = 0; i < nt; i++)
      {
        if(!strcmp(t[i], PAR[p]))
        {
          if(i+1 >= nt) { judge = 0; break; }
          if(!strcmp(t[i+1], "=")) { if(i+2 >= nt) { judge = 0; break; } v = t[i+2]; last = i+2; }
          else if(t[i+1][0] == '=') { v = t[i+1]+1; last = i+1; }
          else { v = t[i+1]; last = i+1; }
          break;
        }
        if(!strncmp(t[i], PAR[p], lp) && t[i][lp] == '=')
        {
          if(t[i][lp+1]) { v = t[i]+lp+1; last = i; }
          else { if(i+1 >= nt) { judge = 0; break; } v = t[i+1]; last = i+1; }
          break;
        }
      }
      if(judge)
      {
        f = mem(s, n);
        strcpy(val, "?");
        vh_at("fgetparameter %s in |%s|", PAR[p], s);
        z = fgetparameter(f, PAR[p], val);
        vh_evals++; vh_distinct += v != NULL;
        if((z == EOF) != (v == NULL) || strcmp(val, v ? v : "")) vh_fail("fgetparameter", "|%s| %s gives %d |%s| expected |%s|", s, PAR[p], z, val, v ? v : "(none)");
        if(v && !rest_is(f, s + e[last])) vh_fail("fgetparameter", "|%s| %s: stream at the wrong place", s, PAR[p]);
        fclose(f);
      }
      free(val);
    }
  }
  { /* lines */
    FILE *f = mem(s, n);
    int pos = 0, z;
    char *line = malloc(n+1);
    vh_at("fscanline |%s|", s);
    while(1)
    {
      int l = 0;
      z = fscanline(f, line);
      vh_evals++;
      if(pos >= n) { if(z != EOF) vh_fail("fscanline", "|%s|: %d instead of the end", s, z); break; }
      while(pos+l < n && s[pos+l] != '\n') l++;
      if(z != l || strncmp(line, s+pos, l) || line[l]) { vh_fail("fscanline", "|%s| at %d: %d |%s|", s, pos, z, line); break; }
      pos += l+1;
    }
    free(line); fclose(f);
  }
}

static void strings(const char *s0, int n)
{
  char *s = malloc(n+1), *b = malloc(n+2), *a = malloc(n+2), *w = malloc(n+1);
  static const char *Z[] = {"=", "a", "ab", "aa", "==", " ", "b "};
  int p, k, r; const char *q;
  strcpy(s, s0);
  vh_at("strings |%s|", s);
  q = strchr(s, '=');
  strcpy(b, "?"); strcpy(a, "?");
  r = extrstr_before_after_EQ(s, b, a);
  vh_evals++; vh_distinct += q != NULL;
  if(q ? (r != q-s || strncmp(b, s, q-s) || b[q-s] || strcmp(a, q+1)) : (r != EOF || strcmp(b, s) || a[0]))
    vh_fail("before_after_EQ", "|%s| gives %d |%s| |%s|", s, r, b, a);
  r = extrstr_before_after(s, b, a, '=');
  if(q ? (r != q-s || strncmp(b, s, q-s) || b[q-s] || strcmp(a, q+1)) : (r != EOF || strcmp(b, s) || a[0]))
    vh_fail("before_after", "|%s| gives %d |%s| |%s|", s, r, b, a);
  { char *c = malloc(n+1); strcpy(c, s); extract_after_EQ(c); if(strcmp(c, q ? q+1 : "")) vh_fail("extract_after_EQ", "|%s| gives |%s|", s, c); free(c); }
  for(k = 0; k < 7; k++)
    for(p = -1; p <= n; p++)
    {
      int st = p < 0 ? 0 : p;
      strcpy(b, "?"); a[0] = 0;
      q = st <= n ? strstr(s+st, Z[k]) : NULL;
      r = p < 0 ? find_before_after(s, b, a, Z[k]) : pfind_before_after(s, p, b, a, Z[k]);
      vh_evals++;
      if(p >= n) { if(r != EOF) vh_fail("pfind", "|%s| from %d for %s: %d", s, p, Z[k], r); continue; }
      if(q ? (r != q-s || strncmp(b, s+st, q-s-st) || b[q-s-st] || strcmp(a, q+strlen(Z[k]))) : (r != EOF || strcmp(b, s+st)))
        vh_fail("find_before_after", "|%s| from %d for %s gives %d |%s| |%s|", s, p, Z[k], r, b, a);
    }
  for(p = -1; p <= n+1; p++)
  {
    int i = p, l = 0;
    strcpy(w, "");
    r = sscan_word_at_p(s, p, w);
    vh_evals++;
    if(p >= 0 && p < n) { while(i < n && isspace(s[i])) i++; while(i+l < n && !isspace(s[i+l])) l++; }
    if(p < 0 || p >= n || !l) { if(r != EOF) vh_fail("sscan_word", "|%s| at %d gives %d", s, p, r); }
    else if(r != i+l || strncmp(w, s+i, l) || w[l]) vh_fail("sscan_word", "|%s| at %d gives %d |%s|", s, p, r, w);
  }
  { /* words of a command */
    char *c = malloc(n+1), **av = NULL, t[12][12]; int na, i = 0, nt = 0;
    strcpy(c, s);
    while(s[i]) { int l = 0; while(s[i] == ' ') i++; if(!s[i]) break; while(s[i] && s[i] != ' ') t[nt][l++] = s[i++]; t[nt++][l] = 0; }
    na = construct_argv(c, &av);
    if(na != nt || av[na]) vh_fail("argv", "|%s| gives %d words", s, na);
    else for(i = 0; i < nt; i++) if(strcmp(av[i], t[i])) vh_fail("argv", "|%s| word %d is |%s|", s, i, av[i]);
    free(av); free(c);
  }
  { /* name and value, at most one '=' */
    char nm[16], vl[16]; int first = 0, last = n, e;
    q = strchr(s, '=');
    if(!q || !strchr(q+1, '='))
    {
      strcpy(nm, "?"); strcpy(vl, "?");
      r = get_par_from_str(s, nm, "=", vl, 15);
      vh_evals++;
      if(!q || q == s) { if(r) vh_fail("get_par", "|%s| gives %d", s, r); }
      else
      {
        char en[16], ev[16];
        e = q-s; while(first < e && isspace(s[first])) first++; while(e > first && isspace(s[e-1])) e--;
        memcpy(en, s+first, e-first); en[e-first] = 0;
        first = q-s+1; while(first < last && isspace(s[first])) first++; while(last > first && isspace(s[last-1])) last--;
        memcpy(ev, s+first, last-first); ev[last-first] = 0;
        if(r != 1 || strcmp(nm, en) || strcmp(vl, ev)) vh_fail("get_par", "|%s| gives %d |%s| |%s|", s, r, nm, vl);
      }
    }
  }
  free(s); free(b); free(a); free(w);
}

static void put(const char *f, const char *d, long n)
{
  int fd = open(f, O_WRONLY|O_CREAT|O_TRUNC, 0600);
  if(write(fd, d, n) != n) _exit(3);
  close(fd);
}
static int same(const char *f, const char *d, long n)
{
  char *b = malloc(n+10); int fd = open(f, O_RDONLY); long r = fd < 0 ? -1 : read(fd, b, n+9);
  if(fd >= 0) close(fd);
  r = r == n && !memcmp(b, d, n);
  free(b);
  return r;
}
static int count(const char *d)
{
  DIR *p = opendir(d); int n = 0; struct dirent *e;
  if(!p) return -1;
  while((e = readdir(p))) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n++;
  closedir(p);
  return n;
}
/* make every shape of directory tree with up to 3 entries per level, depth 2 */
static int mktree(const char *d, long code, int depth)
{
  int i; char f[400];
  if(mkdir(d, 0700)) return -1;
  for(i = 0; i < 3; i++, code /= 4)
  {
    snprintf(f, 399, "%s/e%d", d, i);
    if(code % 4 == 1) put(f, "x", 1);
    if(code % 4 == 2) { if(depth < 2) mktree(f, code / 4, depth+1); else mkdir(f, 0700); }
    if(code % 4 == 3) { char o[800]; snprintf(o, 799, "%s/outside", getenv("VH_SCRATCH")); if(symlink(o, f)) return -1; }
  }
  return 0;
}

int main(int argc, char **argv)
{
  int len, i, L;
  vh_init(argc, argv);
  L = vh_thorough ? 9 : 7;
  for(len = 0; len <= L; len++)
  {
    long tot = 1, x;
    for(i = 0; i < len; i++) tot *= NA;
    for(x = 0; x < tot; )
    {
      long e = x + 4096; if(e > tot) e = tot;
      if(!vh_unit("strings of %d characters, %ld..%ld", len, x, e-1)) { x = e; continue; }
      for(; x < e; x++)
      {
        char s[12]; long y = x;
        for(i = 0; i < len; i++) { s[i] = AL[y % NA]; y /= NA; }
        s[len] = 0;
        streams(s, len);
        strings(s, len);
        if(x % 3001 == 7) vh_sample("%s", s);
      }
    }
  }
  /* extrema of arrays: every array of up to 3+3+3 entries over 3 values */
  for(i = 1; i <= 3; i++) if(vh_unit("extrema, first array of %d", i))
  {
    int n1, n2, k; long x;
    for(n1 = 1; n1 <= 3; n1++) for(n2 = 1; n2 <= 3; n2++)
    {
      int n = i + n1 + n2; long tot = 1;
      for(k = 0; k < n; k++) tot *= 3;
      for(x = 0; x < tot; x++)
      {
        double v[9], *A[3] = {v, v+i, v+i+n1}; int nn[3] = {i, n1, n2}, ai, im, m; long y = x; double mn = 9, mx = -9, r;
        for(k = 0; k < n; k++) { v[k] = y % 3 - 1; y /= 3; if(v[k] < mn) mn = v[k]; if(v[k] > mx) mx = v[k]; }
        ai = im = -7; r = min3_in_1d_array(A[0], nn[0], A[1], nn[1], A[2], nn[2], &ai, &im);
        vh_evals++;
        if(r != mn || ai < 0 || ai > 2 || im < 0 || im >= nn[ai] || A[ai][im] != mn) vh_fail("min3", "%ld (%d %d %d): %g at %d %d", x, i, n1, n2, r, ai, im);
        ai = im = -7; r = max3_in_1d_array(A[0], nn[0], A[1], nn[1], A[2], nn[2], &ai, &im);
        if(r != mx || ai < 0 || ai > 2 || im < 0 || im >= nn[ai] || A[ai][im] != mx) vh_fail("max3", "%ld (%d %d %d): %g at %d %d", x, i, n1, n2, r, ai, im);
        mn = 9; mx = -9; for(k = 0; k < i+n1; k++) { if(v[k] < mn) mn = v[k]; if(v[k] > mx) mx = v[k]; }
        ai = im = -7; r = min2_in_1d_array(A[0], nn[0], A[1], nn[1], &ai, &im);
        if(r != mn || ai < 0 || ai > 1 || im < 0 || im >= nn[ai] || A[ai][im] != mn) vh_fail("min2", "%ld", x);
        ai = im = -7; r = max2_in_1d_array(A[0], nn[0], A[1], nn[1], &ai, &im);
        if(r != mx || ai < 0 || ai > 1 || im < 0 || im >= nn[ai] || A[ai][im] != mx) vh_fail("max2", "%ld", x);
        (void)m;
      }
    }
  }
  /* finite or not: every exponent with several mantissas and both signs */
  if(vh_unit("finite"))
  {
    uint64_t e, m, s; static const uint64_t M[] = {0, 1, 0x8000000000000ULL, 0xfffffffffffffULL, 0x7ffffffffffffULL};
    for(s = 0; s < 2; s++) for(e = 0; e < 2048; e++) for(m = 0; m < 5; m++)
    {
      union { uint64_t u; double d; } c; c.u = s << 63 | e << 52 | M[m];
      vh_evals++;
      if(!!finit(c.d) != (e != 2047)) vh_fail("finit", "%a", c.d);
    }
  }
  /* copying and removing: only inside the scratch directory */
  if(vh_unit("copy files"))
  {
    static const long N[] = {0, 1, 2, 4095, 4096, 4097, 65536, 16777215, 16777216, 16777217};
    for(i = 0; i < 10; i++)
    {
      long k; char *d = malloc(N[i]+1);
      for(k = 0; k < N[i]; k++) d[k] = (k*2654435761u) >> 24;
      mkdir("cd", 0700); mkdir("cd/sub", 0700); mkdir("cd/to", 0700);
      put("cd/src.bin", d, N[i]); put("cd/sub/deep.bin", d, N[i]);
      put("cd/to/src.bin", "old content that is longer", i == 1 ? 26 : 3);
      copy_file_into_dir("cd/src.bin", "cd/to");
      copy_file_into_dir("cd/sub/deep.bin", "cd/to");
      vh_evals += 2;
      if(!same("cd/to/src.bin", d, N[i]) || !same("cd/to/deep.bin", d, N[i])) vh_fail("copy", "%ld bytes", N[i]);
      if(!same("cd/src.bin", d, N[i])) vh_fail("copy", "source changed");
      system3("mv", "cd/to/src.bin", "cd/moved");
      if(!same("cd/moved", d, N[i]) || !access("cd/to/src.bin", F_OK)) vh_fail("mv", "%ld bytes", N[i]);
      free(d);
      if(system2("rm -rf", "cd") || !access("cd", F_OK)) vh_fail("rm", "directory still there");
    }
  }
  if(vh_unit("remove trees"))
  {
    long c; char ab[600];
    mkdir("outside", 0700); put("outside/keep1", "k", 1); put("outside/keep2", "k", 1); put("sib", "s", 1);
    for(c = 0; c < 4096; c++)
    {
      int abs;
      for(abs = 0; abs < 2; abs++)
      {
        if(mktree("tree", c, 0)) { vh_fail("harness", "cannot make tree %ld", c); break; }
        snprintf(ab, 599, abs ? "%s/tree" : "%.0stree", getenv("VH_SCRATCH"));
        system2("rm -rf", ab);
        vh_evals++; vh_distinct++;
        if(!access("tree", F_OK)) { vh_fail("rm", "tree %ld (%s path) still there", c, abs ? "absolute" : "relative"); abs = 2; c = 9999; }
        if(count("outside") != 2 || access("sib", F_OK)) { vh_fail("rmoutside", "tree %ld: files outside were removed", c); put("outside/keep1", "k", 1); put("outside/keep2", "k", 1); }
      }
    }
  }
  return vh_done();
}

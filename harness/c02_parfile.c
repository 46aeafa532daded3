/* C02: every parameter file up to a bounded length over the characters that
   matter, against a reference reader written from the documented syntax. */
#include "sgrid.h"
#include "vh.h"
#undef exit

void parse_parameter_file(char *parfile);

static char fname[600];
static void put_file(const char *s, long n)
{
  int fd = open(fname, O_WRONLY|O_CREAT|O_TRUNC, 0600);
  if(write(fd, s, n) != n) { perror("write"); _exit(3); }
  close(fd);
}

/* reference: names and values in order of first appearance; returns -1 if the
   text is not of the documented form  (name = word word ...)*  */
typedef struct { char name[64], val[128]; } pv;
static int ref_parse(const char *s, pv *out)
{
  char t[2100];
  char tok[64][48]; int st[64]; /* st: 1 if preceded by white space or start */
  int nt = 0, i, n = strlen(s), k, np = 0;
  for(i = 0; i < n; i++)
  {
    if(s[i] == '#') { while(i < n && s[i] != '\n') t[i++] = ' '; if(i < n) t[i] = '\n'; }
    else if(s[i] == '"') t[i] = ' ';
    else t[i] = s[i];
  }
  t[n] = 0;
  for(i = 0; i < n; )
  {
    int sp = i == 0;
    while(i < n && isspace((unsigned char)t[i])) { i++; sp = 1; }
    if(i >= n) break;
    if(nt >= 60) return -1;
    st[nt] = sp;
    if(t[i] == '=') { strcpy(tok[nt++], "="); i++; continue; }
    k = 0;
    while(i < n && !isspace((unsigned char)t[i]) && t[i] != '=') { if(k < 47) tok[nt][k++] = t[i]; i++; }
    tok[nt++][k] = 0;
  }
  if(!nt) return 0;
  /* form: NAME = [WORD...] NAME = ... ; a NAME starts after white space */
  if(nt < 2 || tok[0][0] == '=' || strcmp(tok[1], "=")) return -1;
  for(i = 0; i < nt; )
  {
    int e, j, q;
    if(strcmp(tok[i], "=") == 0 || !st[i]) return -1;
    if(i+1 >= nt || strcmp(tok[i+1], "=")) return -1;
    for(e = i+2; e < nt && strcmp(tok[e], "="); e++) ;
    if(e < nt) e--;          /* the name of the next assignment */
    if(e < i+2) return -1;
    for(q = 0; q < np; q++) if(!strcmp(out[q].name, tok[i])) break;
    if(q == np) { strcpy(out[np].name, tok[i]); np++; }
    out[q].val[0] = 0;
    for(j = i+2; j < e; j++) { if(j > i+2) strcat(out[q].val, " "); strcat(out[q].val, tok[j]); }
    i = e;
  }
  return np;
}

static void run(const char *s, long n, const pv *p, int np)
{
  int i;
  put_file(s, n);
  free_global_parameter_database_contents();
  VH_TRY { parse_parameter_file(fname); VH_END; }
  else { vh_fail("stopped", "a well formed file |%.60s| stopped the program", s); return; }
  VH_END;
  vh_evals++;
  if(GetnParameters() != np) { vh_fail("count", "|%.80s| gives %d parameters, expected %d", s, GetnParameters(), np); return; }
  for(i = 0; i < np; i++)
    if(strcmp(GetnameInd(i), p[i].name) || strcmp(GetsInd(i), p[i].val))
      vh_fail("value", "|%.80s| gives %s=|%s|, expected %s=|%s|", s, GetnameInd(i), GetsInd(i), p[i].name, p[i].val);
}

int main(int argc, char **argv)
{
  static const char AL[] = "ab= \n#\"\t";
  int na = 8, len, L, i;
  vh_init(argc, argv);
  sprintf(fname, "/dev/shm/verif_c02_%d", getpid());
  { FILE *f = fopen(fname, "w"); if(!f) sprintf(fname, "%s/par", getenv("VH_SCRATCH")); else fclose(f); }
  L = vh_thorough ? 8 : 7;
  for(len = 0; len <= L; len++)
  {
    long tot = 1, x, chunk = 0;
    for(i = 0; i < len; i++) tot *= na;
    for(x = 0; x < tot; chunk++)
    {
      long e = x + 32768; if(e > tot) e = tot;
      if(!vh_unit("files of %d characters, %ld..%ld", len, x, e-1)) { x = e; continue; }
      for(; x < e; x++)
      {
        char s[16]; long y = x; pv p[16]; int np;
        for(i = 0; i < len; i++) { s[i] = AL[y % na]; y /= na; }
        s[len] = 0;
        np = ref_parse(s, p);
        if(np < 0) continue;
        vh_at("%s", s);
        if(np > 0) vh_distinct++;
        run(s, len, p, np);
        if(np == 2) vh_sample("%s", s);
      }
    }
  }
  /* token level: longer files with several assignments */
  {
    static const char *T[] = {"ab", "b", "=", " ", "\n", "#x=1\n", "\"", " = ", "c"};
    int nt = 9, D = vh_thorough ? 8 : 6;
    for(len = 4; len <= D; len++)
    {
      long tot = 1, x;
      for(i = 0; i < len; i++) tot *= nt;
      for(x = 0; x < tot; )
      {
        long e = x + 32768; if(e > tot) e = tot;
        if(!vh_unit("files of %d tokens, %ld..%ld", len, x, e-1)) { x = e; continue; }
        for(; x < e; x++)
        {
          char s[100] = ""; long y = x; pv p[64]; int np;
          for(i = 0; i < len; i++) { strcat(s, T[y % nt]); y /= nt; }
          /* overlong names do not fit the reference's arrays */
          np = ref_parse(s, p);
          if(np <= 0) continue;
          vh_at("%s", s);
          vh_distinct++;
          run(s, strlen(s), p, np);
        }
      }
    }
  }
  /* every file length around the growth of the reader's buffer */
  for(len = 1; len <= 3; len++)
    for(L = 1000*len - 30; L <= 1000*len + 30; L++)
    {
      int var;
      if(!vh_unit("file of %d characters", L)) continue;
      for(var = 0; var < 6; var++)
      {
        char *s = malloc(L+1); pv p[4]; int np = 0, k;
        memset(s, ' ', L); s[L] = 0;
        if(var == 0) { memcpy(s+L-5, "a = 1", 5); strcpy(p[0].name, "a"); strcpy(p[0].val, "1"); np = 1; }
        if(var == 1) { memcpy(s+L-4, "aa =", 4); strcpy(p[0].name, "aa"); strcpy(p[0].val, ""); np = 1; }
        if(var == 2) { memset(s, '#', L); np = 0; }
        if(var == 3) { memcpy(s, "a=x", 3); memcpy(s+L-4, "b=y\n", 4); strcpy(p[0].name, "a"); strcpy(p[0].val, "x"); strcpy(p[1].name, "b"); strcpy(p[1].val, "y"); np = 2; }
        if(var == 4) { memcpy(s, "a=x", 3); memcpy(s+L-3, "yz\"", 3); strcpy(p[0].name, "a"); strcpy(p[0].val, "x yz"); np = 1; }
        if(var == 5) { memcpy(s, "a=1\n#", 5); memset(s+5, 'q', L-5); strcpy(p[0].name, "a"); strcpy(p[0].val, "1"); np = 1; }
        vh_at("variant %d", var);
        run(s, L, p, np);
        vh_distinct++;
        (void)k;
        free(s);
      }
      { /* a single value that fills the file */
        char *s = malloc(L+1);
        memset(s, 'v', L); memcpy(s, "a=", 2); s[L] = 0;
        put_file(s, L);
        free_global_parameter_database_contents();
        vh_at("long value");
        parse_parameter_file(fname);
        vh_evals++; vh_distinct++;
        if(GetnParameters() != 1 || strcmp(Gets("a"), s+2)) vh_fail("long", "a value of %d characters came back with %d", L-2, (int)strlen(Gets("a")));
        free(s);
      }
    }
  /* many parameters: more than the database initially holds */
  if(vh_unit("many parameters"))
  {
    int n, N = 1500;
    char *s = malloc(40*N + 10), *q = s, b[40], v[40];
    free_global_parameter_database_contents();
    for(n = 0; n < N; n++) q += sprintf(q, "par_%d=%d w%d\n", n*7%N, n, n);
    put_file(s, q-s);
    parse_parameter_file(fname);
    if(GetnParameters() != N) vh_fail("many", "%d parameters, expected %d", GetnParameters(), N);
    for(n = 0; n < N; n++)
    {
      sprintf(b, "par_%d", n*7%N); sprintf(v, "%d w%d", n, n);
      vh_evals++;
      if(!GetsLax(b) || strcmp(GetsLax(b), v)) vh_fail("many", "%s = %s", b, GetsLax(b) ? GetsLax(b) : "(none)");
    }
    free(s);
  }
  unlink(fname);
  return vh_done();
}

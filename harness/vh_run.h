/* run the real program's main in a forked child inside a scratch directory,
   with probe functions that write records to a pipe */
#ifndef VH_RUN_H
#define VH_RUN_H
#include <dirent.h>
#include <time.h>
int sgrid_real_main(int argc, char **argv);

static int vr_fd = -1;
static void vr_put(const char *fmt, ...)
{
  char b[4000]; int n; va_list ap;
  va_start(ap, fmt); n = vsnprintf(b, 3990, fmt, ap); va_end(ap);
  if(write(vr_fd, b, n) != n) _exit(99);
}
static void vr_rmtree(const char *d)
{
  DIR *p = opendir(d); struct dirent *e; char f[2000]; struct stat st;
  if(!p) { unlink(d); return; }
  while((e = readdir(p)))
  {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    snprintf(f, 1999, "%s/%s", d, e->d_name);
    if(!lstat(f, &st) && S_ISDIR(st.st_mode)) vr_rmtree(f); else unlink(f);
  }
  closedir(p);
  rmdir(d);
}
static void vr_file(const char *f, const char *txt)
{
  int fd = open(f, O_WRONLY|O_CREAT|O_TRUNC, 0600), n = strlen(txt);
  if(fd < 0 || write(fd, txt, n) != n) _exit(98);
  close(fd);
}
static char *vr_read(const char *f)
{
  static char b[20000]; int fd = open(f, O_RDONLY), n;
  if(fd < 0) return NULL;
  n = read(fd, b, 19999); close(fd);
  if(n < 0) n = 0;
  b[n] = 0;
  return b;
}
/* returns exit code (or 1000+signal), records in out */
static int vr_run(const char *dir, int argc, char **argv, void (*before)(void), char *out, int outlen, int secs)
{
  int p[2], st, n = 0, r, to = 0;
  pid_t pid;
  fflush(NULL);
  if(pipe(p)) _exit(97);
  pid = fork();
  if(pid == 0)
  {
    int i; char **av = calloc(argc+1, sizeof(char*));
    close(p[0]); vr_fd = p[1];
    if(chdir(dir)) _exit(96);
    for(i = 0; i < argc; i++) av[i] = strdup(argv[i]);
    alarm(secs);
    if(before) before();
    i = sgrid_real_main(argc, av);
    _exit(i);
  }
  close(p[1]);
  while(n < outlen-1 && (r = read(p[0], out+n, outlen-1-n)) > 0) n += r;
  out[n] = 0;
  close(p[0]);
  waitpid(pid, &st, 0);
  (void)to;
  return WIFSIGNALED(st) ? 1000+WTERMSIG(st) : WEXITSTATUS(st);
}
#endif

/* run the real program in a child under ptrace, count its file system operations
   (and those of the commands it starts), kill everything right before operation k */
#ifndef VH_KILL_H
#define VH_KILL_H
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/syscall.h>
static int vk_mutating(pid_t p, struct user_regs_struct *r, char *what)
{
  switch(r->orig_rax)
  {
  case SYS_open: if(r->rsi & (O_CREAT|O_TRUNC)) { strcpy(what, "open"); return 1; } return 0;
  case SYS_openat: if(r->rdx & (O_CREAT|O_TRUNC)) { strcpy(what, "openat"); return 1; } return 0;
  case SYS_creat: strcpy(what, "creat"); return 1;
  case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: strcpy(what, "write"); return r->rdi > 2;
  case SYS_rename: case SYS_renameat: case SYS_renameat2: strcpy(what, "rename"); return 1;
  case SYS_unlink: case SYS_unlinkat: strcpy(what, "unlink"); return 1;
  case SYS_mkdir: case SYS_mkdirat: strcpy(what, "mkdir"); return 1;
  case SYS_rmdir: strcpy(what, "rmdir"); return 1;
  case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: strcpy(what, "link"); return 1;
  case SYS_truncate: case SYS_ftruncate: strcpy(what, "truncate"); return 1;
  case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: strcpy(what, "copy"); return 1;
  case SYS_ioctl: if(r->rsi == 0x40049409 /* FICLONE */) { strcpy(what, "clone"); return 1; } return 0;
  }
  return 0;
}
/* kill right before operation k (k<0: never). Returns exit code, 2000 if killed; *nops operations done */
static int vk_run(const char *dir, int argc, char **argv, void (*before)(void), long k, long *nops, char *lastop, int secs)
{
  pid_t pid, q; int st, code = -1, insys[64] = {0}; pid_t tid[64] = {0}; int nt = 0, i; char w[50] = "";
  long n = 0;
  fflush(NULL);
  pid = fork();
  if(pid == 0)
  {
    char **av = calloc(argc+1, sizeof(char*));
    setpgid(0, 0);
    if(chdir(dir)) _exit(96);
    for(i = 0; i < argc; i++) av[i] = strdup(argv[i]);
    alarm(secs);
    if(before) before();
    if(ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(95);
    raise(SIGSTOP);
    i = sgrid_real_main(argc, av);
    fflush(NULL);
    _exit(i);
  }
  setpgid(pid, pid);
  if(waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) return WIFEXITED(st) ? 900+WEXITSTATUS(st) : 899;
  if(ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD|PTRACE_O_TRACEFORK|PTRACE_O_TRACEVFORK|PTRACE_O_TRACECLONE|PTRACE_O_TRACEEXEC|PTRACE_O_EXITKILL)) return 898;
  ptrace(PTRACE_SYSCALL, pid, 0, 0);
  while((q = waitpid(-1, &st, __WALL)) > 0)
  {
    if(WIFSTOPPED(st))
    {
      int sig = WSTOPSIG(st); struct user_regs_struct r;
      for(i = 0; i < nt; i++) if(tid[i] == q) break;
      if(i == nt) { if(nt < 63) nt++; tid[i] = q; insys[i] = 0; }
      if(sig == (SIGTRAP|0x80))
      {
        insys[i] = !insys[i];
        if(insys[i] && ptrace(PTRACE_GETREGS, q, 0, &r) == 0 && vk_mutating(q, &r, w))
        {
          if(n == k) { kill(-pid, SIGKILL); kill(pid, SIGKILL); code = 2000; if(lastop) strcpy(lastop, w); while(waitpid(-1, &st, __WALL) > 0) ; break; }
          n++;
        }
        sig = 0;
      }
      else if(sig == SIGTRAP) { if(st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) insys[i] = 1; sig = 0; }
      else if(sig == SIGSTOP) sig = 0;
      ptrace(PTRACE_SYSCALL, q, 0, sig);
    }
    else if(q == pid) code = WIFSIGNALED(st) ? 1000+WTERMSIG(st) : WEXITSTATUS(st);
  }
  *nops = n;
  return code;
}
#endif

/* runs a native program once per line  prog n pad k VAR size expected  and says what happened */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
static char *names[][2] = { { "TRAILSZ", "trail" }, { "CSTRSZ", "cstr" }, { "GLOBALSZ", "global" }, { "LOCALSZ", "local" } };
static int readall(int fd, char *b, int n, int ms)
{
  int k, len = 0;
  struct pollfd p = { fd, POLLIN, 0 };
  for (;;)
    {
      if (poll(&p, 1, ms) <= 0) return -1;
      if ((k = read(fd, b + len, n - 1 - len)) <= 0) break;
      if ((len += k) >= n - 1) len = n - 2;
    }
  b[len] = 0;
  return len;
}
int main(int argc, char **argv)
{
  char prog[100], n[20], pad[10], k[20], var[20], exp[200], line[1000], ev[100], want[400], msg[400], out[5000];
  long sz;
  int i, st, fixed = argc > 2 ? atoi(argv[2]) : 0;	/* fixed sizes: the message then */
  struct rlimit rl = { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
  while (fgets(line, sizeof line, stdin))
    {
      int p[2], pid, hang = 0, dup = 0;
      if (sscanf(line, "%s %s %s %s %s %ld %s", prog, n, pad, k, var, &sz, exp) != 7) return 2;
      if (pipe(p)) return 2;
      sprintf(ev, "%s=%ld", var, sz);
      pid = vfork();
      if (pid == 0)
	{
	  char *av[] = { argv[1], prog, n, pad, k, 0 };
	  char *en[] = { ev, "PATH=/usr/bin:/bin", "LINEDIT=no", 0 };
	  dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]);
	  execve(argv[1], av, en);
	  _exit(99);
	}
      close(p[1]);
      if (readall(p[0], out, sizeof out, 20000) < 0) { hang = 1; kill(pid, SIGKILL); }
      close(p[0]);
      waitpid(pid, &st, 0);
      for (i = 0; i < 4 && strcmp(names[i][0], var); i++) ;
      sprintf(want, "start\n%s\n", exp);
      if (i < 4)
	{
	  if (fixed)
	    sprintf(msg, "Fatal Error: %s stack overflow (size: %ld Kb - fixed size)\n", names[i][1], (long) fixed);
	  else
	    sprintf(msg, "Fatal Error: %s stack overflow (size: %ld Kb, environment variable used: %s)\n", names[i][1], (sz + 3) / 4 * 4, var);
	}
      else strcpy(msg, "?");
      if (hang) printf("HANG\n");
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !strcmp(out, want)) printf("ok\n");
      else
	{
	  char *o = out;
	  if (!strncmp(o, "start\n", 6)) o += 6;
	  while (*o == '\n') o++;
	  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !strcmp(o, msg)) printf("ovf\n");
	  else
	    {
	      for (o = out; *o; o++) if (*o == '\n') *o = '|';
	      out[300] = 0;
	      printf("BAD status %x: %s\n", st, out);
	    }
	}
      (void) dup;
    }
  return 0;
}

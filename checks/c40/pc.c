#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <gprolog.h>
/* open descriptors, children left (reaped) */
PlBool pc_fds(PlLong *n) { int i; for (*n = i = 0; i < 200; i++) if (fcntl(i, F_GETFD) >= 0) ++*n; return PL_TRUE; }
PlBool pc_kids(PlLong *n) { for (*n = 0; waitpid(-1, NULL, WNOHANG) >= 0; ++*n) { if (*n > 5) break; usleep(20000); } return PL_TRUE; }
/* descriptors above those open at first call are closed */
PlBool pc_clean(PlLong *k)
{
  static char was[200]; static int first = 1; int i;
  *k = 0;
  for (i = 0; i < 200; i++)
    if (fcntl(i, F_GETFD) >= 0) { if (first) was[i] = 1; else if (!was[i]) { close(i); ++*k; } }
  first = 0;
  return PL_TRUE;
}
PlBool pc_pipe_sig(void) { signal(SIGPIPE, SIG_IGN); return PL_TRUE; }
PlBool pc_exit(PlLong n) { _exit((int) n); }

/* stand-ins for the outside world: the size limit on files (a byte-exact "disk full") and an independent reader */
#include <stdio.h>
#include <signal.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <gprolog.h>

PlBool
fl_set(PlLong k)
{
  struct rlimit r;
  signal(SIGXFSZ, SIG_IGN);
  getrlimit(RLIMIT_FSIZE, &r);
  r.rlim_cur = k < 0 ? r.rlim_max : (rlim_t) k;
  return setrlimit(RLIMIT_FSIZE, &r) == 0;
}

/* length and a 32-bit FNV-1a hash of the file as the operating system has it (-1 if absent) */
PlBool
fl_read(char *f, PlLong *len, PlLong *h)
{
  int fd = open(f, O_RDONLY), n, i;
  unsigned x = 2166136261u;
  static unsigned char b[1 << 16];
  *len = -1;
  *h = 0;
  if (fd < 0)
    return 1;
  *len = 0;
  while ((n = read(fd, b, sizeof b)) > 0)
    for (i = 0; i < n; i++, ++*len)
      x = (x ^ b[i]) * 16777619u;
  close(fd);
  *h = x;
  return 1;
}

PlBool
fl_rm(char *f)
{
  unlink(f);
  return 1;
}

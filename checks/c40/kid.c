/* the child process of the cases */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <fcntl.h>
static int fcntl_ok(int i) { return fcntl(i, F_GETFD) >= 0; }
static unsigned h;
static int nb;
static void dig(int c) { h = (h * 31u + (unsigned) c) & 0xfffffff; nb++; }
static void put(int fd, long n, int step)
{
  static unsigned char b[1 << 20];
  long i, k;
  for (i = 0; i < n; i++) b[i] = (unsigned char) (i * step % 251 + 1);
  for (i = 0; i < n; i += k) if ((k = write(fd, b + i, n - i)) <= 0) _exit(99);
}
int main(int argc, char **argv)
{
  char *o = argv[1];
  int c, i;
  struct rlimit l = { 0, 0 };
  setrlimit(RLIMIT_CORE, &l);
  switch (*o)
    {
    case 'e': return atoi(argv[2]);
    case 'k': signal(atoi(argv[2]), SIG_DFL); raise(atoi(argv[2])); return 98;
    case 'a':			/* its arguments, into the file argv[2] */
      { FILE *f = fopen(argv[2], "w"); for (i = 3; i < argc; i++) { for (c = 0; argv[i][c]; c++) fprintf(f, "%02x", (unsigned char) argv[i][c]); fprintf(f, "."); } fclose(f); return 0; }
    case 'r':			/* read all, tell what was read (into the file argv[3] if any) */
      while ((c = getchar()) != EOF) dig(c);
      if (argc > 3) { FILE *f = fopen(argv[3], "w"); fprintf(f, "%d/%u.\n", nb, h); fclose(f); }
      else { printf("%d/%u.\n", nb, h); fflush(stdout); }
      return atoi(argv[2]);
    case 'w': put(1, atol(argv[2]), 7); put(2, atol(argv[3]), 3); return atoi(argv[4]);
    case 'x': for (i = 0; i < atoi(argv[2]); i++) { put(1, 1, 7); put(2, 1, 3); } return 0;
    case 'c': { char b[5000]; int n; while ((n = read(0, b, sizeof b)) > 0) write(1, b, n); } return atoi(argv[2]);
    case 'z': write(1, "z", 1); usleep(5000000); return 0;
    case 's': usleep(atoi(argv[2]) * 1000); return atoi(argv[3]);
    case 'f':			/* number of open descriptors above 2 */
      { int n = 0; for (i = 3; i < 1000; i++) if (fcntl_ok(i)) n++; printf("%d.\n", n); return 0; }
    }
  return 97;
}

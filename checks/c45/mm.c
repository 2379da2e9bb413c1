#include <malloc.h>
#include <stdio.h>
#include <fcntl.h>
#include <dirent.h>
#include "engine_pl.h"
#include "bips_pl.h"
/* memory, stacks and descriptors in use, into the record k */
static PlLong rec[8][8];
static int fds(void)
{
  int i, n = 0;
  for (i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++;
  return n;
}
PlBool mm_note(PlLong k)
{
  struct mallinfo2 m = mallinfo2();
  PlLong *r = rec[k];
  r[0] = m.uordblks + m.hblkhd;
  r[1] = (char *) H - (char *) Global_Stack;
  r[2] = (char *) TR - (char *) Trail_Stack;
  r[3] = (char *) CS - (char *) Cstr_Stack;
  r[4] = (char *) Local_Top - (char *) Local_Stack;
  r[5] = fds();
  r[6] = pl_nb_atom;
  return PL_TRUE;
}
/* bytes by which K grew from a to b */
PlBool mm_grow(PlLong a, PlLong b, PlLong k, PlLong *d)
{
  *d = rec[b][k] - rec[a][k];
  return PL_TRUE;
}

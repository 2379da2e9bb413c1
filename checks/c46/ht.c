/* Every sequence of table operations up to a depth, with the contents, scans and deletions during scans compared with an
   array after each.  Usage: ht depth shard shards */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include "hash_tbl.h"
#include "hash_fct.h"
void *Pl_HTBL_Alloc_Table(int, int); void *Pl_HTBL_Realloc_Table(void *, int); void Pl_HTBL_Free_Table(void *); void Pl_HTBL_Delete_All(void *);
void *Pl_HTBL_Insert(void *, void *, Bool); void *Pl_HTBL_Find(void *, PlLong); void *Pl_HTBL_Delete(void *, PlLong);
void *Pl_HTBL_First(void *, HashScan *); void *Pl_HTBL_Next(HashScan *); int Pl_HTBL_Table_Size(void *); int Pl_HTBL_Nb_Elements(void *);
void *Pl_Malloc_Check(unsigned n, char *f, int l) { return malloc(n); }
void *Pl_Calloc_Check(unsigned n, unsigned s, char *f, int l) { return calloc(n, s); }
void *Pl_Realloc_Check(char *p, unsigned n, char *f, int l) { return realloc(p, n); }
char *Pl_Strdup_Check(char *p, char *f, int l) { return strdup(p); }
typedef struct { PlLong key; int i1, i2; char tail[12]; } El;
static PlLong KEYS[] = { 0, 1, 2, 3, 5, -1, 7L << 40 };
#define NK 7
static int ESZ[] = { sizeof(PlLong), sizeof(PlLong) + 8, sizeof(El) };
static long n, states, bad;
static int cur[64], nc;
#define FAIL(...) do { if (bad++ < 20) { printf("BAD "); printf(__VA_ARGS__); printf(" after"); for (int q_ = 0; q_ < nc; q_++) printf(" %d", cur[q_]); printf("\n"); } } while (0)
static int has[NK], ver[NK], size, esz;
static void *t;
static void mk(El *e, int k, int v) { memset(e, 0, sizeof *e); e->key = KEYS[k]; e->i1 = v; e->i2 = v * 3 + 1; for (int i = 0; i < 12; i++) e->tail[i] = (char) (v + i + k); }
static int eq(void *p, int k) { El e; mk(&e, k, ver[k]); return !memcmp(p, &e, esz); }
static void look(void)
{
  int c = 0, seen[NK] = { 0 }, i; HashScan s; void *p;
  for (i = 0; i < NK; i++) c += has[i];
  if (Pl_HTBL_Nb_Elements(t) != c) FAIL("nb %d expected %d", Pl_HTBL_Nb_Elements(t), c);
  if (Pl_HTBL_Table_Size(t) != size) FAIL("size %d expected %d", Pl_HTBL_Table_Size(t), size);
  for (i = 0; i < NK; i++) { p = Pl_HTBL_Find(t, KEYS[i]); if (!!p != has[i] || (p && !eq(p, i))) FAIL("find %ld", (long) KEYS[i]); }
  if (Pl_HTBL_Find(t, 99) || Pl_HTBL_Delete(t, 98) || Pl_HTBL_Find(t, (7L << 40) + 1)) FAIL("absent key found");
  int g = 0;
  for (p = Pl_HTBL_First(t, &s); p; p = Pl_HTBL_Next(&s))
    { for (i = 0; i < NK && KEYS[i] != *(PlLong *) p; i++) ; if (i == NK || !has[i] || seen[i]++ || !eq(p, i)) { FAIL("scan"); break; } if (++g > NK) { FAIL("endless scan"); break; } }
  for (i = 0; i < NK; i++) if (has[i] && !seen[i]) FAIL("scan misses %ld", (long) KEYS[i]);
  if (Pl_HTBL_Next(&s) && 0) FAIL("after the end");
}
#define NOPS (2 * NK + NK + 6 + 1 + 2)
static int NS[] = { 1, 2, 3, 4, 7, 0 };
static void op(int o)
{
  El e; void *p; int k = o % NK;
  n++;
  if (o < 2 * NK)
    {
      int rep = o >= NK, v = (int) (n % 1000) + 1;
      mk(&e, k, v); p = Pl_HTBL_Insert(t, &e, rep);
      if (!has[k] || rep) ver[k] = v;
      has[k] = 1;
      if (!p || !eq(p, k)) FAIL("insert %ld", (long) KEYS[k]);
      if (p != Pl_HTBL_Find(t, KEYS[k])) FAIL("insert returns another element");
    }
  else if (o < 3 * NK) { p = Pl_HTBL_Delete(t, KEYS[k]); if (!!p != has[k]) FAIL("delete %ld", (long) KEYS[k]); has[k] = 0; }
  else if (o < 3 * NK + 6) { size = NS[o - 3 * NK]; t = Pl_HTBL_Realloc_Table(t, size); if (size < 1) size = 1; }
  else if (o == 3 * NK + 6) { Pl_HTBL_Delete_All(t); memset(has, 0, sizeof has); }
  else
    {				/* scan, deleting some of the elements it returns */
      HashScan s; int seen[NK] = { 0 }, i, j = 0;
      for (p = Pl_HTBL_First(t, &s); p; p = Pl_HTBL_Next(&s), j++)
	{ for (i = 0; i < NK && KEYS[i] != *(PlLong *) p; i++) ; if (i == NK || seen[i]++) { FAIL("scan with deletions"); break; } if (o == 3 * NK + 7 || (j & 1)) Pl_HTBL_Delete(t, KEYS[i]); }
      for (i = j = 0; i < NK; i++) if (has[i] && !seen[i]) FAIL("scan with deletions misses");
      for (i = 0; i < NK; i++) has[i] = Pl_HTBL_Find(t, KEYS[i]) != NULL;
    }
}
static void start(int sz, int es) { size = sz < 1 ? 1 : sz; esz = es; t = Pl_HTBL_Alloc_Table(sz, es); memset(has, 0, sizeof has); n = 0; }
int main(int c, char **v)
{
  int depth = atoi(v[1]), sh = atoi(v[2]), ns = atoi(v[3]);
  long tot = 1, runs = 0;
  for (int i = 0; i < depth; i++) tot *= NOPS;
  for (int sz = 0; sz <= 4; sz++)
    for (long q = sh; q < tot && bad < 20; q += ns)
      {
	long x = q; nc = 0;
	for (int i = 0; i < depth; i++) { cur[nc++] = x % NOPS; x /= NOPS; }
	start(sz, ESZ[q % 3]);
	for (int i = 0; i < depth; i++) { op(cur[i]); if (q % NOPS == 0 || i == depth - 1) look(); }
	Pl_HTBL_Free_Table(t);
	runs++; states += 1;
      }
  /* from full tables of colliding keys: every pair of operations */
  for (int sz = 1; sz <= 4; sz++)
    for (long q = sh; q < (long) NOPS * NOPS * NOPS && bad < 20; q += ns)
      {
	start(sz, ESZ[2]); nc = 0;
	for (int k = 0; k < NK; k++) { op(k); cur[nc++] = k; }
	long x = q; for (int i = 0; i < 3; i++) { cur[nc++] = x % NOPS; op(x % NOPS); x /= NOPS; } look();
	Pl_HTBL_Free_Table(t); states++;
      }
  /* growth: n keys, every n, doubled whenever full; then halved away */
  for (int m = 1 + sh; m <= 600; m += ns)
    {
      void *h = Pl_HTBL_Alloc_Table(1, sizeof(El));
      for (long k = 0; k < m; k++)
	{ if (Pl_HTBL_Nb_Elements(h) >= Pl_HTBL_Table_Size(h)) h = Pl_HTBL_Realloc_Table(h, Pl_HTBL_Table_Size(h) * 2);
	  El e; memset(&e, 0, sizeof e); e.key = k * 8; e.i1 = (int) k; Pl_HTBL_Insert(h, &e, 0); }
      for (long k = 0; k < m; k++) { El *e = Pl_HTBL_Find(h, k * 8); if (!e || e->i1 != k) FAIL("growth %d: key %ld", m, k); }
      for (long k = 0; k < m; k += 2) Pl_HTBL_Delete(h, k * 8);
      h = Pl_HTBL_Realloc_Table(h, 5);
      int g = 0; HashScan s; for (El *p = Pl_HTBL_First(h, &s); p; p = Pl_HTBL_Next(&s)) { g++; if (p->key != p->i1 * 8L || !(p->i1 & 1)) FAIL("growth scan"); }
      if (g != m / 2 || Pl_HTBL_Nb_Elements(h) != g) FAIL("growth count %d of %d", g, m / 2);
      Pl_HTBL_Free_Table(h); states++;
    }
  /* hashing by pieces (of whole 4-byte blocks but the last) is hashing the whole */
  if (sh == 0)
    {
      unsigned char b[64]; for (int i = 0; i < 64; i++) b[i] = (unsigned char) (i * 37 + 5);
      for (int l = 0; l <= 40; l++) for (int p = 0; p <= l; p += 4) for (int q = p; q <= l; q += 4)
	{ HashIncrInfo hi; Pl_Hash_Incr_Init(&hi); Pl_Hash_Incr_Buffer(&hi, b, p); Pl_Hash_Incr_Buffer(&hi, b + p, q - p); Pl_Hash_Incr_Buffer(&hi, b + q, l - q); states++;
	  if (Pl_Hash_Incr_Term(&hi) != Pl_Hash_Buffer(b, l)) FAIL("hash of %d bytes split at %d and %d", l, p, q); }
      for (int l = 0; l < 20; l++) for (int o = 0; o < 8; o++) { unsigned char d[64]; memset(d, 77, 64); memcpy(d + o, b, l); states++; if (Pl_Hash_Buffer(d + o, l) != Pl_Hash_Buffer(b, l)) FAIL("hash depends on alignment or on what follows"); }
      { HashIncrInfo x, y; uint32_t w[2] = { 0x12345678, 0x9abcdef0 }; Pl_Hash_Incr_Init(&x); Pl_Hash_Incr_Init(&y); Pl_Hash_Incr_Int32(&x, w[0]); Pl_Hash_Incr_Int32(&x, w[1]); Pl_Hash_Incr_Int64(&y, 0x9abcdef012345678UL); if (Pl_Hash_Incr_Term(&x) != Pl_Hash_Incr_Term(&y)) FAIL("int64"); }
    }
  printf("DONE states=%ld runs=%ld bad=%ld\n", states, runs, bad);
  return 0;
}

/* All reachable red-black trees over N keys (breadth first, by put and remove), every observer in each; then larger
   trees by schedule.  Usage: rb N */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
static long n_put, n_rem, n_clr;
#define MAP_KEY_TYPE int
#define MAP_KEY_CMP(x, y) ((x) < (y) ? -7 : (x) > (y) ? 9 : 0)
#define MAP_VALUE_TYPE long
#define MAP_PUT_ENTRY(m, e) (n_put += (e)->key + 1000)
#define MAP_REMOVE_ENTRY(m, e) (n_rem += (e)->key + 1000)
#define MAP_CLEAR_ENTRY(m, e) (n_clr += (e)->key + 1000)
#include "map_rbtree.h"

struct skey { int a, b; };
#undef MAP_KEY_TYPE
#undef MAP_KEY_CMP
#undef MAP_VALUE_TYPE
#undef MAP_PUT_ENTRY
#undef MAP_REMOVE_ENTRY
#undef MAP_CLEAR_ENTRY
#define MAP_KEY_TYPE struct skey
#define MAP_KEY_PASSED_BY_PTR
#define MAP_KEY_CMP(x, y) ((x)->a != (y)->a ? (x)->a - (y)->a : (x)->b - (y)->b)
#define MAP_NAME ms
#define MAP_RE_INCLUDE
#include "map_rbtree.h"

#undef MAP_KEY_TYPE
#undef MAP_KEY_CMP
#undef MAP_KEY_PASSED_BY_PTR
#undef MAP_NAME
#define MAP_KEY_TYPE int
#define MAP_KEY_CMP(x, y) ((x) < (y) ? -7 : (x) > (y) ? 9 : 0)
#define MAP_VALUE_TYPE long
#define MAP_NAME mi
#define MAP_PUT_ENTRY(m, e) (n_put += (e)->key + 1000)
#define MAP_REMOVE_ENTRY(m, e) (n_rem += (e)->key + 1000)
#define MAP_CLEAR_ENTRY(m, e) (n_clr += (e)->key + 1000)
#define MAP_RE_INCLUDE
#include "map_rbtree.h"

#define MAXK 64
#define MAXP 64
#define MAXST 4000000
static int N;
static long states, trans, bad;
static unsigned char cur[MAXP]; static int ncur;
#define FAIL(...) do { if (bad++ < 20) { printf("BAD "); printf(__VA_ARGS__); printf(" after"); for (int q_ = 0; q_ < ncur; q_++) printf(" %c%d", cur[q_] & 64 ? 'd' : 'i', cur[q_] & 63); printf("\n"); } } while (0)

typedef struct map_rbt M;
typedef struct mi_entry E;
static E *ent(struct rb_node *n) { return container_of(n, E, node_inv); }
static int ser(struct rb_node *n, unsigned char *b)
{
  if (!n) { *b = 255; return 1; }
  int red = !(n->__rb_parent_color & 1), l = 1;
  *b = ent(n)->key * 2 + red;
  l += ser(n->rb_left, b + l);
  l += ser(n->rb_right, b + l);
  return l;
}
/* structural invariants: returns the black height */
static int inv(struct rb_node *n, struct rb_node *par, int lo, int hi, int *cnt)
{
  if (!n) return 1;
  int red = !(n->__rb_parent_color & 1), k = ent(n)->key;
  if (rb_parent(n) != par) FAIL("parent pointer of %d", k);
  if (k <= lo || k >= hi) FAIL("order at %d", k);
  if (red && (!par || !(par->__rb_parent_color & 1))) FAIL("red below red (or red root) at %d", k);
  ++*cnt;
  int a = inv(n->rb_left, n, lo, k, cnt), b = inv(n->rb_right, n, k, hi, cnt);
  if (a != b) FAIL("black heights %d and %d below %d", a, b, k);
  return a + !red;
}
static void look(M *m, bool *in, long *val, int adds, int dels)
{
  int c = 0, size = 0, i, k;
  inv(m->root.rb_node, NULL, -1000000, 1000000, &c);
  for (i = 0; i < N; i++) size += in[i];
  if (c != size || map_size(m) != size || mi_size(m) != size) FAIL("size %d (nodes %d), expected %d", map_size(m), c, size);
  if (map_is_empty(m) != (size == 0) || mi_is_empty(m) != (size == 0)) FAIL("is_empty");
  if (map_counter_add(m) != adds || map_counter_del(m) != dels || mi_counter_add(m) != adds || mi_counter_del(m) != dels) FAIL("counters %d %d, expected %d %d", map_counter_add(m), map_counter_del(m), adds, dels);
  /* keys are 3*i; probe every integer from -2 to 3N */
  for (k = -2; k <= 3 * N; k++)
    {
      int is = k >= 0 && k % 3 == 0 && k / 3 < N && in[k / 3];
      int nx = -1, pv = -1, nx1 = -1, pv1 = -1;
      for (i = N - 1; i >= 0; i--) if (in[i] && 3 * i > k) nx = 3 * i;
      for (i = 0; i < N; i++) if (in[i] && 3 * i < k) pv = 3 * i;
      nx1 = is ? k : nx; pv1 = is ? k : pv;
      E *e = mi_get(m, k);
      if (!!e != is || (e && (e->key != k || e->value != val[k / 3]))) FAIL("get %d", k);
      if (mi_contains(m, k) != is) FAIL("contains %d", k);
      e = mi_locate(m, k);
      if (!!e != (size > 0)) FAIL("locate %d", k);
      if (e && e->key != nx1 && e->key != pv1) FAIL("locate %d gives %d", k, e->key);
      e = mi_next(m, k, true); if ((e ? e->key : -1) != nx) FAIL("next strict %d gives %d", k, e ? e->key : -1);
      e = mi_next(m, k, false); if ((e ? e->key : -1) != nx1) FAIL("next %d gives %d", k, e ? e->key : -1);
      e = mi_prev(m, k, true); if ((e ? e->key : -1) != pv) FAIL("prev strict %d gives %d", k, e ? e->key : -1);
      e = mi_prev(m, k, false); if ((e ? e->key : -1) != pv1) FAIL("prev %d gives %d", k, e ? e->key : -1);
    }
  i = -1;
  map_foreach2(mi, m, entry)
    { E *e = entry;
      do i++; while (i < N && !in[i]);
      if (i >= N || e->key != 3 * i) { FAIL("foreach gives %d", e->key); break; }
    }
  for (i++; i < N; i++) if (in[i]) { FAIL("foreach misses %d", 3 * i); break; }
  i = N;
  map_foreach_rev2(mi, m, entry)
    { E *e = entry;
      do i--; while (i >= 0 && !in[i]);
      if (i < 0 || e->key != 3 * i) { FAIL("foreach_rev gives %d", e->key); break; }
    }
  for (i--; i >= 0; i--) if (in[i]) { FAIL("foreach_rev misses %d", 3 * i); break; }
  /* postorder: every node once, children first */
  { struct rb_node *n; int s = 0; bool seen[MAXK * 8] = { 0 };
    for (n = rb_first_postorder(&m->root); n; n = rb_next_postorder(n))
      { int q = ent(n)->key / 3; if (q < 0 || q >= N || seen[q]) { FAIL("postorder"); break; } seen[q] = 1; s++;
	if ((n->rb_left && !seen[ent(n->rb_left)->key / 3]) || (n->rb_right && !seen[ent(n->rb_right)->key / 3])) FAIL("postorder: parent before child"); }
    if (s != size) FAIL("postorder visits %d of %d", s, size); }
  E *f = mi_first(m), *l = mi_last(m);
  for (i = 0; i < N && !in[i]; i++) ;
  if ((f ? f->key : -1) != (i < N ? 3 * i : -1)) FAIL("first");
  for (i = N - 1; i >= 0 && !in[i]; i--) ;
  if ((l ? l->key : -1) != (i >= 0 ? 3 * i : -1)) FAIL("last");
}
/* run the operations cur[0..ncur) on a fresh map; check what each call returns */
static void run(M *m, bool *in, long *val, int *adds, int *dels)
{
  map_init(m); memset(in, 0, N); *adds = *dels = 0;
  for (int q = 0; q < ncur; q++)
    {
      int k = cur[q] & 63; bool cr; long p0 = n_put, r0 = n_rem;
      if (cur[q] & 64)
	{
	  bool r;
	  if ((q & 1) && in[k]) { mi_remove_entry(m, mi_get(m, 3 * k)); r = true; } else r = mi_remove(m, 3 * k);
	  if (r != in[k]) FAIL("remove %d returns %d", 3 * k, r);
	  if (n_rem - r0 != (in[k] ? 3 * k + 1000 : 0)) FAIL("MAP_REMOVE_ENTRY %d", 3 * k);
	  *dels += in[k]; in[k] = 0;
	}
      else
	{
	  E *e = mi_put(m, 3 * k, q % 3 ? &cr : NULL);
	  if (q % 3 && cr != !in[k]) FAIL("put %d created=%d", 3 * k, cr);
	  if (!e || e->key != 3 * k || e->value != (in[k] ? val[k] : 0)) FAIL("put %d returns another entry", 3 * k);
	  if (n_put - p0 != (in[k] ? 0 : 3 * k + 1000)) FAIL("MAP_PUT_ENTRY %d", 3 * k);
	  if (!in[k]) { e->value = val[k] = 100 * k + q + 1; }
	  *adds += !in[k]; in[k] = 1;
	}
    }
}
static void clr(M *m, bool *in)
{
  long c0 = n_clr, s = 0;
  for (int i = 0; i < N; i++) if (in[i]) s += 3 * i + 1000;
  mi_clear(m);
  if (n_clr - c0 != s || map_size(m) || m->root.rb_node || map_counter_add(m) || map_counter_del(m)) FAIL("clear");
}
struct st { unsigned char op[MAXP]; unsigned char n; };
static struct st *Q; static long qn;
static unsigned long *H; static unsigned char (*K)[40]; static long hsz;
static bool visit(unsigned char *b, int l)
{
  unsigned long h = 1469598103934665603UL;
  for (int i = 0; i < l; i++) h = (h ^ b[i]) * 1099511628211UL;
  long p = h % hsz;
  while (H[p]) { if (H[p] == qn + MAXST && 0) ; if (!memcmp(K[p], b, l) && K[p][l] == 254) return false; p = (p + 1) % hsz; }
  H[p] = 1; memcpy(K[p], b, l); K[p][l] = 254;
  return true;
}
int main(int argc, char **argv)
{
  N = atoi(argv[1]);
  int shard = argc > 3 ? atoi(argv[2]) : 0, nsh = argc > 3 ? atoi(argv[3]) : 1;
  M m; bool in[MAXK * 8]; long val[MAXK * 8]; int a, d; unsigned char b[40];
  hsz = 1 << 22; H = calloc(hsz, sizeof *H); K = calloc(hsz, sizeof *K);
  Q = malloc(sizeof(struct st) * (long) (1 << 20));
  Q[0].n = 0; qn = 1; ncur = 0; map_init(&m); visit(b, ser(NULL, b));
  for (long i = 0; i < qn && !bad; i++)
    {
      states++;
      memcpy(cur, Q[i].op, ncur = Q[i].n);
      if (i % nsh == shard) { run(&m, in, val, &a, &d); look(&m, in, val, a, d); clr(&m, in); look(&m, memset(in, 0, N), val, 0, 0); }
      for (int o = 0; o < 2 * N; o++)
	{
	  int k = o % N, del = o >= N;
	  memcpy(cur, Q[i].op, Q[i].n); ncur = Q[i].n + 1; cur[ncur - 1] = k | (del ? 64 : 0);
	  run(&m, in, val, &a, &d); trans++;
	  int l = ser(m.root.rb_node, b);
	  if (visit(b, l) && ncur < MAXP - 1 && qn < (1 << 20)) { memcpy(Q[qn].op, cur, ncur); Q[qn++].n = ncur; }
	  clr(&m, in);
	  if (qn >= (1 << 20) || ncur >= MAXP - 1) { printf("BAD bound exceeded\n"); bad++; }
	}
    }
  /* larger trees: every size up to 300, built in several orders, and each single key removed; then emptied in several orders */
  int small = N;
  for (int n = 1 + shard; n <= 130 && !bad; n += nsh)
    for (int ord = 0; ord < 6 && !bad; ord++)
      {
	N = n; ncur = 0;
	for (int del = 0; del < 6; del++)
	  {
	    map_init(&m); memset(in, 0, N); a = d = 0;
	    for (int i = 0; i < n; i++)
	      {
		int k = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i & 1 ? n - 1 - i / 2 : i / 2) : ord == 3 ? (int) ((i * 37L) % n) : ord == 4 ? (i & 1 ? n / 2 - 1 - i / 2 : n / 2 + i / 2) : (int) ((i * 61L + 7) % n);
		if (k < 0 || k >= n) k = i;
		bool cr; E *e = mi_put(&m, 3 * k, &cr); if (cr != !in[k]) FAIL("big put"); if (cr) { e->value = val[k] = k + 5; in[k] = 1; a++; } trans++;
	      }
	    for (int i = 0; i < n; i++) if (!in[i]) { mi_put(&m, 3 * i, NULL)->value = val[i] = i + 5; in[i] = 1; a++; }
	    look(&m, in, val, a, d); states++;
	    for (int i = 0; i < n; i++)
	      {
		int k = del == 0 ? i : del == 1 ? n - 1 - i : del == 2 ? (i & 1 ? n - 1 - i / 2 : i / 2) : del == 3 ? (int) ((i * 53L) % n) : del == 4 ? (n / 2 + (i & 1 ? -(i + 1) / 2 : i / 2)) : (int) ((i * 31L + 11) % n);
		if (k < 0 || k >= n) k = i;
		bool r = mi_remove(&m, 3 * k); if (r != in[k]) FAIL("big remove"); if (r) { in[k] = 0; d++; } trans++; states++;
		if (n < 40 || i % 7 == 0) look(&m, in, val, a, d);
	      }
	    clr(&m, in);
	  }
      }
  /* keys passed by pointer */
  M s; ms_init(&s);
  for (int i = 0; i < 50; i++) for (int j = 0; j < 50; j++) { struct skey k = { (i * 7) % 50, (j * 11) % 50 }; bool cr; ms_put(&s, &k, &cr); trans++; if (!cr) FAIL("struct put"); }
  for (int i = 0; i < 50; i++) for (int j = 0; j < 50; j += 2) { struct skey k = { i, j }; if (!ms_remove(&s, &k)) FAIL("struct remove"); trans++; }
  { int c = 0, la = -1, lb = -1; map_foreach2(ms, &s, entry) { struct ms_entry *e = entry; c++; if (e->key.a < la || (e->key.a == la && e->key.b <= lb) || !(e->key.b & 1)) FAIL("struct order"); la = e->key.a; lb = e->key.b; } if (c != 1250 || ms_size(&s) != 1250) FAIL("struct count"); }
  ms_clear(&s);
  printf("DONE small=%d reach=%ld states=%ld trans=%ld bad=%ld\n", small, qn, states, trans, bad);
  free(Q); free(H); free(K);
  return 0;
}

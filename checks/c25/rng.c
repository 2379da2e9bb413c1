/* Exhaustive exploration of the FD range operations on the real code (Pl_Range_*),
 * against plain sets of integers.  run: rng <shard> <nshards> <vecmax>           */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "engine_pl.h"
#include "engine_fd.h"

#define LIM 1024                     /* values of the reference sets: -LIM..LIM*LIM (clamped) */
static int VM;                       /* vector max */
static long long n_exec, n_bad, n_kinds;

/* reference set: sorted list of ints, or an interval when big */
typedef struct { int iv, lo, hi, n; int v[64]; int extra; } Set;   /* iv: interval lo..hi */

static int U[16], nU;                /* universe for sparse sets */
static Set *TS; static int nS;

static int s_has(Set *s, int x)
{
  if (s->iv) return x >= s->lo && x <= s->hi;
  for (int i = 0; i < s->n; i++) if (s->v[i] == x) return 1;
  return 0;
}
static int s_empty(Set *s) { return s->iv ? s->lo > s->hi : s->n == 0; }
static int s_min(Set *s) { return s->iv ? s->lo : s->v[0]; }
static int s_max(Set *s) { return s->iv ? s->hi : s->v[s->n - 1]; }
static long long s_size(Set *s) { return s->iv ? (long long) s->hi - s->lo + 1 : s->n; }

static VecWord buf_a[64], buf_b[64];
static WamWord arena[1 << 16];

static void mk(Set *s, Range *r, VecWord *buf)
{
  memset(buf, 0x55, 64 * sizeof(VecWord));   /* what precedes/follows a vector is arbitrary */
  r->extra_cstr = s->extra;
  if (s->iv) { r->vec = NULL; r->min = s->lo; r->max = s->hi; return; }
  r->vec = buf;
  for (int i = 0; i < pl_vec_size; i++) buf[i] = 0;
  if (s->n == 0) { r->min = 0; Set_To_Empty(r); return; }
  for (int i = 0; i < s->n; i++) Vector_Set_Value(buf, s->v[i]);
  r->min = s->v[0]; r->max = s->v[s->n - 1];
}

static char *show(Set *s)
{
  static char b[4][700]; static int k; char *p = b[k++ & 3];
  if (s->iv) { sprintf(p, "%d..%d", s->lo, s->hi); return p; }
  char *q = p; q += sprintf(q, "sparse{");
  for (int i = 0; i < s->n; i++) q += sprintf(q, "%s%d", i ? "," : "", s->v[i]);
  sprintf(q, "}%s", s->extra ? "@" : "");
  return p;
}
static void showr(Range *r, char *p)
{
  if (Is_Empty(r)) { sprintf(p, "empty%s", r->extra_cstr ? "@" : ""); return; }
  if (Is_Interval(r)) { sprintf(p, "%d..%d", r->min, r->max); return; }
  char *q = p; q += sprintf(q, "sparse[%d..%d]{", r->min, r->max);
  int c = 0;
  for (int i = 0; i <= VM && c < 40; i++) if (Vector_Test_Value(r->vec, i)) q += sprintf(q, "%d,", i), c++;
  sprintf(q, "}%s", r->extra_cstr ? "@" : "");
}
static struct { char key[80]; int n; } kinds[200];
static void bad(const char *op, const char *why, Set *a, Set *b, int n, Range *r, const char *exp)
{
  char key[80], got[900];
  snprintf(key, sizeof key, "%s/%s", op, why);
  n_bad++;
  int i; for (i = 0; i < n_kinds; i++) if (!strcmp(kinds[i].key, key)) break;
  if (i == n_kinds && n_kinds < 200) { strcpy(kinds[n_kinds].key, key); n_kinds++; }
  if (i < 200 && kinds[i].n++ >= 2) return;
  if (r) showr(r, got); else got[0] = 0;
  printf("BAD %s %s: vecmax=%d a=%s b=%s n=%d got=%s expected=%s\n", op, why, VM, a ? show(a) : "-", b ? show(b) : "-", n, got, exp);
}

/* member function of the exact result */
static unsigned char exact[4096]; static int ex_lost; /* results outside 0..VM (non negative) */
static long long ex_cnt;

/* judge: the result r must hold exactly the values of `exact` within 0..VM, and have the flag if values > VM were lost */
static void judge_sparse(const char *op, Set *a, Set *b, int n, Range *r, int lost)
{
  int lo = -1, hi = -1, c = 0; char e[64];
  for (int i = 0; i <= VM; i++) if (exact[i]) { if (lo < 0) lo = i; hi = i; c++; }
  sprintf(e, "[%d..%d] n=%d%s", lo, hi, c, lost ? "@" : "");
  if (Is_Empty(r))
    {
      if (c) bad(op, "lost-all", a, b, n, r, e);
      return;
    }
  if (c == 0) { bad(op, "not-empty", a, b, n, r, e); return; }
  if (Is_Interval(r))
    {
      if (r->min < 0 || r->max > VM) {
        for (int i = 0; i <= VM; i++) if (exact[i] != (i >= r->min && i <= r->max)) { bad(op, "interval", a, b, n, r, e); return; }
        return; }
      if (r->min != lo || r->max != hi || c != hi - lo + 1) bad(op, "interval", a, b, n, r, e);
      return;
    }
  for (int i = 0; i <= VM; i++)
    if (!!Vector_Test_Value(r->vec, i) != !!exact[i]) { bad(op, "value", a, b, n, r, e); return; }
  if (r->min != lo || r->max != hi) bad(op, "bounds", a, b, n, r, e);
  if (lost && !r->extra_cstr) bad(op, "unflagged", a, b, n, r, e);
  if (Pl_Range_Nb_Elem(r) != c) bad(op, "nb-elem", a, b, n, r, e);
}
static void judge_interval(const char *op, Set *a, Set *b, int n, Range *r, long long lo, long long hi)
{
  char e[64]; sprintf(e, "%lld..%lld", lo, hi);
  if (lo > hi) { if (!Is_Empty(r)) bad(op, "not-empty", a, b, n, r, e); return; }
  if (!Is_Interval(r) || r->min != lo || r->max != hi) bad(op, "interval", a, b, n, r, e);
}

static void prep(Set *a, Range *r) { CS = arena; memset(arena, 0xAA, 64 * 8 * sizeof(WamWord)); mk(a, r, buf_a); n_exec++; }

static int in_vec(Set *s) { return s_empty(s) || (s_min(s) >= 0 && s_max(s) <= VM); }

static void pair(Set *a, Set *b)
{
  Range r, q; VecWord keep[64]; Range kq;
  mk(b, &q, buf_b);
#define BEG prep(a, &r); memcpy(keep, buf_b, sizeof keep); kq = q;
#define END(op) if (memcmp(keep, buf_b, sizeof keep) || memcmp(&kq, &q, sizeof q)) bad(op, "operand-changed", a, b, 0, &q, "");
  int aiv = a->iv, biv = b->iv, fl = a->extra | b->extra;
  /* null intersection (over non empty ranges: its precondition) */
  if (!s_empty(a) && !s_empty(b))
    {
      int common = 0;
      if (aiv && biv) common = !(a->lo > b->hi || b->lo > a->hi);
      else { Set *x = aiv ? b : a, *y = aiv ? a : b; for (int i = 0; i < x->n; i++) if (s_has(y, x->v[i])) common = 1; }
      BEG
      if (Pl_Range_Test_Null_Inter(&r, &q) != !common) bad("null_inter", "value", a, b, 0, NULL, common ? "0" : "1");
      END("null_inter")
    }
  /* copy over a (its vector, if any, may be reused) */
  BEG Pl_Range_Copy(&r, &q); END("copy")
  if (biv) judge_interval("copy", a, b, 0, &r, b->lo, b->hi);
  else if (r.vec == q.vec) bad("copy", "shared", a, b, 0, &r, "");
  else { memset(exact, 0, sizeof exact); for (int i = 0; i < b->n; i++) exact[b->v[i]] = 1; judge_sparse("copy", a, b, 0, &r, b->extra); if (r.extra_cstr != b->extra) bad("copy", "flag", a, b, 0, &r, ""); }
  /* union */
  BEG Pl_Range_Union(&r, &q); END("union")
  if (aiv && biv && !s_empty(a) && !s_empty(b) && (long long) b->lo <= (long long) a->hi + 1 && (long long) a->lo <= (long long) b->hi + 1)
    judge_interval("union", a, b, 0, &r, a->lo < b->lo ? a->lo : b->lo, a->hi > b->hi ? a->hi : b->hi);
  else
    {
      int lost = fl;
      for (int i = 0; i <= VM; i++) exact[i] = s_has(a, i) || s_has(b, i);
      if (!in_vec(a) || !in_vec(b)) lost = 1;
      judge_sparse("union", a, b, 0, &r, lost);
    }
  /* intersection */
  BEG Pl_Range_Inter(&r, &q); END("inter")
  if (aiv && biv) judge_interval("inter", a, b, 0, &r, a->lo > b->lo ? a->lo : b->lo, a->hi < b->hi ? a->hi : b->hi);
  else
    {
      for (int i = 0; i <= VM; i++) exact[i] = s_has(a, i) && s_has(b, i);
      int la = a->extra || !in_vec(a), lb = b->extra || !in_vec(b);
      judge_sparse("inter", a, b, 0, &r, la && lb);
    }
  /* pointwise operations */
  for (int op = 0; op < 5; op++)
    {
      static const char *nm[] = { "add", "sub", "mul", "div", "mod" };
      if (s_empty(a) || s_empty(b)) { if (op > 1) continue; }
      if (aiv && biv && op < 2)
        {
          if (!in_vec(a) || !in_vec(b)) continue;
          BEG if (op == 0) Pl_Range_Add_Range(&r, &q); else Pl_Range_Sub_Range(&r, &q); END(nm[op])
          if (s_empty(a) || s_empty(b)) judge_interval(nm[op], a, b, 0, &r, 1, 0);
          else if (op == 0) judge_interval(nm[op], a, b, 0, &r, a->lo + b->lo, a->hi + b->hi);
          else judge_interval(nm[op], a, b, 0, &r, a->lo - b->hi, a->hi - b->lo);
          continue;
        }
      if (!in_vec(a) || !in_vec(b)) continue;
      memset(exact, 0, VM + 1);
      int lost = fl;
      for (int i = 0; i <= VM; i++) if (s_has(a, i))
        for (int j = 0; j <= VM; j++) if (s_has(b, j))
          {
            long long x;
            if (op == 0) x = i + j; else if (op == 1) x = i - j; else if (op == 2) x = i * j;
            else if (op == 3) { if (i == 0) x = 0; else if (j == 0 || i % j) continue; else x = i / j; }
            else { if (j == 0) continue; x = i % j; }
            if (x > VM) lost = 1; else if (x >= 0) exact[x] = 1;
          }
      BEG
      switch (op) {
        case 0: Pl_Range_Add_Range(&r, &q); break;
        case 1: Pl_Range_Sub_Range(&r, &q); break;
        case 2: Pl_Range_Mul_Range(&r, &q); break;
        case 3: Pl_Range_Div_Range(&r, &q); break;
        case 4: Pl_Range_Mod_Range(&r, &q); break; }
      END(nm[op])
      judge_sparse(nm[op], a, b, 0, &r, lost);
    }
}

static void single(Set *a)
{
  Range r;
  /* complement */
  prep(a, &r); Pl_Range_Compl(&r);
  if (a->iv && s_empty(a)) judge_interval("compl", a, 0, 0, &r, 0, INTERVAL_MAX_INTEGER);
  else if (a->iv && a->lo <= 0) judge_interval("compl", a, 0, 0, &r, (long long) a->hi + 1, INTERVAL_MAX_INTEGER);
  else if (a->iv && a->hi >= INTERVAL_MAX_INTEGER) judge_interval("compl", a, 0, 0, &r, 0, a->lo - 1);
  else
    {
      for (int i = 0; i <= VM; i++) exact[i] = !s_has(a, i);
      judge_sparse("compl", a, 0, 0, &r, 1);
    }
  static int N[] = { -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 61, 62, 63, 64, 65, 66, 100, 125, 126, 127, 128, 129, 191, 192, 200, 255, 256, 1000 };
  for (unsigned k = 0; k < sizeof N / sizeof *N; k++)
    {
      int n = N[k];
      if (!s_empty(a))
        {
          prep(a, &r);
          if (Pl_Range_Test_Value(&r, n) != s_has(a, n)) bad("test_value", "value", a, 0, n, &r, s_has(a, n) ? "1" : "0");
          int e = -1, x;
          if (s_max(a) <= 4096) {
            for (x = n < -1 ? 0 : n + 1; x <= s_max(a); x++) if (s_has(a, x)) { e = x; break; }
            if (Pl_Range_Next_After(&r, n) != e) bad("next_after", "value", a, 0, n, &r, "");
            e = -1;
            for (x = n > 4096 ? 4096 : n - 1; x >= 0; x--) if (s_has(a, x)) { e = x; break; }
            if (Pl_Range_Next_Before(&r, n) != e) bad("next_before", "value", a, 0, n, &r, "");
            e = -1; int c = 0;
            for (x = 0; x <= s_max(a) && n > 0; x++) if (s_has(a, x) && ++c == n) { e = x; break; }
            if (Pl_Range_Ith_Elem(&r, n) != e) bad("ith", "value", a, 0, n, &r, "");
          }
          if (Pl_Range_Nb_Elem(&r) != (int) s_size(a)) bad("nb_elem", "value", a, 0, n, &r, "");
        }
      if (n >= 0)
        {
          prep(a, &r); Pl_Range_Set_Value(&r, n);
          if (s_empty(a)) judge_interval("set", a, 0, n, &r, n, n);
          else if (a->iv && n >= a->lo - 1 && n <= a->hi + 1) judge_interval("set", a, 0, n, &r, n < a->lo ? n : a->lo, n > a->hi ? n : a->hi);
          else
            {
              for (int i = 0; i <= VM; i++) exact[i] = i == n || s_has(a, i);
              judge_sparse("set", a, 0, n, &r, a->extra || n > VM || !in_vec(a));
            }
          prep(a, &r); Pl_Range_Reset_Value(&r, n);
          if (s_empty(a)) { if (!Is_Empty(&r)) bad("reset", "not-empty", a, 0, n, &r, "empty"); }
          else if (a->iv && (n < a->lo || n > a->hi)) judge_interval("reset", a, 0, n, &r, a->lo, a->hi);
          else if (a->iv && n == a->lo) judge_interval("reset", a, 0, n, &r, a->lo + 1, a->hi);
          else if (a->iv && n == a->hi) judge_interval("reset", a, 0, n, &r, a->lo, a->hi - 1);
          else
            {
              for (int i = 0; i <= VM; i++) exact[i] = i != n && s_has(a, i);
              judge_sparse("reset", a, 0, n, &r, a->extra || !in_vec(a));
            }
        }
      /* pointwise with a value */
      if (!in_vec(a)) continue;
      prep(a, &r); Pl_Range_Add_Value(&r, n);
      if (s_empty(a)) { if (!Is_Empty(&r)) bad("addv", "not-empty", a, 0, n, &r, "empty"); }
      else if (a->iv) judge_interval("addv", a, 0, n, &r, a->lo + n, a->hi + n);
      else
        {
          int lost = a->extra; memset(exact, 0, VM + 1);
          for (int i = 0; i < a->n; i++) { int x = a->v[i] + n; if (x > VM) lost = 1; else if (x >= 0) exact[x] = 1; }
          judge_sparse("addv", a, 0, n, &r, lost);
        }
      if (n < 0) continue;
      for (int op = 0; op < 3; op++)
        {
          if (n == 0 && op) continue;
          int lost = a->extra; memset(exact, 0, VM + 1);
          for (int i = 0; i <= VM; i++) if (s_has(a, i))
            {
              int x;
              if (op == 0) x = i * n; else if (op == 1) { if (i % n) continue; x = i / n; } else x = i % n;
              if (x > VM) lost = 1; else exact[x] = 1;
            }
          prep(a, &r);
          if (op == 0) Pl_Range_Mul_Value(&r, n); else if (op == 1) Pl_Range_Div_Value(&r, n); else Pl_Range_Mod_Value(&r, n);
          judge_sparse(op == 0 ? "mulv" : op == 1 ? "divv" : "modv", a, 0, n, &r, lost);
        }
    }
  /* textual form */
  if (!s_empty(a))
    {
      char e[700], *q = e; *q = 0;
      prep(a, &r);
      if (s_min(a) == s_max(a)) sprintf(e, "{%d}", s_min(a));
      else if (a->iv) sprintf(e, "%d..%d", a->lo, a->hi);
      else
        {
          for (int i = 0; i < a->n;)
            {
              int j = i; while (j + 1 < a->n && a->v[j + 1] == a->v[j] + 1) j++;
              q += sprintf(q, j > i ? "%s%d..%d" : "%s%d", q > e ? ":" : "", a->v[i], a->v[j]);
              i = j + 1;
            }
          if (a->extra) strcpy(q, "@");
        }
      if (strcmp(Pl_Range_To_String(&r), e)) bad("to_string", "value", a, 0, 0, &r, e);
    }
}

int main(int argc, char **argv)
{
  Pl_Start_Prolog(argc, argv);
  int shard = atoi(argv[1]), ns = atoi(argv[2]), vm = atoi(argv[3]), nu = atoi(argv[4]);
  Pl_Define_Vector_Size(vm);
  VM = pl_vec_max_integer;
  static int U127[] = { 0, 1, 63, 64, 127, 2, 62, 126, 65, 3 };
  static int U63[] = { 0, 1, 63, 31, 32, 2, 62, 33, 61, 3 };
  for (nU = 0; nU < nu; nU++) { U[nU] = vm < 64 ? U63[nU] : U127[nU]; if (vm > 127 && U[nU] >= 126) U[nU] += vm + 1 - 128; }
  for (int i = 0; i < nU; i++) for (int j = i + 1; j < nU; j++) if (U[j] < U[i]) { int t = U[i]; U[i] = U[j]; U[j] = t; }
  int L[24], nL = 0;
  for (int i = 0; i < nU; i++) L[nL++] = U[i];
  L[nL++] = VM + 1; L[nL++] = VM + 2; L[nL++] = VM + 73; L[nL++] = INTERVAL_MAX_INTEGER;
  TS = calloc((1 << nU) * 2 + nL * nL + 4, sizeof(Set));
  for (int m = 0; m < 1 << nU; m++)
    for (int x = 0; x < 2; x++)
      { Set *s = &TS[nS++]; s->extra = x; for (int i = 0; i < nU; i++) if (m >> i & 1) s->v[s->n++] = U[i]; }
  int nsp = nS;
  for (int i = 0; i < nL; i++) for (int j = i; j < nL; j++) { Set *s = &TS[nS++]; s->iv = 1; s->lo = L[i]; s->hi = L[j]; }
  { Set *s = &TS[nS++]; s->iv = 1; s->lo = 5; s->hi = 4; s = &TS[nS++]; s->iv = 1; s->lo = 0; s->hi = (int) (1U << 31); }
  (void) nsp;
  for (int i = shard; i < nS; i += ns)
    {
      single(&TS[i]);
      for (int j = 0; j < nS; j++) pair(&TS[i], &TS[j]);
    }
  for (int i = 0; i < n_kinds; i++) printf("KIND %s %d\n", kinds[i].key, kinds[i].n);
  printf("DONE sets=%d exec=%lld bad=%lld\n", nS, n_exec, n_bad);
  return 0;
}

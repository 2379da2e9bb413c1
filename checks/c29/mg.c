/* exhaustive checking of mangling.c: every (module, name, arity) over short texts of an alphabet, every surrounding text.
   usage: mg what shard nshards max */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "gp_config.h"
#include "mangling.h"

static long states, trans, bad;
static int shard, nsh, maxl;
static const unsigned char AL[] = { 'a', 'F', 'X', '_', '0', '9', '$', ' ', '\'', '\\', '\n', '/', 0xe9, 1 };
#define NA ((int) (sizeof(AL)))

static void fail(const char *what, const char *m, const char *p, int n, const char *got)
{
  if (bad++ < 20)
    printf("BAD %s: module [%s] name [%s] arity %d: %s\n", what, m, p, n, got);
}

/* the text written for an atom: read back by the rules of Prolog */
static char *rd(char *s, char *out)
{
  if (*s != '\'')
    {
      if (*s < 'a' || *s > 'z')
	return NULL;
      while ((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z') || (*s >= '0' && *s <= '9') || *s == '_')
	*out++ = *s++;
      *out = 0;
      return s;
    }
  s++;
  for (;;)
    {
      if ((unsigned char) *s < 32)
	return NULL;
      if (*s == '\'')
	{
	  if (s[1] != '\'')
	    break;
	  s += 2;
	  *out++ = '\'';
	  continue;
	}
      if (*s == '\\')
	{
	  static const char a[] = "abfnrtv", b[] = "\a\b\f\n\r\t\v";
	  char *q;
	  s++;
	  if (*s == 'x' || (*s >= '0' && *s <= '7'))
	    {
	      int hex = *s == 'x';
	      *out++ = (char) strtol(s + hex, &q, hex ? 16 : 8);
	      if (*q != '\\' || q == s + hex)
		return NULL;
	      s = q + 1;
	    }
	  else if (*s && (q = strchr(a, *s)))
	    {
	      *out++ = b[q - a];
	      s++;
	    }
	  else if (*s && strchr("\\'\"`", *s))
	    *out++ = *s++;
	  else
	    return NULL;
	  continue;
	}
      *out++ = *s++;
    }
  *out = 0;
  return s + 1;
}

static void one(char *m, char *p, int n)
{
  size_t L = strlen(m) + strlen(p);
  char *sym = malloc(2 * L + 40), *dm = malloc(6 * L + 40), *dp = malloc(6 * L + 40), *e, *r, *s;
  char *am = malloc(6 * L + 40), *ap = malloc(6 * L + 40), *line, *exp;
  int ar, aux, q;
  static const char *pre[] = { "", " ", "undefined reference to `", "_", "+X", "a b/2 X9_:" };
  static const char *post[] = { "", "\n", "'\n", ")", ": x", ".o:", "+0x3c)", "@PLT", " X0_z__a1" };

  if (*p == 0 && n < 0)
    return;
  memset(sym, '#', 2 * L + 40);
  e = Mangle(m, p, n, sym);
  states++;
  if (e < sym || e > sym + 2 * L + 39 || *e)
    fail("end of the symbol", m, p, n, sym);
  for (s = sym; s < e; s++)
    if (!((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z') || *s == '_' || (s > sym && *s >= '0' && *s <= '9')))
      {
	fail("character of a symbol", m, p, n, sym);
	break;
      }
  if (*p || n >= 0)
    for (q = 0; q < 2; q++)
      {
	trans++;
	dm[0] = dp[0] = 0;
	ar = aux = -7;
	r = Demangle(sym, n >= 0, q, 0, dm, dp, &ar, &aux);
	if (r != e)
	  {
	    fail("decoded length", m, p, n, sym);
	    continue;
	  }
	if (q)
	  {
	    if (*dm && ((s = rd(dm, am)) == NULL || *s))
	      fail("text of the module", m, p, n, dm);
	    if ((s = rd(dp, ap)) == NULL || *s)
	      fail("text of the name", m, p, n, dp);
	  }
	if (strcmp(*dm ? (q ? am : dm) : "", m) || strcmp(q ? ap : dp, p) || ar != n || aux != -1)
	  fail(q ? "decoded (quoted)" : "decoded", m, p, n, dp);
      }
  if (n >= 0)
    {
      static char z[64];
      size_t i, j;
      line = malloc(2 * L + 200);
      exp = malloc(12 * L + 200);
      for (i = 0; i < sizeof(pre) / sizeof(*pre); i++)
	for (j = 0; j < sizeof(post) / sizeof(*post); j++)
	  {
	    trans++;
	    sprintf(line, "%s%s%s", pre[i], sym, post[j]);
	    strcpy(z, post[j]);
	    if (strcmp(z, " X0_z__a1") == 0)
	      strcpy(z, " <z/1>");
	    sprintf(exp, "%s<%s%s%s/%d>%s", pre[i][0] == '_' ? "" : pre[i], dm, *dm ? ":" : "", dp, n, z);
	    r = Demangle_Line(line, "<%s>", 1, 1, 0);
	    if (pre[i][0] == '+')	/* "+XX.." : X is not the beginning of a symbol, what follows is not separated */
	      continue;
	    if (strcmp(r, exp))
	      fail("line decoded", line, exp, n, r);
	  }
      /* the decoded text encodes to the symbol, in any surrounding */
      sprintf(exp, "%s%s%s/%d", dm, *dm ? ":" : "", dp, n);
      for (j = 0; j < 4; j++)
	{
	  static const char *po[] = { "", "\n", " + 3\n", ")\n" };
	  char *x = malloc(strlen(exp) + 20), *y = malloc(strlen(sym) + 20);
	  sprintf(x, "%s%s%s", j > 1 ? "(" : "", exp, po[j]);
	  sprintf(y, "%s%s%s", j > 1 ? "(" : "", sym, po[j]);
	  trans++;
	  r = Mangle_Line(x, NULL, 1);
	  if (strcmp(r, y))
	    fail("line encoded", x, y, n, r);
	  /* relaxed: names alone */
	  if (*p == 0)
	    { free(x); free(y); continue; }
	  sprintf(x, "%s%s", dp, j == 0 ? "" : j == 1 ? "\n" : j == 2 ? "," : ";");
	  Mangle(NULL, p, -1, y);
	  strcat(y, j == 0 ? "" : j == 1 ? "\n" : j == 2 ? "," : ";");
	  r = Mangle_Line(x, NULL, 0);
	  if (strcmp(r, y))
	    fail("name encoded (relaxed)", x, y, n, r);
	  r = Demangle_Line(y, NULL, 0, 1, 0);
	  if (strcmp(r, x))
	    fail("name decoded (relaxed)", y, x, n, r);
	  r = Mangle_Line(x, NULL, 1);	/* strict: not an indicator, unchanged */
	  if (strcmp(r, x))
	    fail("name encoded (strict)", x, x, n, r);
	  free(x);
	  free(y);
	}
      free(line);
      free(exp);
    }
  free(sym); free(dm); free(dp); free(am); free(ap);
}

static void aux(char *p, int n, int k)
{
  char nm[64], sym[200], dm[200], dp[400], *r;
  int ar, ax, d;
  sprintf(nm, "$%s/%d_$aux%d", p, n, k);
  Mangle(NULL, nm, 3, sym);
  for (d = 1; d < 3; d++)
    {
      trans++;
      r = Demangle(sym, 1, 0, d, dm, dp, &ar, &ax);
      if (r == NULL || *r || strcmp(dp, p) || ar != n || ax != k)
	fail("auxiliary predicate", "", nm, n, dp);
    }
}

static long cnt;
static void texts(void (*f)(char *), char *b, int l, int max)
{
  int i;
  b[l] = 0;
  f(b);
  if (l < max)
    for (i = 0; i < NA; i++)
      {
	if (l == 0)
	  b[0] = AL[i];
	b[l] = AL[i];
	texts(f, b, l + 1, max);
      }
}

static char cur[8];
static int ars[] = { 0, 1, 7, 10, 255, 1024, -1 };
static void w_mod(char *m) { one(m, cur, 2); }
static void w_name(char *p)
{
  unsigned i;
  char b[8];
  if (cnt++ % nsh != shard)
    return;
  for (i = 0; i < sizeof(ars) / sizeof(*ars); i++)
    one("", p, ars[i]);
  one("m", p, 1);
  one("a b", p, 1);
  if (*p && !strchr(p, '/'))
    { aux(p, 0, 1); aux(p, 3, 12); aux(p, 10, 7); }
  if (strlen(p) <= (size_t) maxl - 2)
    {
      strcpy(cur, p);
      texts(w_mod, b, 0, 2);
    }
}

/* any line at all: no access outside the buffers, decoding leaves what is not a symbol */
static const char LA[] = "X05_aA2/'\\x\n :9";
static void w_line(char *l)
{
  char *x = strdup(l), *r;
  int a, b;
  trans += 8;
  for (a = 0; a < 2; a++)
    for (b = 0; b < 2; b++)
      {
	r = Demangle_Line(x, NULL, a, b, 2);
	if (a && strchr(x, '_') == NULL && strcmp(r, x))
	  fail("line without a symbol", x, "", a, r);
	r = Mangle_Line(x, b ? "%s" : NULL, a);
	if (a && strchr(x, '/') == NULL && strcmp(r, x))
	  fail("line without an indicator", x, "", a, r);
      }
  free(x);
}

static void lines(char *b, int l, int max)
{
  const char *p;
  b[l] = 0;
  if (cnt++ % nsh == shard)
    {
      states++;
      w_line(b);
    }
  if (l < max)
    for (p = LA; *p; p++)
      {
	b[l] = *p;
	lines(b, l + 1, max);
      }
}

int main(int argc, char **argv)
{
  char b[16];
  int i;
  shard = atoi(argv[2]);
  nsh = atoi(argv[3]);
  maxl = atoi(argv[4]);
  if (strcmp(argv[1], "names") == 0)
    texts(w_name, b, 0, maxl);
  else if (strcmp(argv[1], "lines") == 0)
    lines(b, 0, maxl);
  else				/* lengths */
    for (i = shard + 1; i <= 65535; i += i < maxl ? nsh : i < 5000 ? 37 * nsh + 1 : 15001)
      {
	char *p = malloc(i + 1);
	int k;
	for (k = 0; k < 3; k++)
	  {
	    memset(p, "aX\xe9"[k], i);
	    p[i] = 0;
	    one("", p, 1);
	    one(i < 3000 ? p : "m", p, 3);
	  }
	free(p);
      }
  printf("DONE states=%ld trans=%ld bad=%ld\n", states, trans, bad);
  return 0;
}

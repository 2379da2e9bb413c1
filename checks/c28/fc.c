/* foreign functions exercising every argument type and mode, the term API and the query API */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gprolog.h>

static char lg[1 << 16], *lp = lg;
static char val[1 << 16];
static int has_val;

PlBool fc_reset(char *v) { lp = lg; *lp = 0; has_val = strcmp(v, "#") != 0; strcpy(val, v); return PL_TRUE; }
PlBool fc_log(char **s) { *s = lg; return PL_TRUE; }
#define LOG(...) (lp += snprintf(lp, lg + sizeof(lg) - lp, __VA_ARGS__))

static void say_l(PlLong l) { LOG("%ld", (long) l); }
static void say_d(double d) { LOG("%.17g", d); }
static void say_s(char *s) { LOG("%s", s); }
static void say_a(PlLong a) { LOG("%s", Pl_Is_Valid_Atom(a) ? Pl_Atom_Name(a) : "?"); }
static PlLong get_l(void) { return atol(val); }
static double get_d(void) { return strtod(val, NULL); }
static char *get_s(void) { return val; }
static PlLong get_a(void) { return Pl_Create_Allocate_Atom(val); }

#define T(N, CT, S, G, F) \
PlBool i_##N(CT x) { say_##S(x); return PL_TRUE; } \
PlBool o_##N(CT *x) { LOG("called"); *x = get_##G(); return PL_TRUE; } \
PlBool of_##N(CT *x) { *x = get_##G(); return PL_FALSE; } \
PlBool io_##N(PlFIOArg *a) { if (a->is_var) LOG("V%d", a->unify); else { LOG("N%d", a->unify); say_##S(a->value.F); } \
  if (has_val) { a->unify = PL_TRUE; a->value.F = get_##G(); } return PL_TRUE; } \
PlBool ii_##N(CT x, CT y) { say_##S(x); LOG("/"); say_##S(y); return PL_TRUE; } \
PlBool oo_##N(CT *x, CT *y) { LOG("called"); *x = get_##G(); *y = get_##G(); return PL_TRUE; } \
PlBool ioio_##N(PlFIOArg *a, PlFIOArg *b) { if (a->is_var) LOG("V"); else say_##S(a->value.F); LOG("/"); if (b->is_var) LOG("V"); else say_##S(b->value.F); \
  if (has_val) { if (a->is_var) a->value.F = get_##G(); b->unify = PL_TRUE; b->value.F = get_##G(); } return PL_TRUE; }

T(integer, PlLong, l, l, l) T(positive, PlLong, l, l, l) T(float, double, d, d, d) T(number, double, d, d, d)
T(atom, PlLong, a, a, l) T(boolean, PlLong, l, l, l) T(char, PlLong, l, l, l) T(code, PlLong, l, l, l) T(byte, PlLong, l, l, l)
T(in_char, PlLong, l, l, l) T(in_code, PlLong, l, l, l) T(in_byte, PlLong, l, l, l)
T(string, char *, s, s, s) T(chars, char *, s, s, s) T(codes, char *, s, s, s)

/* many arguments of several kinds at once: argument passing */
PlBool m_many(PlLong a, double b, char *c, PlLong d, double e, PlLong f, double g, char *h, PlLong i, double j)
{
  LOG("%ld %g %s %ld %g %ld %g %s %ld %g", (long) a, b, c, (long) d, e, (long) f, g, h, (long) i, j);
  return PL_TRUE;
}
PlBool m_mix(PlLong a, double *b, PlFIOArg *c, PlTerm d, double e, char **f, PlFIOArg *g, double *h, PlLong *i, PlFIOArg *j)
{
  LOG("%ld %g", (long) a, e);
  *b = a * 2 + e; *f = "txt"; *h = e + 1; *i = a + 1;
  if (c->is_var) c->value.l = a + 2;
  if (g->is_var) g->value.d = e * 3;
  if (j->is_var) j->value.s = "abc";
  return Pl_Un_Integer_Check(a + 7, d);
}

/* direct calls of the term API: reading */
PlBool rd(PlLong k, PlTerm t)
{
  static char b[1 << 16];
  int f, a, n, i;
  PlTerm *p, e[300];
  switch (k)
    {
    case 0: say_l(Pl_Rd_Integer_Check(t)); break;
    case 1: say_l(Pl_Rd_Positive_Check(t)); break;
    case 2: say_d(Pl_Rd_Float_Check(t)); break;
    case 3: say_d(Pl_Rd_Number_Check(t)); break;
    case 4: say_a(Pl_Rd_Atom_Check(t)); break;
    case 5: say_l(Pl_Rd_Boolean_Check(t)); break;
    case 6: say_l(Pl_Rd_Char_Check(t)); break;
    case 7: say_l(Pl_Rd_Code_Check(t)); break;
    case 8: say_l(Pl_Rd_Byte_Check(t)); break;
    case 9: say_l(Pl_Rd_In_Char_Check(t)); break;
    case 10: say_l(Pl_Rd_In_Code_Check(t)); break;
    case 11: say_l(Pl_Rd_In_Byte_Check(t)); break;
    case 12: say_s(Pl_Rd_String_Check(t)); break;
    case 13: say_s(Pl_Rd_Chars_Check(t)); break;
    case 14: say_s(Pl_Rd_Codes_Check(t)); break;
    case 15: say_l(Pl_Rd_C_Int_Check(t)); break;
    case 16: say_l(Pl_Rd_C_Int_Positive_Check(t)); break;
    case 17: say_s(Pl_Rd_Chars_Or_Codes_Check(t)); break;
    case 18: say_s(Pl_Rd_Atom_Or_Chars_Or_Codes_Check(t)); break;
    case 19: n = Pl_Rd_Chars_Str_Check(t, b); LOG("%d:%s", n, b); break;
    case 20: n = Pl_Rd_Codes_Str_Check(t, b); LOG("%d:%s", n, b); break;
    case 21: n = Pl_Rd_Chars_Or_Codes_Str_Check(t, b); LOG("%d:%s", n, b); break;
    case 22: p = Pl_Rd_List_Check(t); if (p) LOG("%s|%s", Pl_Write_Canonical_To_String(p[0]), Pl_Write_Canonical_To_String(p[1])); else LOG("nil"); break;
    case 23: n = Pl_Rd_Proper_List_Check(t, e); for (LOG("%d", n), i = 0; i < n; i++) LOG(",%s", Pl_Write_Canonical_To_String(e[i])); break;
    case 24: p = Pl_Rd_Compound_Check(t, &f, &a); for (LOG("%s/%d", Pl_Atom_Name(f), a), i = 0; i < a; i++) LOG(",%s", Pl_Write_Canonical_To_String(p[i])); break;
    case 25: p = Pl_Rd_Callable_Check(t, &f, &a); for (LOG("%s/%d", Pl_Atom_Name(f), a), i = 0; i < a; i++) LOG(",%s", Pl_Write_Canonical_To_String(p[i])); break;
    case 26: LOG("%d%d%d%d%d%d%d%d%d%d%d%d", Pl_Builtin_Var(t), Pl_Builtin_Non_Var(t), Pl_Builtin_Atom(t), Pl_Builtin_Integer(t), Pl_Builtin_Float(t), Pl_Builtin_Number(t), Pl_Builtin_Atomic(t), Pl_Builtin_Compound(t), Pl_Builtin_Callable(t), Pl_Builtin_List(t), Pl_Builtin_Partial_List(t), Pl_Builtin_List_Or_Partial_List(t)); break;
    case 27: LOG("%d", Pl_Type_Of_Term(t) == PL_PLV ? 0 : Pl_Type_Of_Term(t) == PL_INT ? 1 : Pl_Type_Of_Term(t) == PL_FLT ? 2 : Pl_Type_Of_Term(t) == PL_ATM ? 3 : Pl_Type_Of_Term(t) == PL_LST ? 4 : Pl_Type_Of_Term(t) == PL_STC ? 5 : 6); break;
    case 28: LOG("%ld", (long) Pl_List_Length(t)); break;
    }
  return PL_TRUE;
}

/* a term taken apart and built again with the Pl_Rd_/Pl_Mk_ functions (k: which builders) */
static PlTerm rebuild(PlTerm t, int k)
{
  int f, a, i, n;
  PlTerm *p, e[64], l[2];
  switch (Pl_Type_Of_Term(t))
    {
    case PL_INT: return k == 2 ? Pl_Mk_Number((double) Pl_Rd_Integer(t)) : Pl_Mk_Integer(Pl_Rd_Integer(t));
    case PL_FLT: return Pl_Mk_Float(Pl_Rd_Float(t));
    case PL_ATM: return k == 2 ? Pl_Mk_String(Pl_Rd_String(t)) : Pl_Mk_Atom(Pl_Rd_Atom(t));
    case PL_LST:
      if (k == 1 && Pl_Builtin_List(t))
	{
	  n = Pl_Rd_Proper_List(t, e);
	  for (i = 0; i < n; i++)
	    e[i] = rebuild(e[i], k);
	  return Pl_Mk_Proper_List(n, e);
	}
      if (k != 2)
	{
	  p = Pl_Rd_List(t);
	  l[0] = rebuild(p[0], k);
	  l[1] = rebuild(p[1], k);
	  return Pl_Mk_List(l);
	}
    case PL_STC:
      p = k ? Pl_Rd_Callable(t, &f, &a) : Pl_Rd_Compound(t, &f, &a);
      for (i = 0; i < a; i++)
	e[i] = rebuild(p[i], k);
      return k == 1 ? Pl_Mk_Callable(f, a, e) : Pl_Mk_Compound(f, a, e);
    }
  return t;
}
PlBool rb_out(PlLong k, PlTerm t, PlTerm *r) { *r = rebuild(t, k); return PL_TRUE; }
PlBool rb_un(PlLong k, PlTerm t, PlTerm r) { return Pl_Unif(rebuild(t, k), r); }
/* f(t,t), [t|t], [t,t] made from the argument as it was received */
PlBool wrap(PlLong k, PlTerm t, PlTerm *r)
{
  PlTerm e[2];
  e[0] = e[1] = t;
  *r = k == 0 ? Pl_Mk_Compound(Pl_Create_Atom("f"), 2, e) : k == 1 ? Pl_Mk_List(e) : Pl_Mk_Proper_List(2, e);
  return PL_TRUE;
}
PlBool unwrap(PlLong k, PlTerm t, PlTerm r)
{
  PlTerm e[2];
  e[0] = e[1] = t;
  return k == 0 ? Pl_Un_Compound_Check(Pl_Create_Atom("f"), 2, e, r) : k == 1 ? Pl_Un_List_Check(e, r) : k == 2 ? Pl_Un_Proper_List_Check(2, e, r) : Pl_Un_Callable_Check(Pl_Create_Atom("f"), 2, e, r);
}
PlBool cp(PlTerm t, PlTerm *r)
{
  static PlTerm b[1000];
  Pl_Copy_Term(b, &t);
  LOG("%d", Pl_Term_Size(t));
  *r = rebuild(b[0], 0);
  return PL_TRUE;
}
PlBool un(PlLong k, char *v, PlTerm t)
{
  switch (k)
    {
    case 0: return Pl_Un_Integer_Check(atol(v), t);
    case 1: return Pl_Un_Positive_Check(atol(v), t);
    case 2: return Pl_Un_Float_Check(strtod(v, 0), t);
    case 3: return Pl_Un_Number_Check(strtod(v, 0), t);
    case 4: return Pl_Un_Atom_Check(Pl_Create_Allocate_Atom(v), t);
    case 5: return Pl_Un_Boolean_Check(atol(v), t);
    case 6: return Pl_Un_Char_Check(atol(v), t);
    case 7: return Pl_Un_Code_Check(atol(v), t);
    case 8: return Pl_Un_Byte_Check(atol(v), t);
    case 9: return Pl_Un_In_Char_Check(atol(v), t);
    case 10: return Pl_Un_In_Code_Check(atol(v), t);
    case 11: return Pl_Un_In_Byte_Check(atol(v), t);
    case 12: return Pl_Un_String_Check(v, t);
    case 13: return Pl_Un_Chars_Check(v, t);
    case 14: return Pl_Un_Codes_Check(v, t);
    }
  return PL_FALSE;
}
PlBool mk(PlLong k, char *v, PlTerm *t)
{
  const char *s[3];
  switch (k)
    {
    case 0: *t = Pl_Mk_Integer(atol(v)); break;
    case 1: *t = Pl_Mk_Positive(atol(v)); break;
    case 2: *t = Pl_Mk_Float(strtod(v, 0)); break;
    case 3: *t = Pl_Mk_Number(strtod(v, 0)); break;
    case 4: *t = Pl_Mk_Atom(Pl_Create_Allocate_Atom(v)); break;
    case 5: *t = Pl_Mk_Boolean(atol(v)); break;
    case 6: *t = Pl_Mk_Char(atol(v)); break;
    case 7: *t = Pl_Mk_Code(atol(v)); break;
    case 8: *t = Pl_Mk_Byte(atol(v)); break;
    case 9: *t = Pl_Mk_In_Char(atol(v)); break;
    case 10: *t = Pl_Mk_In_Code(atol(v)); break;
    case 11: *t = Pl_Mk_In_Byte(atol(v)); break;
    case 12: *t = Pl_Mk_String(v); break;
    case 13: *t = Pl_Mk_Chars(v); break;
    case 14: *t = Pl_Mk_Codes(v); break;
    case 15: s[0] = s[2] = v; s[1] = "zz"; *t = Pl_Mk_Proper_Atom_List(3, s); break;
    case 16: *t = Pl_Read_From_String(v); break;
    }
  return PL_TRUE;
}

/* non deterministic functions: k solutions, choice buffer of n words; d: how the end is met
   (0: discovered by failing, 1: with the last solution) */
#define ND(N) \
PlBool nd##N(PlLong k, PlLong d, PlLong *x) \
{ \
  PlLong *b = Pl_Get_Choice_Buffer(PlLong *); \
  int c = Pl_Get_Choice_Counter(), i; \
  if (c == 0) \
    for (i = 0; i < N; i++) \
      b[i] = 100 * i; \
  for (i = 0; i < N; i++) \
    if (b[i] != 100 * i + c) \
      { LOG("buffer!"); Pl_No_More_Choice(); return PL_FALSE; } \
  for (i = 0; i < N; i++) \
    b[i]++; \
  LOG("<%d>", c); \
  if (c >= k || (d && c == k - 1)) \
    Pl_No_More_Choice(); \
  if (c >= k) \
    return PL_FALSE; \
  *x = c + 1; \
  return PL_TRUE; \
}
ND(1) ND(2) ND(3) ND(7)
/* the same with an input/output argument, a term and a double */
PlBool ndm(PlLong k, PlFIOArg *x, double *f, PlTerm t)
{
  PlLong *b = Pl_Get_Choice_Buffer(PlLong *);
  int c = Pl_Get_Choice_Counter();
  if (c == 0) b[0] = k;
  b[0]--;
  LOG("<%d%s>", c, x->is_var ? "V" : "N");
  if (b[0] <= 0) Pl_No_More_Choice();
  if (k <= 0) return PL_FALSE;
  if (x->is_var) x->value.l = c + 1;
  *f = c + 0.5;
  return Pl_Un_Integer(c * 10, t);
}

/* a script of query operations:
   bR / bN   Pl_Query_Begin (recoverable or not)
   cGV       Pl_Query_Call of goal gG on variable V        sGVR/N  Pl_Query_Start
   n         Pl_Query_Next_Solution
   eR eC eK  Pl_Query_End
   aVn       unify variable V with the number n
   m         make a term (heap use)                         ? values of the variables */
static int run(char *s, PlTerm *v)
{
  int r = -1, ok = PL_TRUE;
  char g[8], *lp0 = NULL;
  PlTerm a[4];
  for (; *s; s++)
    {
      switch (*s)
	{
	case ' ': continue;
	case 'q': lp0 = lp; continue;
	case '-': ok = PL_FALSE; continue;	/* the function returns PL_FALSE */
	case 'b': Pl_Query_Begin(*++s == 'R'); continue;
	case 'c': case 's':
	  {
	    char k = *s, p = *++s;
	    sprintf(g, "g%c", p);
	    a[0] = v[*++s - '0'];
	    if (k == 's')
	      r = Pl_Query_Start(Pl_Create_Allocate_Atom(g), 1, a, *++s == 'R');
	    else
	      r = Pl_Query_Call(Pl_Create_Allocate_Atom(g), 1, a);
	    break;
	  }
	case 'k':		/* the conjunction (gP(V),gQ(V)) */
	  {
	    PlTerm x = v[s[3] - '0'];
	    sprintf(g, "g%c", s[1]); a[0] = Pl_Mk_Compound(Pl_Create_Allocate_Atom(g), 1, &x);
	    sprintf(g, "g%c", s[2]); a[1] = Pl_Mk_Compound(Pl_Create_Allocate_Atom(g), 1, &x);
	    s += 3;
	    r = Pl_Query_Call(Pl_Create_Atom(","), 2, a);
	    break;
	  }
	case 'n': r = Pl_Query_Next_Solution(); break;
	case 'e': s++; Pl_Query_End(*s == 'R' ? PL_RECOVER : *s == 'C' ? PL_CUT : PL_KEEP_FOR_PROLOG); r = -1; break;
	case 'a': LOG("%d", Pl_Unif(v[s[1] - '0'], Pl_Mk_Integer(s[2] - '0'))); s += 2; continue;
	case 'm': a[0] = Pl_Mk_Codes("some heap space that must not disturb"); continue;
	}
      LOG("%c", r == PL_FAILURE ? 'F' : r == PL_SUCCESS ? 'S' : r == PL_EXCEPTION ? 'X' : '.');
      if (r == PL_EXCEPTION)
	LOG("%s", Pl_Write_Canonical_To_String(Pl_Get_Exception()));
      {
	int i;
	for (i = 0; i < 2; i++)
	  if (Pl_Builtin_Integer(v[i]))
	    LOG("%ld", (long) Pl_Rd_Integer(v[i]));
	  else
	    LOG("%s", Pl_Builtin_Var(v[i]) ? "_" : "?");
      }
      LOG(" ");
    }
  if (lp0) { lp = lp0; *lp = 0; }
  return ok;
}
PlBool scr(char *s, PlTerm x, PlTerm y)
{
  PlTerm v[2];
  char b[200];
  strcpy(b, s);
  v[0] = x; v[1] = y;
  return run(b, v);
}
/* the same, leaving by a continuation or an exception */
PlBool scc(PlLong how, char *s, PlTerm x, PlTerm y)
{
  PlTerm v[2], a[1], b;
  char t[200];
  strcpy(t, s);
  v[0] = x; v[1] = y;
  run(t, v);
  a[0] = y;
  b = Pl_Mk_Integer(7);
  if (how == 0)
    Pl_Exec_Continuation(Pl_Create_Atom("g1"), 1, a);
  else if (how == 1)
    Pl_Throw(b);
  else if (how == 2)
    {
      a[0] = Pl_Mk_Compound(Pl_Create_Atom("g2"), 1, a);
      Pl_Exec_Continuation(Pl_Create_Atom("call"), 1, a);
    }
  return how == 3;
}

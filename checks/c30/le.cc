// C30: every sequence of keys up to a depth through the real line editor (linedit.c, terminal.c, completion.c),
// its read/write/terminal calls replaced by a scripted keyboard and an emulated terminal, compared after every key
// with an abstract editor. usage: le scenario depth width size wrapmode part nparts
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <deque>
#include <algorithm>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sanitizer/asan_interface.h>
using namespace std;
typedef intptr_t PlLong;
extern "C" {
char *Pl_LE_FGets(char *str, int size, char *prompt, int display_prompt);
int Pl_LE_Get_Current_Position(void);
int Pl_LE_Get_Prompt_Length(void);
void Pl_LE_Get_Current_Word(char *);
bool Pl_LE_Compl_Add_Word(char *word, int word_length);
bool Pl_LE_Compl_Remove_Word(char *word);
extern char __start_ledata[], __stop_ledata[], __start_lebss[], __stop_lebss[];
}
static const char *SEPS = " ,;:-'\"!@$#^&()-+*/\\[]|<=>`~{}";
static bool sep(char c) { return c && strchr(SEPS, c); }

// ---- the terminal
static int W, ROWS = 6000, wrapmode;
static vector<string> scr;
static int cr, cc, maxrow;
static bool pend;
static int beeps;
static string esc;
static void lf() { cr++; cc = 0; pend = false; if (cr >= ROWS) { printf("bad: screen too small\n"); fflush(stdout); _exit(3); } maxrow = max(maxrow, cr); }
static long written;
static void endless();
static void out1(unsigned char c) {
  if (++written > 3000000) endless();
  if (!esc.empty()) {
    esc += c;
    if (esc.size() > 2 && c >= '@') {
      int n = atoi(esc.c_str() + 2); if (!n) n = 1;
      pend = false;
      if (c == 'A') cr = max(0, cr - n);
      else if (c == 'B') cr += n;
      else if (c == 'C') cc = min(W - 1, cc + n);
      else if (c == 'D') cc = max(0, cc - n);
      else if (c == 'K') { for (int i = cc; i < W; i++) scr[cr][i] = ' '; }
      else { printf("bad: escape %s\n", esc.c_str() + 1); _exit(3); }
      esc.clear();
    }
    return;
  }
  switch (c) {
  case 27: esc = "\033"; return;
  case '\a': beeps++; return;
  case '\b': if (pend) { pend = false; cc = max(0, W - 2); } else if (cc > 0) cc--; return;
  case '\n': lf(); return;
  case '\r': cc = 0; pend = false; return;
  }
  if (pend) lf();
  scr[cr][cc] = c;
  if (cc == W - 1) { if (wrapmode) lf(); else pend = true; } else cc++;
}
static void clear_screen() { for (int i = 0; i <= maxrow && i < ROWS; i++) scr[i].assign(W, ' '); cr = cc = maxrow = 0; pend = false; esc.clear(); beeps = 0; }

// ---- keys
enum Op { CH, HOME, END, LEFT, RIGHT, BS, DEL, CUTB, CUTE, PASTE, MARK, COPY, CUT, WB, WF, CAP, LOW, UPP, TAB, ETAB, INS, SWAP, ENTER, PREV, NEXT, PMATCH, NMATCH, FIRST, LAST, HELP, UNK, INTR0, INTR1, CTRLD };
struct Key { string name, bytes; Op op; int arg; };
static vector<Key> K;
static int key(const string &n, const string &b, Op o, int a = 0) { K.push_back({n, b, o, a}); return K.size() - 1; }

// ---- the abstract editor
struct Model {
  string s; int pos = 0, mark = -1;
  deque<string> h; string scratch; int hno = 0;
  string clip; bool ins = true;
  int size; int pl;
  int unk = -1; bool lasteof = false; int tab = 0;
  vector<string> words; // the last completions
  bool ended = false, eof = false, intr = false; string line; int beep = 0;
  bool newline = false; // the line is displayed again lower
  set<string> *dico;
  void begin(int sz, int p) { s = ""; pos = 0; mark = -1; hno = h.size(); size = sz - 1; pl = p; unk = -1; lasteof = false; tab = 0; ended = eof = intr = false; }
  bool put(char c) {
    if ((ins || pos == (int) s.size()) && (int) s.size() >= size) return false;
    if (ins || pos == (int) s.size()) s.insert(s.begin() + pos, c); else s[pos] = c;
    pos++; return true;
  }
  string &slot(int n) { return n == (int) h.size() ? scratch : h[n]; }
  void go(int n) { hno = n; s = slot(n); pos = s.size(); }
  int skip(int p, int lim, bool r, int d) { while (p != lim && sep(p < (int) s.size() ? s[p] : ' ') == r) p += d; return p; }
  void accept() {
    line = s; if (s.find_first_not_of(' ') != string::npos && (h.empty() || h.back() != s)) { h.push_back(s); if (h.size() > 63) h.pop_front(); }
    if ((int) line.size() < size) line += '\n';
    ended = true;
  }
  void key(const Key &k) {
    beep = 0; newline = false;
    if (unk >= 0) { int u = unk; unk = -1; if (k.op == UNK && k.arg == u) { newline = true; tab = 0; return; } }
    if (k.op == INTR0) { newline = true; return; }
    if (k.op == INTR1) { ended = intr = true; return; }
    if (k.op == CTRLD) {
      if (s.empty()) { if (lasteof) beep = 1; else { ended = eof = true; } return; }
      lasteof = true;
    } else lasteof = false;
    if (k.op != TAB) tab = 0;
    int n = s.size(), p, q;
    switch (k.op) {
    case CH: if (!put(k.arg)) beep = 1; break;
    case HOME: pos = 0; break;
    case END: pos = n; break;
    case LEFT: if (pos) pos--; else beep = 1; break;
    case RIGHT: if (pos < n) pos++; else beep = 1; break;
    case BS: if (pos) s.erase(--pos, 1); else beep = 1; break;
    case CTRLD: case DEL: if (pos < n) s.erase(pos, 1); else beep = 1; break;
    case CUTB: clip = s.substr(0, pos); s.erase(0, pos); pos = 0; break;
    case CUTE: clip = s.substr(pos); s.erase(pos); break;
    case PASTE: for (char c : clip) if (!put(c)) { beep = 1; break; } break;
    case MARK: mark = pos; break;
    case COPY: case CUT:
      if (mark < 0) { beep = 1; break; }
      p = min(min(mark, n), pos); q = max(min(mark, n), pos);
      clip = s.substr(p, q - p);
      if (k.op == CUT) { s.erase(p, q - p); pos = p; }
      break;
    case WB: p = pos ? pos - 1 : 0; p = skip(p, 0, true, -1); p = skip(p, 0, false, -1); pos = skip(p, pos, true, 1); break;
    case WF: p = skip(pos, n, false, 1); pos = skip(p, n, true, 1); break;
    case CAP: p = skip(pos, n, true, 1); if (p < n && s[p] >= 'a' && s[p] <= 'z') s[p] -= 32; pos = skip(p, n, false, 1); break;
    case LOW: case UPP:
      p = skip(pos, n, true, 1); q = skip(p, n, false, 1);
      for (int i = p; i < q; i++) s[i] = k.op == LOW ? tolower((unsigned char) s[i]) : toupper((unsigned char) s[i]);
      pos = q; break;
    case ETAB: for (int i = 8 - (pos + pl) % 8; i; i--) if (!put(' ')) { beep = 1; break; } break;
    case INS: ins = !ins; break;
    case SWAP: if (pos == 0 || pos == n) beep = 1; else { swap(s[pos], s[pos - 1]); pos++; } break;
    case ENTER: accept(); break;
    case PREV: if (h.empty() || hno == 0) beep = 1; else { slot(hno) = s; go(hno - 1); } break;
    case NEXT: if (h.empty() || hno == (int) h.size()) beep = 1; else { slot(hno) = s; go(hno + 1); } break;
    case FIRST: if (h.empty() || hno == 0) beep = 1; else { slot(hno) = s; go(0); } break;
    case LAST: if (h.empty() || hno == (int) h.size()) beep = 1; else { slot(hno) = s; go(h.size()); } break;
    case PMATCH: case NMATCH: {
      if (h.empty() || pos == 0) { beep = 1; break; }
      slot(hno) = s;
      int d = k.op == PMATCH ? -1 : 1, x = hno + d, P = pos;
      while (x >= 0 && x <= (int) h.size() && slot(x).compare(0, P, s, 0, P) != 0) x += d;
      if (x < 0 || x > (int) h.size()) { beep = 1; break; }
      go(x); pos = P; break; }
    case HELP: newline = true; break;
    case UNK: beep = 1; unk = k.arg; break;
    case TAB: {
      if (tab) { tab++; newline = true; break; }
      p = pos ? pos - 1 : 0; p = skip(p, 0, false, -1); p = skip(p, pos, true, 1);
      string pre = s.substr(p, pos - p);
      words.clear();
      for (auto &w : *dico) if (w.compare(0, pre.size(), pre) == 0) words.push_back(w);
      if (words.empty()) { beep = 1; break; }
      string c = words[0];
      for (auto &w : words) { size_t i = 0; while (i < c.size() && i < w.size() && c[i] == w[i]) i++; c.resize(i); }
      bool full = false;
      for (size_t i = pre.size(); i < c.size(); i++) if (!put(c[i])) { full = true; break; }
      if (full) { beep = 1; break; }
      if (words.size() > 1) { tab = 1; beep = 1; }
      break; }
    default: break;
    }
  }
  // index of the bracket matching the one before pos, -1 if none, -2 if not judged
  int bracket() {
    if (pos == 0) return -1;
    const char *o = "([{", *c = ")]}", *f = strchr(c, s[pos - 1]);
    if (!f) return -1;
    if (s.find_first_of("'\"") != string::npos) return -2;
    int cnt[3] = {0, 0, 0}, n = f - c; cnt[n] = -1;
    for (int p = pos - 2; p >= 0; p--) {
      const char *g;
      if ((g = strchr(c, s[p]))) cnt[g - c]--;
      else if ((g = strchr(o, s[p]))) { if (++cnt[g - o] > 0) return -1; if (!cnt[n]) return p; }
    }
    return -1;
  }
};
static Model M;
static set<string> dico;

// ---- a run
static string prompt;
static char *buf; static int bufsize;
static vector<int> seq; static size_t ki, bi; // next key, byte in it
static string pre_feed; static size_t pf; // buffered (pasted) characters
static int origin; static bool started;
static long states, trans; static int bad;
static int nselect;
static string seqname() { string r; for (size_t i = 0; i < seq.size(); i++) r += (i ? " " : "") + K[seq[i]].name + (i + 1 == ki ? "<--" : ""); return r; }
static void fail(const char *fmt, ...) {
  va_list a; va_start(a, fmt);
  printf("BAD width %d size %d wrap %d keys: %s\n  ", W, bufsize, wrapmode, seqname().c_str()); vprintf(fmt, a); va_end(a);
  printf("\n  model: line [%s] pos %d  ", M.s.c_str(), M.pos);
  printf("screen (cursor %d,%d; line starts in row %d):\n", cr, cc, origin);
  for (int i = max(0, origin - 1); i <= maxrow && i < origin + 6; i++) printf("   |%s|\n", scr[i].c_str());
  fflush(stdout);
  if (++bad >= 10) { printf("DONE states=%ld trans=%ld bad=%d\n", states, trans, bad); fflush(stdout); _exit(1); }
}
static void endless() { written = 0; fail("writes without end"); printf("DONE states=%ld trans=%ld bad=%d\n", states, trans, bad); fflush(stdout); _exit(1); }
static bool check_screen(bool find) {
  int L = prompt.size() + M.pos, cy = L / W, cx = L % W;
  int r = cr, c = cc;
  if (pend) { fail("cursor left beyond the last column"); return false; }
  if (find) origin = r - cy;
  if (r - origin != cy || c != cx) { fail("cursor at row %d column %d, should be row %d column %d", r - origin, c, cy, cx); return false; }
  string t = prompt + M.s;
  for (size_t i = 0; i < (t.size() / W + 2) * W; i++) {
    char e = i < t.size() ? t[i] : ' ', g = scr[origin + i / W][i % W];
    if (e != g) { fail("cell %d shows '%c' instead of '%c'", (int) i, g, e); return false; }
  }
  return true;
}
static void check() { written = 0; // before a key is read: everything typed so far is done
  trans++;
  if (M.unk < 0 && Pl_LE_Get_Current_Position() != M.pos) { fail("position %d, should be %d", Pl_LE_Get_Current_Position(), M.pos); return; }
  if (memcmp(buf, M.s.data(), M.s.size())) { fail("line is [%.*s]", (int) M.s.size(), buf); return; }
  if (beeps != M.beep) { fail("%d beeps, should be %d", beeps, M.beep); return; }
  int o = origin;
  if (!check_screen(!started || M.newline)) return;
  if (M.newline && started && origin <= o) fail("not displayed again");
  if (M.newline && started && M.tab > 1) { // the completions have been listed between o and origin
    string all;
    for (int i = o; i < origin; i++) all += scr[i] + "\n";
    for (auto &w : M.words) if (w.size() < (size_t) W && all.find(w) == string::npos) fail("completion %s not listed", w.c_str());
    for (auto &w : dico) if (find(M.words.begin(), M.words.end(), w) == M.words.end() && w.size() > 3 && all.find(w) != string::npos && M.s.find(w) == string::npos) fail("%s listed", w.c_str());
  }
  started = true;
}
extern "C" {
void __real_free(void *); void *__real_malloc(size_t); void *__real_realloc(void *, size_t);
static const size_t ARENA = 1 << 22;
static char *arena; static size_t atop;
void *__wrap_malloc(size_t n) {
  size_t t = (atop + 15) & ~(size_t) 15;
  if (t + n + 48 > ARENA) { printf("bad: arena\n"); _exit(3); }
  __asan_unpoison_memory_region(arena + t, 16); *(size_t *) (arena + t) = n; __asan_poison_memory_region(arena + t, 16);
  t += 16; atop = t + n + 16;
  __asan_poison_memory_region(arena + t + ((n + 7) & ~(size_t) 7), 16); __asan_unpoison_memory_region(arena + t, n); memset(arena + t, 0x5a, n);
  return arena + t;
}
void __wrap_free(void *p) {
  if (!p) return;
  char *q = (char *) p;
  if (q < arena || q >= arena + ARENA) { __real_free(p); return; }
  __asan_unpoison_memory_region(q - 16, 16); size_t n = *(size_t *) (q - 16); __asan_poison_memory_region(q - 16, 16);
  __asan_poison_memory_region(q, n ? n : 1);
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  char *q = (char *) p;
  __asan_unpoison_memory_region(q - 16, 16); size_t m = *(size_t *) (q - 16); __asan_poison_memory_region(q - 16, 16);
  void *r = __wrap_malloc(n); memcpy(r, p, min(m, n)); __wrap_free(p); return r;
}
char *__wrap_strdup(const char *s) { return strcpy((char *) __wrap_malloc(strlen(s) + 1), s); }
static int reads_at_end;
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (pf < pre_feed.size()) { *(char *) b = pre_feed[pf++]; return 1; }
  if (bi == 0) {
    if (pre_feed.empty() || ki > 0 || started) {}
    if (M.unk < 0 || ki == 0) check(); else if (beeps != M.beep) fail("%d beeps, should be %d", beeps, M.beep);
    beeps = 0;
    if (ki >= seq.size()) { static int q; q = key("(end)", "\003", INTR1); seq.push_back(q); reads_at_end = 1; }
    M.key(K[seq[ki]]); ki++;
  }
  *(char *) b = K[seq[ki - 1]].bytes[bi++];
  if (bi == K[seq[ki - 1]].bytes.size()) bi = 0;
  return 1;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { for (size_t i = 0; i < n; i++) out1(((const unsigned char *) b)[i]); return n; }
int __wrap_ioctl(int fd, unsigned long r, ...) {
  va_list a; va_start(a, r); void *p = va_arg(a, void *); va_end(a);
  if (r == FIONREAD) *(int *) p = pre_feed.size() - pf;
  else if (r == TIOCGWINSZ) { ((winsize *) p)->ws_row = 24; ((winsize *) p)->ws_col = W; }
  else return -1;
  return 0;
}
int __wrap_tcgetattr(int, termios *t) { memset(t, 0, sizeof *t); t->c_cc[VINTR] = 3; return 0; }
int __wrap_tcsetattr(int, int, const termios *) { return 0; }
int __wrap_isatty(int) { return 1; }
int __wrap_fcntl(int, int, ...) { return O_RDWR; }
int __wrap_sigaction(int, const void *, void *) { return 0; }
void (*__wrap_signal(int, void (*h)(int)))(int) { return 0; }
int __wrap_select(int, void *, void *, void *, timeval *) {
  nselect++;
  int m = M.bracket(), L = prompt.size() + m;
  if (m != -2 && (m < 0 || cr - origin != L / W || cc != L % W)) fail("bracket shown at %d,%d, should be %d", cr - origin, cc, m);
  return 0;
}
int __wrap_usleep(unsigned) { return __wrap_select(0, 0, 0, 0, 0); }
PlLong Pl_Emit_Ctrl_C(void) {
  if (strlen(buf) != M.s.size() || M.s != buf) fail("the handler sees [%s]", buf);
  if (M.intr) return 7;
  out1('\n'); return 0;
}
}

static vector<char> sdata, sbss, sar; static size_t satop; static Model smodel;
static __attribute__((no_sanitize("address"))) void cp(char *d, const char *s, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) *(volatile long *) (d + i) = *(const long *) (s + i); for (size_t i = n & ~(size_t) 7; i < n; i++) ((volatile char *) d)[i] = s[i]; }
static size_t asz; // sizes of live blocks are stored in the arena itself
static vector<char> shadow;
static void snap() {
  sdata.resize(__stop_ledata - __start_ledata); sbss.resize(__stop_lebss - __start_lebss); sar.resize(atop);
  cp(sdata.data(), __start_ledata, sdata.size()); cp(sbss.data(), __start_lebss, sbss.size()); cp(sar.data(), arena, atop);
  satop = atop; smodel = M;
}
static char *shadow_of(char *p) { return (char *) (((uintptr_t) p >> 3) + 0x7fff8000); }
static vector<char> ssh;
static void snap_shadow() { ssh.resize((satop + 7) / 8 + 1); cp(ssh.data(), shadow_of(arena), ssh.size()); }
static void restore() {
  cp(__start_ledata, sdata.data(), sdata.size()); cp(__start_lebss, sbss.data(), sbss.size()); cp(arena, sar.data(), satop);
  cp(shadow_of(arena), ssh.data(), ssh.size());
  atop = satop; M = smodel;
}
// one call of the editor on keys seq from ki; returns false when the keys are used up
static bool call() {
  M.begin(bufsize, prompt.size());
  origin = cr; started = false; M.newline = false; M.beep = 0; beeps = 0;
  if (cc) fail("not at the beginning of a line");
  buf = (char *) __wrap_malloc(bufsize);
  char *r = Pl_LE_FGets(buf, bufsize, (char *) prompt.c_str(), 1);
  __asan_unpoison_memory_region(buf, bufsize);
  if (!M.ended) { fail("the editor returned"); return false; }
  if (beeps) fail("beep");
  if (M.intr) { if (r != (char *) -2) fail("interrupt not returned"); return false; }
  if (M.eof) { if (r) fail("end of file not returned"); }
  else if (r != buf || M.line != buf) fail("returned [%s], should be [%s]", r ? buf : "NULL", M.line.c_str());
  else { int L = prompt.size() + M.s.size(); if (cr != origin + L / W + 1 || cc) fail("cursor at row %d column %d after the line", cr - origin, cc); }
  return true;
}
static void run_seq(const vector<int> &v) {
  clear_screen(); seq = v; ki = bi = 0; reads_at_end = 0;
  size_t nk = K.size();
  while (call());
  K.resize(nk);
  if (!reads_at_end && bad == 0) { if (ki < seq.size() && !(M.intr)) fail("keys not read"); }
  states++;
}
static void quiet_run(const vector<int> &v) { int b = bad; run_seq(v); if (bad != b) { printf("DONE states=%ld trans=%ld bad=%d (in the prefix)\n", states, trans, bad); fflush(stdout); _exit(1); } }

static vector<int> text(const string &s) { vector<int> v; for (char c : s) { int f = -1; for (size_t i = 0; i < K.size(); i++) if (K[i].op == CH && K[i].arg == c) f = i; if (f < 0) f = key(string(1, c), string(1, c), CH, c); v.push_back(f); } return v; }
static void add(vector<int> &v, const vector<int> &w) { v.insert(v.end(), w.begin(), w.end()); }

int main(int argc, char **argv) {
  string sc = argv[1]; int depth = atoi(argv[2]); W = atoi(argv[3]); bufsize = atoi(argv[4]); wrapmode = atoi(argv[5]); int part = atoi(argv[6]), np = atoi(argv[7]);
  setenv("LINEDIT", "ansi=y", 1);
  signal(SIGALRM, SIG_DFL);
  scr.assign(ROWS, string(W, ' '));
  arena = (char *) aligned_alloc(4096, ARENA); __asan_poison_memory_region(arena, ARENA);
  M.dico = &dico;
  int a = key("a", "a", CH, 'a'), b = key("B", "B", CH, 'B'), sp = key("spc", " ", CH, ' '), op = key("(", "(", CH, '('), cl = key(")", ")", CH, ')');
  int home = key("^A", "\1", HOME), end = key("^E", "\5", END), left = key("^B", "\2", LEFT), right = key("^F", "\6", RIGHT), bs = key("^H", "\b", BS), del = key("Del", "\033[3~", DEL);
  int cd = key("^D", "\4", CTRLD), cu = key("^U", "\x15", CUTB), ck = key("^K", "\x0b", CUTE), cy = key("^Y", "\x19", PASTE), mk = key("^@", string(1, '\0'), MARK), cw = key("^W", "\x17", CUT), ew = key("ESC-w", "\033w", COPY);
  int eb = key("ESC-b", "\033b", WB), ef = key("ESC-f", "\033f", WF), ec = key("ESC-c", "\033c", CAP), el = key("ESC-l", "\033l", LOW), eu = key("ESC-u", "\033u", UPP), et = key("ESC-TAB", "\033\t", ETAB), cv = key("^V", "\x16", INS), ct = key("^T", "\x14", SWAP);
  int en = key("Enter", "\r", ENTER), pv = key("^P", "\x10", PREV), nx = key("^N", "\x0e", NEXT), pm = key("ESC-p", "\033p", PMATCH), nm = key("ESC-n", "\033n", NMATCH), fi = key("ESC-<", "\033<", FIRST), la = key("ESC->", "\033>", LAST), tab = key("TAB", "\t", TAB);
  int he = key("ESC-?", "\033?", HELP), uk = key("^G", "\7", UNK, 7), u2 = key("^Q", "\x11", UNK, 17), it = key("^C", "\003", INTR0);
  vector<int> alpha; vector<vector<int>> prefixes;
  auto pre = [&](initializer_list<vector<int>> l) { vector<int> v; for (auto &x : l) add(v, x); prefixes.push_back(v); };
  prompt = "";
  if (sc == "edit") {
    prompt = W < 10 ? "" : "?- ";
    alpha = {a, b, sp, op, cl, home, end, left, right, bs, del, cd, cu, ck, cy, mk, cw, ew, eb, ef, ec, el, eu, et, cv, ct};
    pre({}); pre({text("ab cd")}); pre({text("ab  Cd e"), {left, left, left}}); pre({text(" (a"), {home}});
    pre({text("x"), {cu}, text("foo(a) b"), {home, mk, end}}); pre({text("abcd"), {home, cv}});
  } else if (sc == "small") {
    alpha = {a, sp, home, left, right, bs, cd, cu, cy, mk, cw, eb, et, cv, ct, en};
    pre({}); pre({text("abcdef")}); pre({text("abc"), {home}});
  } else if (sc == "hist") {
    alpha = {a, b, left, bs, cu, en, pv, nx, pm, nm, fi, la, home};
    pre({}); pre({text("ab"), {en}}); pre({text("ab"), {en}, text("aBcd"), {en}, text("ba"), {en}, text("ab"), {en}}); pre({text("a b c d e f"), {en}, text("a"), {en}, text("  "), {en}, text("a b"), {en}});
  } else if (sc == "ring") { // the history wraps
    alpha = {a, bs, en, pv, nx, pm, nm, fi, la};
    for (int n = 60; n <= 68; n++) { vector<int> v; for (int i = 0; i < n; i++) { add(v, text("l" + to_string(i))); v.push_back(en); } prefixes.push_back(v); add(v, text("l" + to_string(n - 1))); v.push_back(en); prefixes.push_back(v); }
    for (int n = 126; n <= 130; n++) { vector<int> v; for (int i = 0; i < n; i++) { add(v, text(to_string(i))); v.push_back(en); } prefixes.push_back(v); }
  } else if (sc == "compl") {
    prompt = "> ";
    for (const char *w : {"aB", "aBa", "aBB", "Ba", "foo_bar", "foo_baz_a", "zz"}) { dico.insert(w); Pl_LE_Compl_Add_Word(strdup(w), strlen(w)); }
    alpha = {a, b, sp, op, tab, home, left, right, bs, en, cv, text("f")[0], text("z")[0]};
    pre({}); pre({text("  f"), {home}}); pre({text("a fB"), {left}}); pre({text("( f"), {left}});
  } else if (sc == "many") {
    prompt = "> ";
    for (int i = 0; i < 60; i++) { string w = "w" + string(i % 7, 'x') + to_string(i); dico.insert(w); Pl_LE_Compl_Add_Word(strdup(w.c_str()), w.size()); }
    key("y", "y", CH, 'y');
    alpha = {tab, text("w")[0], text("x")[0], text("1")[0], bs, sp};
    pre({});
  } else if (sc == "misc") {
    prompt = "?- ";
    alpha = {a, sp, he, uk, u2, it, tab, left, en, bs, cd, et};
    pre({}); pre({text("ab(c")});
  } else if (sc == "forms") { // other names of the keys
    struct F { const char *b; Op o; } f[] = {{"\033[A", PREV}, {"\033[B", NEXT}, {"\033[C", RIGHT}, {"\033[D", LEFT}, {"\033OA", PREV}, {"\033OB", NEXT}, {"\033OC", RIGHT}, {"\033OD", LEFT}, {"\033[H", HOME}, {"\033[F", END}, {"\033OH", HOME}, {"\033OF", END}, {"\033[1~", HOME}, {"\033[4~", END}, {"\033[2~", INS}, {"\033[3~", DEL}, {"\033[5~", FIRST}, {"\033[6~", LAST}, {"\033[1;5D", WB}, {"\033[1;5C", WF}, {"\033[1;5H", CUTB}, {"\033[1;5F", CUTE}, {"\177", BS}, {"\n", ENTER}, {"\033B", WB}, {"\033F", WF}, {"\033C", CAP}, {"\033L", LOW}, {"\033U", UPP}, {"\033P", PMATCH}, {"\033N", NMATCH}, {"\033W", COPY}};
    int i = 0;
    for (auto &x : f) alpha.push_back(key("form" + to_string(i++), x.b, x.o));
    alpha.push_back(a); alpha.push_back(mk); alpha.push_back(cy);
    pre({text("l one"), {en}, text("two l"), {en}}); pre({text("l one"), {en}, text("two l"), {en}, text("ab cd"), {left, left}});
  } else if (sc == "chars") {
    for (int c = 32; c < 127; c++) { alpha.push_back(text(string(1, c))[0]); }
    for (int x : {eb, ef, ec, el, eu, left, bs}) alpha.push_back(x);
    pre({text("a")}); pre({text("([a]{x'(}")});
  } else if (sc == "brackets") {
    alpha = text("()[]{}a'");
    pre({});
  } else if (sc == "long") { // lines about as long as the buffers
    vector<int> big;
    for (int n : {4094, 4095, 4096, 4097, 9000}) { string s(n, 'x'); add(big, {}); prefixes.push_back(text(s)); auto v = text(s); v.push_back(home); prefixes.push_back(v); v = text(s); v.insert(v.begin(), mk); prefixes.push_back(v); }
    alpha = {cu, ck, cy, cw, ew, en, pv, end};
    ROWS = 20000 / W * (depth + 2) + 10; scr.assign(ROWS, string(W, ' '));
  }
  if (sc == "paste") {
    int n = depth; string al = "a \t(\n\r";
    M.begin(bufsize, 0);
    snap(); snap_shadow();
    long cnt = 0;
    for (int k = 0; k <= n; k++) {
      vector<int> ix(k, 0);
      for (;;) {
        if (cnt++ % np == part) for (const char *pr : {"", "?- "}) {
          prompt = pr;
          string t; for (int i : ix) t += al[i];
          restore(); clear_screen(); pre_feed = t; pf = 0; seq = {a}; ki = bi = 0; reads_at_end = 0; bool went = true;
          while (went) {
            // the line the buffered characters give
            M.begin(bufsize, prompt.size()); origin = cr; started = false; M.beep = 0; M.newline = false; beeps = 0;
            size_t q = pf; bool ret = false;
            while (q < t.size()) {
              if ((int) M.s.size() >= M.size) { ret = true; break; }
              char c = t[q++];
              if (c == '\n' || c == '\r') { ret = true; break; }
              if (c == '\t') { for (int i = 8 - (M.s.size() + M.pl) % 8; i && (int) M.s.size() < M.size; i--) M.s += ' '; }
              else M.s += c;
            }
            M.pos = M.s.size();
            if (ret) M.accept();
            buf = (char *) __wrap_malloc(bufsize);
            char *r = Pl_LE_FGets(buf, bufsize, (char *) prompt.c_str(), 1);
            if (ret) { if (r != buf || M.line != buf) fail("pasted [%s]: returned [%s], should be [%s]", t.c_str(), r == buf ? buf : "?", M.line.c_str()); if (pf != q) fail("pasted: %d characters used, should be %d", (int) pf, (int) q); }
            else { went = false; if (!M.intr || r != (char *) -2) fail("pasted [%s]: returned", t.c_str()); }
            if (bad) break;
          }
          K.resize(K.size() - (reads_at_end ? 1 : 0));
          states++;
        }
        int i = k - 1; while (i >= 0 && ++ix[i] == (int) al.size()) ix[i--] = 0;
        if (i < 0) break;
      }
    }
    printf("DONE states=%ld trans=%ld bad=%d\n", states, trans, bad);
    return bad != 0;
  }
  long cnt = 0;
  M.begin(bufsize, 0);
  snap(); snap_shadow();
  for (auto &p : prefixes) {
    vector<int> pp = p;
    // all sequences of exactly depth keys (every shorter one is checked on the way)
    vector<int> ix(depth, 0);
    for (;;) {
      if (cnt++ % np == part) {
        restore();
        vector<int> v = p; for (int i : ix) v.push_back(alpha[i]);
        run_seq(v);
      }
      int i = depth - 1; while (i >= 0 && ++ix[i] == (int) alpha.size()) ix[i--] = 0;
      if (i < 0) break;
    }
  }
  printf("DONE states=%ld trans=%ld bad=%d\n", states, trans, bad);
  return bad != 0;
}

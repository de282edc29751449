//@ reach: by_name by_case by_shortcut unknown missing_args ran erased overflow two_lines kept_part history_full failed_kept echo help conf
//@ bounds: one line of up to 3 arbitrary bytes against commands whose names and shortcuts have arbitrary letters; streams of 5 (thorough 6) arbitrary bytes, for each line terminator, cut at any two places; input of any length up to 3 beyond the limit; up to 4 lines with any history depth 0..3; all option sets
//@ outside: quoting and escaping in arguments (the console has none); what a partially claiming output end does not take is discarded, as the source declares; more commands and longer names than 3; colors
#include "plat.h"
#include "Console/C3PConsole.h"
struct Out : public BufferAccepter {
  uint8_t got[512]; int n = 0; bool refuse = false; int8_t pushBuffer(StringBuilder* b) { if (refuse) return -1; int L = b->length(); sx_assert(n + L <= 512, "output length as expected"); for (int i = 0; i < L; i++) got[n++] = b->byteAt(i); b->clear(); return 1; }
  int32_t bufferAvailable() { return 512; }
};
static char ran[64]; static int rn;
static int argsum(StringBuilder* a, char id) { ran[rn++] = id; int c = a->count(); for (int i = 0; i < c; i++) { ran[rn++] = ' '; for (char* p = a->position(i); *p; p++) ran[rn++] = *p; } ran[rn++] = ';'; return 0; }
static int cb0(StringBuilder* t, StringBuilder* a) { t->concat("0"); return argsum(a, '0'); }
static int cb1(StringBuilder* t, StringBuilder* a) { t->concat("1"); return argsum(a, '1'); }
static int cb2(StringBuilder* t, StringBuilder* a) { t->concat("2"); argsum(a, '2'); return -1; }
static uint8_t lo(uint8_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool sp(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static void put(ParsingConsole* c, const uint8_t* b, int n) { StringBuilder s; if (n) s.concat((uint8_t*) b, n); c->pushBuffer(&s); sx_assert(s.isEmpty(), "the console takes all of its input"); }
static bool has(const uint8_t* b, int n, const char* w) { int l = strlen(w); for (int i = 0; i + l <= n; i++) if (0 == memcmp(b + i, w, l)) return true; return false; }

static void lookup() {   // one line against arbitrary command names
  char n0[3] = {0}, n1[3] = {0}; n0[0] = sx_u8("a"); n0[1] = sx_u8("b"); n1[0] = sx_u8("c"); char s0 = sx_u8("s0"), s1 = sx_u8("s1");
  auto letter = [](char c) { return c > ' ' && c < 127; }; sx_assume(letter(n0[0]) && letter(n0[1]) && letter(n1[0]) && letter(s0) && letter(s1));
  Out o; ParsingConsole c(32); c.setEfferant(&o); c.defineCommand(n0, s0, "h", "p", 0, cb0); c.defineCommand(n1, s1, "h", "p", 1, cb1); sx_assert(c.init() == 0, "init");
  uint8_t w[6]; int l = 1 + sx_choose(3, "len"), x = sx_choose(2, "arg"); for (int i = 0; i < l; i++) { w[i] = sx_u8("w"); sx_assume(letter(w[i])); }
  int who = -1;
  if (l == 2 && sx_branch(lo(w[0]) == lo(n0[0]) && lo(w[1]) == lo(n0[1]))) { who = 0; sx_reach(sx_branch(w[0] == n0[0] && w[1] == n0[1]) ? "by_name" : "by_case"); }
  else if (l == 1) { if (sx_branch(lo(w[0]) == lo(n1[0]))) who = 1; else if (sx_branch(w[0] == s0)) { who = 0; sx_reach("by_shortcut"); } else if (sx_branch(w[0] == s1)) who = 1; }
  uint8_t line[16]; int n = 0; for (int i = 0; i < l; i++) line[n++] = w[i]; if (x) { line[n++] = ' '; line[n++] = 'Q'; } line[n++] = '\n';
  put(&c, line, n);
  const char* exp = who < 0 ? "" : who == 0 ? (x ? "0 Q;" : "0;") : (x ? "1 Q;" : "");
  sx_assert(rn == (int) strlen(exp) && 0 == memcmp(ran, exp, rn), "exactly the command named by the line runs, once, if it has the arguments that it needs");
  sx_assert(o.n > 0, "every command line is answered"); sx_reach(who < 0 ? "unknown" : (who == 1 && !x) ? "missing_args" : "ran");
  sx_assert(c.historyDepth() == (*exp ? 1 : 0), "what was executed is in the history");
}
static char mdl[64]; static int mn;
static void mline(const uint8_t* l, int n) {
  int e = 0; while (e < n && l[e]) e++; n = e;                       // a line is text
  int b = 0; while (b < n && sp(l[b])) b++; while (n > b && sp(l[n-1])) n--; if (b == n) return;
  int i = b; char id = 0; int nt = 0; char tmp[32]; int tn = 0; bool known = true;
  while (i < n) { while (i < n && l[i] == ' ') i++; if (i >= n) break; int s = i; while (i < n && l[i] != ' ') i++;
    if (nt == 0) { int q = i; while (q > s && sp(l[q-1])) q--; while (s < q && sp(l[s])) s++; if (q - s == 1 && lo(l[s]) == 'a') id = '0'; else if (q - s == 2 && lo(l[s]) == 'b' && lo(l[s+1]) == 'b') id = '1'; else known = false; }
    else { tmp[tn++] = ' '; for (int k = s; k < i; k++) tmp[tn++] = l[k]; }
    nt++; }
  if (!known || (id == '1' && nt < 2)) return;
  mdl[mn++] = id; for (int k = 0; k < tn; k++) mdl[mn++] = tmp[k]; mdl[mn++] = ';';
}
static void stream() {  // terminators, fragmentation, backspace
  static const char* T[] = {"", "\r", "\n", "\r\n"}; const int N = THOROUGH ? 6 : 5;
  int te = sx_choose(4, "term"); Out o; ParsingConsole c(32); c.setEfferant(&o); c.setRXTerminator((LineTerm) te); sx_assert((int) c.getRXTerminator() == te, "terminator is kept");
  c.defineCommand("a", 0, "h", "p", 0, cb0); c.defineCommand("bb", "h", "p", 1, cb1); bool echo = sx_choose(2, "echo"); c.localEcho(echo);
  uint8_t s[8]; int n = N; 
  for (int i = 0; i < n; i++) s[i] = sx_u8("s");
  int c1 = sx_choose(n + 1, "cut"), c2 = c1 < n ? c1 + sx_choose(2, "cut2") : c1;
  put(&c, s, c1); put(&c, s + c1, c2 - c1); put(&c, s + c2, n - c2);
  uint8_t ln[16]; int L = 0, lines = 0;                               // model: character by character
  const uint8_t* t = (const uint8_t*) T[te]; int tl = te == 3 ? 2 : 1;
  for (int i = 0; i < n; i++) {
    if (s[i] == 8) { if (L) { L--; sx_reach("erased"); } continue; }
    ln[L++] = s[i];
    if (L >= tl && 0 == memcmp(ln + L - tl, te == 0 ? (const uint8_t*) "" : t, tl)) { lines++; mline(ln, L - tl); L = 0; }
  }
  if (L) sx_reach("kept_part"); if (lines > 1) sx_reach("two_lines");
  sx_assert(rn == mn && 0 == memcmp(ran, mdl, rn), "each terminated line is executed once, in order, and no unterminated one, however the input is cut");
  if (echo && o.n) sx_reach("echo");
  // the rest of the line completes it
  static const uint8_t fin[] = {'\r', '\n'}; put(&c, te == 0 ? (const uint8_t*) "" : te == 3 ? fin : te == 1 ? fin : fin + 1, tl);
  if (te == 3 && L && ln[L-1] == '\r') { } mline(ln, L);
  sx_assert(rn == mn && 0 == memcmp(ran, mdl, rn), "unterminated input is kept until its line is complete");
}
static void overflow() {
  int MAX = 8; Out o; ParsingConsole c(MAX); c.setEfferant(&o); c.defineCommand("a", 0, "h", "p", 0, cb0);
  uint8_t b[16]; memset(b, ' ', sizeof(b)); int n = sx_choose(12, "n"), p = sx_choose(3, "parts"); b[0] = 'a';
  int q = p == 0 ? n : p == 1 ? n / 2 : 1; if (q > n) q = n; put(&c, b, q); put(&c, b + q, n - q);
  sx_assert(rn == 0, "nothing runs before its line is complete");
  put(&c, (const uint8_t*) "\n", 1); bool ok = n > 0 && n + 1 <= MAX;
  sx_assert(rn == (ok ? 2 : 0), "a line within the limit runs, and one beyond it is dropped"); if (!ok && n) sx_reach("overflow");
  put(&c, (const uint8_t*) "a\n", 2); sx_assert(rn == (ok ? 4 : 2), "the line after an oversized one runs");
}
static void history() {
  static const char* CMD[] = {"a\n", "zz\n", "a  p\n", "c\n"}; static const char* H[] = {"a", "zz", "a  p", "c"}; 
  Out o; ParsingConsole c(32); c.setEfferant(&o); c.defineCommand("a", 0, "h", "p", 0, cb0); c.defineCommand("c", "h", "p", 0, cb2);
  bool fl = sx_choose(2, "fail"); c.historyFail(fl); uint8_t d = sx_choose(4, "depth"); c.maxHistoryDepth(d); sx_assert(c.maxHistoryDepth() == d && c.historyFail() == fl, "settings are kept");
  const char* m[8]; int k = 0, n = 1 + sx_choose(4, "n");
  for (int i = 0; i < n; i++) { int w = sx_choose(4, "cmd"); put(&c, (const uint8_t*) CMD[w], strlen(CMD[w])); if (w == 1 && fl) sx_reach("failed_kept"); if (w != 1 || fl) m[k++] = H[w]; }
  int f = k > d ? k - d : 0; if (f) sx_reach("history_full"); int nd = sx_choose(4, "new"); if (nd < d) { c.maxHistoryDepth(nd); f = k > nd ? k - nd : 0; if (f > k) f = k; if (k - f > d) f = k - d; }
  sx_assert(c.historyDepth() == k - f, "the history holds as many of the last lines as its depth");
  StringBuilder out; c.printHistory(&out); StringBuilder exp; StringBuilder::styleHeader2(&exp, "History"); for (int i = f; i < k; i++) exp.concatf("\t%d:  %s\n", i - f, m[i]);
  sx_assert(out.length() == exp.length() && 0 == memcmp(out.string(), exp.string(), exp.length()), "the history lists the last lines in order");
  c.clearHistory(); sx_assert(c.historyDepth() == 0, "cleared history is empty");
}
static ParsingConsole* G; static int gconf(StringBuilder* t, StringBuilder* a) { return G->console_handler_conf(t, a); } static int ghelp(StringBuilder* t, StringBuilder* a) { return G->console_handler_help(t, a); }
static void options() {
  Out o; ParsingConsole c(64); G = &c; c.setEfferant(&o); const ConsoleCommand cc[] = { ConsoleCommand("conf", 'C', "hconf", "pconf", 1, gconf), ConsoleCommand("help", '?', "hhelp", "phelp", 0, ghelp) }; c.defineCommands(cc, 2);
  const ConsoleCommand fail("fail", '!', "hfail", "pfail", 0, cb2); c.defineCommand(&fail);
  bool st[5]; for (int i = 0; i < 5; i++) st[i] = sx_choose(2, "st"); 
  c.localEcho(st[0]); c.emitPrompt(st[1]); c.printHelpOnFail(st[2]); c.forceReturn(st[3]); c.historyFail(st[4]); c.setPromptString("PR>");
  auto chk = [&]() { sx_assert(c.localEcho() == st[0] && c.emitPrompt() == st[1] && c.printHelpOnFail() == st[2] && c.forceReturn() == st[3] && c.historyFail() == st[4], "each option is what it was last set to"); };
  chk(); int k = sx_choose(9, "cmd"), v = sx_choose(2, "v"); char L[40]; static const char* W[] = {"echo", "prompt", "help-on-fail", "force", "history logerrors", "history clear", "history depth", "rxterm", "bogus"};
  StringBuilder ln("conf "); ln.concatf("%s %d\n", W[k], v); int hd = c.historyDepth(); c.pushBuffer(&ln); if (k < 5) st[k] = v; chk(); sx_reach("conf");
  if (k == 6) sx_assert(c.maxHistoryDepth() == v, "history depth is set"); if (k == 7) { sx_assert((int) c.getRXTerminator() == v, "terminator is set"); c.setRXTerminator(LineTerm::LF); }
  sx_assert(has(o.got, o.n, "PR>") == st[1], "the prompt is emitted exactly if wanted");
  o.n = 0; int h = sx_choose(4, "help"); static const char* HL[] = {"help\n", "help conf\n", "? HELP\n", "fail\n"}; StringBuilder hl(HL[h]); c.pushBuffer(&hl);
  bool a = has(o.got, o.n, "hconf"), b = has(o.got, o.n, "hhelp"), f = has(o.got, o.n, "pfail"), g = has(o.got, o.n, "hfail");
  if (h == 0) sx_assert(a && b && g, "help lists every command"); if (h == 1) sx_assert(a && !b && has(o.got, o.n, "pconf"), "help describes the command asked for"); if (h == 2) sx_assert(b && !a && has(o.got, o.n, "phelp"), "help describes the command asked for");
  if (h == 3) sx_assert(f == st[2], "help is printed on failure exactly if wanted"); sx_reach("help");
}
static void log() {   // unsolicited output, and output that is refused for now
  Out o; bool sink = sx_choose(2, "sink"); ParsingConsole c(32); if (sink) c.setEfferant(&o); o.refuse = sx_choose(2, "refuse"); c.defineCommand("a", 0, "h", "p", 0, cb0);
  uint8_t x[2]; sx_bytes(x, 2, "x"); StringBuilder m; m.concat(x, 2); c.printToLog(&m); sx_assert(m.isEmpty(), "printed text is taken over"); put(&c, (const uint8_t*) "a\n", 2);
  uint8_t e[4] = {x[0], x[1], '\n', '0'}; StringBuilder f; 
  if (sink && o.refuse && sx_choose(2, "retry")) { o.refuse = false; StringBuilder none; c.printToLog(&none); sx_assert(o.n == 4, "refused output is pushed again"); }
  c.fetchLog(&f); int fl = f.length(); sx_assert(o.n + fl == 4, "output is delivered or held, once"); for (int i = 0; i < 4; i++) sx_assert((i < o.n ? o.got[i] : f.byteAt(i - o.n)) == e[i], "output is delivered in order");
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes(); rn = mn = 0;
  switch (sx_choose(6, "mode")) { case 0: lookup(); break; case 1: stream(); break; case 2: overflow(); break; case 3: history(); break; case 4: options(); break; default: log(); }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

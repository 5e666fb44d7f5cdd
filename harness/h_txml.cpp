// C38: MODE 0 any event stream against the members it should set; MODE 1 booleans; MODE 2 files.
#include "vp.h"
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <string>
#include <vector>
#include <list>
#include <exception>
#include <expat.h>
#include "coda/txml.hpp"
static int created, freed; static void *ud; static XML_StartElementHandler sh; static XML_EndElementHandler eh; static XML_CharacterDataHandler ch; static char par;
static int play(const char *s, int n, int fin);
extern "C" {
#ifndef VP_REPLAY
char *strerror_r(int, char *b, size_t n) throw() { static char t[] = "error"; return t; }
#endif
XML_Parser STUB(XML_ParserCreate)(const XML_Char *e) { created++; return (XML_Parser)&par; }
void STUB(XML_ParserFree)(XML_Parser p) { CHECK(p == (XML_Parser)&par && freed < created, "parser released twice"); freed++; }
void STUB(XML_SetUserData)(XML_Parser p, void *u) { ud = u; }
void STUB(XML_SetUnknownEncodingHandler)(XML_Parser p, XML_UnknownEncodingHandler h, void *u) {}
void STUB(XML_SetElementHandler)(XML_Parser p, XML_StartElementHandler s, XML_EndElementHandler e) { sh = s; eh = e; }
void STUB(XML_SetStartElementHandler)(XML_Parser p, XML_StartElementHandler s) { sh = s; }
void STUB(XML_SetEndElementHandler)(XML_Parser p, XML_EndElementHandler e) { eh = e; }
void STUB(XML_SetCharacterDataHandler)(XML_Parser p, XML_CharacterDataHandler c) { ch = c; }
enum XML_Status STUB(XML_Parse)(XML_Parser p, const char *s, int n, int fin) { CHECK(p == (XML_Parser)&par && created == freed + 1, "parses with a parser that is not there"); return play(s, n, fin) ? XML_STATUS_OK : XML_STATUS_ERROR; }
const XML_LChar *STUB(XML_ErrorString)(enum XML_Error c) { return "E"; }
enum XML_Error STUB(XML_GetErrorCode)(XML_Parser p) { return XML_ERROR_SYNTAX; }
XML_Size STUB(XML_GetCurrentLineNumber)(XML_Parser p) { return 1; }
XML_Size STUB(XML_GetCurrentColumnNumber)(XML_Parser p) { return 2; }
}
struct inner { std::string x, k, t; void determine(coda::txml_parser *p) { p->determineMember("x", x); p->determineMember("k", k); p->determineMember("", t); } };
struct root_t { std::string a; std::vector<std::string> v; inner o; std::list<inner> i; uint8_t n; root_t() : n(0) {}
  void determine(coda::txml_parser *p) { txml_member(p, a); txml_member(p, v); txml_member(p, o); txml_member(p, i); txml_member(p, n); } };
struct top : public coda::txml_determination_object { root_t r; bool f; top() : f(false) {} virtual void determine(coda::txml_parser *p) { txml_member(p, r); txml_member(p, f); } };
#if MODE == 0
/* the reference: texts and attribute values by path */
struct txt { int n; char d[8]; bool is(const std::string &s) const { if ((int)s.size() != n) return false; for (int i = 0; i < n; i++) if (s[i] != d[i]) return false; return true; } };
struct rin { txt x, k, t; };
static txt ra, rv[8]; static rin ro, ri[8]; static int nv, ni;
static char path[8]; static txt own[8]; static int dep; static bool mixed, skip_, chunked, attr;
static void setv(const char *p, int n, const txt &t, bool begin) { // p: names below the root
  if (n == 1 && p[0] == 'a') ra = t;
  if (n == 1 && p[0] == 'v') { if (begin) nv++; rv[nv - 1] = t; }
  if (n == 1 && p[0] == 'i') { if (begin) { memset(&ri[ni], 0, sizeof ri[0]); ni++; } ri[ni - 1].t = t; }
  if (n == 1 && p[0] == 'o') ro.t = t;
  if (n == 2 && (p[0] == 'o' || p[0] == 'i')) { rin &q = p[0] == 'o' ? ro : ri[ni - 1]; if (p[1] == 'x') q.x = t; if (p[1] == 'k') q.k = t; } }
static void start(char nm, const char *an, char av) { char b[2] = {nm, 0}, val[2] = {av, 0}; const char *at[3] = {an, val, 0}; if (!an) at[0] = 0;
  path[dep] = nm; own[dep].n = 0; dep++; if (dep > 1) { txt e; e.n = 0; setv(path + 1, dep - 1, e, true); }
  if (an) { attr = true; if (dep >= 1) { path[dep] = an[0]; txt t; t.n = 1; t.d[0] = av; setv(path + 1, dep, t, true); } }
  sh(ud, b, at); }
static void text(int n) { char b[2]; for (int i = 0; i < n; i++) { b[i] = nd_u8(); ASSUME(b[i] != 0); own[dep - 1].d[own[dep - 1].n++] = b[i]; } if (own[dep - 1].n > n) chunked = true; ch(ud, b, n); }
static void end() { char b[2] = {path[dep - 1], 0}; if (dep > 1) setv(path + 1, dep - 1, own[dep - 1], false); dep--; eh(ud, b); }
static int play(const char *s, int n, int fin) {
  CHECK(fin == 1, "document not ended"); start('r', 0, 0);
  static const char pre[] = PREFIX; static const char names[] = NAMES; static const char atts[] = ATTS;
  for (int i = 0; i < (int)sizeof pre - 1; i++) { if (pre[i] == '.') end(); else if (pre[i] == '1') text(1); else start(pre[i], 0, 0); }
  for (int i = 0; i < EV; i++) { int k = nd_upto(sizeof names + 1);
    if (k == 0) text(1 + (i & 1)); else if (k == 1) { if (dep == 1) return 0; if (own[dep - 1].n && 0) mixed = true; end(); }
    else if (k - 2 < (int)sizeof names - 1) { if (dep > 4) return 0; if (own[dep - 1].n) mixed = true; char an[2] = {0, 0}; if (sizeof atts > 1) { int q = nd_upto(sizeof atts - 1); if (q) an[0] = atts[q - 1]; } char av = 0; if (an[0]) { av = nd_u8(); ASSUME(av != 0); } start(names[k - 2], an[0] ? an : 0, av); }
    else break; }
  if (nd_bool()) return 0; /* a syntax error */
  while (dep) end();
  return 1; }
extern "C" void harness(void) {
  top t; bool thrown = false;
  try { t.load_from_string("x"); } catch (const std::exception &e) { thrown = true; }
  CHECK(created == 1 && freed == 1, "parser not released"); CHECK(thrown == (dep != 0), "parse error and exception disagree");
  if (!thrown) {
    CHECK(ra.is(t.r.a), "member set from its element"); CHECK(t.r.v.size() == (size_t)nv, "number of entries"); for (int i = 0; i < nv; i++) CHECK(rv[i].is(t.r.v[i]), "entry");
    CHECK(ro.x.is(t.r.o.x) && ro.k.is(t.r.o.k), "member of a nested object"); CHECK(ro.t.is(t.r.o.t), "text of a nested object"); CHECK(t.r.i.size() == (size_t)ni, "number of objects"); int j = 0; for (std::list<inner>::iterator it = t.r.i.begin(); it != t.r.i.end(); ++it, ++j) { CHECK(ri[j].x.is(it->x) && ri[j].k.is(it->k), "member of a listed object"); CHECK(ri[j].t.is(it->t), "text of a listed object"); } }
  WITNESS(thrown, "error"); WITNESS(!thrown && (attr || sizeof ATTS == 1), "document"); WITNESS(!thrown && mixed, "text and elements");
}
#elif MODE == 1
static char word[8]; static int wl;
static int play(const char *s, int n, int fin) { const char *at[1] = {0}; sh(ud, "f", at); int k = nd_upto(wl); if (k) ch(ud, word, k); if (k < wl) ch(ud, word + k, wl - k); eh(ud, "f"); return 1; }
extern "C" void harness(void) {
  static const char *w[] = {"on", "off", "true", "false", "yes", "no", "1", "0", "7", ""}; static const bool val[] = {1, 0, 1, 0, 1, 0, 1, 0, 1, 0};
  int i = nd_upto(9); strcpy(word, w[i]); wl = strlen(word); for (int k = 0; k < wl && k < 3; k++) if (word[k] > '9' && nd_bool()) word[k] -= 32;
  top t; t.f = nd_bool(); t.load_from_string("x"); CHECK(t.f == val[i], "boolean"); CHECK(created == 1 && freed == 1, "parser not released"); WITNESS(i == 3, "false"); WITNESS(i == 4, "yes");
}
#elif MODE == 3
static char word[32], nm[2]; static int wl;
struct nums : public coda::txml_determination_object { int32_t i; uint32_t u; int64_t l; uint64_t m; uint8_t b; virtual void determine(coda::txml_parser *p) { txml_member(p, i); txml_member(p, u); txml_member(p, l); txml_member(p, m); txml_member(p, b); } };
static bool whole;
static int play(const char *s, int n, int fin) { const char *a0[1] = {0};
  if (whole) { sh(ud, nm, a0); ch(ud, word, wl); eh(ud, nm); } else { int k = wl > 2 ? 2 : 1; sh(ud, nm, a0); ch(ud, word, k); if (k < wl) ch(ud, word + k, wl - k); eh(ud, nm); } return 1; }
extern "C" void harness(void) {
  // type, digits before the free last ones, number of free digits, largest last digit
  static const struct { char t; const char *p; int n, hi; } T[] = {{'i', "", 2, 9}, {'i', "-", 2, 9}, {'i', "214748364", 1, 7}, {'i', "-214748364", 1, 8}, {'u', "", 2, 9}, {'u', "429496729", 1, 5}, {'u', "214748364", 1, 9}, {'l', "-", 2, 9}, {'l', "922337203685477580", 1, 7}, {'l', "-922337203685477580", 1, 8}, {'l', "429496729", 1, 9}, {'l', "-214748364", 1, 9}, {'m', "", 2, 9}, {'m', "1844674407370955161", 1, 5}, {'m', "922337203685477580", 1, 9}, {'m', "429496729", 2, 9}, {'b', "", 2, 9}, {'b', "1", 2, 9}, {'b', "25", 1, 5}};
  int k = nd_upto(sizeof T / sizeof *T - 1); nm[0] = T[k].t; whole = nd_bool(); bool neg = false; uint64_t v = 0;
  for (const char *q = T[k].p; *q; q++) { word[wl++] = *q; if (*q == '-') neg = true; else v = v * 10 + (*q - '0'); }
  for (int j = 0; j < T[k].n; j++) { int d = nd_upto(j + 1 < T[k].n ? 9 : T[k].hi); word[wl++] = '0' + d; v = v * 10 + d; }
  if (neg) v = -v;
  nums t; t.i = 77; t.u = 77; t.l = 77; t.m = 77; t.b = 77; t.load_from_string("x");
  CHECK(t.i == (nm[0] == 'i' ? (int32_t)v : 77), "32-bit member"); CHECK(t.u == (nm[0] == 'u' ? (uint32_t)v : 77), "unsigned 32-bit member"); CHECK(t.l == (nm[0] == 'l' ? (int64_t)v : 77), "64-bit member"); CHECK(t.m == (nm[0] == 'm' ? v : 77), "unsigned 64-bit member"); CHECK(t.b == (nm[0] == 'b' ? (uint8_t)v : 77), "byte member");
  CHECK(created == 1 && freed == 1, "parser not released"); WITNESS(k == 3, "smallest int"); WITNESS(k == 13, "largest"); WITNESS(k == 18, "byte");
}
#else
static unsigned char data[N + 1]; static int at, got, opened, closed, eof, err, finals, fails_, ferr_; static char fobj;
static int play(const char *s, int n, int fin) { CHECK(n >= 0 && got + n <= N, "more than the file holds"); for (int i = 0; i < n; i++) CHECK((unsigned char)s[i] == data[got + i], "bytes of the file"); got += n; CHECK(!finals, "parsed after the end"); if (fin) { finals++; CHECK(got == N, "ended before the end of the file"); } if (nd_bool()) { fails_++; return 0; } return 1; }
extern "C" {
FILE *STUB(fopen)(const char *p, const char *m) { CHECK(!strcmp(p, "file") && m[0] == 'r', "opens another file"); if (nd_bool()) { errno = ENOENT; err++; return 0; } opened++; return (FILE *)&fobj; }
size_t STUB(fread)(void *p, size_t s, size_t n, FILE *f) { CHECK(opened == closed + 1, "reads a closed file"); CHECK(s == 1, "size"); if (nd_bool()) { errno = EIO; ferr_ = 1; err++; return 0; } int k = N - at; if (k > (int)n) k = n; else if (k < (int)n) eof = 1; for (int i = 0; i < k; i++) ((unsigned char *)p)[i] = data[at + i]; at += k; return k; }
int STUB(feof)(FILE *f) { CHECK(opened == closed + 1, "asks a closed file"); return eof; }
int STUB(ferror)(FILE *f) { return ferr_; }
int STUB(fclose)(FILE *f) { CHECK(opened == closed + 1, "closed twice"); closed++; return 0; }
}
extern "C" void harness(void) {
  for (int i = 0; i < N; i++) data[i] = nd_u8(); top t; bool thrown = false;
  try { t.load_from_file("file"); } catch (const std::exception &e) { thrown = true; }
  CHECK(opened == closed, "file not closed"); CHECK(created == freed, "parser not released"); CHECK(thrown == (err + fails_ > 0), "failure and exception disagree"); if (!thrown) CHECK(finals == 1 && got == N, "file not read to its end");
  WITNESS(thrown && opened, "error"); WITNESS(!thrown, "read"); WITNESS(thrown && !opened, "missing");
}
#endif

// entry points for engine E2: URL objects; o = {rc, empty, allocated, length, domain length}; the texts are copied with their terminators
#include <stddef.h>
#include "coda/url_parser.hpp"
static void dump(const coda_url &x, int *o, char *url, char *dom) {
  o[1] = x.empty(); o[2] = x.allocated(); o[3] = x.get_url_len(); o[4] = x.get_domain_len();
  for (unsigned i = 0; i <= x.get_url_len(); i++) url[i] = x.get_url()[i];
  for (unsigned i = 0; i <= x.get_domain_len(); i++) dom[i] = x.get_domain()[i]; }
extern "C" {
void h_abs(const char *u, size_t n, unsigned fl, int *o, char *url, char *dom) { coda_url x; o[0] = x.create_absolute(u, n, fl); dump(x, o, url, dom); }
void h_rel(const char *p, size_t pn, unsigned pf, const char *u, size_t n, unsigned fl, int *o, char *url, char *dom, int *po, char *purl, char *pdom) { coda_url y, x; po[0] = y.create_absolute(p, pn, pf); o[0] = x.create_relative(u, n, fl, y); dump(x, o, url, dom); dump(y, po, purl, pdom); }
// a (from u, if a_set) and b (from v, if b_set), then one of the copying operations, then the survivor is read after the other one has gone or changed
void h_copy(const char *u, size_t n, unsigned fl, int a_set, int how, int then, int *o, char *url, char *dom, int *po, char *purl, char *pdom) {
  coda_url *a = new coda_url, *b = 0; const char *v = "http://Q.v/z"; size_t vn = 12;
  if (a_set) a->create_absolute(u, n, fl);
  if (how == 0) b = new coda_url(*a);
  else if (how == 1) { b = new coda_url; *b = *a; }
  else if (how == 2) { b = new coda_url; b->create_absolute(v, vn, fl); *b = *a; }
  else if (how == 3) { coda_url &z = *a; *a = z; b = new coda_url(z); }
  else if (how == 4) { b = new coda_url(*a); coda_url &z = *b; *b = z; coda_url c(*b); *a = c; }
  else { b = new coda_url; b->create_absolute(v, vn, fl); coda_url c; *b = c; *b = *a; }
  if (then & 1) { coda_url *t = a; a = b; b = t; }
  po[0] = 0; po[1] = 2;
  if (then / 2 == 0) { delete a; a = 0; }
  else if (then / 2 == 1) { coda_url w; w.create_absolute(v, vn, fl); *a = w; dump(*a, po, purl, pdom); }
  else { po[0] = a->create_absolute(v, vn, fl); dump(*a, po, purl, pdom); }
  o[0] = 0; dump(*b, o, url, dom); delete a; delete b; }
}

// The second half of any.cc: a type that only this file knows, of the same name as one in any.cc.
#include <typeinfo>
#include <new>
#define NANOSTL_TYPEINFO_H
namespace nanostl { using std::type_info; using std::bad_cast; }
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanoinitializer_list.h"
#include "nanostring.h"
#include "nanoany.h"
typedef nanostl::any An;
namespace { struct Twin { double d[9]; int v; }; }
static Twin mk(int x) { Twin t; for (int i = 0; i < 9; i++) t.d[i] = x + i; t.v = x; return t; }
static int of(const Twin &t) { for (int i = 0; i < 9; i++) if (t.d[i] != t.v + i) return -44444; return t.v; }
void *foreign_new(void *p, int x, int how) {
  if (how == 1) { Twin t(mk(x)); return new (p) An(nanostl::move(t)); }
  const Twin t(mk(x));
  if (how == 0) return new (p) An(t);
  if (how == 2) return new (p) An(nonstd::in_place_type<Twin>, t);
  return new (p) An(nonstd::make_any<Twin>(t));
}
void foreign_set(An &a, int x, int how) { if (how == 0) { const Twin t(mk(x)); a = t; } else { Twin t(mk(x)); a = nanostl::move(t); } }
void foreign_emplace(An &a, int x) { const Twin t(mk(x)); a.emplace<Twin>(t); }
void foreign_write(An &a, int x, int how) { if (how) nonstd::any_cast<Twin &>(a) = mk(x); else *nonstd::any_cast<Twin>(&a) = mk(x); }
int foreign_cast(An &a, int w) {
  const An &c = a;
  switch (w) {
    case 0: { Twin t = nonstd::any_cast<Twin>(a); return of(t); }
    case 1: { Twin t = nonstd::any_cast<Twin>(c); return of(t); }
    case 2: return of(nonstd::any_cast<Twin &>(a));
    case 3: return of(nonstd::any_cast<const Twin &>(a));
    case 4: return of(nonstd::any_cast<const Twin &>(c));
    case 5: { const Twin t = nonstd::any_cast<const Twin>(c); return of(t); }
    default: { An b(c); Twin t = nonstd::any_cast<Twin>(nanostl::move(b)); return of(t); }
  }
}
bool foreign_is(const An &a) { return a.type() == typeid(Twin); }
const void *foreign_ptr(An &a, bool constant) { const An &c = a; return constant ? (const void *)nonstd::any_cast<Twin>(&c) : (const void *)nonstd::any_cast<Twin>(&a); }
int foreign_of(const void *p) { return of(*(const Twin *)p); }

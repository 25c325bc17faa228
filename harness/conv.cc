// Number/text conversion.  Values travel as 16-bit chunks, texts as character codes.
#define NANOSTL_STRING_IMPLEMENTATION
#include "nanostring.h"
#include "vf.h"
using namespace vf;
static unsigned long long chunks() { long n = num(); unsigned long long v = 0; while (n--) v = v << 16 | (unsigned long long)num(); return v; }
static void put(unsigned long long v, int n) { out.s("["); while (n--) { out.i(v >> (16 * n) & 65535); if (n) out.s(","); } out.s("]"); }
static void text(const nanostl::string &t) {
  out.s("[");
  for (unsigned i = 0; i < t.size(); i++) { if (i) out.s(","); out.i((unsigned char)t[i]); }
  if (t.c_str()[t.size()]) out.s(",-1");
  out.s("]");
}
template <class T, class U> static T as(U u) { T t; memcpy(&t, &u, sizeof t); return t; }
static char *tb; 
static nanostl::string *rd() { long n = num(); tb = (char *)realloc(tb, n + 1); for (long i = 0; i < n; i++) tb[i] = (char)num(); tb[n] = 0; return new nanostl::string(tb); }
int main() {
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":");
    if (is(op, "reset")) out.s("[]");
    else if (is(op, "i32")) text(nanostl::to_string((int)chunks()));
    else if (is(op, "u32")) text(nanostl::to_string((unsigned int)chunks()));
    else if (is(op, "i64")) text(nanostl::to_string((nanostl::int64_t)chunks()));
    else if (is(op, "u64")) text(nanostl::to_string((nanostl::uint64_t)chunks()));
    else if (is(op, "f2s")) text(nanostl::to_string(as<float>((unsigned)chunks())));
    else if (is(op, "d2s")) text(nanostl::to_string(as<double>(chunks())));
    else if (is(op, "rtf")) put(as<unsigned>(nanostl::stof(nanostl::to_string(as<float>((unsigned)chunks())))), 2);
    else if (is(op, "rtd")) put(as<unsigned long long>((double)nanostl::stod(nanostl::to_string(as<double>(chunks())))), 4);
    else if (is(op, "s2f")) { nanostl::string *s = rd(); put(as<unsigned>(nanostl::stof(*s)), 2); delete s; }
    else if (is(op, "s2d")) { nanostl::string *s = rd(); put(as<unsigned long long>((double)nanostl::stod(*s)), 4); delete s; }
    else bad_op(op);
    out.s(",\"st\":0}").flush();
  }
  return 0;
}

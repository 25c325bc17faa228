// A second translation unit of the same program using the same headers.
#include <new>
#include "nanostl.h"
#include "nanosstream.h"
nanostl::ostream &elsewhere(const char *q) { nanostl::string s(q); return nanostl::cout << s; }
nanostl::ostream &elsewhere(nanostl::ostream &o, const char *q) { return o << q; }

// Kinds of objects several threads use; every library call happens behind one of these entries.
#ifndef SHARE_H
#define SHARE_H
#include <stddef.h>
#include <new>
struct Kind {
  const char *name; size_t size;
  void (*make)(void *, int x); void (*kill)(void *);
  long (*get)(const void *, int how, int x);                 // reads one object
  long (*get2)(const void *, const void *, int how);         // reads two
  void (*set)(void *, int how, int x);                       // changes one
  void (*copy)(void *, const void *, int how);               // changes the first, reads the second
  void (*swap)(void *, void *, int how);                     // changes both
};
template <class K> struct Of {
  typedef typename K::T T;
  static void make(void *p, int x) { K::make(p, x); }
  static void kill(void *p) { ((T *)p)->~T(); }
  static long get(const void *p, int how, int x) { return K::get(*(const T *)p, how, x); }
  static long get2(const void *p, const void *q, int how) { return K::get2(*(const T *)p, *(const T *)q, how); }
  static void set(void *p, int how, int x) { K::set(*(T *)p, how, x); }
  static void copy(void *p, const void *q, int how) { K::copy(*(T *)p, *(const T *)q, how); }
  static void swap(void *p, void *q, int how) { K::swap(*(T *)p, *(T *)q, how); }
  static Kind kind(const char *n) { Kind k = {n, sizeof(T), make, kill, get, get2, set, copy, swap}; return k; }
};
// functions without objects
typedef long (*Fn)(int x);
int kinds1(Kind *); int kinds2(Kind *); int kinds3(Kind *);
int fns1(Fn *); int fns2(Fn *); int fns3(Fn *);
#endif

From 3cceb319129b427b99ef039fbd66259bc4778bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:30 +0000
Subject: [PATCH 01/56] fix: vector/valarray resize(0) must empty and resize
 must value-initialize new elements

---
 include/nanovalarray.h | 10 ++++++----
 include/nanovector.h   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..932f091 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -82,10 +82,6 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
@@ -111,6 +107,12 @@ class valarray {
       capacity_ = new_capacity;
     }
 
+    // Storage may hold stale values(e.g. after clear()), so value-initialize
+    // newly exposed elements.
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..2df26d0 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -82,10 +82,6 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
@@ -111,6 +107,12 @@ class vector {
       capacity_ = new_capacity;
     }
 
+    // Storage may hold stale values(e.g. after clear()), so value-initialize
+    // newly exposed elements.
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From aca1a24d79b2e6780e4c20b24aac39a028cb6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:30 +0000
Subject: [PATCH 02/56] fix: vector::push_back of one of the vector's own
 elements read released storage

---
 include/nanovector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 2df26d0..8c70b97 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -117,8 +117,11 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
+    // `val` may refer to an element of this vector, so copy it before the
+    // storage is reallocated.
+    value_type copied(val);
     resize(size() + 1);
-    elements_[size_ - 1] = val;
+    elements_[size_ - 1] = copied;
   }
 
   // void push_back(value_type &val); // C++11
-- 
2.43.0


From da20d9493269eeeaeef9f303b3cc15120762ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:30 +0000
Subject: [PATCH 03/56] fix: vector/valarray erase must return the position
 after the erased element

---
 include/nanovalarray.h | 3 ++-
 include/nanovector.h   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 932f091..c8f858e 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -151,13 +151,14 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
+    iterator following = pos;  // position of the element after the erased one
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return following;
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
diff --git a/include/nanovector.h b/include/nanovector.h
index 8c70b97..6016da7 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -155,13 +155,14 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
+    iterator following = pos;  // position of the element after the erased one
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return following;
   }
 
   template <class InputIterator>
-- 
2.43.0


From 99401c429b0be1735eedc083de3eb845558b3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 04/56] fix: basic_string::empty() must be true for a string
 without characters

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..8fcc6c1 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -94,7 +94,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From b77649691443f86954182a148f71bd2224cf0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 05/56] fix: basic_string range and count constructors must
 terminate the string and not read past the range

---
 include/nanostring.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8fcc6c1..61aa8e8 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -80,10 +80,11 @@ class basic_string {
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
     const char *s = first;
-    while (s && (s <= last)) {
+    while (s && (s < last)) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -91,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 05695b3a8f0ac73a22c8c2773e058f8aff6320b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 06/56] fix: basic_string self-append read released storage

---
 include/nanostring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 61aa8e8..1428c20 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -203,6 +203,12 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
+  if (this == &s) {
+    // appending a string to itself: read from a copy
+    const basic_string<charT> copied(s);
+    return (*this) += copied;
+  }
+
   // remove '\0'
   if (data_.size() < 1) {
     // this should not be happen
-- 
2.43.0


From a823b9f2602176e71d8d088ad29d053cca3aaeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:58 +0000
Subject: [PATCH 07/56] fix: map::begin() must designate the smallest key, not
 the tree root

---
 include/nanomap.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..c557973 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -126,7 +126,12 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() {
+    // the element with the smallest key
+    Node* t = root;
+    while (t && t->ch[0]) t = t->ch[0];
+    return iterator(this, t);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
-- 
2.43.0


From 2a1f7471e2e3d3d06da106f391fec896ad838ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:58 +0000
Subject: [PATCH 08/56] fix: map::iterator comparison dereferenced end() and !=
 did not compile

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index c557973..a75f843 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return rhs.p == this->p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return !(*this == rhs);
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From f88692e4148854e43861b6a0c09e782445ab5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:58 +0000
Subject: [PATCH 09/56] fix: map::find and upper_bound on a const map are
 ill-formed

---
 include/nanomap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index a75f843..1cd7da9 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -132,7 +132,7 @@ class map {
   iterator end() { return iterator(this, 0); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  const_iterator end() const { return iterator(this, 0); }
+  const_iterator end() const { return iterator(const_cast<map*>(this), 0); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   bool empty() const { return !root; }
@@ -158,13 +158,13 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator find(const key_type& key) const {
     Node* t = __find(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : iterator(const_cast<map*>(this), t);
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator upper_bound(const key_type& key) const {
     Node* t = __upper_bound(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : iterator(const_cast<map*>(this), t);
   }
 
   // debug:
-- 
2.43.0


From 417d014cfc2752b958f47abbdefe6a910e61c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:58 +0000
Subject: [PATCH 10/56] fix: copying or assigning a map shared its nodes and
 freed them twice

---
 include/nanomap.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index 1cd7da9..a67cccd 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,6 +115,19 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& rhs) { root = __copy(rhs.root); }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& rhs) {
+    if (this != &rhs) {
+      Node* t = __copy(rhs.root);
+      __delete(root);
+      root = t;
+    }
+    return *this;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
@@ -221,6 +234,16 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  Node* __copy(Node* t) {
+    if (!t) return 0;
+    Node* n = new Node(t->val);
+    n->pri = t->pri;
+    n->ch[0] = __copy(t->ch[0]);
+    n->ch[1] = __copy(t->ch[1]);
+    return n;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From 31bdadba0e29fa97387e46834f45d0aed09e7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:21 +0000
Subject: [PATCH 11/56] fix: nanostl::swap was declared but never defined, so
 unique_ptr swap did not link

---
 include/nanotype_traits.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..64748bb 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1184,14 +1184,24 @@ template <class _Tp>
 inline /*_LIBCPP_INLINE_VISIBILITY*/
 /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/ __swap_result_t<_Tp>
 swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
-                                    is_nothrow_move_assignable<_Tp>::value);
+                                    is_nothrow_move_assignable<_Tp>::value)
+{
+  _Tp __t(move(__x));
+  __x = move(__y);
+  __y = move(__t);
+}
 
 template<class _Tp, size_t _Np>
 inline /*_LIBCPP_INLINE_VISIBILITY*/ /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/
 typename enable_if<
     __is_swappable<_Tp>::value
 >::type
-swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value);
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value)
+{
+  for (size_t __i = 0; __i != _Np; ++__i) {
+    swap(__a[__i], __b[__i]);
+  }
+}
 
 
 namespace __detail
-- 
2.43.0


From 510240df41dfb4cecc8b472d8050eda49e78656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:55 +0000
Subject: [PATCH 12/56] fix: nanostl::exception members were declared but never
 defined

---
 include/nanoexception.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nanoexception.h b/include/nanoexception.h
index 2e383a7..9eab372 100644
--- a/include/nanoexception.h
+++ b/include/nanoexception.h
@@ -32,11 +32,11 @@ namespace nanostl {
 class exception
 {
 public:
-    exception() __NANOSTL_NOEXCEPT;
-    exception(const exception&) __NANOSTL_NOEXCEPT;
-    exception& operator=(const exception&) __NANOSTL_NOEXCEPT;
-    virtual ~exception() __NANOSTL_NOEXCEPT;
-    virtual const char* what() const __NANOSTL_NOEXCEPT;
+    exception() __NANOSTL_NOEXCEPT {}
+    exception(const exception&) __NANOSTL_NOEXCEPT {}
+    exception& operator=(const exception&) __NANOSTL_NOEXCEPT { return *this; }
+    virtual ~exception() __NANOSTL_NOEXCEPT {}
+    virtual const char* what() const __NANOSTL_NOEXCEPT { return "nanostl::exception"; }
 };
 
 
-- 
2.43.0


From 59aba4e0756a5784314c080f0c081e472a457f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:55 +0000
Subject: [PATCH 13/56] fix: logic_error had private undefined constructors, so
 optional did not compile with exceptions enabled

---
 include/nanostdexcept.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/nanostdexcept.h b/include/nanostdexcept.h
index 1ea9a76..0392b29 100644
--- a/include/nanostdexcept.h
+++ b/include/nanostdexcept.h
@@ -26,14 +26,21 @@
 #define NANOSTL_STDEXCEPT_H_
 
 #include "nanocommon.h"
+#include "nanoexception.h"
 #include "nanostring.h"
 
 namespace nanostl {
 
-class logic_error
+class logic_error : public exception
 {
-    explicit logic_error(const string&);
-    explicit logic_error(const char*);
+public:
+    explicit logic_error(const string& s) : what_(s) {}
+    explicit logic_error(const char* s) : what_(s) {}
+    virtual ~logic_error() __NANOSTL_NOEXCEPT {}
+    virtual const char* what() const __NANOSTL_NOEXCEPT { return what_.c_str(); }
+
+private:
+    string what_;
 };
 
 
-- 
2.43.0


From 34c0cd707cc8ffcb137d3cfddc0efa7c54f4bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:33 +0000
Subject: [PATCH 14/56] fix: optional copy-assignment was noexcept by the move
 traits and terminated on a throwing copy

---
 include/nonstd/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 3c54fef..333403e 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1195,10 +1195,6 @@ public:
 //      && nanostl::is_copy_assignable<T>::value
     )
     operator=( optional const & other )
-        noexcept(
-            std11::is_nothrow_move_assignable<T>::value
-            && std11::is_nothrow_move_constructible<T>::value
-        )
 #else
     optional & operator=( optional const & other )
 #endif
@@ -1219,7 +1215,11 @@ public:
 //      std11::is_move_constructible<T>::value
 //      && nanostl::is_move_assignable<T>::value
     )
-    operator=( optional && other ) noexcept
+    operator=( optional && other )
+        noexcept(
+            std11::is_nothrow_move_assignable<T>::value
+            && std11::is_nothrow_move_constructible<T>::value
+        )
     {
         if      ( (has_value() == true ) && (other.has_value() == false) ) { reset(); }
         else if ( (has_value() == false) && (other.has_value() == true ) ) { initialize( nanostl::move( *other ) ); }
-- 
2.43.0


From dc1e5c0ca6936ffcffe69c239e5922c8e2ce1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:28 +0000
Subject: [PATCH 15/56] fix: any_cast to a reference type did not compile

---
 include/nonstd/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nonstd/any.hpp b/include/nonstd/any.hpp
index fc6f927..4c8c7aa 100644
--- a/include/nonstd/any.hpp
+++ b/include/nonstd/any.hpp
@@ -653,7 +653,7 @@ template<
 >
 any_nodiscard inline ValueType any_cast( any const & operand )
 {
-   const ValueType * result = any_cast< typename std11::add_const< typename std11::remove_reference<ValueType>::type >::type >( &operand );
+   typename std11::add_const< typename std11::remove_reference<ValueType>::type >::type * result = any_cast< typename std11::add_const< typename std11::remove_reference<ValueType>::type >::type >( &operand );
 
 #if any_CONFIG_NO_EXCEPTIONS
    assert( result );
@@ -676,7 +676,7 @@ template<
 >
 any_nodiscard inline ValueType any_cast( any & operand )
 {
-   const ValueType * result = any_cast< typename std11::remove_reference<ValueType>::type >( &operand );
+   typename std11::remove_reference<ValueType>::type * result = any_cast< typename std11::remove_reference<ValueType>::type >( &operand );
 
 #if any_CONFIG_NO_EXCEPTIONS
    assert( result );
@@ -700,7 +700,7 @@ template<
 >
 any_nodiscard inline ValueType any_cast( any && operand )
 {
-   const ValueType * result = any_cast< typename std11::remove_reference<ValueType>::type >( &operand );
+   typename std11::remove_reference<ValueType>::type * result = any_cast< typename std11::remove_reference<ValueType>::type >( &operand );
 
 #if any_CONFIG_NO_EXCEPTIONS
    assert( result );
-- 
2.43.0


From ceee4a23c344063e6100ef981bc2ed5d33c759da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:43 +0000
Subject: [PATCH 16/56] fix: any_cast of a const any went through a holder of
 the wrong type

---
 include/nonstd/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nonstd/any.hpp b/include/nonstd/any.hpp
index 4c8c7aa..ac43ace 100644
--- a/include/nonstd/any.hpp
+++ b/include/nonstd/any.hpp
@@ -571,13 +571,13 @@ public:
     template< class ValueType >
     const ValueType * to_ptr() const
     {
-        return &( static_cast<holder<ValueType> *>( content )->held );
+        return &( static_cast<holder<typename nanostl::remove_cv<ValueType>::type> *>( content )->held );
     }
 
     template< class ValueType >
     ValueType * to_ptr()
     {
-        return &( static_cast<holder<ValueType> *>( content )->held );
+        return &( static_cast<holder<typename nanostl::remove_cv<ValueType>::type> *>( content )->held );
     }
 
 private:
-- 
2.43.0


From 5e6a6f9d08b0a748b5cc59a520eb7b001ec329c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:44 +0000
Subject: [PATCH 17/56] fix: any's value constructor was noexcept and
 terminated on a throwing copy or allocation

---
 include/nonstd/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/any.hpp b/include/nonstd/any.hpp
index ac43ace..ccb30a4 100644
--- a/include/nonstd/any.hpp
+++ b/include/nonstd/any.hpp
@@ -460,7 +460,7 @@ public:
         class ValueType, class T = typename nanostl::decay<ValueType>::type
         any_REQUIRES_T( ! nanostl::is_same<T, any>::value )
     >
-    any( ValueType && value ) any_noexcept
+    any( ValueType && value )
     : content( new holder<T>( nanostl::forward<ValueType>( value ) ) )
     {}
 
-- 
2.43.0


From 434403c643041f3f20c56c60fc9c8d18f8e6cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:20 +0000
Subject: [PATCH 18/56] fix: expected<void, E> could not be compared

---
 include/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index a55df8c..cfc9658 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -2174,7 +2174,7 @@ constexpr bool operator!=( expected<T1,E1> const & x, expected<T2,E2> const & y
 }
 
 template< typename E1, typename E2 >
-constexpr bool operator==( expected<void,E1> const & x, expected<void,E1> const & y )
+constexpr bool operator==( expected<void,E1> const & x, expected<void,E2> const & y )
 {
     return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : true;
 }
-- 
2.43.0


From 5d75cf63b03afd9187cb375436a515898401f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:20 +0000
Subject: [PATCH 19/56] fix: swap() of two expected<void, E> did not compile

---
 include/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index cfc9658..070abbc 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -2369,7 +2369,7 @@ template< typename T, typename E
     nsel_REQUIRES_T(
         ( nanostl::is_void<T>::value || nanostl::is_move_constructible<T>::value )
         && nanostl::is_move_constructible<E>::value
-        && std17::is_swappable<T>::value
+        && ( nanostl::is_void<T>::value || std17::is_swappable<T>::value )
         && std17::is_swappable<E>::value )
 >
 void swap( expected<T,E> & x, expected<T,E> & y ) noexcept ( noexcept ( x.swap(y) ) )
-- 
2.43.0


From b33625377a2995878e2cd6e6359750ad7571a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:09 +0000
Subject: [PATCH 20/56] fix: swapping expected<void, E> did not destroy the
 moved-from error

---
 include/nonstd/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index 070abbc..16560bc 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -2063,6 +2063,7 @@ public:
 
         if      ( ! bool(*this) && ! bool(other) ) { swap( contained.error(), other.contained.error() ); }
         else if (   bool(*this) && ! bool(other) ) { contained.construct_error( nanostl::move( other.error() ) );
+                                                     other.contained.destruct_error();
                                                      bool has_value = contained.has_value();
                                                      bool other_has_value = other.has_value();
                                                      other.contained.set_has_value(has_value);
-- 
2.43.0


From e039a04f392b46d22001e798c75c4c3c44359002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:18 +0000
Subject: [PATCH 21/56] fix: to_string(int) overflowed its buffer for ten-digit
 negatives and negated the smallest int

---
 include/nanostring.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 1428c20..bd85272 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -295,9 +295,12 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  // +3 for the digit beyond digits10, sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs. Negate as unsigned, since -value overflows for the smallest int
+  unsigned int n = static_cast<unsigned int>(value);
+  if (value < 0) n = 0 - n;
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From 95b5cc55f66db6e78c88e8625c6636874a445a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:18 +0000
Subject: [PATCH 22/56] fix: to_string(int64_t) truncated the value to int

---
 include/nanostring.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index bd85272..2b4f3af 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -346,9 +346,12 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  // +3 for the digit beyond digits10, sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs. Negate as unsigned, since -value overflows for the smallest int64_t
+  uint64_t n = static_cast<uint64_t>(value);
+  if (value < 0) n = 0 - n;
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From 5990df62b0c1fab5a7fe8c9386c683d88f1f894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:18 +0000
Subject: [PATCH 23/56] fix: to_string(unsigned int) and to_string(uint64_t)
 were declared but never defined

---
 include/nanostring.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 2b4f3af..2e5d22d 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -381,6 +381,26 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  // digits are written from the end of the buffer
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];  // +1 digit and null
+  char *p = buffer + sizeof(buffer) - 1;
+
+  *p = '\0';
+  do {
+    *(--p) = static_cast<char>('0' + value % 10);
+    value /= 10;
+  } while (value);
+
+  return string(p);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  return to_string(static_cast<uint64_t>(value));
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From d85af3429221e528fdaa14c3bb4c8a34d4a9466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:28 +0000
Subject: [PATCH 24/56] fix: stof was declared but never defined

---
 include/nanostring.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 2e5d22d..503b673 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -418,7 +418,6 @@ string to_string(double value) {
   return string(buf);
 }
 
-#if 0
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
@@ -432,8 +431,6 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 
   return value;
 }
-#else
-#endif
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stod(const nanostl::string &str, nanostl::size_t *idx) {
-- 
2.43.0


From d3b4d85e89dd666976ec9a9a590164e1d5e41c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:28 +0000
Subject: [PATCH 25/56] fix: stod returned float, losing the precision of the
 parsed double

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 503b673..76406db 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -266,7 +266,7 @@ NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
+double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_IMPLEMENTATION)
 #ifndef NANOSTL_STRING_IMPLEMENTATION
@@ -433,7 +433,7 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 }
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx) {
+double stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
   double value;
   ryu::RyuStatus ret = ryu::s2d_n(str.c_str(), str.size(), &value);
-- 
2.43.0


From 36a1b2171742a62a01fbe9a01e91c85f7f65a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:20 +0000
Subject: [PATCH 26/56] fix: stof and stod read a text without digits as zero

---
 include/__nanostrutil.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/__nanostrutil.h b/include/__nanostrutil.h
index 3ccc29f..4afdabc 100644
--- a/include/__nanostrutil.h
+++ b/include/__nanostrutil.h
@@ -1394,6 +1394,10 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       m10digits++;
     }
   }
+  if (i == (signedM ? 1 : 0) + (dotIndex < len ? 1 : 0)) {
+    // no digits
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1617,6 +1621,10 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       m10digits++;
     }
   }
+  if (i == (signedM ? 1 : 0) + (dotIndex < len ? 1 : 0)) {
+    // no digits
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
-- 
2.43.0


From a41a1c543911f2447a4b08662362cfe81dc1b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:32 +0000
Subject: [PATCH 27/56] fix: floor and ceil through int failed for large values
 and within epsilon of an integer

---
 include/nanomath.h | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8d23def..a8448ca 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -102,36 +102,26 @@ static inline T fabs(T num) {
   return num;
 }
 
-// https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-// FIXME(LTE): Won't work for large float value.
+// Values of magnitude 1/epsilon and above have no fractional part. They, infinity
+// and NaN are returned as they are(they may not fit in integer type).
 template <typename T>
 static inline T ceil(T num) {
-  int inum = int(num);
-  T diff = num - static_cast<T>(inum);
-  if (fabs(diff) < nanostl::numeric_limits<T>::epsilon()) {
-    return inum;
+  if (!(fabs(num) < static_cast<T>(1) / nanostl::numeric_limits<T>::epsilon())) {
+    return num;
   }
 
-  if (num > static_cast<T>(0)) {
-    return inum + 1;
-  } else {
-    return inum;
-  }
+  T ret = static_cast<T>(static_cast<long long>(num));
+  return (ret < num) ? ret + static_cast<T>(1) : ret;
 }
 
-// https://stackoverflow.com/questions/5122993/floor-int-function-implementaton
 template <typename T>
 static inline T floor(T x) {
-  if (x >= static_cast<T>(0)) {
-    return int(x);
-  } else {
-    int y = int(x);
-    if (fabs(static_cast<T>(y) - x) < nanostl::numeric_limits<T>::epsilon()) {
-      return y;
-    } else {
-      return y - 1;
-    }
+  if (!(fabs(x) < static_cast<T>(1) / nanostl::numeric_limits<T>::epsilon())) {
+    return x;
   }
+
+  T ret = static_cast<T>(static_cast<long long>(x));
+  return (ret > x) ? ret - static_cast<T>(1) : ret;
 }
 
 static inline bool isfinite(float x) {
-- 
2.43.0


From 223ee57aa81226a9b6797ecb8f97c13bcadb4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:32 +0000
Subject: [PATCH 28/56] fix: fabs(-0.0) returned -0.0

---
 include/nanomath.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index a8448ca..097bfea 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -92,11 +92,9 @@ static inline bool __is_subnormal(double arg) {
 
 template <typename T>
 static inline T fabs(T num) {
-  // TODO(LTE): Handle +0 and -0 case correctly.
-  // TODO(LTE): Handle +inf and -inf case correctly.
-
-  if (num < static_cast<T>(0)) {
-    return -num;
+  // `0 - num` so that -0 becomes +0.
+  if (num <= static_cast<T>(0)) {
+    return static_cast<T>(0) - num;
   }
 
   return num;
-- 
2.43.0


From 923e8d83baa7039a872106891f47a996f9d96f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:32 +0000
Subject: [PATCH 29/56] fix: max required operator> of its arguments

---
 include/nanoalgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoalgorithm.h b/include/nanoalgorithm.h
index bd7fc77..6074a5c 100644
--- a/include/nanoalgorithm.h
+++ b/include/nanoalgorithm.h
@@ -34,7 +34,7 @@ const T& min(const T& a, const T& b) {
 
 template <class T>
 const T& max(const T& a, const T& b) {
-  return !(b > a) ? a : b;
+  return !(a < b) ? a : b;
 }
 
 template <class ForwardIt>
-- 
2.43.0


From 6c62357659af8ddccc516cdcac0102d0cf7c07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:39 +0000
Subject: [PATCH 30/56] fix: headers that used declarations of headers they did
 not include

---
 include/nanofunctional.h | 1 +
 include/nanomemory.h     | 1 +
 include/nanoratio.h      | 1 +
 include/nanotypeinfo.h   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/nanofunctional.h b/include/nanofunctional.h
index aae9c32..e9e9fda 100644
--- a/include/nanofunctional.h
+++ b/include/nanofunctional.h
@@ -31,6 +31,7 @@
 
 #include "__hashfunc.h"
 #include "__nullptr"
+#include "nanotype_traits.h"
 
 namespace nanostl {
 
diff --git a/include/nanomemory.h b/include/nanomemory.h
index 0bf553d..84ff652 100644
--- a/include/nanomemory.h
+++ b/include/nanomemory.h
@@ -9,6 +9,7 @@
 //===----------------------------------------------------------------------===//
 
 #include "nanotype_traits.h"
+#include "nanoutility.h"
 #include "nanocommon.h"
 #include "nanofunctional.h"
 
diff --git a/include/nanoratio.h b/include/nanoratio.h
index 260acf4..e07e086 100644
--- a/include/nanoratio.h
+++ b/include/nanoratio.h
@@ -26,6 +26,7 @@
 #define NANOSTL_RATIO_H_
 
 #include "nanocommon.h"
+#include "nanocstdint.h"
 
 namespace nanostl {
 
diff --git a/include/nanotypeinfo.h b/include/nanotypeinfo.h
index e3aaba2..613acb9 100644
--- a/include/nanotypeinfo.h
+++ b/include/nanotypeinfo.h
@@ -3,6 +3,7 @@
 
 #include "nanocommon.h"
 #include "nanocstdint.h"
+#include "nanotype_traits.h"
 
 #ifndef _LIBCPP_INLINE_VISIBILITY
 #define _LIBCPP_INLINE_VISIBILITY
-- 
2.43.0


From 9df2b5de01efaac272eb98d540f4974085ccb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:39 +0000
Subject: [PATCH 31/56] fix: nanoatomic.h did not parse

---
 include/nanoatomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoatomic.h b/include/nanoatomic.h
index 8b606e9..e4a4a96 100644
--- a/include/nanoatomic.h
+++ b/include/nanoatomic.h
@@ -30,7 +30,7 @@
 namespace nanostl {
 
 template<class T>
-struct atomic
+struct atomic;
 
 } // namespace nanostl
 
-- 
2.43.0


From e02cdd4a63614a32e0bd699bb2190c6d3b4055a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:01 +0000
Subject: [PATCH 32/56] fix: thread_atomic store and swap left zero behind

---
 src/libs_thread.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7620d93..deb5a16 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1037,8 +1037,7 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
+        __atomic_store_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1118,9 +1117,7 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        int old = (int)__sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
-        return old;
+        return (int)__atomic_exchange_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1174,8 +1171,7 @@ void thread_atomic_ptr_store( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
+        __atomic_store_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1196,9 +1192,7 @@ void* thread_atomic_ptr_swap( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* old = __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
-        return old;
+        return __atomic_exchange_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 5d52f4c6f7e4338b26122a3e3ec55b7516fe951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:01 +0000
Subject: [PATCH 33/56] fix: thread_atomic_int was 64 bits wide, so
 compare_and_swap missed values that had wrapped

---
 src/libs_thread.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index deb5a16..d7f410f 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -538,7 +538,11 @@ union thread_signal_t
 union thread_atomic_int_t
     {
     void* align;
-    long i;
+    #if defined( _WIN32 )
+        long i;
+    #else
+        int i;
+    #endif
     };
 
 union thread_atomic_ptr_t
-- 
2.43.0


From 8c74c6057eb7516b850bb7d9c915280cc8e838df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:01 +0000
Subject: [PATCH 34/56] fix: thread_signal_wait mixed two clock readings and
 could wait a second too long

---
 src/libs_thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index d7f410f..403e674 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -988,7 +988,7 @@ int thread_signal_wait( thread_signal_t* signal, int timeout_ms )
             {
             struct timeval tv;
             gettimeofday( &tv, NULL );
-            ts.tv_sec = time( NULL ) + timeout_ms / 1000;
+            ts.tv_sec = tv.tv_sec + timeout_ms / 1000;
             ts.tv_nsec = tv.tv_usec * 1000 + 1000 * 1000 * ( timeout_ms % 1000 );
             ts.tv_sec += ts.tv_nsec / ( 1000 * 1000 * 1000 );
             ts.tv_nsec %= ( 1000 * 1000 * 1000 );
-- 
2.43.0


From 040f8e94e7fb6a8bfaa14b75833efceea28329d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:01 +0000
Subject: [PATCH 35/56] fix: thread_queue ignored timeouts and stale signals,
 and produce always returned 0

---
 src/libs_thread.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 403e674..057b3f8 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1393,16 +1393,17 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
             queue->id_produce = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_produce );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == queue->size )
+    while( thread_atomic_int_load( &queue->count ) == queue->size ) // the signal may be a stale one
         {
         if( timeout_ms == 0 ) return 0;
-        thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms );
+        if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return 0;
         }
     int tail = thread_atomic_int_inc( &queue->tail );
     queue->values[ tail % queue->size ] = value;
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
-    return 0;
+    return 1;
     }
 
 
@@ -1413,10 +1414,11 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
             queue->id_consume = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_consume );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == 0 )
+    while( thread_atomic_int_load( &queue->count ) == 0 ) // the signal may be a stale one
         {
         if( timeout_ms == 0 ) return NULL;
-        thread_signal_wait( &queue->data_ready, THREAD_SIGNAL_WAIT_INFINITE );
+        if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return NULL;
         }
     int head = thread_atomic_int_inc( &queue->head );
     void* retval = queue->values[ head % queue->size ];
-- 
2.43.0


From b71c25552237af26e28ccfa2bbd4d490b34bd086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:01 +0000
Subject: [PATCH 36/56] fix: thread_queue indexed its buffer with negative
 numbers after 2^31 operations

---
 src/libs_thread.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 057b3f8..db59f67 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1399,8 +1399,9 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
         if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return 0;
         }
-    int tail = thread_atomic_int_inc( &queue->tail );
+    int tail = thread_atomic_int_load( &queue->tail ); // only the producer changes it
     queue->values[ tail % queue->size ] = value;
+    thread_atomic_int_store( &queue->tail, ( tail + 1 ) % queue->size );
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
     return 1;
@@ -1420,8 +1421,9 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
         if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return NULL;
         }
-    int head = thread_atomic_int_inc( &queue->head );
+    int head = thread_atomic_int_load( &queue->head ); // only the consumer changes it
     void* retval = queue->values[ head % queue->size ];
+    thread_atomic_int_store( &queue->head, ( head + 1 ) % queue->size );
     if( thread_atomic_int_dec( &queue->count ) == queue->size )
         thread_signal_raise( &queue->space_open );
     return retval;
-- 
2.43.0


From a0a2b077a3c65f0ccf6904f431c33dc825b5dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:01 +0000
Subject: [PATCH 37/56] fix: thread_tls_create returned NULL for the first key

---
 src/libs_thread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index db59f67..7a22388 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1305,7 +1305,7 @@ thread_tls_t thread_tls_create( void )
 
         pthread_key_t tls;
         if( pthread_key_create( &tls, NULL ) == 0 )
-            return (thread_tls_t) (uintptr_t) tls;
+            return (thread_tls_t) ( (uintptr_t) tls + 1 ); // the first key is 0, which must not look like NULL
         else
             return NULL;
 
@@ -1323,7 +1323,7 @@ void thread_tls_destroy( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_key_delete( (pthread_key_t) (uintptr_t) tls );
+        pthread_key_delete( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
@@ -1339,7 +1339,7 @@ void thread_tls_set( thread_tls_t tls, void* value )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_setspecific( (pthread_key_t) (uintptr_t) tls, value );
+        pthread_setspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ), value );
 
     #else
         #error Unknown platform.
@@ -1355,7 +1355,7 @@ void* thread_tls_get( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        return pthread_getspecific( (pthread_key_t) (uintptr_t) tls );
+        return pthread_getspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 6467a774183594056804354f156d4b9cc584d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:43 +0000
Subject: [PATCH 38/56] fix: thread_destroy joined a thread again that
 thread_join had joined, and stack_size was ignored

---
 src/libs_thread.h | 59 ++++++++++++++++++++++++++++++++++++++++-------
 src/nanothread.cc |  1 +
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7a22388..8f7e7a1 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -615,6 +615,7 @@ struct thread_queue_t
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
     #include <pthread.h>
+    #include <stdlib.h>
     #include <sys/time.h>
 
 #else
@@ -675,6 +676,27 @@ void thread_exit( int return_code )
     }
 
 
+#if !defined( _WIN32 )
+
+// A pthread must be joined exactly once, so what thread_join and thread_destroy have done is remembered here
+struct thread_internal_thread_t
+    {
+    pthread_t handle;
+    int (*thread_proc)( void* );
+    void* user_data;
+    int joined;
+    int retval;
+    };
+
+static void* thread_internal_proc( void* param )
+    {
+    struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) param;
+    return (void*)(uintptr_t) internal->thread_proc( internal->user_data );
+    }
+
+#endif
+
+
 thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char const* name, int stack_size )
     {
     #if defined( _WIN32 )
@@ -706,15 +728,29 @@ thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char c
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_t thread;
-        if( 0 != pthread_create( &thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+        struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) malloc( sizeof( *internal ) );
+        if( !internal ) return NULL;
+        internal->thread_proc = thread_proc;
+        internal->user_data = user_data;
+        internal->joined = 0;
+        internal->retval = 0;
+
+        pthread_attr_t attr;
+        pthread_attr_init( &attr );
+        if( stack_size > 0 ) pthread_attr_setstacksize( &attr, (size_t) stack_size );
+        int failed = pthread_create( &internal->handle, &attr, thread_internal_proc, internal );
+        pthread_attr_destroy( &attr );
+        if( failed )
+            {
+            free( internal );
             return NULL;
+            }
 
         #if !defined( __APPLE__ ) // max doesn't support pthread_setname_np. alternatives?
-            if( name ) pthread_setname_np( thread, name );
+            if( name ) pthread_setname_np( internal->handle, name );
         #endif
 
-        return (thread_ptr_t) thread;
+        return (thread_ptr_t) internal;
 
     #else
         #error Unknown platform.
@@ -731,7 +767,8 @@ void thread_destroy( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_join( (pthread_t) thread, NULL );
+        thread_join( thread );
+        free( thread );
 
     #else
         #error Unknown platform.
@@ -750,9 +787,15 @@ int thread_join( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* retval;
-        pthread_join( (pthread_t) thread, &retval );
-        return (int)(uintptr_t) retval;
+        struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) thread;
+        if( !internal->joined )
+            {
+            void* retval;
+            pthread_join( internal->handle, &retval );
+            internal->retval = (int)(uintptr_t) retval;
+            internal->joined = 1;
+            }
+        return internal->retval;
 
     #else
         #error Unknown platform.
diff --git a/src/nanothread.cc b/src/nanothread.cc
index 188d85e..a9930aa 100644
--- a/src/nanothread.cc
+++ b/src/nanothread.cc
@@ -40,6 +40,7 @@ void thread::join() {
   if (thread_handle_) {
     thread_ptr_t th = static_cast<thread_ptr_t>(thread_handle_);
     thread_join(th);
+    thread_destroy(th);
 
     thread_handle_ = nullptr;
   }
-- 
2.43.0


From 2f2d247d4b0d851dc423ec9e5b75d315d5163dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:48:08 +0000
Subject: [PATCH 39/56] fix: thread_signal_wait reported a timeout while the
 signal was raised

---
 src/libs_thread.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 8f7e7a1..93c4afd 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1014,7 +1014,7 @@ int thread_signal_wait( thread_signal_t* signal, int timeout_ms )
             while( internal->value == 0 )
                 {
                 int res = SleepConditionVariableCS( &internal->condition, &internal->mutex, timeout_ms < 0 ? INFINITE : timeout_ms );
-                if( !res && GetLastError() == ERROR_TIMEOUT ) { timed_out = 1; break; }
+                if( !res && GetLastError() == ERROR_TIMEOUT ) { timed_out = internal->value == 0; break; }
                 }
             if( !timed_out ) internal->value = 0;
             LeaveCriticalSection( &internal->mutex );
@@ -1045,7 +1045,7 @@ int thread_signal_wait( thread_signal_t* signal, int timeout_ms )
                 pthread_cond_wait( &internal->condition, &internal->mutex );
             else if( pthread_cond_timedwait( &internal->condition, &internal->mutex, &ts ) == ETIMEDOUT )
                 {
-                timed_out = 1;
+                timed_out = internal->value == 0; // it may have been raised for another waiter that has not run yet
                 break;
                 }
 
-- 
2.43.0


From 0764086a74b8318d4ea911952f41c3d2d98fc133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:23:09 +0000
Subject: [PATCH 40/56] fix: a tuple could not be constructed from a tuple of
 other component types

---
 include/tao/tuple/tuple.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index f4c2633..7eca794 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -320,6 +320,10 @@ namespace tao
          }
       };
 
+      // selects the componentwise construction from another tuple
+      struct convert_t
+      {};
+
       template< typename, typename... >
       struct tuple_base;
 
@@ -334,6 +338,16 @@ namespace tao
             : tuple_value< Is, Ts >( nanostl::forward< Us >( us ) )...
          {}
 
+         template< typename... Us >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( convert_t, const tuple< Us... >& v )
+            : tuple_value< Is, Ts >( get< Is >( v ) )...
+         {}
+
+         template< typename... Us >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( convert_t, tuple< Us... >&& v )
+            : tuple_value< Is, Ts >( get< Is >( nanostl::move( v ) ) )...
+         {}
+
          template< typename A, typename... Us >
          TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( nanostl::allocator_arg_t, const A& a, Us&&... us )
             : tuple_value< Is, Ts >( uses_alloc_ctor_t< Ts, A, Us >(), a, nanostl::forward< Us >( us ) )...
@@ -437,7 +451,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, const Us& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( const tuple< Us... >& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, const Us& >::value... >::value )
-         : base( v )
+         : base( impl::convert_t(), v )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
@@ -445,7 +459,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, Us&& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( tuple< Us... >&& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, Us&& >::value... >::value )
-         : base( nanostl::move( v ) )
+         : base( impl::convert_t(), nanostl::move( v ) )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
-- 
2.43.0


From e4d0a84c436370f27777cdfa44f71c678c128009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:23:09 +0000
Subject: [PATCH 41/56] fix: nanotuple.h did not compile as C++14 next to a
 standard library header

---
 include/tao/seq/config.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tao/seq/config.hpp b/include/tao/seq/config.hpp
index 8ccddd7..ac73737 100644
--- a/include/tao/seq/config.hpp
+++ b/include/tao/seq/config.hpp
@@ -6,11 +6,14 @@
 
 //#include <utility>
 
+// nanostl has no integer_sequence: the macros of a standard library that the program also includes say nothing about it.
 #ifndef TAO_SEQ_USE_STD_INTEGER_SEQUENCE
 #if defined( __cpp_lib_integer_sequence )
-#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
 #elif defined( _LIBCPP_VERSION ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
 #elif defined( _MSC_VER )
 // Disabled for nanostl
 //#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
@@ -19,9 +22,11 @@
 
 #ifndef TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
 #if defined( _GLIBCXX_RELEASE ) && ( _GLIBCXX_RELEASE >= 8 ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
 #elif defined( _LIBCPP_VERSION ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
 #elif defined( _MSC_VER ) && ( _MSC_FULL_VER >= 190023918 )
 // Disabled for nanostl
 //#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
-- 
2.43.0


From 19810bec7255c9a1bfd9341183ef9e38f5573635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:23:09 +0000
Subject: [PATCH 42/56] fix: a default constructed pair left its members
 uninitialised

---
 include/nanoutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoutility.h b/include/nanoutility.h
index b5c75ee..67935eb 100644
--- a/include/nanoutility.h
+++ b/include/nanoutility.h
@@ -34,7 +34,7 @@ template <class T1, class T2>
 struct pair {
   T1 first;
   T2 second;
-  pair() {}
+  pair() : first(), second() {}
   pair(const T1& a, const T2& b) : first(a), second(b) {}
 };
 
-- 
2.43.0


From b785d8dda4d36fc4d408d2561ea0a95077ae15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:12 +0000
Subject: [PATCH 43/56] fix: no type was nothrow constructible or assignable:
 declval could throw unless exceptions were enabled

---
 include/nanotype_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 64748bb..0f1871b 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -472,7 +472,7 @@ template <class _Tp> _Tp   __declval(long);
 
 template <class _Tp>
 decltype(__declval<_Tp>(0))
-declval() __NANOSTL_NOEXCEPT;
+declval() noexcept;
 
 
 
-- 
2.43.0


From 604bb9c3d11c4945536166b545109ca8840dab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:09 +0000
Subject: [PATCH 44/56] fix: is_union was always false, so a union counted as a
 class

---
 include/nanotype_traits.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 0f1871b..8a58c1c 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -792,9 +792,8 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
 // is_union
 
-template <class _Tp> struct __libcpp_union : public false_type {};
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_union
-    : public __libcpp_union<typename remove_cv<_Tp>::type> {};
+    : public integral_constant<bool, __is_union(_Tp)> {};
 
 // is_class
 
-- 
2.43.0


From e2026b046f3d83f79d61890ecef5ed11011b2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:09 +0000
Subject: [PATCH 45/56] fix: is_empty did not compile for a final class

---
 include/nanotype_traits.h | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 8a58c1c..eb4407b 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -810,24 +810,8 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_class
 
 // is_empty
 
-template <class _Tp>
-struct __is_empty1
-    : public _Tp
-{
-    double __lx;
-};
-
-struct __is_empty2
-{
-    double __lx;
-};
-
-template <class _Tp, bool = is_class<_Tp>::value>
-struct __libcpp_empty : public integral_constant<bool, sizeof(__is_empty1<_Tp>) == sizeof(__is_empty2)> {};
-
-template <class _Tp> struct __libcpp_empty<_Tp, false> : public false_type {};
-
-template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty : public __libcpp_empty<_Tp> {};
+template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty
+    : public integral_constant<bool, __is_empty(_Tp)> {};
 
 
 // is_assignable
-- 
2.43.0


From 3a6ae5ced201b2d485e05bc11cb39bafa7344ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:22 +0000
Subject: [PATCH 46/56] fix: char16_t and char32_t were not integral but
 enumerations

---
 include/nanocstddef.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanocstddef.h b/include/nanocstddef.h
index 6fa0d12..061d6ec 100644
--- a/include/nanocstddef.h
+++ b/include/nanocstddef.h
@@ -39,8 +39,8 @@ template <>          struct __libcpp_is_integral<wchar_t>            { enum { va
 //template <>          struct __libcpp_is_integral<char8_t>            { enum { value = 1 }; };
 //#endif
 //#ifndef _LIBCPP_HAS_NO_UNICODE_CHARS
-//template <>          struct __libcpp_is_integral<char16_t>           { enum { value = 1 }; };
-//template <>          struct __libcpp_is_integral<char32_t>           { enum { value = 1 }; };
+template <>          struct __libcpp_is_integral<char16_t>           { enum { value = 1 }; };
+template <>          struct __libcpp_is_integral<char32_t>           { enum { value = 1 }; };
 //#endif
 template <>          struct __libcpp_is_integral<short>              { enum { value = 1 }; };
 template <>          struct __libcpp_is_integral<unsigned short>     { enum { value = 1 }; };
-- 
2.43.0


From b33db33599af9c9f48df4701618106c1dc4431d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:05 +0000
Subject: [PATCH 47/56] fix: is_constructible of a reference from void did not
 compile

---
 include/nanotype_traits.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index eb4407b..8bb42b7 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -767,8 +767,10 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
          static no_type test1(...);
 
          template <typename T>
-         static yes_type ref_test(T);
-         template <typename T>
+         static void ref_sink(T);
+         template <typename T, typename Arg, typename = decltype(ref_sink<T>(declval<Arg>()))>
+         static yes_type ref_test(int);
+         template <typename, typename>
          static no_type ref_test(...);
       };
 
@@ -776,8 +778,8 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
    template <class T, class ...Args> struct is_constructible : public integral_constant<bool, sizeof(detail::is_constructible_imp::test<T, Args...>(0)) == sizeof(yes_type)>{};
    template <class T, class Arg> struct is_constructible<T, Arg> : public integral_constant<bool, is_destructible<T>::value && sizeof(detail::is_constructible_imp::test1<T, Arg>(0)) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&>(declval<Arg>())) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&>(declval<Arg>())) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&, Arg>(0)) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&, Arg>(0)) == sizeof(yes_type)>{};
 
    template <> struct is_constructible<void> : public false_type{};
    template <> struct is_constructible<void const> : public false_type{};
-- 
2.43.0


From 4f40ec34d0c864172752a0ee3f9972804515375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:51 +0000
Subject: [PATCH 48/56] fix: arrays were not default constructible

---
 include/nanotype_traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 8bb42b7..ab7e4a1 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -777,6 +777,7 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
    }
 
    template <class T, class ...Args> struct is_constructible : public integral_constant<bool, sizeof(detail::is_constructible_imp::test<T, Args...>(0)) == sizeof(yes_type)>{};
+   template <class T> struct is_constructible<T> : public integral_constant<bool, is_destructible<T>::value && sizeof(detail::is_constructible_imp::test<typename remove_all_extents<T>::type>(0)) == sizeof(yes_type)>{};
    template <class T, class Arg> struct is_constructible<T, Arg> : public integral_constant<bool, is_destructible<T>::value && sizeof(detail::is_constructible_imp::test1<T, Arg>(0)) == sizeof(yes_type)>{};
    template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&, Arg>(0)) == sizeof(yes_type)>{};
    template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&, Arg>(0)) == sizeof(yes_type)>{};
@@ -881,7 +882,7 @@ struct _NANOSTL_TEMPLATE_VIS is_nothrow_constructible
 
 template <class _Tp, size_t _Ns>
 struct _NANOSTL_TEMPLATE_VIS is_nothrow_constructible<_Tp[_Ns]>
-    : __libcpp_is_nothrow_constructible<is_constructible<_Tp>::value, is_reference<_Tp>::value, _Tp>
+    : is_nothrow_constructible<_Tp>
 {
 };
 
-- 
2.43.0


From 2f8be5e317ab85626a2f22c382f57b12a4130e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:32 +0000
Subject: [PATCH 49/56] fix: ratio's num and den were not defined, so binding a
 reference to them did not link

---
 include/nanoratio.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nanoratio.h b/include/nanoratio.h
index e07e086..66cbf17 100644
--- a/include/nanoratio.h
+++ b/include/nanoratio.h
@@ -94,6 +94,12 @@ class ratio {
 
 };
 
+template<intmax_t N, intmax_t D>
+constexpr intmax_t ratio<N, D>::num;
+
+template<intmax_t N, intmax_t D>
+constexpr intmax_t ratio<N, D>::den;
+
 
 typedef ratio<1LL, 1000000000000000000LL> atto;
 typedef ratio<1LL,    1000000000000000LL> femto;
-- 
2.43.0


From 22cc9a38f3f7e9dd9f3cb51a74e5b53894d3bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:30 +0000
Subject: [PATCH 50/56] fix: sqrt of infinity is infinity and sqrt of -infinity
 is NaN

---
 include/nanomath.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 097bfea..dbbb370 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -291,15 +291,15 @@ static inline float sqrt(const float x) {
     return 1.0f;               // +0
   }
 
-  // -inf
-  if ((x < 0.0f) && nanostl::isinf(x)) {
-    return x;
-  }
-
   if (x < 0.0f) {
     return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
+  // +inf
+  if (nanostl::isinf(x)) {
+    return x;
+  }
+
   // Faster sqrt using Sqrt2 descrived in:
   // https://www.codeproject.com/Articles/69941/Best-Square-Root-Method-Algorithm-Function-Precisi
 
-- 
2.43.0


From ee69ceeb614a14bc3ffed9301cd7a3781c02c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:30 +0000
Subject: [PATCH 51/56] fix: cbrt keeps its accuracy below epsilon and returns
 infinities

---
 include/nanomath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index dbbb370..ec1412f 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -670,6 +670,7 @@ static inline float erf(float x) {
 // Fast cube root (performs better that using fast_pow's above with y=1/3)
 static inline float cbrt(float x) {
   float x0 = fabs(x);
+  if ((x0 == 0.0f) || nanostl::isinf(x0)) return x;
   // from hacker's delight
   float a = IntToFloat(0x2a5137a0 + FloatToInt(x0) / 3);  // Initial guess.
   // Examined 14272478 values of cbrt on
@@ -678,8 +679,6 @@ static inline float cbrt(float x) {
   // 12 max ulp
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step.
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.
-  a = (fabs(x0) < nanostl::numeric_limits<float>::epsilon()) ? 0
-                                                             : a;  // Fix 0 case
   return copysign(a, x);
 }
 
-- 
2.43.0


From 9ac15af3ca14d5b7555564ba409b48be64943d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:30 +0000
Subject: [PATCH 52/56] fix: pow of a small nonzero base is not zero

---
 include/nanomath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index ec1412f..035d26c 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -501,8 +501,7 @@ static inline float log10(const float& x) {
 static inline float pow(float x, float y) {
   if (fabs(y) < nanostl::numeric_limits<float>::epsilon())
     return 1.0f;  // x^0=1
-  if (fabs(x) < nanostl::numeric_limits<float>::epsilon())
-    return 0.0f;  // 0^y=0
+  if (x == 0.0f) return 0.0f;  // 0^y=0
   // be cheap & exact for special case of squaring and identity
   if (y == 1.0f) return x;
   if (y == 2.0f) {
-- 
2.43.0


From f7db7e3ba2d098fad93f7973c285f36b1705daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:30 +0000
Subject: [PATCH 53/56] fix: pow does not shift into the sign bit of an int

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 035d26c..d8a0f2b 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -519,7 +519,7 @@ static inline float pow(float x, float y) {
       int k = (ybits >> 23) - 127;   // get exponent
       int j = ybits >> (23 - k);     // shift out possible fractional bits
       if ((j << (23 - k)) == ybits)  // rebuild number and check for a match
-        sign = IntToFloat(0x3f800000 | (j << 31));  // +1 for even, -1 for odd
+        sign = UintToFloat(0x3f800000u | (static_cast<unsigned int>(j) << 31));  // +1 for even, -1 for odd
       else
         return 0.0f;  // not integer
     } else {
-- 
2.43.0


From 0f7cb33fe8e6b1f75df15f5c32abb9952ef882d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:46 +0000
Subject: [PATCH 54/56] fix: fast_float::from_chars reports nanostl::errc, so
 that it can be instantiated

---
 include/fast_float/parse_number.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_float/parse_number.h b/include/fast_float/parse_number.h
index 62ae3b0..6ae5494 100644
--- a/include/fast_float/parse_number.h
+++ b/include/fast_float/parse_number.h
@@ -23,7 +23,7 @@ template <typename T>
 from_chars_result parse_infnan(const char *first, const char *last, T &value)  noexcept  {
   from_chars_result answer;
   answer.ptr = first;
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   bool minusSign = false;
   if (*first == '-') { // assume first < last, so dereference without checks; C++17 20.19.3.(7.1) explicitly forbids '+' here
       minusSign = true;
@@ -56,7 +56,7 @@ from_chars_result parse_infnan(const char *first, const char *last, T &value)  n
       return answer;
     }
   }
-  answer.ec = std::errc::invalid_argument;
+  answer.ec = nanostl::errc::invalid_argument;
   return answer;
 }
 
@@ -77,7 +77,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
 
   from_chars_result answer;
   if (first == last) {
-    answer.ec = std::errc::invalid_argument;
+    answer.ec = nanostl::errc::invalid_argument;
     answer.ptr = first;
     return answer;
   }
@@ -85,7 +85,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
   if (!pns.valid) {
     return detail::parse_infnan(first, last, value);
   }
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   answer.ptr = pns.lastmatch;
   // Next is Clinger's fast path.
   if (binary_format<T>::min_exponent_fast_path() <= pns.exponent && pns.exponent <= binary_format<T>::max_exponent_fast_path() && pns.mantissa <=binary_format<T>::max_mantissa_fast_path() && !pns.too_many_digits) {
-- 
2.43.0


From e9b47bfb99308ccbb9cc6802af4e5c57f7992f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:49 +0000
Subject: [PATCH 55/56] fix: inserting a string into an ostream recursed
 forever, and two translation units including the headers did not link

operator<<(ostream &, const string &) called itself, and it and the
specialisation for const void * were defined in headers without inline.
---
 include/nanoiostream.h | 6 ++++++
 include/nanostring.h   | 8 ++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 7e9afb9..fa88870 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -177,6 +177,7 @@ basic_ostream<_CharT, _Traits>::operator<<(double __n)
 }
 
 template<>
+inline
 basic_ostream<char, nanostl::char_traits<char>>&
 basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 {
@@ -191,6 +192,11 @@ basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
   return *this;
 }
 
+inline
+ostream &operator<<(ostream &os, const string &s)
+{
+  return os << s.c_str();
+}
 
 // --------------------------------------
 
diff --git a/include/nanostring.h b/include/nanostring.h
index 76406db..bdbe815 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -237,12 +237,8 @@ basic_string<charT> &basic_string<charT>::operator+=(
 typedef basic_string<char> string;
 
 // stream
-ostream &operator<<(ostream &os, const string &s)
-{
-  os << s;
-
-  return os;
-}
+// (defined in nanoiostream.h)
+ostream &operator<<(ostream &os, const string &s);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value);
-- 
2.43.0


From 89f2a290a1c2b993e6c9324f694803182ff853d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:56 +0000
Subject: [PATCH 56/56] fix: inserting into different maps from different
 threads is not a data race

---
 include/nanomap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index a67cccd..b5fc499 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -49,7 +49,13 @@ typedef unsigned int priority_type;
 
 // https://ja.wikipedia.org/wiki/Xorshift
 static inline priority_type priority_rand() {
+#if (__cplusplus >= 201103L) && !defined(NANOSTL_NO_THREAD)
+  // One sequence per thread: inserting into different maps from different
+  // threads must not be a data race.
+  static thread_local priority_type y = 2463534242;
+#else
   static priority_type y = 2463534242;
+#endif
   y = y ^ (y << 13);
   y = y ^ (y >> 17);
   return y = y ^ (y << 5);
-- 
2.43.0


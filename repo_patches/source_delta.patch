From 3a0482224b5cb9d9777e0fccebf96cb95b6186c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 001/112] fix: memblock::reserve no longer truncates requests
 above 2G to 32 bits

---
 memblock.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..aaf0a5c 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -82,9 +82,8 @@ void memblock::reserve (size_type newSize, bool bExact)
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
-    const size_t alignedSize (NextPow2 (newSize));
-    if (!bExact)
-	newSize = alignedSize;
+    if (!bExact && newSize <= UINT32_MAX/2+1)	// NextPow2 is 32bit
+	newSize = NextPow2 (newSize);
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-- 
2.43.0


From 0fb5ed5500fcd6d1dc35410d7396e2e7f1c190b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 002/112] fix: memblock::reserve of a linked block always
 allocates space for its data

---
 memblock.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memblock.cc b/memblock.cc
index aaf0a5c..6108b9f 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -79,6 +79,7 @@ void memblock::assign (const void* p, size_type n)
 ///
 void memblock::reserve (size_type newSize, bool bExact)
 {
+    newSize = max (newSize, size());	// linked blocks are copied whole
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
-- 
2.43.0


From 9c697fef439cba725f7b6f4e6f06564d915c9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 003/112] fix: memblock copy-on-write does not read past the
 end of the linked block

---
 memblock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblock.cc b/memblock.cc
index 6108b9f..4181af0 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -89,7 +89,7 @@ void memblock::reserve (size_type newSize, bool bExact)
     if (!newBlock)
 	throw bad_alloc (newSize);
     if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+	fill_n (copy_n (cdata(), size(), newBlock), minimumFreeCapacity(), 0);
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From e7eb16c30b672302df369fa6f5e91c0f0ec64a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 004/112] fix: string::shrink_to_fit keeps the space for the
 null terminator

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index 4181af0..db47365 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -99,10 +99,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newSize (size() + minimumFreeCapacity());
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newSize));
+    if (!newBlock && newSize)
+	throw bad_alloc (newSize);
+    _capacity = newSize;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From 8f16b897eeeb22c219a62610cbddbe42426f13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 005/112] fix: string::format handles empty output and
 conversion errors

---
 ustring.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..37a125c 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -331,8 +331,8 @@ int string::vformat (const char* fmt, va_list args)
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
-	resize (rv);
-    } while (rv >= wcap);
+	resize (max (rv, 0));
+    } while (rv > 0 && rv >= wcap);
     return rv;
 }
 
-- 
2.43.0


From 36deeee2ffe16fca0926ba23b09431f10f1b8f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 006/112] fix: string reverse searches do not read outside an
 empty string

---
 ustring.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 37a125c..1d5fe96 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -262,7 +262,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (int i = min(pos,pos_type(size()-1)); !empty() && i >= 0; --i)
 	if (at(i) == c)
 	    return i;
     return npos;
@@ -302,7 +302,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (int i = min(size_type(pos),size()-1); !empty() && i >= 0; -- i)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
@@ -311,7 +311,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (int i = min(pos,pos_type(size()-1)); !empty() && i >= 0; -- i)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 5716f394c28a7d42ffec4182e2371885eec8d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 007/112] fix: string::rfind finds substrings at offsets 0 and
 1

---
 ustring.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 1d5fe96..b20cf79 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -271,14 +271,12 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    if (s.empty() || s.size() > min (pos, size()))
+	return npos;
+    for (const_iterator d = iat(pos) - s.size(); d >= begin(); -- d)
+	if (memcmp (d, s.c_str(), s.size()) == 0)
+	    return distance (begin(), d);
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
-- 
2.43.0


From 66c446ae7041da782d650ba958f1166e12288d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 008/112] fix: string append and assign accept a part of the
 string itself

---
 ustring.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index b20cf79..9a03b54 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -66,6 +66,11 @@ string& string::assign (const_pointer s)
 /// Assigns itself the value of string \p s of length \p len.
 string& string::assign (const_pointer s, size_type len)
 {
+    if (!is_linked() && s >= begin() && s < end()) {	// assigning own substring
+	::ustl::copy (s, s + len, begin());
+	resize (len);
+	return *this;
+    }
     resize (len);
     copy_n (s, len, begin());
     return *this;
@@ -82,8 +87,10 @@ string& string::append (const_pointer s)
 /// Appends to itself the value of string \p s of length \p len.
 string& string::append (const_pointer s, size_type len)
 {
+    const bool bSelf = s >= begin() && s < end();
+    const uoff_t so = bSelf ? s - begin() : 0;
     resize (size() + len);
-    copy_n (s, len, end() - len);
+    copy_n (bSelf ? begin() + so : s, len, end() - len);
     return *this;
 }
 
-- 
2.43.0


From 7fdf8be38c41e63d961167d9e7c30ea9dcb41c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 009/112] fix: a moved-from string is a valid empty string

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index c13eac2..d41ffe1 100644
--- a/ustring.h
+++ b/ustring.h
@@ -218,7 +218,7 @@ public:
     static hashvalue_t		hash (const char* f1, const char* l1) noexcept;
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    inline			string (string&& v)		: memblock (move(v)) {}
+    inline			string (string&& v)		: memblock() { relink ("",0); swap (v); }
     inline			string (initlist_t v)		: memblock() { assign (v.begin(), v.size()); }
     inline string&		assign (string&& v)		{ swap (v); return *this; }
     inline string&		assign (initlist_t v)		{ return assign (v.begin(), v.size()); }
-- 
2.43.0


From f43913ed28a3b906194b0b104d3f9141cb4f98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 010/112] fix: vector::push_back accepts an element of the
 vector itself

---
 uvector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uvector.h b/uvector.h
index 4e33096..938acb7 100644
--- a/uvector.h
+++ b/uvector.h
@@ -320,7 +320,10 @@ inline typename vector<T>::iterator vector<T>::erase (const_iterator ep1, const_
 template <typename T>
 inline void vector<T>::push_back (const T& v)
 {
-    construct_at (append_hole(1), v);
+    const bool bSelf = &v >= cdata() && &v < cend();	// append_hole may move v
+    const size_type vi = bSelf ? &v - cdata() : 0;
+    iterator d = append_hole(1);
+    construct_at (d, bSelf ? *iat(vi) : v);
 }
 
 #if HAVE_CPP11
-- 
2.43.0


From 01088a02371a0802d9f81bcfa8dfe91ef03bbd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 011/112] fix: copy of a queue does not bring back popped
 elements

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 5701e2c..9022f53 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
-- 
2.43.0


From 610fc62f8f6a386aa56a3cf388c383d64407ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 012/112] fix: queue and stack swap and move assignment compile

---
 uqueue.h | 2 +-
 ustack.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uqueue.h b/uqueue.h
index 9022f53..a38fe36 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -38,7 +38,7 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
diff --git a/ustack.h b/ustack.h
index 0599842..5d62502 100644
--- a/ustack.h
+++ b/ustack.h
@@ -31,7 +31,7 @@ public:
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From e8c7b6fc459cd27ee6004e4c45c822a48b39e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 013/112] fix: queue comparison ignores popped elements

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index a38fe36..8af561b 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -39,7 +39,7 @@ public:
 				    }
 				}
     inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
-    inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
+    inline bool			operator== (const queue& s) const	{ return size() == s.size() && equal (_storage.iat(_front), _storage.end(), s._storage.iat(s._front)); }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
-- 
2.43.0


From a99f09d94d360352a7015352f7fb0071a2f6f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 014/112] fix: priority_queue::pop uses the comparison of the
 queue

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..34b1a53 100644
--- a/uheap.h
+++ b/uheap.h
@@ -142,7 +142,7 @@ public:
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-- 
2.43.0


From efbcc1c1354e23887cfd723221089356cfdc06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 015/112] fix: priority_queue constructed from a container is a
 heap

---
 uheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uheap.h b/uheap.h
index 34b1a53..731d682 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,7 +135,7 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
@@ -146,7 +146,7 @@ public:
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
-- 
2.43.0


From 52f80fec875635dbd5419e6ac0c71c98e211cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 016/112] fix: priority_queue swap and move assignment compile

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 731d682..2a3ee67 100644
--- a/uheap.h
+++ b/uheap.h
@@ -143,7 +143,7 @@ public:
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
-- 
2.43.0


From b7fd7bd3972e36d3c461ca1b952d2f056428bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 017/112] fix: set::emplace_hint and hinted insert of an rvalue
 compile

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 51220d4..41b3c4b 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
-- 
2.43.0


From 988961b9a5469711a87e4db26b71c1befbcc64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 018/112] fix: set and multiset find use the comparison of the
 container

---
 umultiset.h | 2 +-
 uset.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..1923d2f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
diff --git a/uset.h b/uset.h
index 41b3c4b..666e7cb 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From 7394d67b0191dcc62319bf089e9951a5e6c946a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 019/112] fix: merge and inplace_merge are stable

---
 ualgo.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index c95b699..24402f8 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -240,10 +240,10 @@ OutputIterator merge (InputIterator1 first1, InputIterator1 last1,
 		      InputIterator2 first2, InputIterator2 last2, OutputIterator result)
 {
     for (; first1 != last1 && first2 != last2; ++result) {
-	if (*first1 < *first2)
-	    *result = *first1++;
-	else
+	if (*first2 < *first1)
 	    *result = *first2++;
+	else
+	    *result = *first1++;
     }
     if (first1 < last1)
 	return copy (first1, last1, result);
@@ -258,7 +258,7 @@ template <typename InputIterator>
 constexpr void inplace_merge (InputIterator first, InputIterator middle, InputIterator last)
 {
     for (; middle != last; ++first) {
-	while (*first < *middle)
+	while (first != middle && !(*middle < *first))
 	    ++ first;
 	reverse (first, middle);
 	reverse (first, ++middle);
-- 
2.43.0


From adab97f9e88f1d21d1c2c741ad4222ad5afe2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 020/112] fix: binary_search with a comparison functor does not
 find absent values

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..d71e60a 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -224,7 +224,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From 1f0ab7b061063b4e120d3d50670364e796a53f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 021/112] fix: find_end finds a match at the start of the range

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index d71e60a..d2de1e3 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -297,7 +297,7 @@ template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryP
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
     ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
+    for (; !(s < first1); --s) {
 	ForwardIterator2 i = first2, j = s;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
-- 
2.43.0


From eafbc2310790777baf13901b5eccb91e515aa156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 022/112] fix: search_n for zero elements matches at the start
 of the range

---
 upredalgo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upredalgo.h b/upredalgo.h
index d2de1e3..30213de 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -313,6 +313,8 @@ template <typename Iterator, typename T, typename BinaryPredicate>
 constexpr Iterator search_n (Iterator first, Iterator last, size_t count, const T& value, BinaryPredicate comp)
 {
     size_t n = 0;
+    if (!count)
+	return first;
     for (; first != last; ++first) {
 	if (!comp (*first, value))
 	    n = 0;
-- 
2.43.0


From b2eff8db3dc90f5407ac20c21eb436e782c871c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 023/112] fix: replace_copy and replace_copy_if return the end
 of the output

---
 ualgo.h     | 1 +
 upredalgo.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ualgo.h b/ualgo.h
index 24402f8..5b341bb 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
diff --git a/upredalgo.h b/upredalgo.h
index 30213de..7892aeb 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From ccf7b0d61dd8b371f835dac953694ee1629d8af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 024/112] fix: minmax_element returns the last of the largest
 elements

---
 ualgo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 5b341bb..919f31a 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -680,7 +680,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (*first < *r.first)
 	    r.first = first;
-	if (*r.second < *first)
+	if (!(*first < *r.second))
 	    r.second = first;
     }
     return r;
@@ -692,7 +692,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (comp (*first, *r.first))
 	    r.first = first;
-	if (comp (*r.second, *first))
+	if (!comp (*first, *r.second))
 	    r.second = first;
     }
     return r;
-- 
2.43.0


From 1c35757441ab609907f0c981c05c0763343e4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 025/112] fix: partial_sum returns the end of the output

---
 unumeric.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..73b4942 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -71,9 +71,9 @@ template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result)
 {
     if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
+	*result++ = *first++;
+    for (; first < last; ++first, ++result)
+	*result = *first + *(result - 1);
     return result;
 }
 
@@ -84,9 +84,9 @@ template <typename InputIterator, typename OutputIterator, typename BinaryOperat
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation sumOp)
 {
     if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
+	*result++ = *first++;
+    for (; first < last; ++first, ++result)
+	*result = sumOp (*first, *(result - 1));
     return result;
 }
 
-- 
2.43.0


From 1926205988d50a4370ea3b8f5d78b030d05920d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 026/112] fix: adjacent_difference advances through the range

---
 unumeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index 73b4942..7ce8183 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -98,7 +98,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = *first - *(first - 1);
     return result;
 }
@@ -111,7 +111,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = differenceOp (*first, *(first - 1));
     return result;
 }
-- 
2.43.0


From 9a0dd8c7a53296f3d6bff45d2082a456e7ae8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 027/112] fix: sort uses the comparison object it is given

---
 ualgo.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 919f31a..59e330d 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -428,13 +428,13 @@ void random_shuffle (RandomAccessIterator first, RandomAccessIterator last)
 	iter_swap (first, first + (rand() % distance (first, last)));
 }
 
-/// \brief Generic compare function adaptor to pass to qsort
+/// \brief Generic compare function adaptor to pass to qsort_r
 /// \ingroup FunctorObjects
 template <typename ConstPointer, typename Compare>
-constexpr int qsort_adapter (const void* p1, const void* p2)
+constexpr int qsort_adapter (const void* p1, const void* p2, void* pcomp)
 {
     ConstPointer i1 = static_cast<ConstPointer>(p1), i2 = static_cast<ConstPointer>(p2);
-    Compare comp;
+    Compare& comp = *static_cast<Compare*>(pcomp);
     return comp (*i1, *i2) ? -1 : (comp (*i2, *i1) ? 1 : 0);
 }
 
@@ -443,12 +443,12 @@ constexpr int qsort_adapter (const void* p1, const void* p2)
 /// \ingroup PredicateAlgorithms
 ///
 template <typename RandomAccessIterator, typename Compare>
-void sort (RandomAccessIterator first, RandomAccessIterator last, Compare)
+void sort (RandomAccessIterator first, RandomAccessIterator last, Compare comp)
 {
     typedef typename iterator_traits<RandomAccessIterator>::value_type value_type;
     typedef typename iterator_traits<RandomAccessIterator>::const_pointer const_pointer;
-    qsort (first, distance (first, last), sizeof(value_type),
-	   &qsort_adapter<const_pointer, Compare>);
+    qsort_r (first, distance (first, last), sizeof(value_type),
+	   &qsort_adapter<const_pointer, Compare>, &comp);
 }
 
 /// Sorts the container
-- 
2.43.0


From 2f9b36b815774833a682f6a782dfd6e5022b77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 028/112] fix: iterator adaptor differences have the right sign

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..7401114 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
@@ -310,7 +310,7 @@ public:
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From 194adb4429d5b12d93db61846d368f5b59c3db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 029/112] fix: move_iterator addition moves forward

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 7401114..dd1e4cb 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -307,8 +307,8 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
-- 
2.43.0


From c4b59138e78bb25c51819a8574b7af1b17153875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 030/112] fix: insert_iterator stays valid when written through
 a postfix increment

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index dd1e4cb..3e8afd0 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++ _ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From a9b1e2de80c91bb5902bea59708ea9b5edd759ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 031/112] fix: shared_ptr copy assignment compiles and allows
 self-assignment

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..1237a42 100644
--- a/umemory.h
+++ b/umemory.h
@@ -192,7 +192,7 @@ public:
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
     inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr(p).swap (*this); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From bcaf32654c31c4521620b8ce546288b073ba0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 032/112] fix: auto_ptr less than compares in the right order

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 1237a42..4091616 100644
--- a/umemory.h
+++ b/umemory.h
@@ -51,7 +51,7 @@ public:
     inline pointer	operator-> (void) const		{ return _p; }
     inline bool		operator== (const pointer p) const	{ return _p == p; }
     inline bool		operator== (const auto_ptr<T>& p) const	{ return _p == p._p; }
-    inline bool		operator< (const auto_ptr<T>& p) const	{ return p._p < _p; }
+    inline bool		operator< (const auto_ptr<T>& p) const	{ return _p < p._p; }
 private:
     pointer		_p;
 };
-- 
2.43.0


From 38a869ae71ecb762f7955a538119639b0f4466b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 033/112] fix: atomic operators return the value of their own
 update

Reading the result back with a second load let two threads dropping the
last two references of a shared_ptr both see zero and delete the object twice.
---
 uatomic.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..6f5547b 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -67,15 +67,15 @@ public:
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
     inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
-    inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
-    inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
-    inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-    inline atomic&	operator-= (T v)	{ sub_fetch (v); return *this; }
-    inline atomic&	operator&= (T v)	{ and_fetch (v); return *this; }
-    inline atomic&	operator|= (T v)	{  or_fetch (v); return *this; }
-    inline atomic&	operator^= (T v)	{ xor_fetch (v); return *this; }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (void)	{ return add_fetch (1); }
+    inline T		operator-- (void)	{ return sub_fetch (1); }
+    inline T		operator+= (T v)	{ return add_fetch (v); }
+    inline T		operator-= (T v)	{ return sub_fetch (v); }
+    inline T		operator&= (T v)	{ return and_fetch (v); }
+    inline T		operator|= (T v)	{ return  or_fetch (v); }
+    inline T		operator^= (T v)	{ return xor_fetch (v); }
 };
 #define ATOMIC_VAR_INIT	{0}
 
-- 
2.43.0


From cba0e7f3716d08dbb589221cddf4ba3591cce9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 034/112] fix: shared_ptr::use_count compiles

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 4091616..e0cb5e5 100644
--- a/umemory.h
+++ b/umemory.h
@@ -178,7 +178,7 @@ public:
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
-- 
2.43.0


From 833a94b9fd25acbd63e637b8b3d5f0b61f01513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 035/112] fix: istream::read_strz without a terminator does not
 move past the end

---
 mistream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..7b66a33 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -48,9 +48,11 @@ void istream::text_write (ostringstream& os) const
 void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
-    if (zp == end())
-	zp = ipos();
     const size_type strl = distance (ipos(), zp);
+    if (zp == end()) {
+	str.clear();
+	return overrun ("read", "string", strl+1, pos(), strl);
+    }
     str.assign (ipos(), strl);
     _pos += strl + 1;
 }
-- 
2.43.0


From d9cac819503eb57b40ba034d941887cd4d78a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 036/112] fix: ostringstream field width and precision above 9,
 and flags with a width

---
 sostream.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index f094b17..bc69b57 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -64,9 +64,12 @@ ostringstream& ostringstream::write (const void* buffer, size_type sz)
 /// Simple decimal encoding of \p n into \p fmt.
 inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 {
+    char* first = fmt;
     do {
 	*fmt++ = '0' + n % 10;
     } while (n /= 10);
+    for (char* last = fmt; first < --last; ++first)
+	::ustl::swap (*first, *last);
     return fmt;
 }
 
@@ -74,11 +77,9 @@ inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) const
 {
     *fmt++ = '%';
-    if (_width) {
-	if (_fill == '0')
-	    *fmt++ = '0';
-	fmt = encode_dec (fmt, _width);
-    }
+    // printf flags must precede the width
+    if (_width && _fill == '0')
+	*fmt++ = '0';
     if (_flags & left)
 	*fmt++ = '-';
     if (bInteger) {
@@ -86,7 +87,10 @@ void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) co
 	    *fmt++ = '+';
 	if (_flags & showbase)
 	    *fmt++ = '#';
-    } else {
+    }
+    if (_width)
+	fmt = encode_dec (fmt, _width);
+    if (!bInteger) {
 	*fmt++ = '.';
 	fmt = encode_dec (fmt, _precision);
     }
-- 
2.43.0


From 5593694b25bfdc48434d0046dca6653b60d03761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 037/112] fix: istringstream numbers end at the end of the
 stream data

---
 sistream.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 4081cc8..02de412 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -93,11 +93,30 @@ inline void istringstream::read_number (T& v)
     if (!skip_delimiters())
 	return;
     ungetc();
-    iterator ilast;
-    do {
-	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
-	skip (distance (ipos(), ilast));
-    } while (ilast == end() && underflow());
+    // Convert a terminated copy, because the stream may not be terminated,
+    // and the number may continue past the data available now.
+    string num;
+    size_type nused = 0;
+    try {
+	const_iterator i;
+	do {
+	    i = ipos();
+	    while (i < end() && isspace (uint8_t(*i)))
+		++i;
+	    while (i < end() && (isalnum (uint8_t(*i)) || *i == '+' || *i == '-' || *i == '.'))
+		++i;
+	    num.assign (ipos(), distance (ipos(), i));
+	    issiter_t nlast;
+	    str_to_num<T> (num.c_str(), &nlast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
+	    nused = distance (issiter_t(num.c_str()), nlast);
+	} while (i == end() && underflow (num.size()+1) > num.size());
+    } catch (...) {
+	skip (nused);
+	throw;
+    }
+    skip (nused);
+    if (!remaining())
+	underflow();
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
-- 
2.43.0


From b5acd9abc67309b8e0d576761e3162166c8ab694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 038/112] fix: istringstream::read returns all available bytes,
 get and peek work at the end

---
 sistream.cc | 5 ++---
 sistream.h  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 02de412..815145f 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -190,9 +190,8 @@ void istringstream::iread (string& v)
 istringstream& istringstream::read (void* buffer, size_type sz)
 {
     if (remaining() < sz && underflow(sz) < sz)
-	get (static_cast<char*>(buffer), sz, 0);
-    else
-	istream::read (buffer, _gcount = sz);
+	sz = remaining();
+    istream::read (buffer, _gcount = sz);
     return *this;
 }
 
diff --git a/sistream.h b/sistream.h
index 9070bdf..fe9abea 100644
--- a/sistream.h
+++ b/sistream.h
@@ -61,7 +61,7 @@ public:
     istringstream&		getline (char* p, size_type n, char delim = '\n');
     istringstream&		getline (string& s, char delim = '\n');
     istringstream&		ignore (size_type n, char delim = '\0');
-    inline char			peek (void)	{ char v = get(); ungetc(); return v; }
+    inline char			peek (void)	{ char v = get(); if (gcount()) ungetc(); return v; }
     inline istringstream&	unget (void)	{ ungetc(); return *this; }
     inline void			set_delimiters (const char* delimiters);
     istringstream&		read (void* buffer, size_type size);
-- 
2.43.0


From 743ccb9be7027a891723dfc50a8ee42ce3a358d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 039/112] fix: istringstream::ignore counts extracted
 characters

---
 sistream.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 815145f..53749e8 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -251,9 +251,10 @@ istringstream& istringstream::getline (char* p, size_type n, char delim)
 /// Extract until \p delim or \p n chars have been read.
 istringstream& istringstream::ignore (size_type n, char delim)
 {
-    _gcount = n;
-    while (n-- && (remaining() || underflow()) && get() != delim) {}
-    _gcount -= n;
+    size_type nRead = 0;
+    for (bool found = false; !found && nRead < n && (remaining() || underflow()); ++nRead)
+	found = (get() == delim);
+    _gcount = nRead;
     return *this;
 }
 
-- 
2.43.0


From 2a906f4ae67a920944d210793106d5ec8d0a2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 040/112] fix: reading a bool from text consumes the entire
 word

---
 sistream.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 53749e8..104294d 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -147,9 +147,13 @@ void istringstream::iread (bool& v)
     v = (c == 't' || c == '1');
     if (c != tf[v][0])
 	return;
-    for (const char* tv = tf[v]; c == *tv && (remaining() || underflow()); ++tv)
+    for (const char* tv = tf[v]; *++tv && (remaining() || underflow());) {
 	istream::iread (c);
-    ungetc();
+	if (c != *tv) {
+	    ungetc();
+	    break;
+	}
+    }
 }
 
 void istringstream::iread (string& v)
-- 
2.43.0


From 3d177a6fc5fd827993c0d66f4ae3341754d9c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 041/112] fix: an escaped backslash in a text string does not
 escape the next character

---
 sistream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sistream.cc b/sistream.cc
index 104294d..7d0a9a8 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -183,6 +183,7 @@ void istringstream::iread (string& v)
 		case '\\':	c = '\\'; break;
 	    };
 	    v.end()[-1] = c;
+	    c = 0;	// an escaped backslash does not escape the next character
 	} else {
 	    if (c == quoteChar)
 		break;
-- 
2.43.0


From 4c50d8ed0ce1251642e31d9e78ee9447e77c06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 042/112] fix: ofstream reports write errors instead of
 buffering without end

---
 ofstream.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ofstream.cc b/ofstream.cc
index fb99918..8ff67ff 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -57,12 +57,19 @@ void ofstream::close (void)
     clear (_file.rdstate());
     flush();
     _file.close();
+    setstate (_file.rdstate());
 }
 
 /// Flushes the buffer to the file.
 ostream& ofstream::flush (void)
 {
-    while (good() && pos() && overflow (capacity())) {}
+    while (good() && pos()) {
+	const size_type bw = _file.write (cdata(), pos());
+	setstate (_file.rdstate());
+	erase (begin(), bw);
+	if (!bw)	// would block
+	    break;
+    }
     return *this;
 }
 
@@ -80,6 +87,7 @@ ofstream::size_type ofstream::overflow (size_type n)
 {
     if (_file.good() && n > capacity() - pos()) {
 	size_type bw = _file.write (cdata(), pos());
+	setstate (_file.rdstate());
 	erase (begin(), bw);
     }
     return ostringstream::overflow (n);
-- 
2.43.0


From c25b1f6e26efd67cb394844447b7456b78308a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 043/112] fix: ifstream::underflow keeps unread data

---
 ofstream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 8ff67ff..9c3b1ce 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -144,9 +144,9 @@ ifstream::size_type ifstream::underflow (size_type n)
 	_buffer.memlink::erase (_buffer.begin(), nToErase);
 	const uoff_t oldPos (pos() - nToErase);
 
-	size_type br = oldPos;
-	if (_buffer.size() - br < n) {
-	    _buffer.resize (br + neededFreeSpace);
+	size_type br = oldPos + remaining();	// keep unread data
+	if (_buffer.size() - oldPos < n) {
+	    _buffer.resize (oldPos + neededFreeSpace);
 	    link (_buffer.data(), streamsize(0));
 	}
 	if (_file.fd() == STDIN_FILENO)
-- 
2.43.0


From 819ef32e13263d6c034a6ca1f4d45122c3ef3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 044/112] fix: ifstream::seekg from the current position
 accounts for unread data

---
 ofstream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ofstream.cc b/ofstream.cc
index 9c3b1ce..5e50f78 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -178,6 +178,8 @@ int ifstream::sync (void)
 /// Seeks to \p p based on \p d.
 ifstream& ifstream::seekg (off_t p, seekdir d)
 {
+    if (d == cur)	// the file is already past the unread data
+	p -= remaining();
     _buffer.clear();
     link (_buffer);
     _file.seekg (p, d);
-- 
2.43.0


From e166ca88487f9e35b62e0dae3593b7af01affbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 045/112] fix: fstream keeps the name of a file opened while
 another is open

---
 fstream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 37e9cc5..7274b18 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -64,11 +64,11 @@ void fstream::set_and_throw (iostate s, const char* op)
 void fstream::attach (int nfd, const char* filename)
 {
     assert (filename && "Don't do that");
-    _filename = filename;
     clear (goodbit);
+    close();	// resets the filename
+    _filename = filename;
     if (nfd < 0)
 	set_and_throw (badbit, "open");
-    close();
     _fd = nfd;
 }
 
-- 
2.43.0


From 615ed52e9aec530c8abc9122258998805850203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 046/112] fix: fstream::mmap returns an empty link on failure

---
 fstream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstream.cc b/fstream.cc
index 7274b18..eb91a4c 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -242,8 +242,10 @@ void fstream::set_nonblock (bool v) noexcept
 memlink fstream::mmap (off_t n, off_t offset)
 {
     void* result = ::mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, _fd, offset);
-    if (result == MAP_FAILED)
+    if (result == MAP_FAILED) {
 	set_and_throw (failbit, "mmap");
+	return memlink();
+    }
     return memlink (result, n);
 }
 
-- 
2.43.0


From d90b7d8dfc33a016f477d22f749b60168b152760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 047/112] fix: CBacktrace without symbols can be copied and
 printed, and assignment does not leak

---
 bktrace.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 7be0f3d..9746b8d 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -37,10 +37,13 @@ CBacktrace::CBacktrace (const CBacktrace& v) noexcept
 /// Copy operator.
 const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 {
+    if (&v == this)
+	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
-    _symbols = strdup (v._symbols);
+    nfree (_symbols);
+    _symbols = v._symbols ? strdup (v._symbols) : nullptr;
     _nFrames = v._nFrames;
-    _symbolsSize = v._symbolsSize;
+    _symbolsSize = _symbols ? v._symbolsSize : 0;
     return *this;
 }
 
@@ -100,7 +103,11 @@ void CBacktrace::text_write (ostringstream& os) const
     const char *ss = _symbols, *se;
     for (uoff_t i = 0; i < _nFrames; ++ i) {
 	os.format (ADDRESS_FMT, _addresses[i]);
-	se = strchr (ss, '\n') + 1;
+	if (!ss || !(se = strchr (ss, '\n'))) {	// no symbol for this frame
+	    os << '\n';
+	    continue;
+	}
+	++se;
 	os.write (ss, distance (ss, se));
 	ss = se;
     }
-- 
2.43.0


From 895bb1535331415ce74d5741a6937dc253273eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 048/112] fix: CBacktrace::read checks the sizes in the stream

---
 bktrace.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 9746b8d..d87ad2e 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -6,6 +6,7 @@
 #include "bktrace.h"
 #include "sostream.h"
 #include "mistream.h"
+#include "ustdxept.h"
 #if HAVE_EXECINFO_H
     #include <execinfo.h>
 #else
@@ -117,9 +118,24 @@ void CBacktrace::text_write (ostringstream& os) const
 void CBacktrace::read (istream& is)
 {
     assert (is.aligned (stream_align_of (_addresses[0])) && "Backtrace object contains pointers and must be void* aligned");
-    is >> _nFrames >> _symbolsSize;
+    uint32_t nFrames = 0, symbolsSize = 0;
+    is >> nFrames >> symbolsSize;
     nfree (_symbols);
-    _symbols = static_cast<char*> (malloc (_symbolsSize + 1));
+    _symbols = nullptr;
+    _nFrames = _symbolsSize = 0;
+    // Sizes from the stream must fit both the stream and this object
+    if (!is.verify_remaining ("read", "ustl::CBacktrace", Align(size_t(symbolsSize)) + nFrames * sizeof(void*)))
+	return;
+    if (nFrames > VectorSize(_addresses)) {
+	is.setstate (ios_base::failbit);
+	if (is.exceptions() & ios_base::failbit)
+	    throw stream_bounds_exception ("read", "ustl::CBacktrace", is.pos(), nFrames * sizeof(void*), sizeof(_addresses));
+	return;
+    }
+    if (!(_symbols = static_cast<char*> (malloc (symbolsSize + 1u))))
+	throw bad_alloc (symbolsSize + 1u);
+    _nFrames = nFrames;
+    _symbolsSize = symbolsSize;
     is.read (_symbols, _symbolsSize);
     _symbols [_symbolsSize] = 0;
     is.align();
-- 
2.43.0


From 893b841e0040e8da79d4d6f1132cb2c846624100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 049/112] fix: demangle_type_name does not free a stack buffer
 when the name is long

---
 uexception.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 8cfacc8..1a8d712 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -70,14 +70,14 @@ const char* demangle_type_name (char* buf, size_t bufSize, size_t* pdmSize) noex
 {
     size_t bl = strlen (buf);
 #if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
-    char dmname [256];
-    size_t sz = VectorSize(dmname);
+    // The output buffer must be malloced, because __cxa_demangle frees it if it is too small
     int bFailed;
-    __cxa_demangle (buf, dmname, &sz, &bFailed);
-    if (!bFailed) {
+    char* dmname = __cxa_demangle (buf, nullptr, nullptr, &bFailed);
+    if (dmname) {
 	bl = min (strlen (dmname), bufSize - 1);
 	memcpy (buf, dmname, bl);
 	buf[bl] = 0;
+	free (dmname);
     }
 #else
     bl = min (bl, bufSize);
-- 
2.43.0


From 14630251f547b525718c3772bddd232c9e09ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 050/112] fix: CBacktrace symbols from files with a plus sign
 in the name

---
 bktrace.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bktrace.cc b/bktrace.cc
index d87ad2e..36fe408 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -58,7 +58,7 @@ static size_t ExtractAbiName (const char* isym, char* nmbuf) noexcept
 	const char* mnStart = strchr (isym, '(');
 	if (++mnStart == reinterpret_cast<const char*>(1))
 	    mnStart = isym;
-	const char* mnEnd = strchr (isym, '+');
+	const char* mnEnd = strchr (mnStart, '+');
 	const char* isymEnd = isym + strlen (isym);
 	if (!mnEnd)
 	    mnEnd = isymEnd;
-- 
2.43.0


From 70f80e66ba5a4247be03a472e50880fcd19dec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 051/112] fix: hrtime_t increment carries into seconds

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 5e986c4..0e91b72 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -189,7 +189,7 @@ struct hrtime_t : public timespec {
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
     inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
     constexpr hrtime_t&		operator++ (void) {
-				    if (++tv_nsec > nano::den) {
+				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
-- 
2.43.0


From aa519e7b3dc731ab2aee53ef2d59b10e3724aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 052/112] fix: hrtime_t division by a number above 1

---
 uchrono.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 0e91b72..eeaa8a5 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -230,8 +230,7 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-				    tv_nsec /= v;
-				    tv_nsec += (tv_sec % v) * nano::den;
+				    tv_nsec = ((tv_sec % v) * nano::den + tv_nsec) / v;
 				    tv_sec /= v;
 				    return *this;
 				}
-- 
2.43.0


From a6339a1fc33dc4f5f06075f508e92baa48995339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 053/112] fix: Rol and Ror by zero bits do not shift by the
 type width

---
 uutility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uutility.h b/uutility.h
index 3c13f29..8a5e6fd 100644
--- a/uutility.h
+++ b/uutility.h
@@ -290,14 +290,14 @@ inline uint32_t NextPow2 (uint32_t v)
 template <typename T>
 inline constexpr T Rol (T v, size_t n)
 {
-    return (v << n) | (v >> (BitsInType(T)-n));
+    return (v << n) | (v >> ((BitsInType(T)-n)%BitsInType(T)));
 }
 
 /// Bitwise rotate value right
 template <typename T>
 inline constexpr T Ror (T v, size_t n)
 {
-    return (v >> n) | (v << (BitsInType(T)-n));
+    return (v >> n) | (v << ((BitsInType(T)-n)%BitsInType(T)));
 }
 
 /// \brief This template is to be used for dereferencing a type-punned pointer without a warning.
-- 
2.43.0


From 36748f55287ab84bd02ccc1de623b15d95eadaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 054/112] fix: UTF-8 encoding of values above 0x7FFFFFFF

---
 utf8.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8.h b/utf8.h
index 7fb47d0..38eaadd 100644
--- a/utf8.h
+++ b/utf8.h
@@ -131,7 +131,7 @@ void utf8in_iterator<Iterator,WChar>::Read (void)
     size_t nBytes = Utf8SequenceBytes (c);
     _v = c & (0xFF >> nBytes);	// First byte contains bits after the header.
     while (--nBytes && *++_i)	// Each subsequent byte has 6 bits.
-	_v = (_v << 6) | (*_i & 0x3F);
+	_v = (uint32_t(_v) << 6) | (*_i & 0x3F);
 }
 
 /// Returns the distance in characters (as opposed to the distance in bytes).
@@ -183,10 +183,11 @@ utf8out_iterator<Iterator,WChar>& utf8out_iterator<Iterator,WChar>::operator= (W
     if (nBytes > 1) {
 	// Write the bits 6 bits at a time, except for the first one,
 	// which may be less than 6 bits.
+	const uint64_t uv = uint32_t(v);	// 7 byte values shift by more than 32 bits
 	wchar_t shift = nBytes * 6;
-	*_i++ = ((v >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
+	*_i++ = ((uv >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
 	while (shift)
-	    *_i++ = ((v >> (shift -= 6)) & 0x3F) | 0x80;
+	    *_i++ = ((uv >> (shift -= 6)) & 0x3F) | 0x80;
     } else	// If only one byte, there is no header.
 	*_i++ = v;
     return *this;
-- 
2.43.0


From a45e3895c127a20cc8f3bd9d1b1e087d20caacd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 055/112] fix: SSE packed operations declare the registers they
 change

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 74d97a1..f05c517 100644
--- a/simd.h
+++ b/simd.h
@@ -389,7 +389,7 @@ MMX_DBL_IPASSIGN_SPEC(4,int32_t)
 #endif // __MMX__
 
 #if __SSE__
-#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "memory"
+#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "xmm1", "memory"
 #define SSE_PKOP2_SPEC(n,type,optype,instruction)	\
 SIMD_PKOP2_SPEC(n,type,optype)		\
 { asm ("movups %0, %%xmm0\n\tmovups %1, %%xmm1\n\t" #instruction " %%xmm1, %%xmm0\n\tmovups %%xmm0, %0" : STD_SSE_ARGS);}
-- 
2.43.0


From eae4a2e3cdc677b0a405864f4f76604605dc98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 056/112] fix: packed average of signed integers is not
 computed as unsigned

---
 simd.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simd.h b/simd.h
index f05c517..45b22d1 100644
--- a/simd.h
+++ b/simd.h
@@ -343,9 +343,7 @@ MMX_DBL_PKOP2_SPEC(4,int32_t,bitwise_xor,pxor)
 
 #if __SSE2__ || __3DNOW__
 MMX_PKOP2_SPEC(8,uint8_t,fpavg,pavgb)
-MMX_PKOP2_SPEC(8,int8_t,fpavg,pavgb)
 MMX_PKOP2_SPEC(4,uint16_t,fpavg,pavgw)
-MMX_PKOP2_SPEC(4,int16_t,fpavg,pavgw)
 MMX_PKOP2_SPEC(8,uint8_t,fpmin,pminub)
 MMX_PKOP2_SPEC(8,uint8_t,fpmax,pmaxub)
 MMX_PKOP2_SPEC(4,int16_t,fpmax,pmaxsw)
-- 
2.43.0


From 6db1dac5c2506bbb4ce241c89bd0c86fe50bda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 057/112] fix: copy assignment of list, queue, stack and
 priority_queue compiles

---
 uheap.h  | 2 ++
 ulist.h  | 1 +
 uqueue.h | 1 +
 ustack.h | 1 +
 4 files changed, 5 insertions(+)

diff --git a/uheap.h b/uheap.h
index 2a3ee67..8c72161 100644
--- a/uheap.h
+++ b/uheap.h
@@ -138,6 +138,8 @@ public:
     constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
+				priority_queue (const priority_queue& v)	: _v(v._v), _c(v._c) {}
+    inline const priority_queue&	operator= (const priority_queue& v)	{ _v = v._v; _c = v._c; return *this; }
     constexpr size_type		size (void) const	{ return _v.size(); }
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
diff --git a/ulist.h b/ulist.h
index a911529..81be45d 100644
--- a/ulist.h
+++ b/ulist.h
@@ -28,6 +28,7 @@ public:
     inline			list (size_type n, const T& v)	: vector<T> (n, v) {}
     inline			list (const list<T>& v)		: vector<T> (v) {}
     inline			list (const_iterator i1, const_iterator i2)	: vector<T> (i1, i2) {}
+    inline const list&		operator= (const list& v)	{ vector<T>::operator= (v); return *this; }
     inline size_type		size (void) const		{ return vector<T>::size(); }
     inline iterator		begin (void)			{ return vector<T>::begin(); }
     inline const_iterator	begin (void) const		{ return vector<T>::begin(); }
diff --git a/uqueue.h b/uqueue.h
index 8af561b..fafe657 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -25,6 +25,7 @@ public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
     explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
+    inline const queue&		operator= (const queue& s)	{ _storage = s._storage; _front = s._front; return *this; }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
diff --git a/ustack.h b/ustack.h
index 5d62502..c27f5cf 100644
--- a/ustack.h
+++ b/ustack.h
@@ -25,6 +25,7 @@ public:
     inline			stack (void)			: _storage () { }
     explicit inline		stack (const container_type& s)	: _storage (s) { }
     explicit inline		stack (const stack& s)		: _storage (s._storage) { }
+    inline const stack&		operator= (const stack& s)	{ _storage = s._storage; return *this; }
     inline bool			empty (void) const		{ return _storage.empty(); }
     inline size_type		size (void) const		{ return _storage.size(); }
     inline reference		top (void)			{ return _storage.back(); }
-- 
2.43.0


From dad9af7dd1ac28a8a76e13a0490ed2cafa4a999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 058/112] fix: copy_backward_fast of unaligned ranges

---
 ualgobase.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..efa43c7 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -141,7 +141,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     prefetch (result, 1, 0);
     size_t nBytes (distance (first, last));
     movsb_dir_down();
-    size_t nHeadBytes = uintptr_t(last) % 4;
+    size_t nHeadBytes = min (size_t(uintptr_t(last) % 4), nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
@@ -151,6 +151,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From 663cf5d3faf9ee02645a744bb5d7d8862605422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 059/112] fix: construct_at from an rvalue, uninitialized_move
 and uninitialized_value_construct compile

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index e0cb5e5..e17d684 100644
--- a/umemory.h
+++ b/umemory.h
@@ -321,7 +321,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move (value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From 87bedfd337ec2ec975c27d9f2c8790b9bdbe42b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 060/112] fix: string::replace by the same length copies linked
 data before writing

---
 ustring.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index 9a03b54..f8b0158 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -237,6 +237,11 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
 	rp = memblock::erase (rp, bte - bti);
     else if (bte < bti)
 	rp = memblock::insert (rp, bti - bte);
+    else {	// copy-on-write
+	const uoff_t rpo = rp - begin();
+	reserve (size());
+	rp = iat (rpo);
+    }
     fill (rp, i1, distance(i1, i2), n);
     *end() = 0;
     return *this;
-- 
2.43.0


From cd5131c8b247ba58f9adf8457f2d935ea52708b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 061/112] fix: string::insert of a string at an offset inserts
 it once

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index d41ffe1..d0f8afe 100644
--- a/ustring.h
+++ b/ustring.h
@@ -157,7 +157,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From a07fa253e181784368cdc7d721cd1dc15790926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 062/112] fix: string::find of a counted pattern does not
 require it to be terminated

---
 ustring.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index f8b0158..90dcd51 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -260,9 +260,9 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
     if (s.empty() || s.size() > size() - pos)
 	return npos;
     pos_type endi = s.size() - 1;
-    value_type endchar = s[endi];
+    value_type endchar = s.at (endi);
     pos_type lastPos = endi;
-    while (lastPos-- && s[lastPos] != endchar) {}
+    while (lastPos-- && s.at (lastPos) != endchar) {}
     const size_type skip = endi - lastPos;
     const_iterator i = iat(pos) + endi;
     for (; i < end() && (i = ::ustl::find (i, end(), endchar)) < end(); i += skip)
-- 
2.43.0


From fbb9051e3866ef6269fd4ce358c9ec513f226df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 063/112] fix: distance to a multibyte character counts it once

---
 utf8.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utf8.h b/utf8.h
index 38eaadd..6f1b691 100644
--- a/utf8.h
+++ b/utf8.h
@@ -140,8 +140,10 @@ typename utf8in_iterator<Iterator,WChar>::difference_type
 utf8in_iterator<Iterator,WChar>::operator- (const utf8in_iterator<Iterator,WChar>& last) const
 {
     difference_type dist = 0;
-    for (Iterator first (last._i); first < _i; ++dist)
-	advance (first, Utf8SequenceBytes (*first));
+    for (Iterator first (last._i); first < _i; ++dist) {	// each points to the last byte of its character
+	++first;
+	advance (first, Utf8SequenceBytes (*first) - 1);
+    }
     return dist;
 }
 
-- 
2.43.0


From 760f893ddcfcc638e865a1bee40ff1cf77c349e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 064/112] fix: copy_backward of bytes and shorts returns the
 start of the result

---
 ualgobase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.h b/ualgobase.h
index 1d9b28a..cb0ef34 100644
--- a/ualgobase.h
+++ b/ualgobase.h
@@ -200,7 +200,7 @@ template <>
 inline uint8_t* copy_backward (const uint8_t* first, const uint8_t* last, uint8_t* result)
 {
     copy_backward_fast (first, last, result);
-    return result;
+    return result - distance (first, last);
 }
 
 template <typename T>
-- 
2.43.0


From 670dfd127e2c9d8c641deb87af1f46e73eb91d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 065/112] fix: reading past a failed alignment reports it
 instead of asserting

---
 mistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.h b/mistream.h
index 4e32a1f..91b3760 100644
--- a/mistream.h
+++ b/mistream.h
@@ -221,13 +221,13 @@ inline void istream::align (streamsize grain)
 template <typename T>
 inline void istream::iread (T& v)
 {
-    assert (aligned (stream_align_of (v)));
 #if WANT_STREAM_BOUNDS_CHECKING
     if (!verify_remaining ("read", typeid(v).name(), sizeof(T)))
 	return;
 #else
     assert (remaining() >= sizeof(T));
 #endif
+    assert (aligned (stream_align_of (v)));
     v = *reinterpret_cast<const T*>(ipos());
     _pos += sizeof(T);
 }
-- 
2.43.0


From 7d4a15dd9b9f85105d4542f6129165b7f0dba9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 066/112] fix: reading a string or bool past the end does not
 use uninitialized data

---
 strmsize.h | 2 +-
 ustring.cc | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/strmsize.h b/strmsize.h
index 43f1f40..9797c6a 100644
--- a/strmsize.h
+++ b/strmsize.h
@@ -69,7 +69,7 @@ namespace ustl {		\
 /// Declares that T is to be cast into TSUB for streaming.
 #define CAST_STREAMABLE(T,TSUB)	\
     namespace ustl {		\
-	inline istream& operator>> (istream& is, T& v)		{ TSUB sv; is >> sv; v = T(sv); return is; }	\
+	inline istream& operator>> (istream& is, T& v)		{ TSUB sv = TSUB(); is >> sv; v = T(sv); return is; }	\
 	inline ostream& operator<< (ostream& os, const T& v)	{ os << TSUB(v); return os; }			\
 	template<> inline constexpr streamsize stream_size_of(const T& v)	{ return stream_size_of (TSUB(v)); }		\
     }
diff --git a/ustring.cc b/ustring.cc
index 90dcd51..c5c26f2 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -366,6 +366,7 @@ size_t string::stream_size (void) const noexcept
 void string::read (istream& is)
 {
     char szbuf [8];
+    if (!is.verify_remaining ("read", "ustl::string", sizeof(szbuf[0]))) return;
     is >> szbuf[0];
     size_t szsz (Utf8SequenceBytes (szbuf[0]) - 1), n = 0;
     if (!is.verify_remaining ("read", "ustl::string", szsz)) return;
-- 
2.43.0


From 61958548d81e20c3cbfa205e4a8e91a54e79887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 067/112] fix: ostringstream constructed from a literal does
 not write to it

---
 sostream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index bc69b57..c3355fc 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -27,13 +27,14 @@ ostringstream::ostringstream (void* p, size_t n) noexcept
 /// Creates an output string stream, initializing the buffer with v.
 ostringstream::ostringstream (const string& v)
 : ostream()
-,_buffer (v)
+,_buffer()
 ,_flags (0)
 ,_width (0)
 ,_precision (2)
 ,_fill (0)
 {
     exceptions (goodbit);
+    _buffer = v;	// copies, because v may be linked to a literal
     ostream::link (_buffer);
 }
 
-- 
2.43.0


From f1e12da62beabc86e076d9df9c594725acddbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 068/112] fix: ostringstream over a fixed buffer keeps text
 written after a flush when it overflows

---
 sostream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sostream.cc b/sostream.cc
index c3355fc..d3adf68 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -166,6 +166,8 @@ ostringstream::size_type ostringstream::overflow (size_type n)
 {
     if (n > remaining() && (good() || n <= capacity() - pos())) {
 	const uoff_t oldPos (pos());
+	if (_buffer.is_linked() && begin())	// flush may have shortened the link
+	    _buffer.link (begin(), size());
 	_buffer.reserve (oldPos + n, false);
 	_buffer.resize (oldPos + n);
 	ostream::link (_buffer);
-- 
2.43.0


From 22cf27758152342c2313e5ea7f1b5ecdcb6edb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 069/112] fix: ostringstream over a fixed buffer gives all text
 after a flush, and does not grow after a failure

---
 sostream.cc | 17 ++++++++++++++---
 sostream.h  |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index d3adf68..08f2cc5 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -161,13 +161,24 @@ void ostringstream::link (void* p, size_type n) noexcept
     _buffer.link (p, n);
 }
 
+/// Makes the text written so far available through str().
+ostream& ostringstream::flush (void)
+{
+    ostream::flush();
+    if (_buffer.begin() != begin())	// writing to a linked buffer
+	_buffer.assign (begin(), pos());
+    else
+	_buffer.resize (pos());
+    return *this;
+}
+
 /// Attempts to create more output space. Returns remaining().
 ostringstream::size_type ostringstream::overflow (size_type n)
 {
-    if (n > remaining() && (good() || n <= capacity() - pos())) {
+    if (n > remaining() && (good() || pos() + n <= capacity())) {
 	const uoff_t oldPos (pos());
-	if (_buffer.is_linked() && begin())	// flush may have shortened the link
-	    _buffer.link (begin(), size());
+	if (_buffer.begin() != begin())	// still in the linked buffer after a flush
+	    _buffer.assign (begin(), oldPos);
 	_buffer.reserve (oldPos + n, false);
 	_buffer.resize (oldPos + n);
 	ostream::link (_buffer);
diff --git a/sostream.h b/sostream.h
index 0c394c8..4ebe475 100644
--- a/sostream.h
+++ b/sostream.h
@@ -68,7 +68,7 @@ public:
     ostringstream&		write (const void* buffer, size_type size);
     inline ostringstream&	write (const cmemlink& buf)	{ return write (buf.begin(), buf.size()); }
     inline ostringstream&	seekp (off_t p, seekdir d =beg)	{ ostream::seekp(p,d); return *this; }
-    virtual ostream&		flush (void) override		{ ostream::flush(); _buffer.resize (pos()); return *this; }
+    virtual ostream&	flush (void) override;
     virtual size_type		overflow (size_type n = 1) override;
 protected:
     inline void			reserve (size_type n)		{ _buffer.reserve (n, false); }
-- 
2.43.0


From c66e37eb352dc496a8c086abe8a0794f40c9d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 070/112] fix: fstream does not close the descriptor again when
 close fails

---
 fstream.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index eb91a4c..f498f4f 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -118,12 +118,11 @@ void fstream::close (void)
 {
     if (_fd < 0)
 	return;	// already closed
-    while (::close(_fd)) {
-	if (errno != EINTR) {
-	    set_and_throw (badbit | failbit, "close");
-	    break;
-	}
-    }
+    int r;
+    while ((r = ::close(_fd)) && errno == EINTR) {}
+    _fd = -1;	// even if close fails, the fd is not open any more
+    if (r)
+	set_and_throw (badbit | failbit, "close");
     detach();
 }
 
-- 
2.43.0


From 74a74c5d303c545430084a8183d5e3406635e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 071/112] fix: ifstream::open drops unread data of the previous
 file

---
 ofstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ofstream.h b/ofstream.h
index 413ba5a..7478ed0 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -47,7 +47,7 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode); clear (_file.rdstate()); }
     inline void		close (void)			{ _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
-- 
2.43.0


From 4b395049e0e5630d1c39ecdfc3d692bdc2f39567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 072/112] fix: ifstream of an invalid descriptor reports it in
 the state

---
 ofstream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ofstream.cc b/ofstream.cc
index 5e50f78..1b2178b 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -111,6 +111,7 @@ ifstream::ifstream (int ifd)
 ,_file (ifd)
 {
     set_buffer_size (default_stream_buffer_size);
+    clear (_file.rdstate());
 }
 
 /// Constructs a stream to read from \p filename.
-- 
2.43.0


From eb25dd5c26e6753147aac68bbb700f5e29d5aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 073/112] fix: fstream::open reports its own error when it also
 closes a file

---
 fstream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fstream.cc b/fstream.cc
index f498f4f..c73b177 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -64,9 +64,11 @@ void fstream::set_and_throw (iostate s, const char* op)
 void fstream::attach (int nfd, const char* filename)
 {
     assert (filename && "Don't do that");
+    const int openErrno = errno;
     clear (goodbit);
     close();	// resets the filename
     _filename = filename;
+    errno = openErrno;
     if (nfd < 0)
 	set_and_throw (badbit, "open");
     _fd = nfd;
-- 
2.43.0


From a68288e7d49b9e6df57e974ac337e731ec898ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 074/112] fix: ifstream keeps the data read before a read error
 that throws

---
 ofstream.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 1b2178b..e7608a2 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -154,8 +154,16 @@ ifstream::size_type ifstream::underflow (size_type n)
 	    cout.flush();
 
 	size_type brn = 1;
-	for (; br < oldPos + n && brn && _file.good(); br += brn)
-	    brn = _file.readsome (_buffer.begin() + br, _buffer.size() - br);
+	try {
+	    for (; br < oldPos + n && brn && _file.good(); br += brn)
+		brn = _file.readsome (_buffer.begin() + br, _buffer.size() - br);
+	} catch (...) {	// keep what has been read
+	    istringstream::setstate (_file.rdstate());
+	    _buffer[br] = 0;
+	    link (_buffer.data(), br);
+	    seek (oldPos);
+	    throw;
+	}
 	clear (_file.rdstate());
 
 	_buffer[br] = 0;
-- 
2.43.0


From c8e739c0342a6208000ca2cff85cec65b3112951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 075/112] fix: ofstream with exceptions on does not write the
 same data again after an error

---
 ofstream.cc | 28 +++++++++++++++++++++-------
 ofstream.h  |  2 ++
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index e7608a2..c9781f8 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -6,6 +6,7 @@
 #include "ofstream.h"
 #include "ustring.h"
 #include "uexception.h"
+#include "ustdxept.h"
 #include <stdio.h>
 
 namespace ustl {
@@ -60,14 +61,29 @@ void ofstream::close (void)
     setstate (_file.rdstate());
 }
 
+/// Writes the buffer to the file, keeping only what was not written.
+ofstream::size_type ofstream::write_buffer (void)
+{
+    const size_type n = pos();
+    const iostate ex = _file.exceptions();
+    _file.exceptions (goodbit);	// do not throw until the buffer is updated
+    const size_type bw = _file.write (cdata(), n);
+    _file.exceptions (ex);
+    setstate (_file.rdstate());
+    erase (begin(), bw);
+    if (_file.rdstate() & ex) {
+	if (_file.eof())
+	    throw stream_bounds_exception ("write", _file.name().c_str(), _file.pos() - bw, n, bw);
+	throw file_exception ("write", _file.name().c_str());
+    }
+    return bw;
+}
+
 /// Flushes the buffer to the file.
 ostream& ofstream::flush (void)
 {
     while (good() && pos()) {
-	const size_type bw = _file.write (cdata(), pos());
-	setstate (_file.rdstate());
-	erase (begin(), bw);
-	if (!bw)	// would block
+	if (!write_buffer())	// would block
 	    break;
     }
     return *this;
@@ -86,9 +102,7 @@ ofstream& ofstream::seekp (off_t p, seekdir d)
 ofstream::size_type ofstream::overflow (size_type n)
 {
     if (_file.good() && n > capacity() - pos()) {
-	size_type bw = _file.write (cdata(), pos());
-	setstate (_file.rdstate());
-	erase (begin(), bw);
+	write_buffer();
     }
     return ostringstream::overflow (n);
 }
diff --git a/ofstream.h b/ofstream.h
index 7478ed0..22912ef 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -35,6 +35,8 @@ public:
     ofstream&		seekp (off_t p, seekdir d = beg);
     virtual ostream&	flush (void) override;
     virtual size_type	overflow (size_type n = 1) override;
+private:
+    size_type		write_buffer (void);
 private:
     fstream		_file;
 };
-- 
2.43.0


From f94f468719e2b365cde316ca18a85f1ebc54f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 076/112] fix: getline into a buffer filled to its end takes
 the delimiter also when it is not read yet

---
 sistream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.cc b/sistream.cc
index 7d0a9a8..0f6c5cc 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -246,7 +246,7 @@ istringstream& istringstream::getline (string& s, char delim)
 istringstream& istringstream::getline (char* p, size_type n, char delim)
 {
     get (p, n, delim);
-    if (remaining() && ipos()[0] == delim) {
+    if ((remaining() || underflow()) && ipos()[0] == delim) {
 	skip (1);
 	++_gcount;
     }
-- 
2.43.0


From 29f978a0d839d83ed63721adc2c999a6e724a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 077/112] fix: formatted text cut at the end of the buffer does
 not include the terminator

---
 sostream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index 08f2cc5..e088936 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -139,7 +139,7 @@ int ostringstream::vformat (const char* fmt, va_list args)
 	if (0 > (rv = vsnprintf (ipos(), space, fmt, args2)))
 	    return rv;
     } while (rv >= space && rv < int(overflow(rv+1)));
-    SetPos (pos() + min (rv, space));
+    SetPos (pos() + min (rv, max (space-1, 0)));	// without the terminator
     return rv;
 }
 
-- 
2.43.0


From f5f4c4e424b8144db898c24c05eeb177781242dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 078/112] fix: unique_ptr of array can be reset to null, or
 assigned an empty one, when empty

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index e17d684..5e90acd 100644
--- a/umemory.h
+++ b/umemory.h
@@ -112,7 +112,7 @@ public:
     inline			~unique_ptr (void)		{ delete [] _p; }
     inline constexpr pointer	get (void) const		{ return _p; }
     inline pointer			release (void)			{ auto rv (_p); _p = nullptr; return rv; }
-    inline void			reset (pointer p)		{ assert (p != _p); auto ov (_p); _p = p; delete [] ov; }
+    inline void			reset (pointer p = nullptr)	{ assert (p != _p || !p); auto ov (_p); _p = p; delete [] ov; }
     inline void			swap (unique_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return _p != nullptr; }
     inline unique_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-- 
2.43.0


From e16547ddf50479b552ca364c1eda685200201fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 079/112] fix: bitset::set of a bit range also clears the bits
 that are zero in the value

---
 ubitset.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..dafa8d3 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,14 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
 			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    const value_type mask (first < last ? BitMask(value_type,distance(first,last)) << (first % s_WordBits) : 0);
+			    value_type& br (BitRef (first));
+			    br = (br & ~mask) | ((v << (first % s_WordBits)) & mask);
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
-- 
2.43.0


From 7ba26afece4af45e4e69ecd4b2e3daa5726cd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 080/112] fix: 4x4 float matrix multiplication and
 transformation use the second component

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..b727e5a 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From 7f6cf261d8743653f22dffbf26af91a5345ffa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 081/112] fix: load_identity of a 4x4 float matrix does not
 damage the register with the constant 1

---
 ulaalgo.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index b727e5a..26d6c91 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -68,18 +68,20 @@ void transpose (matrix<N,N,T>& m)
 template <>
 inline void load_identity (matrix<4,4,float>& m)
 {
+    const float one = 1.0f;
     asm (
-	"movaps %4, %%xmm1		\n\t"	// 1 0 0 0
-	"movups %4, %0			\n\t"	// 1 0 0 0
+	"movss  %4, %%xmm0		\n\t"	// 1 0 0 0
+	"movaps %%xmm0, %%xmm1		\n\t"	// 1 0 0 0
+	"movups %%xmm0, %0		\n\t"	// 1 0 0 0
 	"shufps $0xB1,%%xmm1,%%xmm1	\n\t"	// 0 1 0 0
 	"movups %%xmm1, %1		\n\t"	// 0 1 0 0
-	"shufps $0x4F,%4,%%xmm1		\n\t"	// 0 0 1 0
-	"shufps $0x1B,%4,%4		\n\t"	// 0 0 0 1
+	"shufps $0x4F,%%xmm0,%%xmm1	\n\t"	// 0 0 1 0
+	"shufps $0x1B,%%xmm0,%%xmm0	\n\t"	// 0 0 0 1
 	"movups %%xmm1, %2		\n\t"	// 0 0 1 0
-	"movups %4, %3"				// 0 0 0 1
+	"movups %%xmm0, %3"			// 0 0 0 1
 	: "=m"(m[0][0]), "=m"(m[1][0]), "=m"(m[2][0]), "=m"(m[3][0])
-	: "x"(1.0f)
-	: "xmm1", "memory"
+	: "m"(one)
+	: "xmm0", "xmm1", "memory"
     );
     asm ("":::"memory");
 }
-- 
2.43.0


From 12de4aa429bd0d3c105e32b1cf4a7b07210ccae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 082/112] fix: packed unary operations store their results

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 45b22d1..81662dc 100644
--- a/simd.h
+++ b/simd.h
@@ -32,7 +32,7 @@ template <typename Ctr, typename UnaryOperation>
 inline void packop (Ctr& op1, UnaryOperation op)
 {
     foreach (typename Ctr::iterator, i, op1)
-	op (*i);
+	*i = op (*i);
 }
 
 /// Applies \p op to each element in \p op1 and \p op2 and stores in \p op2.
-- 
2.43.0


From fd417a5a01e035039199319a191c147b6185783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 083/112] fix: average of negative or large integers

---
 simd.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 81662dc..6001c7b 100644
--- a/simd.h
+++ b/simd.h
@@ -90,7 +90,7 @@ STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
 STD_BINARY_FUNCTOR (fpmax,  T, (max (a, b)))
-STD_BINARY_FUNCTOR (fpavg,  T, ((a + b + 1) / 2))
+STD_BINARY_FUNCTOR (fpavg,  T, ((a | b) - ((a ^ b) >> 1)))
 STD_CONVERSION_FUNCTOR (fcast, (D(a)))
 #if HAVE_MATH_H
 STD_UNARY_FUNCTOR (fpreciprocal,T, (1 / a))
@@ -108,6 +108,7 @@ template <> inline int32_t fround<double,int32_t>::operator()(const double& a) c
 #endif
 template <> inline float fpavg<float>::operator()(const float& a, const float& b) const { return (a + b) / 2; }
 template <> inline double fpavg<double>::operator()(const double& a, const double& b) const { return (a + b) / 2; }
+template <> inline long double fpavg<long double>::operator()(const long double& a, const long double& b) const { return (a + b) / 2; }
 
 #define SIMD_PACKEDOP1(name, operation)		\
 template <typename Ctr>				\
-- 
2.43.0


From 78f314e287eb70039752e462a2675b527832df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 084/112] fix: saturating operations on signed values limit
 both ends

---
 simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd.h b/simd.h
index 6001c7b..0f526d1 100644
--- a/simd.h
+++ b/simd.h
@@ -84,8 +84,8 @@ inline void pconvert (const Ctr1& op1, Ctr2& op2, ConvertFunction f)
 }
 
 // Functionoids for SIMD operations, like saturation arithmetic, shifts, etc.
-STD_BINARY_FUNCTOR (fpadds, T, ((b > numeric_limits<T>::max() - a) ? numeric_limits<T>::max() : a + b))
-STD_BINARY_FUNCTOR (fpsubs, T, ((a < numeric_limits<T>::min() + b) ? numeric_limits<T>::min() : a - b))
+STD_BINARY_FUNCTOR (fpadds, T, (is_negative(b) ? (a < numeric_limits<T>::lowest() - b ? numeric_limits<T>::lowest() : T(a + b)) : (numeric_limits<T>::max() - b < a ? numeric_limits<T>::max() : T(a + b))))
+STD_BINARY_FUNCTOR (fpsubs, T, (is_negative(b) ? (numeric_limits<T>::max() + b < a ? numeric_limits<T>::max() : T(a - b)) : (a < numeric_limits<T>::lowest() + b ? numeric_limits<T>::lowest() : T(a - b))))
 STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
-- 
2.43.0


From 457c041d7ba0a8b287f6e4e18c158e76ca20f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 085/112] fix: rounding conversions keep the precision and
 range of their types

---
 simd.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/simd.h b/simd.h
index 0f526d1..c54184c 100644
--- a/simd.h
+++ b/simd.h
@@ -99,11 +99,7 @@ STD_UNARY_FUNCTOR (fprecipsqrt,	T, (reset_mmx(), 1 / T(sqrt (a))))
 STD_UNARY_FUNCTOR (fsin,	T, (reset_mmx(), T (sin (a))))
 STD_UNARY_FUNCTOR (fcos,	T, (reset_mmx(), T (cos (a))))
 STD_UNARY_FUNCTOR (ftan,	T, (reset_mmx(), T (tan (a))))
-#if HAVE_RINTF
-STD_CONVERSION_FUNCTOR (fround, (reset_mmx(), D(rintf(a))))
-#else
 STD_CONVERSION_FUNCTOR (fround, (reset_mmx(), D(rint(a))))
-#endif
 template <> inline int32_t fround<double,int32_t>::operator()(const double& a) const { reset_mmx(); return int32_t(rint(a)); }
 #endif
 template <> inline float fpavg<float>::operator()(const float& a, const float& b) const { return (a + b) / 2; }
@@ -433,13 +429,6 @@ template <> inline int32_t fround<float,int32_t>::operator()(const float& a) con
 	 : "=r"(rv) : "m"(a) : "xmm0" );
     return rv;
 }
-template <> inline uint32_t fround<float,uint32_t>::operator()(const float& a) const {
-    uint32_t rv;
-    asm ("movss %1, %%xmm0\n\t"
-	 "cvtss2si %%xmm0, %0"
-	 : "=r"(rv) : "m"(a) : "xmm0" );
-    return rv;
-}
 
 SSE_IPASSIGN_SPEC(4,float)
 SSE_IPASSIGN_SPEC(4,int32_t)
-- 
2.43.0


From 8ae2564b69b8e60a59fd05589590e89029bf1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 086/112] fix: three operand packed operations compile

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index c54184c..b7a694b 100644
--- a/simd.h
+++ b/simd.h
@@ -52,7 +52,7 @@ inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation
 {
     assert (op1.size() <= op2.size() && op1.size() <= result.size());
     passign (op1, result);
-    op (op2, result);
+    packop (op2, result, op);
 }
 
 /// Copies \p op1 into \p result.
-- 
2.43.0


From 3bd089424dd2cae5923ee2cf29eaeb689f04e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 087/112] fix: conversion of a matrix to one of another element
 type compiles

---
 umatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umatrix.h b/umatrix.h
index ddf7e8c..c610a13 100644
--- a/umatrix.h
+++ b/umatrix.h
@@ -34,7 +34,7 @@ public:
 public:
     inline			matrix (void)			: tuple<NX*NY,T>() { }
     template <typename T2>
-    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T2>(src) {}
+    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T>(src) {}
     inline			matrix (const matrix<NX,NY,T>& src) : tuple<NX*NY,T>(src) {}
     inline size_type		columns (void) const		{ return NX; }
     inline size_type		rows (void) const		{ return NY; }
-- 
2.43.0


From 8a5077167551b71419054cb2bb245f888d47ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 088/112] fix: three operand packed operations are declared
 after the assignment they use

---
 simd.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simd.h b/simd.h
index b7a694b..eb2a2fb 100644
--- a/simd.h
+++ b/simd.h
@@ -46,15 +46,6 @@ inline void packop (const Ctr& op1, Ctr& op2, BinaryOperation op)
 	*i2 = op (*i2, *i1);
 }
 
-/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
-template <typename Ctr, typename BinaryOperation>
-inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
-{
-    assert (op1.size() <= op2.size() && op1.size() <= result.size());
-    passign (op1, result);
-    packop (op2, result, op);
-}
-
 /// Copies \p op1 into \p result.
 template <typename Ctr>
 inline void passign (const Ctr& op1, Ctr& result)
@@ -65,6 +56,15 @@ inline void passign (const Ctr& op1, Ctr& result)
 	*d++ = *s;
 }
 
+/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
+template <typename Ctr, typename BinaryOperation>
+inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
+{
+    assert (op1.size() <= op2.size() && op1.size() <= result.size());
+    passign (op1, result);
+    packop (op2, result, op);
+}
+
 /// Copies \p result.size() elements from \p op1 to \p result.
 template <typename Ctr>
 inline void ipassign (typename Ctr::const_iterator op1, Ctr& result)
-- 
2.43.0


From eb7e5687e7ce52216bd9c68d1caaf2736b8eb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 089/112] fix: failed string assignment of characters leaves
 the string unchanged

---
 ustring.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ustring.h b/ustring.h
index d0f8afe..0faf83d 100644
--- a/ustring.h
+++ b/ustring.h
@@ -113,12 +113,12 @@ public:
     inline string&		assign (const_iterator i1, const_iterator i2)	{ return assign (i1, distance (i1, i2)); }
     string&	    		assign (const_pointer s, size_type len);
     string&	    		assign (const_pointer s);
-    inline string&		assign (const_wpointer s1, const_wpointer s2)	{ clear(); return append (s1, s2); }
-    inline string&		assign (const_wpointer s1)			{ clear(); return append (s1); }
+    inline string&		assign (const_wpointer s1, const_wpointer s2)	{ string t; t.append (s1, s2); swap (t); return *this; }
+    inline string&		assign (const_wpointer s1)			{ string t; t.append (s1); swap (t); return *this; }
     inline string&		assign (const string& s)			{ return assign (s.begin(), s.end()); }
     inline string&		assign (const string& s, pos_type o, size_type n)	{ return assign (s.iat(o), s.iat(o+n)); }
-    inline string&		assign (size_type n, value_type c)		{ clear(); return append (n, c); }
-    inline string&		assign (size_type n, wvalue_type c)		{ clear(); return append (n, c); }
+    inline string&		assign (size_type n, value_type c)		{ resize (n); fill_n (begin(), n, c); return *this; }
+    inline string&		assign (size_type n, wvalue_type c)		{ string t; t.append (n, c); swap (t); return *this; }
     size_type			copy (pointer p, size_type n, pos_type pos = 0) const noexcept;
     inline size_type		copyto (pointer p, size_type n, pos_type pos = 0) const noexcept { size_type bc = copy(p,n-1,pos); p[bc]=0; return bc; }
     inline int			compare (const string& s) const		{ return compare (begin(), end(), s.begin(), s.end()); }
-- 
2.43.0


From 61b879a45c3aeec6adbc3004702dd62abcc95983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 090/112] fix: fstream::open leaked the descriptor when the
 name could not be allocated

---
 fstream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstream.cc b/fstream.cc
index c73b177..c8c180d 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -111,6 +111,7 @@ int fstream::om_to_flags (openmode m) noexcept // static
 /// \warning The string at \p filename must exist until the object is closed.
 void fstream::open (const char* filename, openmode mode, mode_t perms)
 {
+    _filename.reserve (strlen (filename));	// so that attach can not fail and leak the opened file
     int nfd = ::open (filename, om_to_flags(mode), perms);
     attach (nfd, filename);
 }
-- 
2.43.0


From 8ca43964992b9a26a30368462c44c755a8c0c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 091/112] fix: a string is NUL-terminated after read_file

---
 memblock.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memblock.cc b/memblock.cc
index db47365..09b6c0e 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -152,6 +152,7 @@ void memblock::read_file (const char* filename)
     f.read (data(), fsize);
     f.close();
     resize (fsize);
+    fill_n (end(), minimumFreeCapacity(), 0);	// for strings
 }
 
 } // namespace ustl
-- 
2.43.0


From b7bf1054fb9606da7f0ac349d4c446e7879c114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 092/112] fix: string stays NUL-terminated when format fails to
 allocate

---
 ustring.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index c5c26f2..a5d822d 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -341,6 +341,8 @@ int string::vformat (const char* fmt, va_list args)
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
+	if (wcap && rv >= wcap)
+	    data()[size()] = 0;	// resize may throw
 	resize (max (rv, 0));
     } while (rv > 0 && rv >= wcap);
     return rv;
-- 
2.43.0


From d97643fa5b5364f952e2ecda5ea077e6004d3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 093/112] fix: rotate_fast overflows the stack when rotating
 large blocks

---
 ualgobase.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index efa43c7..1fb4171 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -229,7 +229,7 @@ void rotate_fast (void* first, void* middle, void* last) noexcept
     const size_t hmin (min (half1, half2));
     if (!hmin)
 	return;
-    void* buf = alloca (hmin);
+    void* buf = hmin <= UINT16_MAX ? alloca (hmin) : nullptr;	// the stack is limited
     if (buf) {
 	if (half2 < half1) {
 	    copy_n_fast (middle, half2, buf);
-- 
2.43.0


From 0f9de527d7d293506f51e8d7383ffea5860188f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 094/112] fix: lcm of two zeros divides by zero

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index 8a5e6fd..de4202e 100644
--- a/uutility.h
+++ b/uutility.h
@@ -127,7 +127,7 @@ constexpr T gcd (T a, T b)
 template <typename T>
 constexpr T lcm (T a, T b)
 {
-    return a/gcd(a,b)*b;
+    return a ? a/gcd(a,b)*b : a;
 }
 
 // Defined in byteswap.h, which is usually unusable.
-- 
2.43.0


From f20a2c26b25c4a7d9bde9611f9f0147b680819f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 095/112] fix: numeric_limits<wchar_t> ignores that wchar_t is
 signed

---
 ulimits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulimits.h b/ulimits.h
index 626066d..9ae2dcb 100644
--- a/ulimits.h
+++ b/ulimits.h
@@ -272,7 +272,7 @@ _NUMERIC_LIMITS (unsigned char,	0,		UCHAR_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned int,	0,		UINT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned short,0,		USHRT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned long,	0,		ULONG_MAX,	false,	true,	true);
-_NUMERIC_LIMITS (wchar_t,	0,		WCHAR_MAX,	false,	true,	true);
+_NUMERIC_LIMITS (wchar_t,	WCHAR_MIN,	WCHAR_MAX,	WCHAR_MIN < 0,	true,	true);
 #if HAVE_LONG_LONG
 _NUMERIC_LIMITS (long long,	LLONG_MIN,	LLONG_MAX,	true,	true,	true);
 _NUMERIC_LIMITS (unsigned long long,	0,	ULLONG_MAX,	false,	true,	true);
-- 
2.43.0


From da0209975f281798f3818fd8f24fe3c96124bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 096/112] fix: duration_cast truncates the count to the target
 type before scaling it

---
 uchrono.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index eeaa8a5..4d6115c 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -15,12 +15,31 @@ namespace chrono {
 
 template <typename Rep, typename Period> struct duration;
 
+// Scales a count in a type that can hold both the source and the result
+template <typename ToRep, typename Rep, bool ToArithmetic = is_arithmetic<ToRep>::value, bool FromFloat = is_floating_point<Rep>::value>
+struct __duration_scale {
+    using comp_rep	= common_type_t<ToRep,Rep,intmax_t>;
+    static inline constexpr ToRep scale (const Rep& v, intmax_t n, intmax_t d)
+	{ return static_cast<ToRep>(static_cast<comp_rep>(v) * n / d); }
+};
+// Not arithmetic, like hrtime_t
+template <typename ToRep, typename Rep>
+struct __duration_scale<ToRep,Rep,false,false> {
+    static inline constexpr ToRep scale (const Rep& v, intmax_t n, intmax_t d)
+	{ return static_cast<ToRep>(v) * n / d; }
+};
+template <typename ToRep, typename Rep>
+struct __duration_scale<ToRep,Rep,false,true> {
+    static inline constexpr ToRep scale (const Rep& v, intmax_t n, intmax_t d)
+	{ return static_cast<ToRep>(static_cast<intmax_t>(v * n / d)); }
+};
+
 template <typename ToDuration, typename Rep, typename Period>
 struct __duration_cast_impl {
     using to_rep	= typename ToDuration::rep;
     using conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
     static inline constexpr ToDuration cast (const duration<Rep, Period>& d)
-	{ return ToDuration (static_cast<to_rep>(d.count()) * conv_ratio::num / conv_ratio::den); }
+	{ return ToDuration (__duration_scale<to_rep,Rep>::scale (d.count(), conv_ratio::num, conv_ratio::den)); }
 };
 
 /// Converts durations of different periods or representations
@@ -268,8 +287,8 @@ struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
     static inline constexpr ToDuration cast (const duration<hrtime_t, Period>& d) {
 	auto& t = d.count();
 	return ToDuration (
-		static_cast<to_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
-		+ static_cast<to_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den);
+		__duration_scale<to_rep,intmax_t>::scale (t.tv_sec, s_conv_ratio::num, s_conv_ratio::den)
+		+ __duration_scale<to_rep,intmax_t>::scale (t.tv_nsec, ns_conv_ratio::num, ns_conv_ratio::den));
     }
 };
 
-- 
2.43.0


From c396e3e1377a204c78d9b8125038908f26241e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 097/112] fix: hrtime_t multiplication overflows the
 nanoseconds

---
 uchrono.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 4d6115c..531f04f 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -241,11 +241,10 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator*= (intmax_t v) {
-				    tv_sec *= v;
-				    if (nano::den <= (tv_nsec *= v)) {
-					tv_sec += tv_nsec / nano::den;
-					tv_nsec %= nano::den;
-				    }
+				    // tv_nsec*v might not fit
+				    const intmax_t ns = tv_nsec * (v % nano::den);
+				    tv_sec = tv_sec * v + tv_nsec * (v / nano::den) + ns / nano::den;
+				    tv_nsec = ns % nano::den;
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-- 
2.43.0


From 471a2fe185fa4ae28a0f97ad2144d8ceff1deb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 098/112] fix: stream bounds errors reported sizes of 4G and
 more modulo 2^32

---
 mistream.cc | 2 +-
 uios.h      | 2 +-
 ustdxept.cc | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index 7b66a33..d2619f1 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -14,7 +14,7 @@ namespace ustl {
 //--------------------------------------------------------------------
 
 /// Checks that \p n bytes are available in the stream, or else throws.
-void ios_base::overrun (const char* op, const char* type, uint32_t n, uint32_t pos, uint32_t rem)
+void ios_base::overrun (const char* op, const char* type, streamsize n, streamoff pos, streamsize rem)
 {
     if (set_and_throw (rem ? failbit : (failbit | eofbit)))
 	throw stream_bounds_exception (op, type, pos, n, rem);
diff --git a/uios.h b/uios.h
index 6295dd7..e05ee08 100644
--- a/uios.h
+++ b/uios.h
@@ -90,7 +90,7 @@ public:
     constexpr iostate	exceptions (iostate v)		{ return _exceptions = v; }
 protected:
     constexpr bool	set_and_throw (iostate v)	{ setstate(v); return exceptions() & v; }
-    void		overrun (const char* op, const char* type, uint32_t n, uint32_t p, uint32_t rem);
+    void		overrun (const char* op, const char* type, streamsize n, streamoff p, streamsize rem);
 private:
     uint16_t		_state;		///< Open state, using ios::iostate_bits.
     uint16_t		_exceptions;	///< Exception flags, using ios::iostate_bits.
diff --git a/ustdxept.cc b/ustdxept.cc
index 7f0715c..c0aa666 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -152,13 +152,13 @@ stream_bounds_exception::stream_bounds_exception (const char* operation, const c
     set_format (xfmt_StreamBoundsException);
 }
 
-/// Returns a descriptive error message. fmt="%s stream %s: @%u: expected %u, available %u";
+/// Returns a descriptive error message. fmt="%s stream %s: @0x%zX: need %zu bytes, have %zu"
 void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexcept
 {
     char typeName [256];
     strncpy (typeName, _typeName, VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
-    if (!fmt) fmt = "%s stream %s: @0x%X: need %u bytes, have %u";
+    if (!fmt) fmt = "%s stream %s: @0x%zX: need %zu bytes, have %zu";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
 }
 
-- 
2.43.0


From 1785112cfcbc8e6db6735be7532f2f176aa6e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 099/112] fix: bad_alloc text showed sizes of 2G and more as
 negative or truncated

---
 uexception.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 1a8d712..4808c14 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -100,10 +100,10 @@ bad_alloc::bad_alloc (size_t nBytes) noexcept
     set_format (ustl::xfmt_BadAlloc);
 }
 
-/// Returns a descriptive error message. fmt="failed to allocate %d bytes"
+/// Returns a descriptive error message. fmt="failed to allocate %zu bytes"
 void bad_alloc::info (ustl::string& msgbuf, const char* fmt) const noexcept
 {
-    if (!fmt) fmt = "failed to allocate %d bytes";
+    if (!fmt) fmt = "failed to allocate %zu bytes";
     try { msgbuf.format (fmt, _bytesRequested); } catch (...) {}
 }
 
-- 
2.43.0


From 4d48b7b2bff63f808536a86d8e87e4fd72db4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 100/112] fix: system_error made from an error_code kept a
 pointer to the operation string and had the format of error_message

---
 ustdxept.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ustdxept.h b/ustdxept.h
index 77d7003..68faa8e 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -156,7 +156,8 @@ public:
     inline const char*	Operation (void) const	{ return _operation.c_str(); }
 #if HAVE_CPP14
 			system_error (error_code ec, const char* operation) noexcept
-			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value()) {}
+			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value())
+			    { set_format (xfmt_SystemError); try { _operation.copy_link(); } catch (...) {} }
     inline              system_error (error_code ec, const string& operation) noexcept
 			    : system_error (ec, operation.c_str()) {}
     inline              system_error (int ec, const error_category& ecat, const char* operation)
-- 
2.43.0


From 2a5bed94445eeb4662d9944568e46ac664389593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 101/112] fix: stream_bounds_exception kept a pointer to the
 name of the file stream destroyed by its unwinding

---
 ustdxept.cc | 11 ++++++-----
 ustdxept.h  |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/ustdxept.cc b/ustdxept.cc
index c0aa666..6bdfc73 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -144,11 +144,12 @@ size_t file_exception::stream_size (void) const noexcept
 /// Initializes the empty object. \p operation is the function that returned the error code.
 stream_bounds_exception::stream_bounds_exception (const char* operation, const char* type, uoff_t offset, size_t expected, size_t remaining) noexcept
 : system_error (operation)
-,_typeName (type)
+,_typeName()
 ,_offset (offset)
 ,_expected (expected)
 ,_remaining (remaining)
 {
+    try { _typeName = type; } catch (...) {}
     set_format (xfmt_StreamBoundsException);
 }
 
@@ -156,7 +157,7 @@ stream_bounds_exception::stream_bounds_exception (const char* operation, const c
 void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexcept
 {
     char typeName [256];
-    strncpy (typeName, _typeName, VectorSize(typeName));
+    strncpy (typeName, TypeName(), VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
     if (!fmt) fmt = "%s stream %s: @0x%zX: need %zu bytes, have %zu";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
@@ -166,21 +167,21 @@ void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexc
 void stream_bounds_exception::read (istream& is)
 {
     system_error::read (is);
-    is >> _typeName >> _offset >> _expected >> _remaining;
+    is >> _typeName >> ios::align() >> _offset >> _expected >> _remaining;
 }
 
 /// Writes the exception into stream \p os.
 void stream_bounds_exception::write (ostream& os) const
 {
     system_error::write (os);
-    os << _typeName << _offset << _expected << _remaining;
+    os << _typeName << ios::align() << _offset << _expected << _remaining;
 }
 
 /// Returns the size of the written exception.
 size_t stream_bounds_exception::stream_size (void) const noexcept
 {
     return system_error::stream_size() +
-	    stream_size_of(_typeName) +
+	    Align (stream_size_of(_typeName)) +
 	    stream_size_of(_offset) +
 	    stream_size_of(_expected) +
 	    stream_size_of(_remaining);
diff --git a/ustdxept.h b/ustdxept.h
index 68faa8e..2fa97a6 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -209,12 +209,12 @@ public:
     virtual void	read (istream& is) override;
     virtual void	write (ostream& os) const override;
     virtual size_t	stream_size (void) const noexcept override;
-    inline const char*	TypeName (void) const	{ return _typeName; }
+    inline const char*	TypeName (void) const	{ return _typeName.c_str(); }
     inline uoff_t	Offset (void) const	{ return _offset; }
     inline size_t	Expected (void) const	{ return _expected; }
     inline size_t	Remaining (void) const	{ return _remaining; }
 private:
-    const char*		_typeName;
+    string		_typeName;
     uoff_t		_offset;
     size_t		_expected;
     size_t		_remaining;
-- 
2.43.0


From 3bd66ebb80751caa2c541e0c9d8bf2a4e31d0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 102/112] fix: exception::info ignored the localized format

---
 uexception.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 4808c14..b318199 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -23,9 +23,10 @@ namespace ustl {
 /// not throw anything, so you must wrap memory allocation routines
 /// (like string::format, for instance) in a try{}catch(...){} block.
 ///
-void exception::info (string& msgbuf, const char*) const noexcept
+void exception::info (string& msgbuf, const char* fmt) const noexcept
 {
-    try { msgbuf.format ("%s", what()); } catch (...) {} // Ignore all exceptions
+    if (!fmt) fmt = "%s";
+    try { msgbuf.format (fmt, what()); } catch (...) {} // Ignore all exceptions
 }
 
 /// Reads the exception from stream \p is.
-- 
2.43.0


From 42b4586a2661a1d43516cd9ab445d16a534fbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 103/112] fix: move_iterator over a pointer to a builtin type
 did not compile

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 3e8afd0..5122d3f 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -309,7 +309,7 @@ public:
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
+    constexpr reference		operator[] (uoff_t n) const	{ return static_cast<reference>(*(*this + n)); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
-- 
2.43.0


From 7dddccd04d2bdd27c6ad732cdfb3d5ecb5023536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 104/112] fix: istream_iterator difference was wrong when
 negative

---
 mistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.h b/mistream.h
index 91b3760..b75f83b 100644
--- a/mistream.h
+++ b/mistream.h
@@ -144,7 +144,7 @@ public:
     inline istream_iterator&	operator+= (streamsize n)	{ while (n--) operator++(); return *this; }
     inline istream_iterator&	operator-= (streamsize n)	{ _pis->seek (_pis->pos() - (n + 1) * stream_size_of(_v)); return operator++(); }
     inline istream_iterator	operator- (streamoff n) const			{ istream_iterator result (*this); return result -= n; }
-    constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / stream_size_of(_v); }
+    constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / difference_type (stream_size_of(_v)); }
     constexpr bool		operator== (const istream_iterator& i) const	{ return (!_pis && !i._pis) || (_pis && i._pis && _pis->pos() == i._pis->pos()); }
     constexpr bool		operator< (const istream_iterator& i) const	{ return !i._pis || (_pis && _pis->pos() < i._pis->pos()); }
 private:
-- 
2.43.0


From ad0ea61b7b46b0a34a6959f0a8de60b04bcf365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 105/112] fix: ifstream::sync returns zero on success

---
 ofstream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ofstream.cc b/ofstream.cc
index c9781f8..6d7d28b 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -195,7 +195,7 @@ int ifstream::sync (void)
     istringstream::sync();
     underflow (0U);
     clear (_file.rdstate());
-    return -good();
+    return -!good();
 }
 
 /// Seeks to \p p based on \p d.
-- 
2.43.0


From 00262448114c6c82afb98a807cc103ec171aafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 106/112] fix: durations with different periods compare
 whichever comes first

---
 uchrono.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 531f04f..423c1ad 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -115,25 +115,25 @@ struct duration {
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) == v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return operator== (duration(v)); }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) < v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return operator< (duration(v)); }
 
     inline void			read (istream& is)		{ is >> _r; }
-- 
2.43.0


From 37432fa23f31c6078c5e969ff45a3953da89c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 107/112] fix: vectors compare by their elements

---
 uvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uvector.h b/uvector.h
index 938acb7..1ca6320 100644
--- a/uvector.h
+++ b/uvector.h
@@ -43,7 +43,7 @@ public:
 				vector (const_iterator i1, const_iterator i2);
     inline			~vector (void) noexcept;
     inline const vector&	operator= (const vector& v);
-    inline bool			operator== (const vector& v) const	{ return _data == v._data; }
+    inline bool			operator== (const vector& v) const	{ return size() == v.size() && equal (begin(), end(), v.begin()); }
     inline			operator cmemlink (void) const	{ return cmemlink (_data); }
     inline			operator cmemlink (void)	{ return cmemlink (_data); }
     inline			operator memlink (void)		{ return memlink (_data); }
-- 
2.43.0


From 43e97b72fc3cbe8184220921e71edab9761567cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 108/112] fix: is_heap, is_sorted and stable_sort do not step
 past an empty range

---
 ualgo.h     | 2 ++
 uheap.h     | 2 ++
 upredalgo.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/ualgo.h b/ualgo.h
index 59e330d..1f0b345 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -468,6 +468,8 @@ inline void sort (RandomAccessIterator first, RandomAccessIterator last)
 template <typename RandomAccessIterator, typename Compare>
 constexpr void stable_sort (RandomAccessIterator first, RandomAccessIterator last, Compare comp)
 {
+    if (!(first < last))
+	return;
     for (RandomAccessIterator j, i = first; ++i < last;) { // Insertion sort
 	for (j = i; j-- > first && comp(*i, *j);) {}
 	if (++j != i) rotate (j, i, i + 1);
diff --git a/uheap.h b/uheap.h
index 8c72161..145df63 100644
--- a/uheap.h
+++ b/uheap.h
@@ -17,6 +17,8 @@ namespace ustl {
 template <typename RandomAccessIterator, typename Compare>
 constexpr bool is_heap (RandomAccessIterator first, RandomAccessIterator last, Compare comp)
 {
+    if (!(first < last))
+	return true;
     RandomAccessIterator iChild (first);
     for (; ++iChild < last; ++first)
 	if (comp (*first, *iChild) || (++iChild < last && comp (*first, *iChild)))
diff --git a/upredalgo.h b/upredalgo.h
index 7892aeb..ac35aa7 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -430,6 +430,8 @@ constexpr OutputIterator set_symmetric_difference (InputIterator1 first1, InputI
 template <typename ForwardIterator, typename StrictWeakOrdering>
 constexpr bool is_sorted (ForwardIterator first, ForwardIterator last, StrictWeakOrdering comp)
 {
+    if (!(first < last))
+	return true;
     for (ForwardIterator i = first; ++i < last; ++first)
 	if (comp (*i, *first))
 	    return false;
-- 
2.43.0


From c4bd943049cf000f994a317621fb491a8f1b69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 109/112] fix: set_nonblock reports a failure instead of
 terminating the program

---
 fstream.cc | 2 +-
 fstream.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index c8c180d..63cfd14 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -230,7 +230,7 @@ int fstream::fcntl (const char* rname, int request, long argument)
     return rv;
 }
 
-void fstream::set_nonblock (bool v) noexcept
+void fstream::set_nonblock (bool v)
 {
     int curf = max (0, fcntl (FCNTLID (F_GETFL)));
     if (v) curf |=  O_NONBLOCK;
diff --git a/fstream.h b/fstream.h
index 1f973b8..cd27fd4 100644
--- a/fstream.h
+++ b/fstream.h
@@ -44,7 +44,7 @@ public:
     int			fcntl (const char* rname, int request, long argument = 0);
     inline int		fcntl (const char* rname, int request, int argument)	{ return fstream::fcntl (rname, request, long(argument)); }
     inline int		fcntl (const char* rname, int request, void* argument)	{ return fstream::fcntl (rname, request, intptr_t(argument)); }
-    void		set_nonblock (bool v = true) noexcept;
+    void		set_nonblock (bool v = true);
 #if HAVE_SYS_MMAN_H
     memlink		mmap (off_t n, off_t offset = 0);
     void		munmap (memlink& l);
-- 
2.43.0


From 1f45f8442edb588783898829150ac785efdd47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:03 +0000
Subject: [PATCH 110/112] fix: search and find_end read outside an empty range
 when the needle is longer

---
 upredalgo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/upredalgo.h b/upredalgo.h
index ac35aa7..c39bb68 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -280,6 +280,8 @@ inline void nth_element (RandomAccessIterator first, RandomAccessIterator, Rando
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
+    if (distance(first1, last1) < distance(first2, last2))
+	return last1;
     const ForwardIterator1 slast = last1 - distance(first2, last2) + 1;
     for (; first1 < slast; ++first1) {
 	ForwardIterator2 i = first2;
@@ -297,6 +299,8 @@ constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 las
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
+    if (distance(first1, last1) < distance(first2, last2))
+	return last1;
     ForwardIterator1 s = last1 - distance(first2, last2);
     for (; !(s < first1); --s) {
 	ForwardIterator2 i = first2, j = s;
-- 
2.43.0


From d02c72e0904f8b45b51f84ea10af68910db61c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:33 +0000
Subject: [PATCH 111/112] fix: time points printed by several threads shared
 the buffer of ctime

---
 uchrono.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 423c1ad..37257f0 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -365,10 +365,11 @@ struct system_clock {
 template <> struct time_point_text_write<system_clock::time_point> {
     static inline void text_write (ostringstream& os, const system_clock::time_point& tp) {
 	auto tt = system_clock::to_time_t (tp);
-	auto tstr = ctime (&tt);
-	if (!tstr)
+	struct tm t;
+	char tstr [64];	// the text of ctime, but not in its buffer, which is shared by all threads
+	tzset();
+	if (!localtime_r (&tt, &t) || !strftime (tstr, sizeof(tstr), "%a %b %e %H:%M:%S %Y", &t))
 	    return;
-	tstr[strlen(tstr)-1] = 0; // remove trailing newline
 	os << tstr;
     }
 };
-- 
2.43.0


From 452470db0807d2da18908b581943fba896d079d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:11 +0000
Subject: [PATCH 112/112] fix: string <= and >= with a C string compared the
 addresses

---
 ustring.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.h b/ustring.h
index 0faf83d..b958053 100644
--- a/ustring.h
+++ b/ustring.h
@@ -154,6 +154,8 @@ public:
     inline bool			operator< (value_type c) const		{ return 0 > compare (begin(), end(), &c, &c + 1); }
     inline bool			operator< (uvalue_type c) const		{ return operator< (value_type(c)); }
     inline bool			operator> (const_pointer s) const	{ return 0 < compare (s); }
+    inline bool			operator<= (const_pointer s) const	{ return 0 >= compare (s); }
+    inline bool			operator>= (const_pointer s) const	{ return 0 <= compare (s); }
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-- 
2.43.0


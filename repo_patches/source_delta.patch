From 01c9c2cef04a6ff7dc870d3f220a1469a3922fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:13 +0000
Subject: [PATCH 01/29] fix: failed vector insertion leaves a destroyed element
 inside the vector

---
 nestl/implementation/vector.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..37c34de 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -722,6 +722,12 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            if (val != last)
+            {
+                /// there is no element at val, drop elements which were already shifted behind it
+                nestl::detail::destroy(val + 1, last + 1);
+                m_finish = val;
+            }
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
@@ -731,6 +737,12 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
     if (err)
     {
+        if (first != last)
+        {
+            /// there is no element at first, drop elements which were already shifted behind it
+            nestl::detail::destroy(first + 1, last + 1);
+            m_finish = first;
+        }
         return end();
     }
 
-- 
2.43.0


From ef6b64bcef53d97e74992c7901b9a899027117a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 02/29] fix: vector insertion and resize read an element of the
 vector itself after destroying it

---
 nestl/implementation/vector.hpp | 133 ++++++++++++++++++++++++++------
 1 file changed, 108 insertions(+), 25 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 37c34de..ac924cd 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -6,6 +6,7 @@
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
+#include <nestl/alignment.hpp>
 #include <nestl/class_operations.hpp>
 
 #include <nestl/detail/destroy.hpp>
@@ -202,6 +203,15 @@ private:
     template <typename OperationError>
     void grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCEPT_SPEC;
 
+    size_type grown_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SPEC;
+
+    template <typename OperationError, typename ... Args>
+    void grow_and_insert(OperationError& err,
+                         size_type requiredCapacity,
+                         const_iterator pos,
+                         size_type count,
+                         Args&& ... args) NESTL_NOEXCEPT_SPEC;
+
     template <typename OperationError>
     void do_reserve(OperationError& err, size_type new_cap) NESTL_NOEXCEPT_SPEC;
 };
@@ -706,13 +716,34 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 
     if (capacity() == size())
     {
-        grow(err, capacity() + 1);
+        grow_and_insert(err, capacity() + 1, pos, 1, std::forward<Args>(args) ...);
+        return err ? end() : (m_start + offset);
+    }
+    assert(capacity() > size());
+
+    if (pos == m_finish)
+    {
+        nestl::class_operations::construct(err, m_finish, std::forward<Args>(args) ...);
         if (err)
         {
             return end();
         }
+        ++m_finish;
+        return m_start + offset;
     }
-    assert(capacity() > size());
+
+    /// args may refer to an element which will be shifted, so construct new element aside
+    nestl::aligned_buffer<value_type> buffer;
+    value_type* newValue = buffer.ptr();
+    value_type* newValueEnd = newValue;
+    nestl::detail::destruction_scoped_guard<value_type*> guard(newValue, newValueEnd);
+
+    nestl::class_operations::construct(err, newValue, std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    ++newValueEnd;
 
     value_type* last = m_finish;
     value_type* first = m_start + offset;
@@ -734,15 +765,12 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     }
 
 
-	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+	nestl::class_operations::construct(err, first, std::move(*newValue));
     if (err)
     {
-        if (first != last)
-        {
-            /// there is no element at first, drop elements which were already shifted behind it
-            nestl::detail::destroy(first + 1, last + 1);
-            m_finish = first;
-        }
+        /// there is no element at first, drop elements which were already shifted behind it
+        nestl::detail::destroy(first + 1, last + 1);
+        m_finish = first;
         return end();
     }
 
@@ -787,21 +815,7 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
     }
     else
     {
-        grow(err, count);
-        if (err)
-        {
-            return;
-        }
-
-        while (m_finish < m_start + count)
-        {
-            nestl::class_operations::construct(err, m_finish, std::forward<Args>(args) ...);
-            if (err)
-            {
-                return;
-            }
-            ++m_finish;
-        }
+        grow_and_insert(err, count, m_finish, count - size(), std::forward<Args>(args) ...);
     }
 }
 
@@ -809,6 +823,13 @@ template <typename T, typename A>
 template <typename OperationError>
 void
 vector<T, A>::grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCEPT_SPEC
+{
+    reserve_nothrow(err, grown_capacity(requiredCapacity));
+}
+
+template <typename T, typename A>
+typename vector<T, A>::size_type
+vector<T, A>::grown_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SPEC
 {
     size_t newCapacity = (((capacity() + 1) * 3) / 2);
     if (newCapacity < requiredCapacity)
@@ -819,7 +840,69 @@ vector<T, A>::grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCE
     /// @bug overflow error
     assert(newCapacity > capacity());
 
-    reserve_nothrow(err, newCapacity);
+    return newCapacity;
+}
+
+template <typename T, typename A>
+template <typename OperationError, typename ... Args>
+void
+vector<T, A>::grow_and_insert(OperationError& err,
+                              size_type requiredCapacity,
+                              const_iterator pos,
+                              size_type count,
+                              Args&& ... args) NESTL_NOEXCEPT_SPEC
+{
+    const size_type newCapacity = grown_capacity(requiredCapacity);
+    if (newCapacity > max_size())
+    {
+        build_length_error(err);
+        return;
+    }
+
+    auto ptr = allocator_traits<allocator_type>::allocate(err, m_allocator, newCapacity);
+    if (err)
+    {
+        return;
+    }
+    nestl::detail::deallocation_scoped_guard<value_type*, allocator_type> guard(m_allocator, ptr, newCapacity);
+
+    /// args may refer to our own elements, so they should be alive until all new elements are constructed
+    value_type* oldPos = m_start + (pos - m_start);
+    value_type* last = ptr;
+    nestl::detail::destruction_scoped_guard<value_type*> valuesGuard(ptr, last);
+
+    value_type* headEnd = nestl::detail::uninitialised_copy(err, m_start, oldPos, ptr);
+    if (err)
+    {
+        return;
+    }
+    last = headEnd;
+
+    for ( ; count > 0; --count)
+    {
+        nestl::class_operations::construct(err, last, std::forward<Args>(args) ...);
+        if (err)
+        {
+            return;
+        }
+        ++last;
+    }
+
+    value_type* newFinish = nestl::detail::uninitialised_copy(err, oldPos, m_finish, last);
+    if (err)
+    {
+        return;
+    }
+
+    nestl::detail::destroy(m_start, m_finish);
+    m_allocator.deallocate(m_start, m_end_of_storage - m_start);
+
+    m_start = ptr;
+    m_finish = newFinish;
+    m_end_of_storage = ptr + newCapacity;
+
+    valuesGuard.release();
+    guard.release();
 }
 
 template <typename T, typename A>
-- 
2.43.0


From fb34da373db23dc5d677002981e60638a89900a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 03/29] fix: vector resize reallocates although reserved
 capacity is sufficient

---
 nestl/implementation/vector.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index ac924cd..7cea81b 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -813,6 +813,18 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
         nestl::detail::destroy(m_start + count, m_finish);
         m_finish = m_start + count;
     }
+    else if (count <= capacity())
+    {
+        while (m_finish < m_start + count)
+        {
+            nestl::class_operations::construct(err, m_finish, std::forward<Args>(args) ...);
+            if (err)
+            {
+                return;
+            }
+            ++m_finish;
+        }
+    }
     else
     {
         grow_and_insert(err, count, m_finish, count - size(), std::forward<Args>(args) ...);
-- 
2.43.0


From 08b110cecb143eb4baf0e759b9778b98dfc220aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 04/29] fix: vector clear does not compile

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 7cea81b..2afe847 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -563,7 +563,7 @@ vector<T, A>::shrink_to_fit_nothrow(OperationError& err) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 void vector<T, A>::clear() NESTL_NOEXCEPT_SPEC
 {
-    nestl::detail::destroy(m_allocator, m_start, m_finish);
+    nestl::detail::destroy(m_start, m_finish);
     m_finish = m_start;
 }
 
-- 
2.43.0


From 8fa8ad30ccf9f2f4f8429d146731953a46308657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 05/29] fix: vector range insertion does not compile

---
 nestl/implementation/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2afe847..719265a 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -783,13 +783,13 @@ template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
 vector<T, A>::insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    NESTL_ASSERT(pos >= m_start);
-    NESTL_ASSERT(pos <= m_finish);
+    assert(pos >= m_start);
+    assert(pos <= m_finish);
 
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
-    iterator res;
+    iterator res = m_start + offset;
     for ( ; first != last; ++first, ++offset)
     {
         const_iterator newPos = m_start + offset;
-- 
2.43.0


From 145a36c768f158d6e2e7f40f33cf7ef747cc9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 06/29] fix: vector is not usable as an element of nestl
 containers

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 719265a..ae58337 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -224,7 +224,7 @@ struct two_phase_initializator<nestl::impl::vector<T, Allocator>>
     typedef nestl::impl::vector<T, Allocator> vector_t;
 
     template <typename OperationError>
-    static void construct(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
+    static void init(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
     {
         defaultConstructed.copy_nothrow(err, other);
     }
-- 
2.43.0


From 6b876fbff46d1c5f0b54d1f5bbb53819ae5a29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 07/29] fix: size overflow makes oversized reservation succeed
 with a too small block

---
 nestl/allocator.hpp             | 6 ++++++
 nestl/implementation/vector.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index ae58337..b9d9f22 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -517,7 +517,7 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<size_type>::max();
+    return static_cast<size_type>(std::numeric_limits<difference_type>::max()) / sizeof(value_type);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From b5b3e5e7ec4ace7015c3adb9e91ca48dd291895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 08/29] fix: vector assignment releases memory to another
 allocator or loses own one

---
 nestl/implementation/vector.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index b9d9f22..2cc27ab 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -321,7 +321,10 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> oldStorage(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> oldContent(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assert(empty());
 
@@ -347,7 +350,10 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> oldStorage(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> oldContent(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
@@ -658,6 +664,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 {
 	const vector destroyContentAtExit(std::move(*this));
 
+    m_allocator = other.m_allocator;
     this->swap_data(other);
 }
 
-- 
2.43.0


From 4ec8204c04f413d56cd9a605105551e3a7342185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 09/29] fix: list range insertion reverses order of inserted
 elements

---
 nestl/implementation/list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..34d5c0f 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -921,7 +921,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, size_type co
 {
     while (count > 0)
     {
-        pos = insert_nothrow(err, pos, value);
+        insert_nothrow(err, pos, value);
         if (err)
         {
             return;
@@ -938,7 +938,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        pos = insert_nothrow(err, pos, *first);
+        insert_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From d62af8b84851f3d5bdabd5daa0a9f5dd467dfe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 10/29] fix: list range erase does not compile

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 34d5c0f..c32eca0 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -991,7 +991,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From ef2efdb770d695f4354754cb1496f72be2a60f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 11/29] fix: copying list to itself never ends

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index c32eca0..243c5a3 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -708,7 +708,10 @@ template <typename OperationError>
 void
 list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
 {
-    assign_nothrow(err, other.cbegin(), other.cend());
+    if (this != &other)
+    {
+        assign_nothrow(err, other.cbegin(), other.cend());
+    }
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 4ced83c41634a7698ea713f8e74ad1a131fc2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 12/29] fix: list move assignment does not compile and does not
 propagate allocator

---
 nestl/has_exceptions/list.hpp | 3 ++-
 nestl/implementation/list.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..91da4f0 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,8 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+        return *this;
     }
 
     list(const list& other)
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 243c5a3..d78a4af 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -698,7 +698,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1267,6 +1267,7 @@ void
 list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NESTL_NOEXCEPT_SPEC
 {
     const list tmp(std::move(*this));
+    m_node_allocator = other.m_node_allocator;
     this->swap_data(other);
 }
 
-- 
2.43.0


From 3a3a078e61fcf7513477f67df9395687a1fbfe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 13/29] fix: list assignment and swap release nodes to another
 allocator

---
 nestl/has_exceptions/list.hpp | 1 +
 nestl/implementation/list.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 91da4f0..4ba8469 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -48,6 +48,7 @@ public:
     }
 
     list(const list& other)
+        : base_t(other.get_allocator())
     {
         default_operation_error err;
         this->copy_nothrow(err, other);
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index d78a4af..072451e 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -719,7 +719,7 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (n > 0)
     {
@@ -739,7 +739,7 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (first != last)
     {
@@ -1064,6 +1064,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1223,7 +1224,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From 9d4efa0c95dac864bb6293c085d039d024a0fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:46 +0000
Subject: [PATCH 14/29] fix: splice of a range directly before its own end
 corrupts the list

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 072451e..e2f1556 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1173,7 +1173,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if (first != last)
+    if ((first != last) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From bb5d8b2fbe469b2530343e689fff1de5b8f93d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 15/29] fix: set copy does not compile

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..6a6f841 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From 60fa923e4056dd595df9e787c95869b24fa66cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 16/29] fix: set move assignment does not compile

---
 .../implementation/detail/red_black_tree.hpp  | 23 +++++++------------
 nestl/implementation/set.hpp                  | 13 +++--------
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..9c51264 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,8 +1265,8 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
-    m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
+    void
+    m_move_assign(rb_tree& other, std::true_type) NESTL_NOEXCEPT_SPEC;
 
 private:
     // Move elements from container with equal allocator.
@@ -1381,24 +1381,17 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
-rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
+void
+rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x, std::true_type) NESTL_NOEXCEPT_SPEC
 {
     m_impl.m_key_compare = x.m_impl.m_key_compare;
 
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    clear();
+    if (x.m_root() != 0)
     {
-        clear();
-        if (x.m_root() != 0)
-        {
-            m_move_data(x, std::true_type());
-        }
-        nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
+        m_move_data(x, std::true_type());
     }
-    return false;
+    nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..7909b4f 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,9 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(other.m_impl,
+                         typename nestl::allocator_traits<allocator_type>::propagate_on_container_move_assignment());
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0


From ba523dcb86bf86283cf776bf408910e92f3820b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:05 +0000
Subject: [PATCH 17/29] fix: set reverse iterators and max_size do not compile

---
 nestl/allocator_traits.hpp    | 5 +++++
 nestl/implementation/list.hpp | 2 +-
 nestl/implementation/set.hpp  | 4 ++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index 6a6f841..c5303ff 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -50,6 +50,11 @@ struct allocator_traits
     {
         alloc.deallocate(ptr, n);
     }
+
+    static size_type max_size(const Allocator& /* alloc */) NESTL_NOEXCEPT_SPEC
+    {
+        return std::numeric_limits<size_type>::max() / sizeof(value_type);
+    }
 };
 
 } // namespace nestl
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e2f1556..3c986ce 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -889,7 +889,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return allocator_traits<node_allocator_type>::max_size(m_node_allocator);
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7909b4f..18df976 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -246,7 +246,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -267,7 +267,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From ad879209b6bd60f959d20c806e27179e5adeddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:11 +0000
Subject: [PATCH 18/29] fix: shared_ptr move assignment reads source owned by
 the released value

---
 nestl/implementation/shared_ptr.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..7bb9ed6 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -441,16 +441,17 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
-    m_ptr = other.m_ptr;
+    /// other may be owned by our current value, so take its content before release of current value
+    shared_ptr tmp;
+
+    tmp.m_ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-    m_refcount = other.m_refcount;
+    tmp.m_refcount = other.m_refcount;
     other.m_refcount = nullptr;
 
+    tmp.swap(*this);
+
     return *this;
 }
 
-- 
2.43.0


From c914823d58bc9cd9bd0cc8a47a2c0f7a327227b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 19/29] fix: weak_ptr lock revives destroyed value

---
 nestl/implementation/shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 7bb9ed6..0f24004 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -332,7 +332,7 @@ public:
 
     shared_ptr<T> lock()
     {
-        return shared_ptr<T>(m_ptr, m_refcount);
+        return expired() ? shared_ptr<T>() : shared_ptr<T>(m_ptr, m_refcount);
     }
 
 private:
-- 
2.43.0


From d3f5049d0df7014f79273b065a7d30931cb29228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 20/29] fix: weak_ptr move assignment leaves reference in the
 source

---
 nestl/implementation/shared_ptr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 0f24004..715175d 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -307,10 +307,10 @@ public:
 
     weak_ptr& operator=(weak_ptr&& other) NESTL_NOEXCEPT_SPEC
     {
-        const weak_ptr tmp(std::move(*this));
+        weak_ptr tmp(std::move(other));
 
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
+        std::swap(m_ptr, tmp.m_ptr);
+        std::swap(m_refcount, tmp.m_refcount);
 
         return *this;
     }
-- 
2.43.0


From 202faf0ebc45ffe956b77c47837e06bd7b3398a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 21/29] fix: self assignment of expired weak_ptr uses freed
 memory

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 715175d..b6fe0cf 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -290,6 +290,11 @@ public:
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
+        if (this == &other)
+        {
+            return *this;
+        }
+
         if (m_refcount)
         {
             m_refcount->weak_release();
-- 
2.43.0


From b75b9b3adf382bc163b0733029b8f82a7467cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 22/29] fix: value owning the last weak_ptr to itself is freed
 twice

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index b6fe0cf..e99e457 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            /// destructor of the value may drop the last weak reference, so keep own one
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From 36d53bd60b9c9f82b5cf88bc0a943114e4f0c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:39 +0000
Subject: [PATCH 23/29] fix: make_shared_a_nothrow ignores given allocator

---
 nestl/implementation/shared_ptr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index e99e457..d23fe44 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -506,12 +506,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
@@ -529,6 +529,7 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */,
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
+        nestl::detail::destroy(ptr);
         return {nullptr};
     }
 
-- 
2.43.0


From 589ef61dcea6843ad31a0dba4468a60aa6b35803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 24/29] fix: assign of fundamental types does not compile
 without exceptions

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++--
 nestl/no_exceptions/detail/class_operations.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index d64da3f..fe7b017 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -43,7 +43,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-        typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+        typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
         assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
@@ -51,7 +51,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<!std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& err, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         try
diff --git a/nestl/no_exceptions/detail/class_operations.hpp b/nestl/no_exceptions/detail/class_operations.hpp
index 5189649..b3165e7 100644
--- a/nestl/no_exceptions/detail/class_operations.hpp
+++ b/nestl/no_exceptions/detail/class_operations.hpp
@@ -27,7 +27,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
-- 
2.43.0


From 1212be2ef537eb15794794491a362e605dfd0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 25/29] fix: report of oversized request terminates the program
 when there is no memory for the exception

---
 nestl/has_exceptions/exception_ptr_error.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nestl/has_exceptions/exception_ptr_error.hpp b/nestl/has_exceptions/exception_ptr_error.hpp
index 5885644..9899c1c 100644
--- a/nestl/has_exceptions/exception_ptr_error.hpp
+++ b/nestl/has_exceptions/exception_ptr_error.hpp
@@ -62,7 +62,19 @@ inline
 void
 build_length_error(exception_ptr_error& err) NESTL_NOEXCEPT_SPEC
 {
+#if NESTL_HAS_EXCEPTIONS
+    try
+    {
+        from_exception(err, std::length_error("length error"));
+    }
+    catch (...)
+    {
+        /// there is no memory for exception object
+        from_exception_ptr(err, std::current_exception());
+    }
+#else /* NESTL_HAS_EXCEPTIONS */
     from_exception(err, std::length_error("length error"));
+#endif /* NESTL_HAS_EXCEPTIONS */
 }
 
 inline
-- 
2.43.0


From b9fa83db30c755e85a290460952e06e7557e2814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 26/29] fix: exception of default constructor escapes from
 assign_nothrow

---
 nestl/implementation/list.hpp   | 24 +++++++++++++++++++++++-
 nestl/implementation/vector.hpp | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 3c986ce..d9a7f28 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -451,7 +451,10 @@ public:
     void copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC;
 
     template <typename OperationError>
-    void assign_nothrow(OperationError& err, size_type n, const_reference val = value_type()) NESTL_NOEXCEPT_SPEC;
+    void assign_nothrow(OperationError& err, size_type n) NESTL_NOEXCEPT_SPEC;
+
+    template <typename OperationError>
+    void assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC;
 
     template <typename OperationError, typename InputIterator>
     void assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
@@ -714,6 +717,25 @@ list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_
     }
 }
 
+template <typename T, typename A>
+template <typename OperationError>
+void
+list<T, A>::assign_nothrow(OperationError& err, size_type n) NESTL_NOEXCEPT_SPEC
+{
+    list tmp(get_allocator()); tmp.swap(*this);
+
+    while (n > 0)
+    {
+        emplace_back_nothrow(err);
+        if (err)
+        {
+            return;
+        }
+
+        --n;
+    }
+}
+
 template <typename T, typename A>
 template <typename OperationError>
 void
diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2cc27ab..2bd4d2d 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -62,7 +62,10 @@ public:
     void copy_nothrow(OperationError& err, const vector& other) NESTL_NOEXCEPT_SPEC;
 
     template <typename OperationError>
-    void assign_nothrow(OperationError& err, size_type n, const_reference val = value_type()) NESTL_NOEXCEPT_SPEC;
+    void assign_nothrow(OperationError& err, size_type n) NESTL_NOEXCEPT_SPEC;
+
+    template <typename OperationError>
+    void assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC;
 
     template <typename OperationError, typename InputIterator>
     void assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
@@ -316,6 +319,33 @@ vector<T, A>::copy_nothrow(OperationError& err, const vector& other) NESTL_NOEXC
     this->assign_nothrow(err, other.cbegin(), other.cend());
 }
 
+template <typename T, typename A>
+template <typename OperationError>
+void
+vector<T, A>::assign_nothrow(OperationError& err, size_type n) NESTL_NOEXCEPT_SPEC
+{
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> oldStorage(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> oldContent(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
+
+    grow(err, n);
+    if (err)
+    {
+        return;
+    }
+
+    while (n > 0)
+    {
+        this->emplace_back_nothrow(err);
+        if (err)
+        {
+            return;
+        }
+        --n;
+    }
+}
+
 template <typename T, typename A>
 template <typename OperationError>
 void
-- 
2.43.0


From 90d2abba889aa1dfaf3da544ca56ad65e152bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 27/29] fix: do not exceed max_size() on growth when max_size()
 is enough

---
 nestl/implementation/vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2bd4d2d..47f51b1 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -885,6 +885,11 @@ vector<T, A>::grown_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SP
     {
         newCapacity = requiredCapacity;
     }
+    else if (newCapacity > max_size())
+    {
+        /// do not exceed max_size() if it is enough for required capacity
+        newCapacity = (requiredCapacity < max_size()) ? max_size() : requiredCapacity;
+    }
 
     /// @bug overflow error
     assert(newCapacity > capacity());
-- 
2.43.0


From 5a1adcc3fd818576f44d43260e9fa6dab6e4cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 28/29] fix: set is not usable as an element of nestl
 containers

---
 nestl/implementation/set.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 18df976..085dc67 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -137,6 +137,23 @@ private:
     impl_type m_impl;
 };
 
+} // namespace impl
+
+// Added emulation of copy construction
+template <typename Key, typename Compare, typename Alloc>
+struct two_phase_initializator<impl::set<Key, Compare, Alloc>>
+{
+    template <typename OperationError>
+    static void init(OperationError& err,
+                     impl::set<Key, Compare, Alloc>& defaultConstructed,
+                     const impl::set<Key, Compare, Alloc>& other) NESTL_NOEXCEPT_SPEC
+    {
+        defaultConstructed.copy_nothrow(err, other);
+    }
+};
+
+namespace impl
+{
 
 // implementation
 
-- 
2.43.0


From b5ce74a92f038cc331b4b1fc956d3f6d657abeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 29/29] fix: a range element whose conversion throws terminates
 the program in assign and insert

---
 nestl/implementation/list.hpp   | 4 ++--
 nestl/implementation/vector.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index d9a7f28..08d93da 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -765,7 +765,7 @@ list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterat
 
     while (first != last)
     {
-        push_back_nothrow(err, *first);
+        emplace_back_nothrow(err, *first);
         if (err)
         {
             return;
@@ -963,7 +963,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        insert_nothrow(err, pos, *first);
+        emplace_nothrow(err, pos, *first);
         if (err)
         {
             return;
diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 47f51b1..350546a 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -730,7 +730,7 @@ vector<T, A>::assign_iterator(OperationError& err,
 
     while (first != last)
     {
-        push_back_nothrow(err, *first);
+        emplace_back_nothrow(err, *first);
         if (err)
         {
             return;
-- 
2.43.0


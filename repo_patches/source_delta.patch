From eed00eb5c14a69579f380767d8c98678b5a177ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 01/36] fix: vector::clear passed the allocator to destroy and
 did not compile

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..cbd5ce3 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -553,7 +553,7 @@ vector<T, A>::shrink_to_fit_nothrow(OperationError& err) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 void vector<T, A>::clear() NESTL_NOEXCEPT_SPEC
 {
-    nestl::detail::destroy(m_allocator, m_start, m_finish);
+    nestl::detail::destroy(m_start, m_finish);
     m_finish = m_start;
 }
 
-- 
2.43.0


From f803a6190642316b4d48827c265826193118c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 02/36] fix: vector range insert used an undefined assert macro
 and did not compile

---
 nestl/implementation/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index cbd5ce3..3487a08 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -743,13 +743,13 @@ template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
 vector<T, A>::insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    NESTL_ASSERT(pos >= m_start);
-    NESTL_ASSERT(pos <= m_finish);
+    assert(pos >= m_start);
+    assert(pos <= m_finish);
 
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
-    iterator res;
+    iterator res = m_start + offset;
     for ( ; first != last; ++first, ++offset)
     {
         const_iterator newPos = m_start + offset;
-- 
2.43.0


From 19eda126e26b48ec11ef95b13c473573838f8f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 03/36] fix: two-phase initialization of nestl::vector had no
 init method

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 3487a08..ea64d2b 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -214,7 +214,7 @@ struct two_phase_initializator<nestl::impl::vector<T, Allocator>>
     typedef nestl::impl::vector<T, Allocator> vector_t;
 
     template <typename OperationError>
-    static void construct(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
+    static void init(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
     {
         defaultConstructed.copy_nothrow(err, other);
     }
-- 
2.43.0


From ba2f29fe948e554d9c7e5467542590f9cc82bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 04/36] fix: failed insertion in the middle of a vector left a
 hole of destroyed elements

---
 nestl/implementation/vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index ea64d2b..756ec9b 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -722,6 +722,9 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            /// elements after the hole can not be moved back (it may fail too), so drop them
+            nestl::detail::destroy(val + 1, m_finish + 1);
+            m_finish = val;
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
@@ -731,6 +734,11 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
     if (err)
     {
+        if (first != m_finish)
+        {
+            nestl::detail::destroy(first + 1, m_finish + 1);
+            m_finish = first;
+        }
         return end();
     }
 
-- 
2.43.0


From a3389f8aae4a86524c0b024212adecc459aacb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 05/36] fix: inserting an element of the vector into the vector
 itself read moved or freed memory

---
 nestl/implementation/vector.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 756ec9b..3b49bab 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -6,6 +6,7 @@
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
+#include <nestl/alignment.hpp>
 #include <nestl/class_operations.hpp>
 
 #include <nestl/detail/destroy.hpp>
@@ -704,6 +705,26 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
+    if ((capacity() > size()) && (pos == m_finish))
+    {
+        nestl::class_operations::construct(err, m_finish, std::forward<Args>(args) ...);
+        if (err)
+        {
+            return end();
+        }
+        return m_finish++;
+    }
+
+    /// args may refer to elements of this vector, so build new value before moving elements
+    nestl::aligned_buffer<value_type> storage;
+    nestl::class_operations::construct(err, storage.ptr(), std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    value_type* storageEnd = storage.ptr() + 1;
+    nestl::detail::destruction_scoped_guard<value_type*> storageGuard(storage.ptr(), storageEnd);
+
     if (capacity() == size())
     {
         grow(err, capacity() + 1);
@@ -731,7 +752,7 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     }
 
 
-	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+	nestl::class_operations::construct(err, first, std::move(*storage.ptr()));
     if (err)
     {
         if (first != m_finish)
-- 
2.43.0


From f1bb3b11a2a8c607db3baf6d3c7f82afcd0be192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 06/36] fix: vector::resize with a value from the vector itself
 read freed memory

---
 nestl/implementation/vector.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 3b49bab..8e4623a 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -624,7 +624,23 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
-    do_resize(err, count, value);
+    if (count <= capacity())
+    {
+        do_resize(err, count, value);
+        return;
+    }
+
+    /// value may refer to an element of this vector, so copy it before reallocation
+    nestl::aligned_buffer<value_type> storage;
+    nestl::class_operations::construct(err, storage.ptr(), value);
+    if (err)
+    {
+        return;
+    }
+    value_type* storageEnd = storage.ptr() + 1;
+    nestl::detail::destruction_scoped_guard<value_type*> storageGuard(storage.ptr(), storageEnd);
+
+    do_resize(err, count, static_cast<const value_type&>(*storage.ptr()));
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 30edf5199bc30cc6d4e665954eb39e9c0fc2dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 07/36] fix: vector::resize within the reserved capacity
 reallocated

---
 nestl/implementation/vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 8e4623a..839fc02 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -820,10 +820,13 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
     }
     else
     {
-        grow(err, count);
-        if (err)
+        if (count > capacity())
         {
-            return;
+            grow(err, count);
+            if (err)
+            {
+                return;
+            }
         }
 
         while (m_finish < m_start + count)
-- 
2.43.0


From 501335e407139456432ce0487f26ccc47e1d5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 08/36] fix: vector::assign and copy replaced the allocator of
 the vector with a default one

---
 nestl/implementation/vector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 839fc02..2c08427 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -312,7 +312,10 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> deallocateOld(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> destroyOld(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assert(empty());
 
@@ -338,7 +341,10 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> deallocateOld(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> destroyOld(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
-- 
2.43.0


From 4ef1b22895d398a44e5e6f444408d9f1a649e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 09/36] fix: vector move assignment took the memory but not the
 allocator

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2c08427..cb6e88a 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -671,7 +671,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 {
 	const vector destroyContentAtExit(std::move(*this));
 
-    this->swap_data(other);
+    this->swap(other);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 35dc8dd5430effc0abd3607dcb5ce5ed3f8799d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 10/36] fix: vector::max_size was larger than any vector can
 be, so length errors were not reported

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index cb6e88a..725198c 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -514,7 +514,7 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<size_type>::max();
+    return std::numeric_limits<difference_type>::max() / sizeof(value_type);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 3fc30281b039e95477c4ee4e641ea2eddd6d5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 11/36] fix: nestl::allocator allocated a truncated size when
 the byte count overflowed

---
 nestl/allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
-- 
2.43.0


From 2094bb9e54c2237ed1ca5df3f230bdcd324b5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 12/36] fix: copy_nothrow, swap, data and == of vector were not
 accessible with exceptions enabled

---
 nestl/has_exceptions/vector.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nestl/has_exceptions/vector.hpp b/nestl/has_exceptions/vector.hpp
index 8196090..e5ae4e9 100644
--- a/nestl/has_exceptions/vector.hpp
+++ b/nestl/has_exceptions/vector.hpp
@@ -88,12 +88,29 @@ public:
     using base_t::pop_back;
     using base_t::resize_nothrow;
     using base_t::swap;
+    using base_t::data;
+
+    template <typename OperationError>
+    void copy_nothrow(OperationError& err, const vector& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::copy_nothrow(err, other.as_noexcept());
+    }
+
+    void swap(vector& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::swap(other.as_noexcept());
+    }
 
     void push_back(const value_type& value);
 
     void push_back(value_type&& value);
 };
 
+template <typename T, typename A>
+bool operator == (const vector<T, A>& left, const vector<T, A>& right) NESTL_NOEXCEPT_SPEC
+{
+    return left.as_noexcept() == right.as_noexcept();
+}
 
 template <typename T, typename A>
 vector<T, A>::vector(const allocator_type& alloc) NESTL_NOEXCEPT_SPEC
-- 
2.43.0


From 33701f4650b29a70c100680f0f8c828753e15d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 13/36] fix: list range erase did not compile

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..c3d4e33 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -991,7 +991,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 37185ea630c021ea8405c8dddeed0e615bb88cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 14/36] fix: list::max_size did not compile

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index c3d4e33..3391666 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -886,7 +886,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return std::numeric_limits<difference_type>::max() / sizeof(node_type);
 }
 
 
-- 
2.43.0


From 2295c89d78eb378ce0291aad0dd050ee1eb05ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 15/36] fix: list range insert reversed the order of the
 inserted range

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 3391666..210cfc9 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -938,7 +938,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        pos = insert_nothrow(err, pos, *first);
+        insert_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From 892ab9921b96244b7d050da19a231154a76ee6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 16/36] fix: list range splice in front of the end of the range
 itself corrupted the list

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 210cfc9..d7b670b 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1169,7 +1169,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if (first != last)
+    if ((first != last) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From 4cf6953f54f2748ef4fae67660e41abdc0fd4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 17/36] fix: list swap and assign released nodes through the
 wrong allocator

---
 nestl/implementation/list.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index d7b670b..7f7ef59 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -716,7 +716,7 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap_data(*this);
 
     while (n > 0)
     {
@@ -736,7 +736,7 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap_data(*this);
 
     while (first != last)
     {
@@ -1061,6 +1061,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1205,10 +1206,10 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
             for(counter = &tmp[0]; counter != fill && !counter->empty(); ++counter)
             {
                 counter->merge(carry, comp);
-                carry.swap(*counter);
+                carry.swap_data(*counter);
             }
 
-            carry.swap(*counter);
+            carry.swap_data(*counter);
             if (counter == fill)
             {
                 ++fill;
@@ -1220,7 +1221,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From 82f7c6d740031434708e5e4ca2a1ecd233ab669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 18/36] fix: list move assignment did not compile

---
 nestl/has_exceptions/list.hpp | 3 ++-
 nestl/implementation/list.hpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..91da4f0 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,8 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+        return *this;
     }
 
     list(const list& other)
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 7f7ef59..bac5e2d 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -698,7 +698,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1265,7 +1265,7 @@ void
 list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NESTL_NOEXCEPT_SPEC
 {
     const list tmp(std::move(*this));
-    this->swap_data(other);
+    this->swap(other);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From f8f781020a800cb8080dd08f73c39c70a0bd9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 19/36] fix: copy of a list did not use the allocator of the
 source

---
 nestl/has_exceptions/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 91da4f0..4ba8469 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -48,6 +48,7 @@ public:
     }
 
     list(const list& other)
+        : base_t(other.get_allocator())
     {
         default_operation_error err;
         this->copy_nothrow(err, other);
-- 
2.43.0


From b31da9cb8186f1d6794a2ffab717920038bfd741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 20/36] fix: copy_nothrow, swap and == of list were not
 accessible with exceptions enabled

---
 nestl/has_exceptions/list.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 4ba8469..1120e28 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -102,6 +102,22 @@ public:
     using base_t::unique;
     using base_t::sort;
 
+    template <typename OperationError>
+    void copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::copy_nothrow(err, other);
+    }
+
+    void swap(list& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::swap(other);
+    }
+
+    bool operator==(const list& other) const NESTL_NOEXCEPT_SPEC
+    {
+        return static_cast<const base_t&>(*this) == static_cast<const base_t&>(other);
+    }
+
     void push_back(const value_type& value)
     {
         default_operation_error err;
-- 
2.43.0


From b39fc1b3c832c2d3822397554a1584b0fdfc99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:01 +0000
Subject: [PATCH 21/36] fix: set::copy_nothrow did not compile

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..6a6f841 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From bdbcc8df4f5093649b5a54a19482f616a726888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:01 +0000
Subject: [PATCH 22/36] fix: set::crbegin and set::crend did not compile

---
 nestl/implementation/set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..dc0964a 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -253,7 +253,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -274,7 +274,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From 3162be06e8c94b4f51f7bfd81427bb767c8af293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:01 +0000
Subject: [PATCH 23/36] fix: set::max_size did not compile

---
 nestl/implementation/detail/red_black_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..32d1eb4 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1133,7 +1133,7 @@ public:
 
     size_type
     max_size() const NESTL_NOEXCEPT_SPEC
-    { return node_allocator_traits::max_size(m_get_node_allocator()); }
+    { return std::numeric_limits<difference_type>::max() / sizeof(rb_tree_node<Val>); }
 
     void
     swap(rb_tree& t) NESTL_NOEXCEPT_SPEC;
-- 
2.43.0


From 9fcc1d511b2076b90e256d0900bc1db2376ebd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 24/36] fix: set move assignment did not compile

---
 .../implementation/detail/red_black_tree.hpp  | 23 +++++++------------
 nestl/implementation/set.hpp                  | 12 ++--------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index 32d1eb4..007e4c5 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,8 +1265,8 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
-    m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
+    void
+    m_move_assign(std::true_type, rb_tree& other) NESTL_NOEXCEPT_SPEC;
 
 private:
     // Move elements from container with equal allocator.
@@ -1381,24 +1381,17 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
-rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
+void
+rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(std::true_type, rb_tree& x) NESTL_NOEXCEPT_SPEC
 {
     m_impl.m_key_compare = x.m_impl.m_key_compare;
 
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    clear();
+    if (x.m_root() != 0)
     {
-        clear();
-        if (x.m_root() != 0)
-        {
-            m_move_data(x, std::true_type());
-        }
-        nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
+        m_move_data(x, std::true_type());
     }
-    return false;
+    nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index dc0964a..139335d 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,8 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(typename nestl::allocator_traits<A>::propagate_on_container_move_assignment(), other.m_impl);
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0


From be9e6009b2946cac230fc181ed80dc8f753747d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 25/36] fix: weak_ptr::lock returned an owner of an already
 destroyed object

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..3a62de7 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -332,6 +332,11 @@ public:
 
     shared_ptr<T> lock()
     {
+        if (expired())
+        {
+            return shared_ptr<T>();
+        }
+
         return shared_ptr<T>(m_ptr, m_refcount);
     }
 
-- 
2.43.0


From e6daa64aa8e17819fe2a535b1c72e15f5413d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 26/36] fix: shared_ptr used its control block after a
 self-referencing value had freed it

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3a62de7..722a8d5 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            /// value may own weak references to itself, keep the block until it is destroyed
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From 6f5606f9e31b561b9938cc94b52aaba2ee6fa69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 27/36] fix: weak_ptr move assignment left two owners of one
 weak reference

---
 nestl/implementation/shared_ptr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 722a8d5..73904ad 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -309,7 +309,10 @@ public:
         const weak_ptr tmp(std::move(*this));
 
         m_ptr = other.m_ptr;
+        other.m_ptr = 0;
+
         m_refcount = other.m_refcount;
+        other.m_refcount = 0;
 
         return *this;
     }
-- 
2.43.0


From 7b9f8dd535b211dc401c6de2b80677ec706fc90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 28/36] fix: weak_ptr self assignment freed the control block
 it refers to

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 73904ad..f1dcb1b 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -289,6 +289,11 @@ public:
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
+        if (this == &other)
+        {
+            return *this;
+        }
+
         if (m_refcount)
         {
             m_refcount->weak_release();
-- 
2.43.0


From 0c14a69da56ad637e17a052bb239d196ed5fb362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 29/36] fix: shared_ptr move assignment destroyed the old value
 before taking the new one

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index f1dcb1b..2cb5184 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -453,10 +453,9 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
+    /// other may be stored inside the old value, so destroy the old value at exit
+    const shared_ptr tmp(std::move(*this));
+
     m_ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-- 
2.43.0


From 68099da9dac74af51491b631061ca47b77042fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 30/36] fix: make_shared_a_nothrow ignored the given allocator

---
 nestl/implementation/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 2cb5184..0b4cb18 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -512,12 +512,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
-- 
2.43.0


From 2b427ed62710bbc0fafee982bb68ef4cc80e8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 31/36] fix: control block (and its allocator) was not
 destroyed when make_shared failed to build the value

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 0b4cb18..be3c461 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -532,12 +532,17 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&
         return {nullptr};
     }
 
+    shared_count_t* ptrEnd = ptr + 1;
+    nestl::detail::destruction_scoped_guard<shared_count_t*> destructionGuard(ptr, ptrEnd);
+
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
         return {nullptr};
     }
 
+    destructionGuard.release();
+
     deallocationGuard.release();
     return shared_ptr<T>(ptr->get(), ptr);
 }
-- 
2.43.0


From 4af09ac0191a6d20bfe8761cbf23ad2283c2e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 32/36] fix: class_operations::assign checked assignability of
 rvalues and rejected plain types

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++--
 nestl/no_exceptions/detail/class_operations.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index d64da3f..fe7b017 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -43,7 +43,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-        typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+        typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
         assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
@@ -51,7 +51,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<!std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& err, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         try
diff --git a/nestl/no_exceptions/detail/class_operations.hpp b/nestl/no_exceptions/detail/class_operations.hpp
index 5189649..b3165e7 100644
--- a/nestl/no_exceptions/detail/class_operations.hpp
+++ b/nestl/no_exceptions/detail/class_operations.hpp
@@ -27,7 +27,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
-- 
2.43.0


From 23f099e7294bf6dba6741127fd8f6899c6e90021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:06 +0000
Subject: [PATCH 33/36] fix: list assigned from itself or from a range of its
 own elements ran past the end

---
 nestl/implementation/list.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index bac5e2d..3db71a7 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -736,11 +736,12 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp(get_allocator()); tmp.swap_data(*this);
+    /// range may belong to this list, so old content should be kept until new content is ready
+    list tmp(get_allocator());
 
     while (first != last)
     {
-        push_back_nothrow(err, *first);
+        tmp.push_back_nothrow(err, *first);
         if (err)
         {
             return;
@@ -748,6 +749,8 @@ list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterat
 
         ++first;
     }
+
+    swap_data(tmp);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From a759e26940f39dc7d017bc72bb6ebc856784f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 34/36] fix: assign by count (and list insert by count) of
 integers was taken for a range and did not compile

---
 nestl/implementation/list.hpp   | 10 ++++++----
 nestl/implementation/vector.hpp |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 3db71a7..244a398 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -454,7 +454,8 @@ public:
     void assign_nothrow(OperationError& err, size_type n, const_reference val = value_type()) NESTL_NOEXCEPT_SPEC;
 
     template <typename OperationError, typename InputIterator>
-    void assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
+    typename std::enable_if<!std::is_integral<InputIterator>::value>::type
+    assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
 
     // element access
     reference front() NESTL_NOEXCEPT_SPEC;
@@ -513,7 +514,8 @@ public:
     void insert_nothrow(OperationError& err, const_iterator pos, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC;
 
     template<typename OperationError, typename InputIterator>
-    void insert_nothrow(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
+    typename std::enable_if<!std::is_integral<InputIterator>::value>::type
+    insert_nothrow(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
 
     template<typename OperationError, typename ... Args>
     iterator emplace_nothrow(OperationError& err, const_iterator pos, Args&&... args) NESTL_NOEXCEPT_SPEC;
@@ -733,7 +735,7 @@ list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val
 
 template <typename T, typename A>
 template <typename OperationError, typename InputIterator>
-void
+typename std::enable_if<!std::is_integral<InputIterator>::value>::type
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
     /// range may belong to this list, so old content should be kept until new content is ready
@@ -936,7 +938,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, size_type co
 
 template <typename T, typename A>
 template<typename OperationError, typename InputIterator>
-void
+typename std::enable_if<!std::is_integral<InputIterator>::value>::type
 list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
     while (first != last)
diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 725198c..4294928 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -65,7 +65,8 @@ public:
     void assign_nothrow(OperationError& err, size_type n, const_reference val = value_type()) NESTL_NOEXCEPT_SPEC;
 
     template <typename OperationError, typename InputIterator>
-    void assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
+    typename std::enable_if<!std::is_integral<InputIterator>::value>::type
+    assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC;
 
 
 // element access
@@ -338,7 +339,7 @@ vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference v
 
 template <typename T, typename A>
 template <typename OperationError, typename InputIterator>
-void
+typename std::enable_if<!std::is_integral<InputIterator>::value>::type
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
     pointer oldFinish = m_finish;
-- 
2.43.0


From 173dd734e9acaf9555361c94d96caad1ec084a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 35/36] fix: clang could not compile the library with
 exceptions disabled

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index fe7b017..aaca7ed 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -24,6 +24,7 @@ struct class_operations_helper
         ::new(static_cast<void*>(ptr)) T(std::forward<Args>(args)...);
     }
 
+#if NESTL_HAS_EXCEPTIONS
     template <typename T, typename OperationError, typename ... Args>
     static
     typename std::enable_if<!std::is_nothrow_constructible<T, Args...>::value>::type
@@ -38,6 +39,7 @@ struct class_operations_helper
             from_exception_ptr(err, std::current_exception());
         }
     }
+#endif /* NESTL_HAS_EXCEPTIONS */
 
 
 
@@ -49,6 +51,7 @@ struct class_operations_helper
         dest = std::forward<Y>(src);
     }
 
+#if NESTL_HAS_EXCEPTIONS
     template <typename T, typename OperationError, typename Y>
     static
     typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
@@ -63,6 +66,7 @@ struct class_operations_helper
             from_exception_ptr(err, std::current_exception());
         }
     }
+#endif /* NESTL_HAS_EXCEPTIONS */
 };
 
 } // namespace detail
-- 
2.43.0


From ee6cc44140480c2067425d58498af431ba8727f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 36/36] fix: nestl/string.hpp could not be included on its own
 (std::char_traits undeclared)

---
 nestl/implementation/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nestl/implementation/string.hpp b/nestl/implementation/string.hpp
index 20d7367..59ed745 100644
--- a/nestl/implementation/string.hpp
+++ b/nestl/implementation/string.hpp
@@ -5,6 +5,8 @@
 
 #include <nestl/allocator.hpp>
 
+#include <string>
+
 namespace nestl
 {
 namespace impl
-- 
2.43.0


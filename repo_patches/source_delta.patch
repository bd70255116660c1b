From b0d4c628e4a164d84fb0dd9a8f1a8c6c00f4236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 01/45] fix: PagedStack::clear() must also empty the first page

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..4282a01 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -530,6 +530,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From 31641125719dee2e7c94249911cdcaacf69305fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 02/45] fix: PagedStack must empty a page it leaves when
 discarding at a page boundary

The elements left in the page came back as soon as the stack grew again.
---
 src/include/falcon/engine/pagedstack.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 4282a01..3692b2a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -111,13 +111,11 @@ private:
       }
       if(iData == m_curBase->begin())
       {
+         m_curBase->clear();
          if (m_curBase != m_base.begin())
          {
             m_curBase--;
          }
-         else {
-            m_curBase->clear();
-         }
       }
       else {
          m_curBase->resize(iData - m_curBase->begin());
-- 
2.43.0


From efcbb546df0844e1bdc635396788e11d9cd41bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 03/45] fix: PagedStack reverse iteration must stop at the
 current page

rbegin() used the last allocated page as the end marker, so the iteration ran
past the top whenever there were spare pages above the current one.
---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3692b2a..7955077 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -564,8 +564,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From efd70bfc1b63b5e5123984d261e0d08c14bc7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 04/45] fix: PagedStack must not change page when adding an
 element throws

---
 src/include/falcon/engine/pagedstack.h | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7955077..22116b3 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -75,15 +75,19 @@ private:
       }
    }
 
-   void advance() {
-      if (m_curBase->size() == m_pageSize) {
-         ++m_curBase;
-         if(m_curBase == m_base.end()) {
-            m_curBase--;
+   // Finds the page where the next element goes. The current page must change only
+   // after the element is in, or a throwing element would leave an empty page on top.
+   typename base_type::iterator advance() {
+      typename base_type::iterator page = m_curBase;
+      if (page->size() == m_pageSize) {
+         ++page;
+         if(page == m_base.end()) {
             growBase();
-            m_curBase++;
+            page = m_curBase;
+            ++page;
          }
       }
+      return page;
    }
 
    template<typename... _Args>
@@ -123,14 +127,14 @@ private:
    }
 
    void internal_push(const _T& data) {
-      advance();
-      m_curBase->push_back(data);
+      typename base_type::iterator page = advance();
+      page->push_back(data);
+      m_curBase = page;
    }
 
    template<typename... _Args>
    void internal_push(const _T& data, _Args&&... __args) {
-      advance();
-      m_curBase->push_back(data);
+      internal_push(data);
       internal_push(std::forward<_Args>(__args)...);
    }
 
@@ -454,9 +458,10 @@ public:
    template<typename... _Args>
    void push_emplace(_Args&&... __args)	{
       std::lock_guard<_Mutex> guard(m_mutex);
-      advance();
+      typename base_type::iterator page = advance();
       // vector::emplace writes at the previous iterator.
-      m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      page->emplace_back(std::forward<_Args>(__args)...);
+      m_curBase = page;
    }
 
    /**
-- 
2.43.0


From 32a3644dc7e428b54c6e61175fb67369a20c5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 05/45] fix: PagedStack must not keep half-built pages when
 memory runs out

A page that could not be reserved stayed in the page list, and elements stored
in it later were moved around in memory.
---
 src/include/falcon/engine/pagedstack.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 22116b3..39328a1 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -69,8 +69,9 @@ private:
    void growBase() {
       size_t count = m_allocSize;
       while(count) {
-         m_base.emplace_back(m_dataAllocator);
-         m_base.back().reserve(m_pageSize);
+         page_type page(m_dataAllocator);
+         page.reserve(m_pageSize);
+         m_base.push_back(std::move(page));
          --count;
       }
    }
-- 
2.43.0


From 6fd9a3f6138f769bd51893df51f8d05763cc5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 06/45] fix: copies of PagedStack sync iterators must be
 counted

A copy was not counted on creation but was on destruction, so a shrink request
could free the page under a live iterator, or never be carried out.
---
 src/include/falcon/engine/pagedstack.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 39328a1..f9b3db0 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -345,6 +345,29 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other) noexcept:
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         PagedStack::lock_guard guard(m_owner);
+         m_owner->m_syncIterCount++;
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) noexcept {
+         if(m_owner != other.m_owner) {
+            m_owner->removeSyncIterator();
+            m_owner = other.m_owner;
+            PagedStack::lock_guard guard(m_owner);
+            m_owner->m_syncIterCount++;
+         }
+         m_iBase = other.m_iBase;
+         m_iData = other.m_iData;
+         m_iBaseBegin = other.m_iBaseBegin;
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From d2b3b10b0714e715d46ffad806996bf842b06872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 07/45] fix: PagedStack constant sync iterators must be
 readable

get() took a constant reference as its destination and did not compile.
---
 src/include/falcon/engine/pagedstack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index f9b3db0..81ec04a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 #include <falcon/engine/distribute.h>
 #include <mutex>
 
@@ -306,7 +307,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(std::remove_const_t<_TT>& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
-- 
2.43.0


From 2e5a9d137a392870e42c80d9ef1eebd4adc03e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 08/45] fix: copies of a PagedStack must have pages of their
 own

The implicit copy kept an iterator on the pages of the original and worked on them.
---
 src/include/falcon/engine/pagedstack.h | 52 +++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 81ec04a..6c8b9e5 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -140,6 +140,27 @@ private:
       internal_push(std::forward<_Args>(__args)...);
    }
 
+   void internal_clear() noexcept {
+      while(m_curBase != m_base.begin()) {
+         m_curBase->clear();
+         --m_curBase;
+      }
+      m_curBase->clear();
+   }
+
+   void internal_append(const PagedStack& other) {
+      typename base_type::const_iterator iter = other.m_base.begin();
+      while(true) {
+         for(const _T& data: *iter) {
+            internal_push(data);
+         }
+         if(iter == other.m_curBase) {
+            return;
+         }
+         ++iter;
+      }
+   }
+
    void internal_shrink_to_fit() {
         typename base_type::iterator iter = m_curBase;
         ++iter;
@@ -458,6 +479,31 @@ public:
       m_curBase = m_base.begin();
    }
 
+   PagedStack(const PagedStack& other):
+      PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      internal_append(other);
+   }
+
+   PagedStack(PagedStack&& other):
+      PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      m_base.swap(other.m_base);
+      std::swap(m_curBase, other.m_curBase);
+   }
+
+   PagedStack& operator=(const PagedStack& other) {
+      if(this != &other) {
+         PagedStack copy(other);
+         std::lock_guard<_Mutex> guard(m_mutex);
+         internal_clear();
+         internal_append(copy);
+      }
+      return *this;
+   }
+
    void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
@@ -554,11 +600,7 @@ public:
    void clear() noexcept {
       //TODO: Swap base.
       std::lock_guard<_Mutex> guard(m_mutex);
-      while(m_curBase != m_base.begin()) {
-         m_curBase->clear();
-         --m_curBase;
-      }
-      m_curBase->clear();
+      internal_clear();
    }
 
    /**
-- 
2.43.0


From 972a3379cba210e6f1bfda1e4be4373f56716460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 09/45] fix: Futex must keep yielding while the lock is
 contended

The spin counter wrapped around after the first yield, so a waiting thread did
not yield again for four billion attempts.
---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..228e037 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -57,6 +57,7 @@ public:
 
          if(spinCount && --sc == 0) {
             std::this_thread::yield();
+            sc = spinCount;
          }
       }
    }
-- 
2.43.0


From f729215d9198b4963c359d5045ce7f0258ce3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 10/45] fix: RFutex::lock() must return once the futex is taken

A successful exchange leaves the expected value at 0, so the loop went on forever.
---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 228e037..40a15a4 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -95,7 +95,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
-- 
2.43.0


From 77dd2413d7617b8fa0bf1ceaf5dc4e9f1692c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 11/45] fix: a thread that never locked an RFutex must not own
 a free one

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 40a15a4..4bf4c35 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -112,7 +112,7 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From 5c7fc12780496d6a39422c5532db3166c3fa3813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 12/45] fix: Code must allocate room for the whole source

Sources of 1000 characters or more overflowed a fixed buffer.
---
 src/engine/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..aba1b6c 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -19,7 +19,7 @@
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
+		m_source(source), m_line(line), m_data(new char[source.size() + 1])
 {
 	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
 	m_data[m_source.size()] = 0;
-- 
2.43.0


From f141ee2c870b533a31a448bd5a98e1dbdbd45305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 13/45] fix: Code values must own their data through copies and
 assignments

Copies and assignments shared the buffer and freed it twice, and a moved-from
value could not be rendered.
---
 src/engine/code.cpp              | 25 ++++++++++++++++++++-----
 src/include/falcon/engine/code.h |  3 ++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index aba1b6c..d111af4 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -26,14 +26,29 @@ Code::Code(const std::string& source, int line) noexcept :
 }
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
+		Code(other.m_source, other.m_line)
 {}
 
 Code::Code(Code&& other) noexcept:
-		m_source(std::move(other.m_source)),
-		m_line(other.m_line), m_data(other.m_data)
+		Code()
 {
-	other.m_data = nullptr;
+	*this = std::move(other);
+}
+
+Code& Code::operator=(const Code& other) noexcept
+{
+	if (this != &other) {
+		*this = Code(other);
+	}
+	return *this;
+}
+
+Code& Code::operator=(Code&& other) noexcept
+{
+	m_source.swap(other.m_source);
+	std::swap(m_line, other.m_line);
+	std::swap(m_data, other.m_data);
+	return *this;
 }
 
 Code::~Code()
@@ -42,7 +57,7 @@ Code::~Code()
 }
 
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	return std::string(m_data, m_source.size());
 }
 
 }
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..ba57af3 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -24,7 +24,8 @@ public:
 	Code(const std::string& source="", int m_line=0) noexcept;
 	Code(const Code& other) noexcept;
 	Code(Code&& other) noexcept;
-	Code& operator=(const Code& other) = default;
+	Code& operator=(const Code& other) noexcept;
+	Code& operator=(Code&& other) noexcept;
 	~Code();
 
 	std::string toString() const noexcept;
-- 
2.43.0


From baf182389527659694665319831bee610a7131d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 14/45] fix: ItemData built from a pointer must hold the
 pointer

It held the address of the pointer argument, so a value allocated by a deep
handler was leaked and a dangling address was handed out.
---
 src/include/falcon/engine/itemdata.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..4714750 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -17,6 +17,7 @@
 #define _FALCON_ITEMDATA_H_
 
 #include "falcon/types.h"
+#include <type_traits>
 
 namespace falcon {
 
@@ -45,6 +46,8 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_pointer_v<T> || std::is_null_pointer_v<T>) {
+            ptrValue = const_cast<void*>(static_cast<const volatile void*>(value));
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From b7134830d74358370202581531c8777e590df507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 15/45] fix: Item::get() must compile

---
 src/include/falcon/engine/item.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..326c882 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -18,6 +18,7 @@
 
 #include "falcon/types.h"
 #include "falcon/engine/handlerfactory.h"
+#include <stdexcept>
 
 namespace falcon {
 
@@ -91,8 +92,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From 48f1cbe659f7330bb08ef34f3b649c9e170b36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 16/45] fix: converting a non-numeric string item to integer
 must not terminate the program

std::stoll throws out of a noexcept function.
---
 src/include/falcon/engine/stringhandler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/stringhandler.h b/src/include/falcon/engine/stringhandler.h
index 4116e84..1936a79 100644
--- a/src/include/falcon/engine/stringhandler.h
+++ b/src/include/falcon/engine/stringhandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_STRINGHANDLER_H_
 
 #include "falcon/engine/deepflatcopyhandler.h"
+#include <cstdlib>
 
 
 namespace falcon {
@@ -27,7 +28,7 @@ struct StringHandler: public DeepFlatCopyHandler<String> {
     String toString(ItemData data) const noexcept override { return *reinterpret_cast<String *>(data.ptrValue); }
 
     bool toBool(ItemData data) const noexcept override { return !reinterpret_cast<String *>(data.ptrValue)->empty(); }
-    int64 toInt(ItemData data) const noexcept override { return std::stoll(*reinterpret_cast<String *>(data.ptrValue)); }
+    int64 toInt(ItemData data) const noexcept override { return std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10); }
 };
 
 }
-- 
2.43.0


From b922102dedeaf11b90afeda6ff29fba7a77bea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 17/45] fix: copies of an Item must own their value

The copies of an item holding a string or a big number shared it, and each of
them destroyed it.
---
 src/include/falcon/engine/deephandler.h |  1 +
 src/include/falcon/engine/handler.h     |  1 +
 src/include/falcon/engine/item.h        | 10 ++++++++++
 3 files changed, 12 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..7f23dd2 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -26,6 +26,7 @@ struct DeepHandler: public Handler {
 
     ItemData allocate() const override {return new T;}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
+    ItemData copy(ItemData data) const override { return new T(*reinterpret_cast<T *>(data.ptrValue)); }
 
     bool isFlat() const noexcept override { return false; }
     bool isCopyFlat() const noexcept override { return false; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..ea5e0f8 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -31,6 +31,7 @@ struct Handler {
 
     virtual ItemData allocate() const =0;
     virtual void destroy(ItemData data) const noexcept =0;
+    virtual ItemData copy(ItemData data) const {return data;}
 
     virtual String typeName() const noexcept = 0;
     virtual String toString(ItemData data) const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index 326c882..63e79e3 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -19,6 +19,7 @@
 #include "falcon/types.h"
 #include "falcon/engine/handlerfactory.h"
 #include <stdexcept>
+#include <utility>
 
 namespace falcon {
 
@@ -70,6 +71,15 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->copy(other.data)), handler(other.handler) {}
+
+    Item& operator=(const Item& other) {
+        Item copy(other);
+        std::swap(data, copy.data);
+        std::swap(handler, copy.handler);
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From 92bbae5811150ea4450206a94194cfc529716fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 18/45] fix: LogSystem must not start out with an undefined
 termination flag

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..a98d7ea 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
-- 
2.43.0


From 31a1a84824ac547d46b7bee6ae121ab4bde3c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 19/45] fix: LogSystem must deliver again when it is started
 after a stop

The termination flag was never reset, so the new log thread left at once.
---
 src/engine/logsystem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index a98d7ea..0a90a3e 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -57,12 +57,17 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		m_mtxMessage.lock();
+		m_isTerminated = false;
+		m_mtxMessage.unlock();
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
+	std::lock_guard<std::mutex> guard(m_mtxThread);
+
 	// send a killer message
 	m_mtxMessage.lock();
 	m_isTerminated = true;
@@ -70,8 +75,6 @@ void LogSystem::stop() noexcept {
 	m_cvLogs.notify_all();
 
 	// now
-	std::thread* the_thread = 0;
-	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
 		return;
 	}
-- 
2.43.0


From e2a52960783bb7b5df903e7125d7476b6dda4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 20/45] fix: a detached log listener must not receive the next
 message

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 0a90a3e..f326584 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -193,7 +193,8 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 {
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
-		if(listener->isEnabled()
+		if(!listener->isDetached()
+				&& listener->isEnabled()
 				&& listener->level() >= msg->m_level
 				&& listener->checkCategory(msg->m_category))
 		{
-- 
2.43.0


From aece8b93b5dc77bed7ca9fefa1d7dffa99610fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 21/45] fix: LogSystem must not leak the strings of reused
 messages

Constructing a message over a pooled one lost the strings of the old one.
---
 src/engine/logsystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f326584..f4667e4 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -93,7 +93,13 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
+	// The message comes from the pool, and still holds the strings of its previous use.
+	Message* msg = allocateMsg();
+	msg->m_file = file;
+	msg->m_line = line;
+	msg->m_level = level;
+	msg->m_category = cat;
+	msg->m_message = message;
 	log(msg);
 }
 
-- 
2.43.0


From f2ec8629b38d2eb0e6896ca6ce6ef8bbd0cfcec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 22/45] fix: LogSystem::getDiags() must not race with the log
 thread

---
 src/engine/logsystem.cpp       | 18 ++++++++++--------
 src/include/falcon/logsystem.h |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f4667e4..20cc81b 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -253,11 +253,13 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
-	m_activeListeners.erase(
-			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
-					[](auto& listener) { return listener->isDetached(); }),
-			m_activeListeners.end());
-
+	// Let the listeners go after unlocking, as they might have something to log.
+	ListenerList dead;
+	std::lock_guard<std::mutex> guard(m_mtxListeners);
+	auto iter = std::stable_partition(m_activeListeners.begin(), m_activeListeners.end(),
+			[](auto& listener) { return !listener->isDetached(); });
+	std::move(iter, m_activeListeners.end(), std::back_inserter(dead));
+	m_activeListeners.erase(iter, m_activeListeners.end());
 }
 
 
@@ -265,9 +267,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -281,6 +280,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+				[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..333e483 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -267,7 +267,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
-- 
2.43.0


From e65825900a1627191842408e607381155a71b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 23/45] fix: reading the category of a log listener must not
 race with setting it

The reference that category() returned was read after the mutex was released.
---
 src/include/falcon/logsystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 333e483..4efc53d 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -135,7 +135,7 @@ public:
       /**
        * Returns the current category filter
        */
-      const std::string& category() const noexcept {
+      std::string category() const noexcept {
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  return m_category;
       }
-- 
2.43.0


From e2aa43539eb3a715df83e6f1c8c3ecdcaa0e02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 24/45] fix: log category filtering must not write on the
 standard output

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 20cc81b..30d8b8a 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -216,7 +216,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From 52e4856361cf3813e42cb3f01aefe43083bdc29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 25/45] fix: logger.h must be includable by more than one
 source of a program

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..1ae380c 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -399,7 +399,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From 9400ce77571f31bb82bc85d5d610bdf02e19f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 26/45] fix: stream manipulators used in a log statement must
 not affect the next ones

---
 src/include/falcon/logger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1ae380c..2acbe28 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -386,6 +386,7 @@ private:
 	void readyStream() noexcept {
 		m_composer.clear();
 		m_composer.str("");
+		m_composer.copyfmt(std::ios(nullptr));
 	}
 };
 
-- 
2.43.0


From c90e8770e1b6b9dc4b7047f8dfe47a521937ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 27/45] fix: the Logger category filter must be replaced and
 cleared as documented

Setting a second filter forgot the original level, clearing without a filter
crashed, an invalid category left the levels changed, and the level of the
default listener was not lowered to the general one.
---
 src/engine/logger.cpp       | 22 ++++++++++++++++------
 src/include/falcon/logger.h |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..da367bb 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -32,23 +32,33 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
-	if (m_proxy.get()) {
-		m_proxy->detach();
-	}
+	// This throws on invalid categories: the filter in place is not touched then.
+	auto proxy = std::make_shared<LogProxyListener>(m_dflt);
+	proxy->category(category);
+	proxy->level(l);
+
+	clearFilter();
 	m_proxyBaseLevel = level();
+	m_dfltBaseLevel = m_dflt->level();
+	if(m_dfltBaseLevel > m_proxyBaseLevel) {
+		m_dflt->level(m_proxyBaseLevel);
+	}
 	if(l > m_proxyBaseLevel) {
 		level(l);
 	}
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
-	m_proxy->level(l);
+	m_proxy = proxy;
 	addListener(m_proxy);
 }
 
 
 void Logger::clearFilter() {
+	if (!m_proxy) {
+		return;
+	}
 	m_proxy->detach();
+	m_proxy.reset();
 	level(m_proxyBaseLevel);
+	m_dflt->level(m_dfltBaseLevel);
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 2acbe28..04ce781 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -375,6 +375,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From 616216e393ce9ad4fefb0eeee72ca1532502b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 28/45] fix: a log block left early must not leak its text in
 the next message

---
 src/include/falcon/logger.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 04ce781..f7d792d 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -286,6 +286,12 @@ public:
 		readyStream();
 	}
 
+	void discard() noexcept
+	{
+		m_tempCategory.clear();
+		readyStream();
+	}
+
 	void setLevel(LOGLEVEL lvl) {
 		m_msgLevel = lvl;
 	}
@@ -340,6 +346,8 @@ public:
 	    		m_obj = &obj;
 	    	}
 	    }
+	    // Whatever is left by a block which is not completed must not get in the next message.
+	    ~BlockEnd() {if(m_obj){m_obj->discard();}}
 	    void complete() {m_obj->commit(); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
-- 
2.43.0


From 0db1f13fc7eca88e0b605b7c63de6052c800696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 29/45] fix: a message logged while another one is composed
 must not mix with it

The operands of a log statement, or the body of a log block, may well log
something on their own.
---
 src/engine/logger.cpp       |  1 +
 src/include/falcon/logger.h | 56 +++++++++++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index da367bb..96d8811 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -23,6 +23,7 @@ thread_local std::ostringstream Logger::m_composer;
 thread_local std::string Logger::m_msgFile{""};
 thread_local int Logger::m_msgLine{0};
 thread_local LOGLEVEL Logger::m_msgLevel{LLTRACE};
+thread_local int Logger::m_openCount{0};
 
 Logger::Logger()
 {
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f7d792d..363c79a 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -307,25 +307,35 @@ public:
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
 	void clearFilter();
 
+	/** Message set aside while another one, logged by one of its operands, is composed. */
+	struct Pending
+	{
+		std::ostringstream m_composer;
+		std::string m_tempCategory;
+		std::string m_file;
+		int m_line{0};
+		LOGLEVEL m_level{LLTRACE};
+	};
+	using PPending = std::unique_ptr<Pending>;
+
 	class AutoEnd
 	{
 	private:
 	    Logger* m_obj;
 	    std::string m_category;
+	    PPending m_outer;
 
 	public:
 	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
-	    		obj.setFile(file);
-	    		obj.setLine(line);
-	    		obj.setLevel(lvl);
+	    		m_outer = obj.open(file, line, lvl);
 	    		m_obj = &obj;
 	    	}
 	    }
 
-	    ~AutoEnd () {if(m_obj){m_obj->commit();}}
+	    ~AutoEnd () {if(m_obj){m_obj->commit(); m_obj->close(m_outer);}}
 	    bool doLog() const noexcept {return m_obj != nullptr;}
 	    Logger& obj () const noexcept {return *m_obj;}
 	};
@@ -334,21 +344,20 @@ public:
 	{
 	private:
 	    Logger* m_obj;
+	    PPending m_outer;
 
 	public:
 	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
-	    		obj.setFile(file);
-	    		obj.setLine(line);
-	    		obj.setLevel(lvl);
+	    		m_outer = obj.open(file, line, lvl);
 	    		m_obj = &obj;
 	    	}
 	    }
 	    // Whatever is left by a block which is not completed must not get in the next message.
-	    ~BlockEnd() {if(m_obj){m_obj->discard();}}
-	    void complete() {m_obj->commit(); m_obj = nullptr;}
+	    ~BlockEnd() {if(m_obj){m_obj->discard(); m_obj->close(m_outer);}}
+	    void complete() {m_obj->commit(); m_obj->close(m_outer); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
 
@@ -391,6 +400,35 @@ private:
 	static thread_local std::string m_msgFile;
 	static thread_local int m_msgLine;
 	static thread_local LOGLEVEL m_msgLevel;
+	static thread_local int m_openCount;
+
+	PPending open(const std::string& file, int line, LOGLEVEL lvl) {
+		PPending outer;
+		if(m_openCount > 0) {
+			outer = std::make_unique<Pending>();
+			exchange(*outer);
+		}
+		++m_openCount;
+		setFile(file);
+		setLine(line);
+		setLevel(lvl);
+		return outer;
+	}
+
+	void close(PPending& outer) noexcept {
+		--m_openCount;
+		if(outer) {
+			exchange(*outer);
+		}
+	}
+
+	void exchange(Pending& other) noexcept {
+		m_composer.swap(other.m_composer);
+		m_tempCategory.swap(other.m_tempCategory);
+		m_msgFile.swap(other.m_file);
+		std::swap(m_msgLine, other.m_line);
+		std::swap(m_msgLevel, other.m_level);
+	}
 
 	void readyStream() noexcept {
 		m_composer.clear();
-- 
2.43.0


From 9a0fdb580839601614f3941608e6246ca2a8cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 30/45] fix: unit tests not selected must not be reported as
 failed

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..0d16f4b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -224,7 +224,7 @@ void UnitTest::report()
       if (p->status != 0) {
          bool first = true;
          for(auto tcase: p->tests ) {
-            if (!hasPassed(tcase))
+            if (tcase->status() != TestCase::NONE && !hasPassed(tcase))
             {
                if(first) {
                   std::cout << "\n======================================================================"
-- 
2.43.0


From f43609a9ad97bbf546d325292817e642ab21d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 31/45] fix: TearDown() must be called also if the test throws

---
 src/fut/testcase.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..05a673e 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -213,7 +213,14 @@ void TestCase::run()
       SetUp();
 
       p->lapse.markBegin();
-      test();
+      try {
+         test();
+      }
+      catch(...) {
+         p->lapse.markEnd();
+         TearDown();
+         throw;
+      }
       p->lapse.markEnd();
 
       if(p->status == NONE) {
-- 
2.43.0


From c448689a1749a23cb4522c79b7f135a6ca0ee70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 32/45] fix: the output captured in a run of a test must not
 show in the next run

---
 src/fut/testcase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 05a673e..3c95139 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -185,6 +185,8 @@ void TestCase::beginTest(bool capture)
 {
    // saving the standard buffers
    if (capture) {
+      p->outCapture.str("");
+      p->errCapture.str("");
       p->outbuf = std::cout.rdbuf();
       p->errbuf = std::cerr.rdbuf();
       std::cout.rdbuf(p->outCapture.rdbuf());
-- 
2.43.0


From e3649beb6d38cc89ab4e04b838107466c8ed1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 33/45] fix: the report of a failed test must not hold the
 position of another failure

Tests failing with an exception reported an undefined line.
---
 src/fut/testcase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 3c95139..467d250 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -54,6 +54,7 @@ TestCase::TestCase():
 {
    p->name = "Undefined";
    p->status = NONE;
+   p->failLine = 0;
 }
 
 TestCase::~TestCase()
@@ -210,6 +211,10 @@ void TestCase::endTest(bool capture)
 
 void TestCase::run()
 {
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
+
    try {
       p->status = NONE;
       SetUp();
-- 
2.43.0


From cbf33722c90ffccbd0de0c7a20194c9d79827053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 34/45] fix: the XML test report must be well-formed whatever
 it reports

---
 src/fut/unittest.cpp | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 0d16f4b..ec75697 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -32,6 +32,27 @@ namespace falcon {
 namespace testing{
 
 namespace {
+// Attributes and text of an XML document.
+std::string xmlEscape(const std::string& text)
+{
+   std::string result;
+   for(unsigned char chr: text) {
+      switch(chr) {
+      case '&': result += "&amp;"; break;
+      case '<': result += "&lt;"; break;
+      case '>': result += "&gt;"; break;
+      case '"': result += "&quot;"; break;
+      case '\t': case '\n': case '\r':
+         result += "&#" + std::to_string(chr) + ";";
+         break;
+      default:
+         // other control characters are not allowed in XML.
+         result += chr < 0x20 ? '?' : static_cast<char>(chr);
+      }
+   }
+   return result;
+}
+
 class Component {
 public:
    Component(const std::string& n):
@@ -420,29 +441,29 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   fout << "<testsuites id=\""<< xmlEscape(p->unitTestId) << "\" name=\"" << xmlEscape(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      fout << "<testsuite id=\"" << xmlEscape(p->unitTestId) << "." << xmlEscape(component.name) << "\" "
+           << "name=\"" << xmlEscape(component.name) << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         fout << "<testcase id=\"" << xmlEscape(p->unitTestId) << "." << xmlEscape(component.name) << "." << xmlEscape(tcasep->caseName()) << "\" "
+              << "name=\"" << xmlEscape(tcasep->caseName()) << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
-                 << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << "<failure message=\"" << xmlEscape(tcasep->failDesc()) << "\" "
+                 << "type=\"" << xmlEscape(tcasep->statusDesc()) << "\">\n";
+            fout << xmlEscape(tcasep->failDesc()) << "\n"
+                 << "File: " << xmlEscape(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From baf4ac26741efe85301b111bf66c523efcd6409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 35/45] fix: EXPECT_FLOAT_EQ and EXPECT_FLOAT_NE must compare
 the values they are given

They scaled just the last operand of an expression and cut the result to an
integer, so almost equal values compared as different.
---
 src/include/falcon/fut/fut.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..030696c 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -19,6 +19,7 @@
 #include <falcon/setup.h>
 #include <falcon/fut/testcase.h>
 #include <falcon/fut/unittest.h>
+#include <cmath>
 #include <sstream>
 #include <string>
 #include <stdexcept>
@@ -85,12 +86,16 @@
 		}
 
 
-#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
-#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+#define FALCON_TEST_CHECK_FLOAT(_EXPECTED_,_CHECK_,_SAME_,_ACTUAL_) \
+      if((std::fabs((_EXPECTED_) - (_ACTUAL_)) < 0.0001) != _SAME_) { \
+         std::ostringstream ss; \
+         ss << (_ACTUAL_); \
+         this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \
+         return; \
+      }
+
+#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,==,true,_ACTUAL_)
+#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,!=,false,_ACTUAL_)
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From da82a7e225f2560bad24929726cfad323eccde03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 36/45] fix: a failed resync must leave the PagedStack sync
 iterator where it was

The iterator was left with the first page of the stack and the position of an
element of another page.
---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 6c8b9e5..c5f4a02 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -427,14 +427,14 @@ private:
 
          }
          // we need to resync.
-         m_iBase = m_owner->m_curBase;
-         if ( m_iBase->size() == 0)
+         if ( m_owner->m_curBase->size() == 0)
          {
             // the stack has been emptied in the meanwhile.
             // any resync operation implies a movement or a dereference
             // hence, we're done.
             throw std::runtime_error("Empty stack while resync");
          }
+         m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
 
          return false;
-- 
2.43.0


From 3556a32d64a690ba863bd11670088edde2fe435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 37/45] fix: LOG_CATEGORY must set the category when the
 general level is above FALCON_MIN_LOG_LEVEL

With a compile-time minimum below the runtime level the macro did nothing, and the
messages that are compiled in were logged with a previous category.
---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 363c79a..12e9fb8 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -456,7 +456,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 }
 
 #define LOGGER (::falcon::Logger::instance())
-#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
+#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= ::falcon::LLCRIT){LOGGER.setCategory(__CAT);}
 
 #define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
-- 
2.43.0


From 6961a6812980db05cb0f63b740aa6f987c9e6b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 38/45] fix: a verbosity that is not a number must be refused

---
 src/fut/unittest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index ec75697..8fa773c 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -371,8 +371,7 @@ int UnitTest::parseParams(int argc, char* argv[])
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
          int level;
-         is >> level;
-         if(level >= SILENT && level <= REPORT_STDOUT) {
+         if(is >> level && level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
          }
-- 
2.43.0


From 4e67979a354cf219d131abeb81d9f482da0b247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 39/45] fix: U+FFFE and U+FFFF must not get in the XML report

---
 src/fut/unittest.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 8fa773c..b31e863 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -50,6 +50,13 @@ std::string xmlEscape(const std::string& text)
          result += chr < 0x20 ? '?' : static_cast<char>(chr);
       }
    }
+
+   // nor are U+FFFE and U+FFFF.
+   for(auto pos = result.find("\xEF\xBF"); pos != std::string::npos; pos = result.find("\xEF\xBF", pos + 1)) {
+      if(pos + 2 < result.size() && static_cast<unsigned char>(result[pos + 2]) >= 0xBE) {
+         result.replace(pos, 3, "?");
+      }
+   }
    return result;
 }
 
-- 
2.43.0


From e28b62bb60ac22a92b2e4fe320b15e0c8e344b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 40/45] fix: the time of a test is that of its body, also when
 it throws or is not reached

---
 src/fut/testcase.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 467d250..546d4fc 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -215,6 +215,10 @@ void TestCase::run()
    p->failFile.clear();
    p->failLine = 0;
 
+   // No time elapses in a test whose set-up fails.
+   p->lapse.markBegin();
+   p->lapse.m_end = p->lapse.m_begin;
+
    try {
       p->status = NONE;
       SetUp();
@@ -236,12 +240,10 @@ void TestCase::run()
       TearDown();
    }
    catch(std::exception& e) {
-      p->lapse.markEnd();
       p->status = ERROR;
       p->failDesc = e.what();
    }
    catch(...) {
-      p->lapse.markEnd();
       p->status = ERROR;
       p->failDesc = "Unknown error caught by falcon::testing framework";
    }
-- 
2.43.0


From 122b6e1e21f48c6897fb388ad701642ef9b7e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 41/45] fix: log lines do not depend on the format and locale
 of the output stream

---
 src/engine/logstream.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 6db856a..1533761 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -17,6 +17,8 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
+#include <sstream>
 
 namespace falcon {
 
@@ -38,7 +40,11 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 	// This method is not really meant to be used by multiple threads,
 	// but this lock prevents changing the underlying stream mid-output.
 	std::lock_guard<std::mutex> guard(m_mtxStream);
-	std::ostream& out = *m_pout;
+	std::ostream& dest = *m_pout;
+
+	// The stream might be used for other things as well: its format and locale are not for us.
+	std::ostringstream out;
+	out.imbue(std::locale::classic());
 
 	// TODO: use a format to print
 	out
@@ -62,8 +68,11 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 	out << file << ':' << msg.m_line;
 	out << " " << msg.m_message << "\n";
 
+	const std::string line = out.str();
+	dest.write(line.data(), line.size());
+
 	// TODO: add a flag to do this optionally
-	out.flush();
+	dest.flush();
 }
 
 }
-- 
2.43.0


From 27bc43cdcbdf7c99c1e1b659b7320f99b30156ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 42/45] fix: what a test does to the standard streams ends with
 the test

---
 src/fut/testcase.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 546d4fc..d653477 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -40,12 +40,16 @@ public:
 
    std::streambuf *outbuf;
    std::streambuf *errbuf;
+   std::ios outFormat;
+   std::ios errFormat;
 
    std::string failDesc;
    int failLine;
    std::string failFile;
 
    TimeLapse lapse;
+
+   Private(): outFormat(outCapture.rdbuf()), errFormat(errCapture.rdbuf()) {}
 };
 
 
@@ -184,12 +188,15 @@ void TestCase::destroy()
 
 void TestCase::beginTest(bool capture)
 {
-   // saving the standard buffers
+   // saving the standard buffers, and how the streams write
+   p->outbuf = std::cout.rdbuf();
+   p->errbuf = std::cerr.rdbuf();
+   p->outFormat.copyfmt(std::cout);
+   p->errFormat.copyfmt(std::cerr);
+
    if (capture) {
       p->outCapture.str("");
       p->errCapture.str("");
-      p->outbuf = std::cout.rdbuf();
-      p->errbuf = std::cerr.rdbuf();
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
    }
@@ -199,11 +206,13 @@ void TestCase::beginTest(bool capture)
 
 void TestCase::endTest(bool capture)
 {
-   // When done redirect cout to its old self
-   if(capture){
-      std::cout.rdbuf(p->outbuf);
-      std::cerr.rdbuf(p->errbuf);
+   // When done redirect cout to its old self, whatever the test did to it
+   std::cout.rdbuf(p->outbuf);
+   std::cerr.rdbuf(p->errbuf);
+   std::cout.copyfmt(p->outFormat);
+   std::cerr.copyfmt(p->errFormat);
 
+   if(capture){
       p->outCaptureStr = p->outCapture.str();
       p->errCaptureStr = p->errCapture.str();
    }
-- 
2.43.0


From 790297c7c339eda9ff71ffcf1bd2c2d06cf886ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 43/45] fix: reports do not depend on the locale of the program

---
 src/fut/unittest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index b31e863..1b30c24 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -224,11 +224,13 @@ void UnitTest::endTest(int count, TestCase* tc)
 void UnitTest::writeTestName(int count, const char* tname, const char* result, double elapsed)
 {
    std::ostringstream sname;
+   sname.imbue(std::locale::classic());
    sname << "[" << std::setw(3) << count << ": "
          << std::left << std::setw(p->screenWidth) << std::string(tname).substr(0, p->screenWidth);
 
    if( elapsed >= 0.0 ) {
       std::ostringstream secs;
+      secs.imbue(std::locale::classic());
       secs << std::fixed << std::setprecision(3)  << elapsed << "s";
       sname << std::setw(10) << secs.str();
    }
@@ -445,6 +447,7 @@ void UnitTest::saveToXML() const
       return;
    }
 
+   fout.imbue(std::locale::classic());
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
    fout << "<testsuites id=\""<< xmlEscape(p->unitTestId) << "\" name=\"" << xmlEscape(p->unitTestName)
-- 
2.43.0


From ce2e27f315b642819403e608bbc6b6171440b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:49 +0000
Subject: [PATCH 44/45] fix: numbers of items render in decimal whatever the
 locale of the program

---
 src/include/falcon/engine/floathandler.h | 1 +
 src/include/falcon/engine/inthandler.h   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/include/falcon/engine/floathandler.h b/src/include/falcon/engine/floathandler.h
index 4b20ed2..9a4982b 100644
--- a/src/include/falcon/engine/floathandler.h
+++ b/src/include/falcon/engine/floathandler.h
@@ -28,6 +28,7 @@ struct FloatHandler: public FlatHandler {
     String typeName() const noexcept override {return "Float";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      ss.imbue(std::locale::classic());
       ss << data.numericValue;
       return ss.str();
     }
diff --git a/src/include/falcon/engine/inthandler.h b/src/include/falcon/engine/inthandler.h
index a6a70a0..34521d3 100644
--- a/src/include/falcon/engine/inthandler.h
+++ b/src/include/falcon/engine/inthandler.h
@@ -28,6 +28,7 @@ struct IntHandler: public FlatHandler {
     String typeName() const noexcept override {return "Int";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      ss.imbue(std::locale::classic());
       ss << data.int64Value;
       return ss.str();
     }
-- 
2.43.0


From 92a3422048a4389824bd40d28fc00c07ecb16876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 45/45] fix: the dates of stream listeners of different
 services do not share localtime()'s result

---
 src/engine/logstream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 1533761..c8f0f9a 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -19,6 +19,7 @@
 #include <iomanip>
 #include <locale>
 #include <sstream>
+#include <time.h>
 
 namespace falcon {
 
@@ -26,7 +27,14 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 {
 	auto now = std::chrono::system_clock::now();
 	time_t tt = std::chrono::system_clock::to_time_t(now);
-	tm local_tm = *localtime(&tt);
+	// Not localtime(): its result is shared by all the threads of the program.
+	tm local_tm;
+#ifdef FALCON_SYSTEM_WIN
+	localtime_s(&local_tm, &tt);
+#else
+	tzset();
+	localtime_r(&tt, &local_tm);
+#endif
 
 	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
 	std::string file;
-- 
2.43.0


From 381121932e40f17ce269f6fc325757dcf992c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 001/167] fix: Buffer::Shrink() must keep the readable region
 and the prepend region

---
 kanon/buffer/buffer.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 3d24d36..33f128a 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -19,18 +19,19 @@ void Buffer::Shrink(size_type n)
   // tmp.ReserveWriteSpace(GetReadableSize() + n);
   // tmp.Append(ToStringView());
   // swap(tmp);
-  if (read_index_ != BUFFER_PREFIX_SIZE) {
+  // Move the readable region to the front of the buffer
+  // (If the prepend region has been used, it has been in the front)
+  if (read_index_ > BUFFER_PREFIX_SIZE) {
+    const auto readable = GetReadableSize();
     std::copy(offset(read_index_), offset(write_index_),
               offset(BUFFER_PREFIX_SIZE));
+    read_index_ = BUFFER_PREFIX_SIZE;
+    write_index_ = read_index_ + readable;
   }
 
-#ifndef NDEBUG
-  if (read_index_ == write_index_) {
-    assert(read_index_ == BUFFER_PREFIX_SIZE);
-  }
-#endif
-
-  data_.Shrink(GetReadableSize() + n);
+  // Keep the prepend region and readable region
+  const size_type prefix_size = BUFFER_PREFIX_SIZE;
+  data_.Shrink(std::max(write_index_ + n, prefix_size));
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
-- 
2.43.0


From 57983f6afb6d1060d1a15f376fabd23fcde84497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 002/167] fix: Buffer::ReserveWriteSpace() after the prepend
 region has been used

---
 kanon/buffer/buffer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 33f128a..7019919 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -53,7 +53,10 @@ void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
   // | | |                        |
   // +-+-+------------------------+
   //
-  if (len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize()) {
+  // If the prepend region has been used, there is no space can be reused
+  if (GetPrependableSize() <= BUFFER_PREFIX_SIZE ||
+      len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize())
+  {
     // FIXME Need copy [readable region] to the BUFFER_PREFIX_SIZE?
 #if 0
     size_t at_least_size = write_index_ + len;
-- 
2.43.0


From f21ea3aad7e1cc4ddaa75a1ebd3d59dd6ba14917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 003/167] fix: ForwardList::resize(n) cannot be instantiated

---
 kanon/algo/forward_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 96def31..104b1bf 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -182,7 +182,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE void resize(SizeType n)
   {
-    resize_impl<ValueType>(n, ValueType{});
+    resize_impl<ValueType>(n);
   }
   void resize(SizeType n, ValueType const &val);
 
-- 
2.43.0


From be878d66796f009ff09a0edde8b022789922581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 004/167] fix: ForwardList operator== must compare the length

---
 kanon/algo/forward_list/forward_list_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index ee70a53..4f19166 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -529,7 +529,7 @@ FORWARD_LIST_TEMPLATE_LIST
 KANON_INLINE bool operator==(ForwardList<T, A> const &x,
                              ForwardList<T, A> const &y)
 {
-  return std::equal(x.begin(), x.end(), y.begin());
+  return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin());
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From c357a976a3a18ce501c1f2abf091a9af89a910f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 005/167] fix: ForwardList::assign(count, value) must drop the
 surplus elements

---
 kanon/algo/forward_list/forward_list_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 4f19166..3d50106 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -53,8 +53,8 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
     while (count--) {
       push_front(value);
     }
-  } else if (count < 0) {
-    // count < size()
+  } else {
+    // count <= size()
     while (beg.next() != end()) {
       erase_after(beg);
     }
-- 
2.43.0


From 2b2e3bb52bfcf89aa6ff9532bdf9c1d3f51b193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 006/167] fix: ForwardList::splice_after(range) must keep the
 order of the range

---
 kanon/algo/forward_list/forward_list_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 3d50106..eace0f4 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -335,6 +335,8 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
+    // Keep the order of range
+    ++pos;
   }
 }
 
-- 
2.43.0


From 2bd3a66e398259065a0ba4135cd29f12f458b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 007/167] fix: ForwardList self copy assignment destroys its
 own elements

---
 kanon/algo/forward_list/forward_list_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index eace0f4..e1a0cad 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -89,7 +89,9 @@ void FORWARD_LIST_TEMPLATE::assign(InputIterator first, InputIterator last)
 FORWARD_LIST_TEMPLATE_LIST
 auto FORWARD_LIST_TEMPLATE::operator=(Self const &other) -> Self &
 {
-  assign(other.begin(), other.end());
+  if (this != &other) {
+    assign(other.begin(), other.end());
+  }
   return *this;
 }
 
-- 
2.43.0


From b3c1f47851d52171212e874bf5ba15f725c7582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 008/167] fix: ForwardList::splice_after() of the element at
 the position itself

---
 kanon/algo/forward_list/forward_list_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index e1a0cad..38626e3 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -326,6 +326,9 @@ FORWARD_LIST_TEMPLATE_LIST
 void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator it)
 {
+  // The element has been in the position
+  if (pos == it || pos == it.next()) return;
+
   insert_after(pos, list.extract_after(it));
 }
 
-- 
2.43.0


From 07120c80135f215864bd253599a54fe38161bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 009/167] fix: ChunkList::AppendChunkList() must splice after
 the last chunk

---
 kanon/buffer/chunk_list.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 29fce37..da6eacc 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -232,7 +232,8 @@ auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
 
 auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
 {
-  buffers_.splice_after(buffers_.end(), rhs->buffers_);
+  if (rhs->buffers_.empty()) return;
+  buffers_.splice_after(buffers_.before_end(), rhs->buffers_);
 }
 
 auto ChunkList::DebugPrint() -> void
-- 
2.43.0


From 8db60e224a6a6549592c7778c742fbd79cf82b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 010/167] fix: ChunkList::GetReadableSize() with partially
 filled chunks in the middle

---
 kanon/buffer/chunk_list.cc | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index da6eacc..38e6feb 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -125,30 +125,12 @@ buffers_.size() > 0.
 
 auto ChunkList::GetReadableSize() const KANON_NOEXCEPT->SizeType
 {
-  if (IsEmpty()) {
-    return 0;
-  } else {
-    auto first_chunk = buffers_.begin();
-    if (buffers_.size() == 1) {
-      return first_chunk->GetReadableSize();
-    } else if (buffers_.size() == 2) {
-      return first_chunk->GetReadableSize() +
-             first_chunk.next()->GetReadableSize();
-    }
-
-    auto last_chunk = buffers_.before_end();
-    // return first_chunk->GetMaxSize() != 4096
-    //            ? first_chunk->GetReadableSize() +
-    //                  first_chunk.next()->GetReadableSize() +
-    //                  (GetChunkSize() - 3) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize()
-    //            : first_chunk->GetReadableSize() +
-    //                  (GetChunkSize() - 2) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize();
-    return first_chunk->GetReadableSize() +
-           first_chunk.next()->GetReadableSize() +
-           (GetChunkSize() - 3) * CHUNK_SIZE + last_chunk->GetReadableSize();
-  }
+  // The chunks in the middle may be partially filled
+  // (e.g. after AppendChunkList() or ReserveChunk())
+  SizeType ret = 0;
+  for (auto const &chunk : buffers_)
+    ret += chunk.GetReadableSize();
+  return ret;
 }
 
 bool ChunkList::PutToFreeChunk() KANON_NOEXCEPT
-- 
2.43.0


From a53f945ef2c107ae27e4c9e005a838850d37dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 011/167] fix: ChunkList::Clone() and CopyAssign() must copy
 the payload of the chunks

---
 kanon/buffer/chunk_list.cc | 15 +++++++++++++++
 kanon/buffer/chunk_list.h  | 10 ++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 38e6feb..a9163d5 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -218,6 +218,21 @@ auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
   buffers_.splice_after(buffers_.before_end(), rhs->buffers_);
 }
 
+auto ChunkList::CopyAssign(ChunkList const &rhs) -> void
+{
+  if (this == &rhs) return;
+
+  AdvanceReadAll();
+  // The payload is stored behind the chunk, so copying the Chunk is not enough
+  for (auto const &chunk : rhs.buffers_) {
+    auto dst = AddChunk();
+    dst->read_index_ = chunk.read_index_;
+    dst->write_index_ = chunk.write_index_;
+    ::memcpy(dst->GetReadBegin(), chunk.GetReadBegin(),
+             chunk.GetReadableSize());
+  }
+}
+
 auto ChunkList::DebugPrint() -> void
 {
   puts("===== ChunkList debug print =====");
diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index f19978b..81521f7 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -181,17 +181,11 @@ class ChunkList final {
   ChunkList Clone()
   {
     ChunkList ret;
-    new (&ret.buffers_) ListType(buffers_);
-    new (&ret.free_buffers_) ListType(free_buffers_);
+    ret.CopyAssign(*this);
     return ret;
   }
 
-  void CopyAssign(ChunkList const &rhs)
-  {
-    buffers_ = rhs.buffers_;
-    free_buffers_ = rhs.free_buffers_;
-    *this = rhs;
-  }
+  KANON_CORE_API void CopyAssign(ChunkList const &rhs);
 
   // Disable implicit copy
   // Dummy copy special function to move
-- 
2.43.0


From 8fb28f3a5901a6482fc875b6cfb96a09ba221df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 012/167] fix: ChunkList::ReserveWriteSpace(0) on an empty list

---
 kanon/buffer/chunk_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index a9163d5..68bb91f 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -198,7 +198,7 @@ auto ChunkList::ReserveWriteSpace(size_t size) -> void
     size -= buffer.GetWritableSize();
   }
 
-  assert(size >= 1);
+  if (size == 0) return;
   const auto chunk_size = ((size - 1) >> 12) + 1;
   ReserveFreeChunk(chunk_size);
 }
-- 
2.43.0


From ce77979644b1c457ea7c44c26e1d4a8bbb37978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 013/167] fix: ChunkList::Append() of nothing to an empty list

---
 kanon/buffer/chunk_list.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 68bb91f..645f1b6 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -73,6 +73,8 @@ void ChunkList::Append(void const *data, size_t len)
     }
   }
 
+  if (len == 0) return;
+
   DLOG("%s", "===== Append to the back of buffers_ =====\n");
   while (len > 0) {
     auto free_buffer = AddChunk();
-- 
2.43.0


From 075101e3204942cc960ad90b024284f80644d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 014/167] fix: ReservedArray::Grow() must destroy the old
 elements and the new ones on throw

---
 kanon/algo/reserved_array.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 9d5a9b5..081159a 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -261,20 +261,25 @@ class ReservedArray : protected Alloc {
       throw std::bad_alloc{};
     }
 
-    auto new_end = new_data;
+    auto new_tail = new_data + GetSize();
+    auto new_end = new_tail;
 
+    // Move the old elements at last, then they are still there
+    // if the default constructor throws
     try {
-      new_end = zstl::UninitializedMoveIfNoexcept(data_, end_, new_end);
-      new_end = zstl::UninitializedDefaultConstruct(new_end, new_data + n);
+      new_end = zstl::UninitializedDefaultConstruct(new_tail, new_data + n);
+      zstl::UninitializedMoveIfNoexcept(data_, end_, new_data);
     }
     catch (...) {
+      zstl::DestroyRange(new_tail, new_end);
       AllocTraits::deallocate(*this, new_data, n);
       throw;
     }
 
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
     data_ = new_data;
-    end_ = new_end;
+    end_ = new_data + n;
   }
 
   template <typename U, zstl::enable_if_t<can_reallocate<U>::value, char> = 0>
-- 
2.43.0


From 6c59b6fb53a88676c0a871feaf11650bbe2e21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 015/167] fix: ReservedArray::Shrink() must destroy the old
 elements that have been moved

---
 kanon/algo/reserved_array.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 081159a..852fc4d 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -321,10 +321,7 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
-    for (auto beg = data_ + n; beg != end_; ++beg) {
-      AllocTraits::destroy(*this, beg);
-    }
-
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
 
     data_ = new_data;
-- 
2.43.0


From 95866d62b6edeef19748a375b5274b4fd7058500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 016/167] fix: ReservedArray copy assignment from a shorter (or
 empty) array

---
 kanon/algo/reserved_array.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 852fc4d..3a5bbc2 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -353,20 +353,22 @@ class ReservedArray : protected Alloc {
   template <typename U, typename = zstl::enable_if_t<cond<U>::value>>
   void CopyAssignmentForSizeNotEqual(ReservedArray const &other)
   {
+    // The surplus elements must be destroyed before the memory is given back,
+    // and reallocate(p, 0) returns NULL
+    if (other.size() < size()) {
+      Shrink(other.size());
+      std::copy(other.begin(), other.end(), data_);
+      return;
+    }
+
     auto tmp = this->reallocate(data_, other.size());
 
     if (tmp == NULL) {
       throw std::bad_alloc{};
     }
 
-    if (other.size() > size()) {
-      std::copy(other.begin(), other.begin() + size(), tmp);
-      std::uninitialized_copy(other.begin() + size(), other.end(),
-                              tmp + size());
-    } else {
-      std::copy(other.begin(), other.end(), tmp);
-      zstl::DestroyRange(tmp + other.size(), tmp + size());
-    }
+    std::copy(other.begin(), other.begin() + size(), tmp);
+    std::uninitialized_copy(other.begin() + size(), other.end(), tmp + size());
 
     data_ = tmp;
     end_ = data_ + other.size();
-- 
2.43.0


From 84cdd7ddc6841586382d33b201ea367557299eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 017/167] fix: FixedVector of a user defined class cannot be
 instantiated

---
 kanon/algo/construct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/construct.h b/kanon/algo/construct.h
index e2f3385..4be22df 100644
--- a/kanon/algo/construct.h
+++ b/kanon/algo/construct.h
@@ -4,6 +4,7 @@
 #include <utility>     // std::forward
 #include <type_traits> // std::is_trivially_destructible
 #include <iterator>    // std::iterator_traits
+#include <memory>      // std::addressof
 
 #include "kanon/util/macro.h"
 
@@ -48,7 +49,7 @@ template <typename FI>
 KANON_INLINE void destroyRange(FI first, FI last, std::false_type)
 {
   for (; first != last; ++first) {
-    destroy(addressof(*first));
+    destroy(std::addressof(*first));
   }
 }
 
-- 
2.43.0


From fbefed77640afb32e9d3c71b73e9b9cd0c6b2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 018/167] fix: ChunkListWriteFd() of many chunks, short writes
 and errors of a single chunk

---
 kanon/linux/net/chunk_list.cc | 47 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/kanon/linux/net/chunk_list.cc b/kanon/linux/net/chunk_list.cc
index f8ef9f2..f65d409 100644
--- a/kanon/linux/net/chunk_list.cc
+++ b/kanon/linux/net/chunk_list.cc
@@ -1,5 +1,6 @@
 #include "kanon/net/chunk_list.h"
 
+#include <errno.h>
 #include <sys/uio.h>
 #include "kanon/algo/fixed_vector.h"
 #include "kanon/net/sock_api.h"
@@ -12,42 +13,40 @@ static constexpr unsigned IOVEC_MAX = IOV_MAX;
 static constexpr unsigned IOVEC_MAX = 1024;
 #endif
 
-static size_t RoundUpDivideIn2(size_t x, size_t y) KANON_NOEXCEPT
-{
-  return (x == 0) ? 0 : ((x - 1) / y + 1);
-}
-
 ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &buffer, FdType fd,
                                             int &saved_errno) KANON_NOEXCEPT
 {
-  if (buffer.GetChunkSize() == 1) {
-    auto first_chunk = buffer.GetFirstChunk();
-    return (ChunkList::SizeType)sock::Write(
-        fd, buffer.GetFirstChunk()->GetReadBegin(),
-        first_chunk->GetReadableSize());
-  }
-
-  FixedVector<struct iovec> iovecs(buffer.GetChunkSize());
-  auto first_chunk = buffer.begin();
-  auto cnt = RoundUpDivideIn2(buffer.GetChunkSize(), IOVEC_MAX);
-
   ChunkList::SizeType ret = 0;
+  auto chunk = buffer.begin();
+  size_t remaining = buffer.GetChunkSize();
+
+  // ::writev() accepts IOVEC_MAX buffers at most
+  while (remaining > 0) {
+    const size_t cnt = remaining < IOVEC_MAX ? remaining : IOVEC_MAX;
+    FixedVector<struct iovec> iovecs(cnt);
+    size_t total = 0;
 
-  while (cnt--) {
     for (auto &x : iovecs) {
-      x.iov_base = first_chunk->GetReadBegin();
-      x.iov_len = first_chunk->GetReadableSize();
-      ++first_chunk;
+      x.iov_base = chunk->GetReadBegin();
+      x.iov_len = chunk->GetReadableSize();
+      total += x.iov_len;
+      ++chunk;
     }
 
-    auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
+    ssize_t n;
+    do {
+      n = ::writev(fd, iovecs.data(), (int)cnt);
+    } while (n < 0 && errno == EINTR);
 
-    if (n >= 0) {
-      ret += (ChunkList::SizeType)n;
-    } else {
+    if (n < 0) {
       saved_errno = errno;
       break;
     }
+
+    ret += (ChunkList::SizeType)n;
+    // Short write, the following chunks must not be written before the rest
+    if ((size_t)n < total) break;
+    remaining -= cnt;
   }
 
   return ret;
-- 
2.43.0


From 47e306486393bb564897326890a2671679cf81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 019/167] fix: StringView::find() must not stop at an embedded
 zero byte

---
 kanon/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 05b0b79..f3fade0 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -237,7 +237,7 @@ class StringView {
     if (v.size() <= len_) {
       size_type n = len_ - v.size() + 1;
       for (size_type i = pos; i < n; ++i) {
-        if (!::strncmp(data_ + i, v.data(), v.size())) {
+        if (!::memcmp(data_ + i, v.data(), v.size())) {
           return i;
         }
       }
-- 
2.43.0


From 0ce98e5b216709a988181f1b0c4247adae1df00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 020/167] fix: StringView::rfind() in an empty view and of an
 empty view

---
 kanon/string/string_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index f3fade0..428b0bd 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -263,14 +263,14 @@ class StringView {
    */
   size_type rfind(StringView v, size_type pos = npos) const KANON_NOEXCEPT
   {
-    if (!v.empty()) {
-      auto len = std::min(len_ - 1, pos);
+    if (v.empty()) return std::min(len_, pos);
+
+    if (v.size() <= len_) {
+      auto len = std::min(len_ - v.size(), pos);
 
       // Avoid --len == size_type(-1)
       for (;; --len) {
-        if (data_[len] == v.front() && len_ - len >= v.size() &&
-            memcmp(data_ + len, v.data(), v.size()) == 0)
-          return len;
+        if (memcmp(data_ + len, v.data(), v.size()) == 0) return len;
 
         if (len == 0) break;
       }
@@ -281,6 +281,7 @@ class StringView {
 
   size_type rfind(char c, size_type pos = npos) const KANON_NOEXCEPT
   {
+    if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto len = std::min(len_ - 1, pos);
     for (;; --len) {
       if (data_[len] == c) {
-- 
2.43.0


From 8534187a24e6f513365839c62fe57a56268b11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 021/167] fix: StringView::find_last_of() must step back, check
 index 0 and return the index

---
 kanon/string/string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 428b0bd..2a91554 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -360,7 +360,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0;) {
+    for (;; --i) {
       if (charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -373,8 +373,8 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return pos;
+    for (;; --i) {
+      if (data_[i] == c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From 116b69220ae8759938cdef4e3b6f5823afba665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 022/167] fix: StringView::find_last_not_of() must check index
 0 and compare for inequality

---
 kanon/string/string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 2a91554..b4b8d46 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -404,7 +404,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
+    for (;; --i) {
       if (!charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -417,8 +417,8 @@ class StringView {
     if (KANON_UNLIKELY((len_ == 0))) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return i;
+    for (;; --i) {
+      if (data_[i] != c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From d04155ab3daddb2e5e81b079793b3d1b6a79a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 023/167] fix: StringView::copy() must not read outside the
 view

---
 kanon/string/string_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index b4b8d46..fc62430 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -201,10 +201,11 @@ class StringView {
   KANON_INLINE size_type copy(char *dst, size_type count,
                               size_type pos = 0) const
   {
-    if (pos >= len_) {
+    if (pos > len_) {
       throw std::out_of_range{"Given position over length of StringView"};
     }
 
+    count = std::min(count, len_ - pos);
     ::memcpy(dst, data_ + pos, count);
     return count;
   }
-- 
2.43.0


From b148a9c9abf1d7af178d330b5cd8fc96cd8c38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 024/167] fix: StringView::caseCompare() with embedded zero
 bytes, an empty view or a lower case character

---
 kanon/string/string_view.h | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index fc62430..c9f600c 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -428,29 +428,20 @@ class StringView {
 
   int caseCompare(StringView v) const KANON_NOEXCEPT
   {
-    int r = kanon::StrNCaseCompare(data_, v.data(),
-                                   len_ < v.size() ? len_ : v.size());
-
-    if (r == 0) {
-      if (len_ < v.size())
-        r = -1;
-      else if (len_ > v.size())
-        r = 1;
+    // Don't use strncasecmp() since it stops at an embedded zero byte
+    const size_type n = std::min(len_, v.size());
+    for (size_type i = 0; i < n; ++i) {
+      const int r = std::tolower(static_cast<unsigned char>(data_[i])) -
+                    std::tolower(static_cast<unsigned char>(v[i]));
+      if (r != 0) return r;
     }
 
-    return r;
+    return len_ < v.size() ? -1 : (len_ > v.size() ? 1 : 0);
   }
 
   int caseCompare(char c) const KANON_NOEXCEPT
   {
-    auto data_0 = ::toupper(data_[0]);
-    auto _c = ::toupper(c);
-
-    if (len_ < 1 || data_0 < _c) return -1;
-
-    if (data_0 > _c) return 1;
-
-    return (data_0 == c && len_ == 1) ? 0 : 1;
+    return caseCompare(StringView(&c, 1));
   }
 
   // lexicographic compare
-- 
2.43.0


From 54782cd5b16236024c1aa1708707699e65bdfe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 025/167] fix: StringView::compare(char) must compare as
 unsigned char like compare(StringView)

---
 kanon/string/string_view.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index c9f600c..a0fc690 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -461,11 +461,7 @@ class StringView {
 
   int compare(char c) const KANON_NOEXCEPT
   {
-    if (len_ < 1 || data_[0] < c) return -1;
-
-    if (data_[0] > c) return 1;
-
-    return (data_[0] == c && len_ == 1) ? 0 : 1;
+    return compare(StringView(&c, 1));
   }
 
   KANON_CORE_API std::vector<std::string> split(StringView spliter = " ") const;
-- 
2.43.0


From 28930cc8d542f50e311a424dc679b3647ac7574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 026/167] fix: StringView operator> with a literal that
 contains a zero byte

---
 kanon/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index a0fc690..8cdb6e4 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -570,7 +570,7 @@ template <StringView::size_type N>
 KANON_INLINE bool operator>(StringView const &lhs,
                             char const (&rhs)[N]) KANON_NOEXCEPT
 {
-  return rhs < lhs;
+  return MakeStringView(rhs) < lhs;
 }
 
 KANON_INLINE bool operator>=(StringView const &lhs,
-- 
2.43.0


From a7f354f08c393338f17982b5b3ddaceed7642422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 027/167] fix: StringView::split() by an empty view never ends

---
 kanon/string/string_view.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/string_view.cc b/kanon/string/string_view.cc
index b560a46..3268ba4 100644
--- a/kanon/string/string_view.cc
+++ b/kanon/string/string_view.cc
@@ -5,7 +5,8 @@ namespace kanon {
 std::vector<std::string> StringView::split(StringView spliter) const 
 {
   size_type indicator_begin = 0;
-  size_type indicator_end = find(spliter);
+  // An empty spliter splits nothing
+  size_type indicator_end = spliter.empty() ? npos : find(spliter);
   std::vector<std::string> ret{};
   std::string tmp;    
 
-- 
2.43.0


From 43a099fe7dc8195c72aa4a85808895c5e5ab1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 028/167] fix: FixedBuffer must be terminated when it is empty

---
 kanon/string/fixed_buffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 105a06f..5ba6551 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -36,6 +36,7 @@ class FixedBuffer {
   FixedBuffer()
     : len_(0)
   {
+    data_[0] = 0;
   }
 
   // prohibit modify througt data()
@@ -142,6 +143,7 @@ class FixedBuffer {
   void reset() KANON_NOEXCEPT
   {
     len_ = 0;
+    data_[0] = 0;
   }
 
   void AdvanceRead(unsigned diff) KANON_NOEXCEPT
-- 
2.43.0


From fdcb21b889c22d326b7bd5b758553b4ac460da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 029/167] fix: FixedBuffer::appendPtr() writes beyond the
 buffer

---
 kanon/string/fixed_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 5ba6551..0c59bcc 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -124,7 +124,7 @@ class FixedBuffer {
 
     if (!p && avali() > 6) {
       Append("(null)", 6);
-    } else if (avali() > 10) {
+    } else if (p && avali() > kMaxPtrSize) {
       cur[0] = '0';
       cur[1] = 'x';
 
@@ -165,6 +165,7 @@ class FixedBuffer {
 
  private:
   static constexpr unsigned kMaxIntSize = 32;
+  static constexpr unsigned kMaxPtrSize = 18; // 0x + 16 digits
   static constexpr unsigned kMaxFloatingSize = 324;
 
   char data_[SZ];
-- 
2.43.0


From d2a3e05fabe771766524cad32b1d3c163a1d1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 030/167] fix: lexical_cast of a floating point number to
 string gives an empty string

---
 kanon/string/fixed_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 0c59bcc..f494323 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -166,7 +166,7 @@ class FixedBuffer {
  private:
   static constexpr unsigned kMaxIntSize = 32;
   static constexpr unsigned kMaxPtrSize = 18; // 0x + 16 digits
-  static constexpr unsigned kMaxFloatingSize = 324;
+  static constexpr unsigned kMaxFloatingSize = 32; // %.12g: 19 at most
 
   char data_[SZ];
   unsigned len_;
-- 
2.43.0


From 63c7edd7803e917452d29fb8653765fe6b980f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 031/167] fix: FmtStream must not read beyond a format that
 ends with %

---
 kanon/string/fmt_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 878e595..5ec85ae 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -134,7 +134,7 @@ void FMT_STREAM_TEMPLATE::ParseAndSerializeSingle(StringView fmt, Arg arg,
   stream_.Append(fmt.data(), pos == StringView::npos ? fmt.size() : pos);
 
   if (pos < fmt.size()) {
-    if (fmt[pos + 1] == '%') {
+    if (pos + 1 < fmt.size() && fmt[pos + 1] == '%') {
       stream_.Append("%");
       ParseAndSerialize(fmt.substr(pos + 2), arg, args...);
     } else {
-- 
2.43.0


From 7399c8f37aa52fd3867605fb22282bba17dc3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 032/167] fix: conversions between numbers and text must not
 share a buffer between threads

---
 kanon/string/lexical_cast.cc     | 2 +-
 kanon/string/lexical_cast.h      | 5 ++---
 kanon/string/string_view_util.cc | 8 ++++----
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/kanon/string/lexical_cast.cc b/kanon/string/lexical_cast.cc
index 4f81149..3e6da4b 100644
--- a/kanon/string/lexical_cast.cc
+++ b/kanon/string/lexical_cast.cc
@@ -1,4 +1,4 @@
 #include "kanon/string/lexical_cast.h"
 
 using namespace kanon;
-CastLexicalStream kanon::_cast_stream;
+thread_local CastLexicalStream kanon::_cast_stream;
diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index e0595f4..098ea6e 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -23,7 +23,7 @@ class LexicalCast {
   }
 };
 
-extern CastLexicalStream _cast_stream;
+extern thread_local CastLexicalStream _cast_stream;
 
 #define DST_STRING_SPECIALIZATION(type)                                        \
   template <typename Src>                                                      \
@@ -53,8 +53,6 @@ class LexicalCast<char const *, Src, false> {
 DST_STRING_SPECIALIZATION(std::string);
 DST_STRING_SPECIALIZATION(kanon::StringView);
 
-static char lexical_cvt_buf[64];
-
 #define Str2Int(integer_type, str_type, func)                                  \
   template <>                                                                  \
   class LexicalCast<integer_type, str_type, false> {                           \
@@ -62,6 +60,7 @@ static char lexical_cvt_buf[64];
     static kanon::optional<integer_type> apply(str_type const &src)            \
     {                                                                          \
       if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
+      char lexical_cvt_buf[64];                                                \
       ::strncpy(lexical_cvt_buf, src.data(), src.size());                      \
       lexical_cvt_buf[src.size()] = 0;                                         \
                                                                                \
diff --git a/kanon/string/string_view_util.cc b/kanon/string/string_view_util.cc
index ba2b153..6b5459f 100644
--- a/kanon/string/string_view_util.cc
+++ b/kanon/string/string_view_util.cc
@@ -10,7 +10,7 @@ optional<uint64_t> kanon::StringViewToU64(StringView const &sv,
                                           int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 64);
-  static char buf[64];
+  char buf[64];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
@@ -25,7 +25,7 @@ optional<uint32_t> kanon::StringViewToU32(StringView const &sv,
                                           int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 32);
-  static char buf[32];
+  char buf[32];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
@@ -40,7 +40,7 @@ optional<int32_t> kanon::StringViewTo32(StringView const &sv,
                                         int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 32);
-  static char buf[32];
+  char buf[32];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
@@ -55,7 +55,7 @@ optional<int64_t> kanon::StringViewTo64(StringView const &sv,
                                         int base) KANON_NOEXCEPT
 {
   assert(sv.size() < 64);
-  static char buf[64];
+  char buf[64];
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
   char *end = NULL;
-- 
2.43.0


From a65061b39c2c142aead0c93bdc28ade2d48fd066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 033/167] fix: lexical_cast of text without any digit must not
 give 0

---
 kanon/string/lexical_cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index 098ea6e..f53eb74 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -68,7 +68,7 @@ DST_STRING_SPECIALIZATION(kanon::StringView);
                                                                                \
       auto ret =                                                               \
           static_cast<integer_type>(func(lexical_cvt_buf, &endptr, 10));       \
-      if (*endptr == 0) {                                                      \
+      if (endptr != lexical_cvt_buf && *endptr == 0) {                         \
         return kanon::optional<integer_type>(ret);                             \
       }                                                                        \
                                                                                \
-- 
2.43.0


From 829fa4e39c8682d21a7ca67755ee408dc6caca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 034/167] fix: FmtStream must print a C string, not its address

---
 kanon/string/fmt_stream.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 5ec85ae..db8cbcf 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -2,6 +2,7 @@
 #define KANON_STRING_FMT_STREAM_H
 
 #include <assert.h>
+#include <cstddef>
 
 #include "kanon/string/stream_common.h"
 #include "kanon/string/fixed_buffer.h"
@@ -65,6 +66,15 @@ class FmtStream {
 
   void SerializeOne(bool arg) KANON_NOEXCEPT { stream_.appendBool(arg); }
   void SerializeOne(void const *p) KANON_NOEXCEPT { stream_.appendPtr(p); }
+  void SerializeOne(std::nullptr_t) KANON_NOEXCEPT
+  {
+    stream_.appendPtr(nullptr);
+  }
+  // Otherwise a C string is taken as a pointer
+  void SerializeOne(char const *s) KANON_NOEXCEPT
+  {
+    stream_.Append(StringView(s));
+  }
   void SerializeOne(char c) KANON_NOEXCEPT { stream_.appendChar(c); }
   void SerializeOne(std::string const &s) KANON_NOEXCEPT
   {
-- 
2.43.0


From b67a37fc348900a153937662ad8ffc1a6bd61551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 035/167] fix: Converting an empty optional to another value
 type

---
 kanon/util/optional.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 67f7e77..e182c13 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -81,13 +81,15 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{Rep{other.has_value(), other.value()}}
+    : opt_{other.has_value() ? Rep{true, T(other.value())}
+                             : Rep{false, T{}}}
   {
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{Rep{other.has_value(), std::move(other.value())}}
+    : opt_{other.has_value() ? Rep{true, T(std::move(other.value()))}
+                             : Rep{false, T{}}}
   {
   }
 
@@ -97,17 +99,13 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> const &other)
   {
-    opt_ = Rep{other.has_value(), other.value()};
-
-    return *this;
+    return *this = Self(other);
   }
 
   template <typename U>
   optional &operator=(optional<U> &&other) KANON_NOEXCEPT
   {
-    std::swap(opt_, other.opt_);
-
-    return *this;
+    return *this = Self(std::move(other));
   }
 
   optional &operator=(optional const &other) = default;
-- 
2.43.0


From e72cb042a284b7c8712dbeb274a458d87c38f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 036/167] fix: type() and casts of an empty Any or UniqueAny

---
 kanon/util/any.h        | 7 +++++--
 kanon/util/unique_any.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index e05eb19..9e6a62d 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -96,7 +96,10 @@ class Any final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  std::type_info const &type() const
+  {
+    return empty() ? typeid(void) : holder_->type();
+  }
 
   void swap(Any &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
@@ -199,7 +202,7 @@ KANON_INLINE V *SafeAnyCast(Any const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(static_cast<Any::Holder<V> *>(from.holder_)->holder_);
   }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 058a7a0..51c4fe9 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -65,7 +65,10 @@ class UniqueAny final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  std::type_info const &type() const
+  {
+    return empty() ? typeid(void) : holder_->type();
+  }
 
   void swap(UniqueAny &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
@@ -154,7 +157,7 @@ KANON_INLINE V *SafeUniqueAnyCast(UniqueAny const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(
         static_cast<UniqueAny::Holder<V> *>(from.holder_)->holder_);
   }
-- 
2.43.0


From 5ed6afb2900d21d613a02809dc745faef84eb1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 037/167] fix: WeakCallback must return the result of the call

---
 kanon/thread/weak_callback.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/weak_callback.h b/kanon/thread/weak_callback.h
index e5e23b4..b8db156 100644
--- a/kanon/thread/weak_callback.h
+++ b/kanon/thread/weak_callback.h
@@ -25,7 +25,8 @@ public:
   {
     auto sp = ptr_.lock();
     if(sp)
-      fun_(sp.get(), args...);
+      return fun_(sp.get(), args...);
+    return R();
   }
 private:
   std::weak_ptr<T> ptr_;
-- 
2.43.0


From fde0df8be7933e1c4e48da9ae36ea0d78033b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 038/167] fix: TimeStamp::ToString() must print six digits of
 microseconds

---
 kanon/util/time_stamp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 815472c..40a6510 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -22,7 +22,7 @@ std::string TimeStamp::ToString() const
 
   int64_t seconds = microseconds_ / kMicrosecondsPerSeconds_;
   int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-  snprintf(buf, sizeof buf, "%" PRId64 ".6%d", seconds, microseconds);
+  snprintf(buf, sizeof buf, "%" PRId64 ".%06d", seconds, microseconds);
 
   return buf;
 }
-- 
2.43.0


From d7b891a6ece8257bc5a8b6f41710ddbe2229d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 039/167] fix: TimeStamp::FromTimeStr() of text that is no
 time, without ok

---
 kanon/util/time_stamp.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 40a6510..3642264 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -62,10 +62,8 @@ TimeStamp TimeStamp::FromTimeStr(char const *format, std::string const &rep,
   memset(&tm, 0, sizeof tm);
   // Must init
   if (!strptime(rep.c_str(), format, &tm)) {
-    if (ok) {
-      *ok = false;
-      return TimeStamp(0);
-    }
+    if (ok) *ok = false;
+    return TimeStamp(0);
   }
   time_t t = mktime(&tm);
   if (ok) *ok = true;
-- 
2.43.0


From ff417e38ffcae5dcfbfa734f597f65245e2d551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 040/167] fix: TimeStamp::FromTimeStr() is an hour off in
 daylight saving time

---
 kanon/util/time_stamp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 3642264..ea1ed46 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -65,6 +65,8 @@ TimeStamp TimeStamp::FromTimeStr(char const *format, std::string const &rep,
     if (ok) *ok = false;
     return TimeStamp(0);
   }
+  // The text doesn't tell whether daylight saving time is in effect
+  tm.tm_isdst = -1;
   time_t t = mktime(&tm);
   if (ok) *ok = true;
 #else
-- 
2.43.0


From 84a9da430d555562c3a0cbefa2c5e9256c04393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 041/167] fix: TimeStamp +/- Second and MilliSecond must not
 overflow int

---
 kanon/util/time_stamp.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index d2f8752..8699dab 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -148,12 +148,12 @@ class TimeStamp
 
   TimeStamp operator+(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(ms.count * 1000);
+    return TimeStamp(microseconds_ + (int64_t)ms.count * 1000);
   }
 
   TimeStamp operator+(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(sec.count * 1000000);
+    return TimeStamp(microseconds_ + (int64_t)sec.count * 1000000);
   }
 
   TimeStamp operator-(double seconds) const KANON_NOEXCEPT
@@ -164,17 +164,17 @@ class TimeStamp
 
   TimeStamp operator-(Microsecond us) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(-us.count);
+    return TimeStamp(microseconds_ - us.count);
   }
 
   TimeStamp operator-(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + MilliSecond(-ms.count);
+    return TimeStamp(microseconds_ - (int64_t)ms.count * 1000);
   }
 
   TimeStamp operator-(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Second(-sec.count);
+    return TimeStamp(microseconds_ - (int64_t)sec.count * 1000000);
   }
 
   friend TimeStamp operator+(double seconds, TimeStamp ts) KANON_NOEXCEPT
-- 
2.43.0


From 28b0ecd98eedb7057ab053221d8a81b56b3e10e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 042/167] fix: FixedChunkMemoryPool::Shrink() leaves freed
 chunks in the free list

---
 kanon/mem/fixed_chunk_memory_pool.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 17c6f83..6a6b491 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -75,7 +75,7 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
   Block *tmp_next = nullptr;
 
   /* First, Check the block header whether can free */
-  while (IsBlockFree(block_chain_, sz)) {
+  while (block_chain_ && IsBlockFree(block_chain_, sz)) {
     tmp_next = block_chain_->next;
     free(block_chain_);
     block_chain_ = tmp_next;
@@ -83,12 +83,28 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
   }
   
   /* The first block is allocated, we can redirect the next don't care it */
-  for (auto block_iter = block_chain_; block_iter->next != nullptr; block_iter = block_iter->next) {
+  for (auto block_iter = block_chain_; block_iter && block_iter->next;) {
     tmp_next = block_iter->next;
     if (IsBlockFree(tmp_next, sz)) {
       block_iter->next = tmp_next->next;
       free(tmp_next);
       block_count_--;
+    } else {
+      block_iter = tmp_next;
+    }
+  }
+
+  /* The chunks of the freed blocks must leave the free list */
+  free_chunk_header_ = nullptr;
+  for (auto block = block_chain_; block; block = block->next) {
+    auto chunk = reinterpret_cast<char*>(block) + sizeof(Block);
+    for (size_t i = 0; i < chunk_per_block_; ++i) {
+      auto chunk_header = reinterpret_cast<Chunk*>(chunk);
+      if (chunk_header->status == FREE) {
+        chunk_header->next = free_chunk_header_;
+        free_chunk_header_ = chunk_header;
+      }
+      chunk += CHUNK_NEXT_OFFSET + sz;
     }
   }
 }
-- 
2.43.0


From b3a2153991253d19f9b4f132760c8394547f76c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 043/167] fix: FixedChunkMemoryPool must remember the number of
 chunks of each block

---
 kanon/mem/fixed_chunk_memory_pool.cc | 17 +++++++++++------
 kanon/mem/fixed_chunk_memory_pool.h  |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 6a6b491..79a930a 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -10,7 +10,7 @@ using namespace kanon;
 // #define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
-#define BLOCK_SPACE(sz) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * chunk_per_block_)
+#define BLOCK_SPACE(sz, n) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (n))
 #define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
@@ -98,7 +98,7 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
   free_chunk_header_ = nullptr;
   for (auto block = block_chain_; block; block = block->next) {
     auto chunk = reinterpret_cast<char*>(block) + sizeof(Block);
-    for (size_t i = 0; i < chunk_per_block_; ++i) {
+    for (size_t i = 0; i < block->chunk_num; ++i) {
       auto chunk_header = reinterpret_cast<Chunk*>(chunk);
       if (chunk_header->status == FREE) {
         chunk_header->next = free_chunk_header_;
@@ -111,7 +111,11 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
 
 size_t FixedChunkMemoryPool::GetUsage(size_t sz) const KANON_NOEXCEPT
 {
-  return BLOCK_SPACE(ALIGN_SIZE(sz)) * block_count_;
+  sz = ALIGN_SIZE(sz);
+  size_t ret = 0;
+  for (auto block = block_chain_; block; block = block->next)
+    ret += BLOCK_SPACE(sz, block->chunk_num);
+  return ret;
 }
 
 size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
@@ -128,11 +132,12 @@ size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
 auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 {
   assert(CHECK_ALIGNED(sz));
-  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz)));
+  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz, chunk_per_block_)));
   if (!header) return nullptr;
   
   /* Link the block */
   header->next = block_chain_;
+  header->chunk_num = chunk_per_block_;
   block_chain_ = header;
 
   free_chunk_header_ = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(header)+sizeof(Block));
@@ -158,7 +163,7 @@ bool FixedChunkMemoryPool::IsBlockFree(Block *block, size_t sz)
 #else
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == ALLOCATED)
       return false;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
@@ -172,7 +177,7 @@ size_t FixedChunkMemoryPool::GetFreeChunkNumInBlock(Block *block, size_t sz) con
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
   size_t ret = 0;
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == FREE)
       ret++;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index c389d66..7f63699 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -48,6 +48,7 @@ class FixedChunkMemoryPool {
 
   struct Block {
     Block *next;
+    size_t chunk_num; // chunk_per_block_ may be changed later
   };
 
   static KANON_CORE_NO_API constexpr size_t chunk_next_space =
-- 
2.43.0


From 07695e25ab91cc7056bbc591a4ef326a2ab692e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 044/167] fix: FixedChunkMemoryPool must keep its chunks
 aligned for any size

---
 kanon/mem/fixed_chunk_memory_pool.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 79a930a..4352cc2 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -7,11 +7,11 @@
 using namespace kanon;
 
 // #define ROUNDUP4(x) (((((x) - 1) >> 2) + 1) << 2)
-// #define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
+#define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
 #define BLOCK_SPACE(sz, n) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (n))
-#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
+#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : ROUNDUP8(sz))
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
 FixedChunkMemoryPool::FixedChunkMemoryPool(size_t chunk_per_block)
-- 
2.43.0


From 558bff85a925e46cac632ca14681128023949f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 045/167] fix: FixedChunkMemoryPool must align objects that
 need 16 bytes alignment

---
 kanon/mem/fixed_chunk_memory_pool.cc | 4 ++--
 kanon/mem/fixed_chunk_memory_pool.h  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 4352cc2..1b21ffe 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -7,11 +7,11 @@
 using namespace kanon;
 
 // #define ROUNDUP4(x) (((((x) - 1) >> 2) + 1) << 2)
-#define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
+#define ROUNDUP16(x) (((((x) - 1) >> 4) + 1) << 4)
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
 #define BLOCK_SPACE(sz, n) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (n))
-#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : ROUNDUP8(sz))
+#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : (ROUNDUP16(sz + CHUNK_NEXT_OFFSET) - CHUNK_NEXT_OFFSET))
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
 FixedChunkMemoryPool::FixedChunkMemoryPool(size_t chunk_per_block)
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index 7f63699..17077df 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -49,6 +49,7 @@ class FixedChunkMemoryPool {
   struct Block {
     Block *next;
     size_t chunk_num; // chunk_per_block_ may be changed later
+    size_t padding;   // the space of the first chunk is aligned to 16 bytes
   };
 
   static KANON_CORE_NO_API constexpr size_t chunk_next_space =
-- 
2.43.0


From 29a6b404fc1f76c61db56a05a89dd42ca9484a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 046/167] fix: LinearFixedMemoryPool::Reserve() must not move
 allocated objects

---
 kanon/mem/linear_fixed_memory_pool.h | 63 ++++++++++++++++++----------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/kanon/mem/linear_fixed_memory_pool.h b/kanon/mem/linear_fixed_memory_pool.h
index f7c0f85..73226d5 100644
--- a/kanon/mem/linear_fixed_memory_pool.h
+++ b/kanon/mem/linear_fixed_memory_pool.h
@@ -6,7 +6,9 @@
 
 #include <stdexcept>
 #include <unordered_set>
-// #include <vector>
+#include <vector>
+
+#include "kanon/util/macro.h"
 
 namespace kanon {
 
@@ -21,20 +23,18 @@ class LinearFixedMemoryPool {
   static constexpr size_t BLOCK_SIZE = PAYLOAD_SIZE;
  public:
   explicit LinearFixedMemoryPool(size_t size)
-    : pool_(static_cast<T*>(malloc(size * BLOCK_SIZE)))
-    , size_(size)
+    : size_(0)
   {
-    if (pool_ == nullptr) {
-      throw std::bad_alloc{};
-    }
-
-    for (size_t i = 0; i < size; ++i)
-      free_hset_.insert(i);
+    AddPool(size);
   }
+
+  LinearFixedMemoryPool(LinearFixedMemoryPool const &) = delete;
+  LinearFixedMemoryPool &operator=(LinearFixedMemoryPool const &) = delete;
   
   ~LinearFixedMemoryPool() KANON_NOEXCEPT
   {
-    free(pool_);
+    for (auto &pool : pools_)
+      free(pool.begin);
     size_ = 0;
   }
 
@@ -50,37 +50,54 @@ class LinearFixedMemoryPool {
     if (free_hset_.empty()) return (T*)malloc(BLOCK_SIZE);
     auto ret = *free_hset_.begin();
     free_hset_.erase(free_hset_.begin());
-    return pool_+ret;
+    return ret;
   }
   
   void Reserve(size_t sz)
   {
     if (size_ >= sz) return;
 
-    pool_ = static_cast<T*>(reallocarray(pool_, sz, BLOCK_SIZE));
-
-    for (size_t i = size_; i < sz; ++i) {
-      free_hset_.insert(i);
-    }
-    size_ = sz;
+    // The objects that have been allocated must not be moved
+    AddPool(sz - size_);
   }
 
   void Free(T *ptr)
   {
     // assert(CHECK_BIT(*((char*)ptr-1), 0));
     // RESET_BIT(*((char*)ptr-1), 0);
-    if (ptr >= pool_ && ptr < pool_ + size_) {
-      free_hset_.insert(ptr-pool_);
-    } else {
-      free(ptr);
+    for (auto &pool : pools_) {
+      if (ptr >= pool.begin && ptr < pool.begin + pool.size) {
+        free_hset_.insert(ptr);
+        return;
+      }
     }
+    free(ptr);
   }
   
   size_t size() const KANON_NOEXCEPT { return size_; }
   size_t freesize() const KANON_NOEXCEPT { return free_hset_.size(); }
  private:
-  T *pool_;
-  std::unordered_set<size_t> free_hset_;
+  struct Pool {
+    T *begin;
+    size_t size;
+  };
+
+  void AddPool(size_t size)
+  {
+    pools_.reserve(pools_.size() + 1);
+    auto pool = static_cast<T*>(malloc(size * BLOCK_SIZE));
+    if (pool == nullptr) {
+      throw std::bad_alloc{};
+    }
+
+    pools_.push_back(Pool{pool, size});
+    for (size_t i = 0; i < size; ++i)
+      free_hset_.insert(pool + i);
+    size_ += size;
+  }
+
+  std::vector<Pool> pools_;
+  std::unordered_set<T*> free_hset_;
   size_t size_;
 };
 
-- 
2.43.0


From 1dc6e89be1670fd2a3f677ba8c0db852e8815fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 047/167] fix: down_pointer_cast() to a class with several
 bases

---
 kanon/util/ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/ptr.h b/kanon/util/ptr.h
index 53ca831..3348eec 100644
--- a/kanon/util/ptr.h
+++ b/kanon/util/ptr.h
@@ -97,7 +97,7 @@ KANON_INLINE std::unique_ptr<T, D> down_pointer_cast(std::unique_ptr<F, D> &ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr.get()) != nullptr);
 #endif
-  return std::unique_ptr<T>(reinterpret_cast<T *>(ptr.release()));
+  return std::unique_ptr<T>(static_cast<T *>(ptr.release()));
 }
 
 template <typename T, typename F>
@@ -115,7 +115,7 @@ KANON_INLINE T *down_pointer_cast(F *ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr) != nullptr);
 #endif
-  return reinterpret_cast<T *>(ptr);
+  return static_cast<T *>(ptr);
 }
 
 template <typename T>
-- 
2.43.0


From 2b549f73aec80bba3c098d1438ebee6c51dfc95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 048/167] fix: MutexLock must record its holder exactly while
 the lock is held

---
 kanon/thread/mutex_lock.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 72496f8..c19aad4 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -9,6 +9,8 @@
 #  include <mutex>
 #endif
 
+#include <atomic>
+
 #include "kanon/util/noncopyable.h"
 
 #include "kanon/thread/pthread_macro.h"
@@ -100,18 +102,21 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #endif
   }
 
-  bool IsLockedInThisThread() { return holder_ == CurrentThread::tid(); }
+  bool IsLockedInThisThread()
+  {
+    return holder_.load(std::memory_order_relaxed) == CurrentThread::tid();
+  }
 
   void AssertLocked() { ASSERT(IsLockedInThisThread()); }
 
   void Lock() ACQUIRE()
   {
-    assignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_lock(&mutex_));
 #else
     mutex_.lock();
 #endif
+    assignHolder();
   }
 
   /**
@@ -132,18 +137,19 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
     success = mutex_.try_lock();
 #endif
-    if (success) unassignHolder();
+    if (success) assignHolder();
     return success;
   }
 
   void Unlock() RELEASE()
   {
+    // Must be done with the lock held, the next holder assigns itself
+    unassignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_unlock(&mutex_));
 #else
     mutex_.unlock();
 #endif
-    unassignHolder();
   }
 
   // TODO Implement this
@@ -174,9 +180,15 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
     MutexLock &mutex_;
   };
 
-  void assignHolder() KANON_NOEXCEPT { holder_ = CurrentThread::tid(); }
+  void assignHolder() KANON_NOEXCEPT
+  {
+    holder_.store(CurrentThread::tid(), std::memory_order_relaxed);
+  }
 
-  void unassignHolder() KANON_NOEXCEPT { holder_ = 0; }
+  void unassignHolder() KANON_NOEXCEPT
+  {
+    holder_.store(0, std::memory_order_relaxed);
+  }
 
  private:
 #ifdef KANON_ON_UNIX
@@ -184,7 +196,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
   std::mutex mutex_;
 #endif
-  int holder_;
+  std::atomic<int> holder_{0};
 };
 
 // pthread_mutex_t simple RAII wrapper
-- 
2.43.0


From 07d75520a11758bfe30b1cfe6b9ea58fc27cc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 049/167] fix: MutexLock::AssertLocked() aborts when the lock
 is held

---
 kanon/thread/mutex_lock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index c19aad4..9ecb002 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -107,7 +107,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
     return holder_.load(std::memory_order_relaxed) == CurrentThread::tid();
   }
 
-  void AssertLocked() { ASSERT(IsLockedInThisThread()); }
+  void AssertLocked() { ASSERT(IsLockedInThisThread() ? 0 : EPERM); }
 
   void Lock() ACQUIRE()
   {
-- 
2.43.0


From 4271848f43e273a72a73a3783bcaad7d09f0dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 050/167] fix: CountDownLatch waits must survive spurious
 wakeups

---
 kanon/thread/count_down_latch.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6d26b77..6f5f2c7 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -36,7 +36,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
-    if (count_ > 0) cond_.Wait();
+    WaitForZero();
   }
 
   void Add(int count) KANON_NOEXCEPT
@@ -49,7 +49,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ += count;
-    if (count_ > 0) cond_.Wait();
+    WaitForZero();
   }
 
   void Incr() KANON_NOEXCEPT
@@ -62,7 +62,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     ++count_;
-    if (count_ > 0) cond_.Wait();
+    WaitForZero();
   }
 
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
@@ -86,7 +86,7 @@ class CountDownLatch : noncopyable {
   void Wait()
   {
     MutexGuard guard(mutex_);
-    if (count_ > 0) cond_.Wait();
+    WaitForZero();
   }
 
   void Countdown() KANON_NOEXCEPT
@@ -94,12 +94,22 @@ class CountDownLatch : noncopyable {
     MutexGuard guard(mutex_);
     --count_;
     if (count_ == 0) {
+      ++epoch_;
       cond_.NotifyAll();
     }
   }
 
  private:
+  // Not return because of a spurious wakeup, but do return when the count
+  // reached 0 and was increased again before this thread got the mutex
+  void WaitForZero()
+  {
+    auto epoch = epoch_;
+    while (count_ > 0 && epoch == epoch_) cond_.Wait();
+  }
+
   int count_;
+  unsigned epoch_ = 0; // How many times the count reached 0
   mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
 };
-- 
2.43.0


From 0f149d9912f8c15025d5993b3feec72840f9c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 051/167] fix: CountDownLatch must release its waiters however
 the count reaches zero

---
 kanon/thread/count_down_latch.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6f5f2c7..3f783e3 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -30,6 +30,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    NotifyIfZero();
   }
 
   void ResetAndWait(int count) KANON_NOEXCEPT
@@ -69,12 +70,14 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ -= count;
+    NotifyIfZero();
   }
 
   KANON_DEPRECATED_ATTR void Decr() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
+    NotifyIfZero();
   }
 
   int GetCount() const KANON_NOEXCEPT
@@ -93,13 +96,18 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     --count_;
-    if (count_ == 0) {
+    NotifyIfZero();
+  }
+
+ private:
+  void NotifyIfZero()
+  {
+    if (count_ <= 0) {
       ++epoch_;
       cond_.NotifyAll();
     }
   }
 
- private:
   // Not return because of a spurious wakeup, but do return when the count
   // reached 0 and was increased again before this thread got the mutex
   void WaitForZero()
-- 
2.43.0


From 064cad4283ac1db8da3e5f5636fb950763559e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 052/167] fix: Condition::WaitForSeconds() with negative or
 huge seconds

---
 kanon/thread/condition.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/thread/condition.cc b/kanon/thread/condition.cc
index d2cdced..d89badb 100644
--- a/kanon/thread/condition.cc
+++ b/kanon/thread/condition.cc
@@ -25,6 +25,9 @@ bool Condition::WaitForSeconds(double seconds)
   spec.tv_sec  = static_cast<time_t>(Now/NANOSECONDS);
   spec.tv_nsec = static_cast<long>(Now%NANOSECONDS);
   */
+  // Out of range values can't be converted to integer
+  if (!(seconds > 0)) seconds = 0;
+  if (seconds > 1e9) seconds = 1e9;
   const auto NANOSECONDS2 = uint64_t(seconds * NANOSECONDS);
   spec.tv_sec += static_cast<time_t>(
       ((unsigned long)spec.tv_nsec + NANOSECONDS2) / NANOSECONDS);
-- 
2.43.0


From f976421bca375c30bb808dc1078056bf9c27c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 053/167] fix: AtomicCounter::Reset() returns nothing

---
 kanon/thread/atomic_counter.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/atomic_counter.h b/kanon/thread/atomic_counter.h
index 9f936a4..a9a38e0 100644
--- a/kanon/thread/atomic_counter.h
+++ b/kanon/thread/atomic_counter.h
@@ -34,7 +34,10 @@ class AtomicCounter : noncopyable {
     return *this;
   }
 
-  T Reset() KANON_NOEXCEPT { count_.store(0, std::memory_order_relaxed); }
+  T Reset() KANON_NOEXCEPT
+  {
+    return count_.exchange(0, std::memory_order_relaxed);
+  }
 
   void SetValue(T const val) KANON_NOEXCEPT
   {
-- 
2.43.0


From 52e159bb3cfaf76eb1eae42cfa3bada5854e9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 054/167] fix: ThreadPool workers must run more than one task
 and end with the pool

---
 kanon/thread/thread_pool.cc | 19 ++++++++++++-------
 kanon/thread/thread_pool.h  |  6 ++++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 556529e..255f722 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -14,6 +14,12 @@ ThreadPool::ThreadPool(int max_queue_size,
 { }
 
 ThreadPool::~ThreadPool() KANON_NOEXCEPT {
+  {
+    MutexGuard guard{ mutex_ };
+    stopped_ = true;
+    not_empty_.NotifyAll();
+  }
+
   for (auto& thr : threads_) {
     thr->Join();
   }
@@ -24,11 +30,9 @@ void ThreadPool::StartRun(int thread_num) {
 
   for (int i = 0; i != thread_num; ++i) {
     auto up_thr = kanon::make_unique<Thread>([this]() {
-      auto task = Pop();
-
-      if (task) {
+      for (Task task; Pop(task); ) {
         // Exception is handled by Thread
-        task();
+        if (task) task();
       }
     }, name_ + std::to_string(i));
     
@@ -49,17 +53,18 @@ void ThreadPool::Push(Task task) {
   not_empty_.Notify();
 }
 
-auto ThreadPool::Pop() -> Task
+bool ThreadPool::Pop(Task& task)
 {
   MutexGuard guard{ mutex_ };
 
   while (tasks_.size() == 0) {
+    if (stopped_) return false;
     not_empty_.Wait();
   }
 
-  auto task = std::move(tasks_.front());
+  task = std::move(tasks_.front());
   tasks_.pop();
 
   not_full_.Notify();
-  return task;
+  return true;
 }
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 6a85d64..10d03b2 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -29,7 +29,7 @@ class ThreadPool : noncopyable {
                                      std::string const &name = "ThreadPool");
 
   /**
-   * \brief join all thread to reclaim their resource
+   * \brief run the tasks left, then join all thread to reclaim their resource
    */
   KANON_CORE_API ~ThreadPool() KANON_NOEXCEPT;
 
@@ -53,14 +53,16 @@ class ThreadPool : noncopyable {
   /**
    * \brief pop the task from queue, and notify Push() to produce which can
    * produce more task
+   * \return false if the pool is being destroyed and there is no task left
    */
-  Task Pop();
+  bool Pop(Task &task);
 
   mutable MutexLock mutex_;
   Condition not_full_ GUARDED_BY(mutex_);
   Condition not_empty_ GUARDED_BY(mutex_);
 
   int max_queue_size_;
+  bool stopped_ = false;
 
   std::vector<std::unique_ptr<kanon::Thread>> threads_;
   std::queue<Task> tasks_;
-- 
2.43.0


From 2dc8e35a5ed425210318e02bbc0f6133e3defb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 055/167] fix: ThreadPool::SetMaxQueueSize() while tasks are
 queued

---
 kanon/thread/thread_pool.cc | 4 +++-
 kanon/thread/thread_pool.h  | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 255f722..2f2f278 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -45,7 +45,9 @@ void ThreadPool::StartRun(int thread_num) {
 void ThreadPool::Push(Task task) {
   MutexGuard guard{ mutex_ };
 
-  while (static_cast<int>(tasks_.size()) == max_queue_size_) {
+  // The limit may be lowered below the number of queued tasks
+  while (max_queue_size_ >= 0 &&
+         static_cast<int>(tasks_.size()) >= max_queue_size_) {
     not_full_.Wait();
   }
 
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 10d03b2..e324d78 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -46,7 +46,9 @@ class ThreadPool : noncopyable {
 
   void SetMaxQueueSize(int num) KANON_NOEXCEPT
   {
+    MutexGuard guard{mutex_};
     if (num > 0) max_queue_size_ = num;
+    not_full_.NotifyAll();
   }
 
  private:
-- 
2.43.0


From 5423b01c10c7570ca262e1bf706dd5456ef522c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 056/167] fix: Threads created at the same time may get the
 same default name

---
 kanon/thread/thread.cc | 7 +++----
 kanon/thread/thread.h  | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 77c73b1..04fb01d 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -38,8 +38,7 @@ Thread::Thread(Threadfunc func, string const &name)
   , pthreadId_{0}
   , name_{name}
 {
-  numCreated_.Add(1);
-  SetDefaultName();
+  SetDefaultName(numCreated_.Add(1));
 }
 
 Thread::~Thread()
@@ -116,14 +115,14 @@ void Thread::Join()
 #endif
 }
 
-void Thread::SetDefaultName()
+void Thread::SetDefaultName(uint32_t num)
 {
   if (!name_.empty()) return;
 
   char buf[64];
   BZERO(buf, sizeof buf);
 
-  snprintf(buf, sizeof buf, "KanonThread%d", numCreated_.GetValue());
+  snprintf(buf, sizeof buf, "KanonThread%u", num);
   name_ = buf;
 }
 
diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 1d83727..d3f1b84 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -87,7 +87,7 @@ class Thread : noncopyable {
   ThreadId GetPthreadId() const KANON_NOEXCEPT { return pthreadId_; }
 
  private:
-  KANON_CORE_NO_API void SetDefaultName();
+  KANON_CORE_NO_API void SetDefaultName(uint32_t num);
 
   friend void *detail::Run(void *arg);
 
-- 
2.43.0


From 592dc44f478fb482250e229898a70b315e941d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 057/167] fix: Thread must report the error of pthread_create()

---
 kanon/thread/thread.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 04fb01d..132acb8 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -63,7 +63,7 @@ void Thread::StartRun()
   err = pthread_create(&pthreadId_, NULL, &detail::Run, this);
   if (err != 0) {
     char buf[128];
-    auto ret = ::strerror_r(errno, buf, sizeof buf);
+    auto ret = ::strerror_r(err, buf, sizeof buf);
     KANON_UNUSED(ret);
     ::fprintf(stderr, "Failed in pthread_create: %s\n", buf);
     ::fflush(stderr);
-- 
2.43.0


From 8ec1aaf72abdd804f95d36f9d9ca33a344f72674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 058/167] fix: A moved-from Thread must not detach a thread it
 doesn't own

---
 kanon/thread/thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index d3f1b84..4843866 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -62,6 +62,7 @@ class Thread : noncopyable {
     , name_{std::move(rhs.name_)}
   {
     rhs.pthreadId_ = 0;
+    rhs.is_started_ = false;
   }
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
-- 
2.43.0


From 856c5641a4f875db6436a04916df3cf80143a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 059/167] fix: Assigning to a Thread must detach the thread it
 owned

---
 kanon/thread/thread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 4843866..075285e 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -67,6 +67,11 @@ class Thread : noncopyable {
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
   {
+    if (this == &rhs) return *this;
+
+    // The thread owned before is detached like in the destructor
+    Thread old(std::move(*this));
+
     func_ = std::move(rhs.func_);
     is_started_ = rhs.is_started_;
     is_joined_ = rhs.is_joined_;
-- 
2.43.0


From 9daf2b74d77d3315c6d97fefb3935f885827123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 060/167] fix: A running Thread must not refer to the moved or
 destroyed Thread object

---
 kanon/thread/thread.cc | 19 +++++++++++++++----
 kanon/thread/thread.h  |  2 --
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 132acb8..df436d3 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -24,6 +24,15 @@ using namespace std;
 
 namespace kanon {
 
+namespace detail {
+
+struct ThreadData {
+  Thread::Threadfunc func_;
+  std::string name_;
+};
+
+} // namespace detail
+
 AtomicCounter32 Thread::numCreated_{};
 
 Thread::Thread(std::string const &name)
@@ -57,10 +66,12 @@ void Thread::StartRun()
   assert(!is_started_);
   is_started_ = false;
 
-  // auto data = new detail::ThreadData{ func_, name_ };
+  // The new thread must not refer to this object, since it may be moved or
+  // destroyed(the thread is detached then) while the function is running
+  auto data = new detail::ThreadData{func_, name_};
 #ifdef KANON_ON_UNIX
   int err = 0;
-  err = pthread_create(&pthreadId_, NULL, &detail::Run, this);
+  err = pthread_create(&pthreadId_, NULL, &detail::Run, data);
   if (err != 0) {
     char buf[128];
     auto ret = ::strerror_r(err, buf, sizeof buf);
@@ -73,7 +84,7 @@ void Thread::StartRun()
   }
 #else
   try {
-    std::thread thr(&detail::Run, this);
+    std::thread thr(&detail::Run, data);
 #ifdef KANON_ON_UNIX
     pthreadId_ = thr.native_handle();
 #else
@@ -131,7 +142,7 @@ namespace detail {
 void *Run(void *arg)
 {
   CurrentThread::cacheTid();
-  auto thread = reinterpret_cast<Thread *>(arg);
+  std::unique_ptr<ThreadData> thread(reinterpret_cast<ThreadData *>(arg));
   CurrentThread::t_name =
       thread->name_.empty() ? "KanonThread" : thread->name_.c_str();
 
diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 075285e..be9465e 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -95,8 +95,6 @@ class Thread : noncopyable {
  private:
   KANON_CORE_NO_API void SetDefaultName(uint32_t num);
 
-  friend void *detail::Run(void *arg);
-
  private:
   Threadfunc func_;
   bool is_started_;
-- 
2.43.0


From 0862729c34f887984b75f49608611731bae4c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 061/167] fix: Thread must print the text of the
 pthread_create() error

---
 kanon/thread/thread.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index df436d3..fc63a10 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -73,10 +73,8 @@ void Thread::StartRun()
   int err = 0;
   err = pthread_create(&pthreadId_, NULL, &detail::Run, data);
   if (err != 0) {
-    char buf[128];
-    auto ret = ::strerror_r(err, buf, sizeof buf);
-    KANON_UNUSED(ret);
-    ::fprintf(stderr, "Failed in pthread_create: %s\n", buf);
+    // The GNU strerror_r() needn't use the buffer
+    ::fprintf(stderr, "Failed in pthread_create: %s\n", ::strerror(err));
     ::fflush(stderr);
     exit(1);
   } else {
-- 
2.43.0


From 083bd3211b90ef62ad7f9d8dbe481ec425270907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 062/167] fix: Poller must observe a channel again that was
 disabled

---
 kanon/linux/net/poller.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 721fd45..5a5a2d6 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -75,7 +75,7 @@ void Poller::UpdateChannel(Channel *ch)
     // because new fd is more than or equal all fd in channels_map_
     channels_map_.emplace_hint(channels_map_.end(), ch->GetFd(), ch);
     struct pollfd new_pollfd;
-    new_pollfd.fd = ch->GetFd();
+    new_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
     new_pollfd.events = static_cast<short>(ch->GetEvents());
     new_pollfd.revents = 0;
 
@@ -94,11 +94,10 @@ void Poller::UpdateChannel(Channel *ch)
     assert(index != -1 && index <= static_cast<int>(pollfds_.size()));
     auto &now_pollfd = pollfds_[index];
 
-    assert(now_pollfd.fd == ch->GetFd());
+    // The fd is negative if no event was interested
+    assert(now_pollfd.fd == ch->GetFd() || now_pollfd.fd == -ch->GetFd() - 1);
 
-    if (ch->IsNoneEvent()) {
-      now_pollfd.fd = -now_pollfd.fd - 1;
-    }
+    now_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
 
     now_pollfd.events = static_cast<short>(ch->GetEvents());
     now_pollfd.revents = 0;
-- 
2.43.0


From 98c136bbc6b1425867a56bd211b53c6245b9812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 063/167] fix: Poller must be able to remove disabled channels
 and add removed ones again

---
 kanon/linux/net/poller.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 5a5a2d6..92f99f7 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -111,9 +111,7 @@ void Poller::RemoveChannel(Channel *ch)
   auto it = channels_map_.find(ch->GetFd());
 
   if (it != channels_map_.end()) {
-    auto channel = it->second;
-
-    if (channel->GetFd() == pollfds_.back().fd) {
+    if (ch->GetIndex() == static_cast<int>(pollfds_.size() - 1)) {
       // ch is the last pollfd
       // just pop back
       pollfds_.pop_back();
@@ -147,6 +145,8 @@ void Poller::RemoveChannel(Channel *ch)
       channels_map_[back_fd]->SetIndex(index);
     }
 
+    // The channel can be added again
+    ch->SetIndex(-1);
     channels_map_.erase(it);
   }
 }
-- 
2.43.0


From 8c6d0bbe47c592d613db70cc508de15b32373816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 064/167] fix: An interrupted poll() is not an error

---
 kanon/linux/net/poller.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 92f99f7..acc8837 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -26,6 +26,7 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
 
   auto ret = ::poll(pollfds_.data(), static_cast<nfds_t>(pollfds_.size()), ms);
 
+  int saved_errno = errno;
   TimeStamp now{TimeStamp::Now()};
 
   if (ret > 0) {
@@ -54,7 +55,8 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   } else if (ret == 0) {
     LOG_TRACE_KANON << "none events are ready";
   } else {
-    if (ret != EINTR) {
+    if (saved_errno != EINTR) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "Poll() error occurred";
     }
   }
-- 
2.43.0


From 82b42b7cece67bb8ad0d3d34b362ded91eb88cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 065/167] fix: Epoller must not observe a channel that is
 interested in no event

---
 kanon/linux/net/epoller.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/epoller.cc b/kanon/linux/net/epoller.cc
index 88f5c2b..2d3f1bf 100644
--- a/kanon/linux/net/epoller.cc
+++ b/kanon/linux/net/epoller.cc
@@ -101,7 +101,10 @@ void Epoller::UpdateChannel(Channel *ch)
 
   int index = ch->GetIndex();
 
-  if (index == kNew) {
+  if (ch->IsNoneEvent()) {
+    // The kernel reports errors and hang-ups even if no event is interested
+    RemoveChannel(ch);
+  } else if (index == kNew) {
     UpdateEpollEvent(EPOLL_CTL_ADD, ch);
     ch->SetIndex(kAdded);
   } else { // ch->GetIndex() = kAdded
-- 
2.43.0


From 73132bde0a54aa3ae8744f971f1eb8b25c7dd272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 066/167] fix: TimerQueue must close its timerfd

---
 kanon/linux/net/timer/timer_queue.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 8bd68c6..571dd77 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -128,6 +128,9 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
   for (auto &timer_seq : timers_) {
     delete timer_seq.first;
   }
+
+  // The fd isn't managed by Channel
+  ::close(timer_channel_->GetFd());
 }
 
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
-- 
2.43.0


From f3b039bfb89e808864ca2ca648d5f7a5bc021ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 067/167] fix: EventLoop must close its eventfd

---
 kanon/net/event_loop.cc | 8 +++++---
 kanon/net/event_loop.h  | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index fdbd520..578015c 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -11,6 +11,7 @@
 #endif
 
 #include "kanon/net/sock_api.h"
+#include "kanon/net/socket.h"
 #include "kanon/util/ptr.h"
 #include "kanon/net/event_loop.h"
 
@@ -108,11 +109,12 @@ EventLoop::EventLoop(bool is_poller)
 #endif
 // CreateEventfd() is don't throw exception, don't wrong exception-safety
 #ifdef KANON_ON_UNIX
-  , ev_channel_{kanon::make_unique<Channel>(this, detail::CreateEventFd())}
+  , ev_fd_{kanon::make_unique<Socket>(detail::CreateEventFd())}
 #elif defined(KANON_ON_WIN)
-  , ev_channel_{kanon::make_unique<Channel>(
-        this, sock::CreateNonBlockAndCloExecSocket(false))}
+  , ev_fd_{kanon::make_unique<Socket>(
+        sock::CreateNonBlockAndCloExecSocket(false))}
 #endif
+  , ev_channel_{kanon::make_unique<Channel>(this, ev_fd_->GetFd())}
   , timer_queue_{kanon::make_unique<TimerQueue>(this)}
 {
 
diff --git a/kanon/net/event_loop.h b/kanon/net/event_loop.h
index d9e6b27..9394aac 100644
--- a/kanon/net/event_loop.h
+++ b/kanon/net/event_loop.h
@@ -20,6 +20,7 @@ namespace kanon {
 class TimerQueue;
 class Channel;
 class PollerBase;
+class Socket;
 
 /**
  * \ingroup net
@@ -268,6 +269,8 @@ class EventLoop : noncopyable {
    */
   std::unique_ptr<PollerBase> poller_; //!< Demultiplexer
 
+  std::unique_ptr<Socket> ev_fd_; //!< Close the fd of ev_channel_
+
   std::unique_ptr<Channel> ev_channel_; //!< Used for wakeuping
 
   /** Make QueueToLoop() can be called asynchronously, so need lock the
-- 
2.43.0


From 33da955c4478d68b896e81f6d78473d07c83779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 068/167] fix: EventLoop must know its owner thread if that
 isn't created by Thread

---
 kanon/net/event_loop.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 578015c..696c403 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -88,11 +88,8 @@ EventLoop::EventLoop()
 }
 
 EventLoop::EventLoop(bool is_poller)
-#if KANON___THREAD_DEFINED
-  : owner_thread_id_{(PId)CurrentThread::t_tid}
-#else
-  : owner_thread_id_{(PId)CurrentThread::GetTid()}
-#endif
+  // The tid isn't cached if this thread isn't created by Thread
+  : owner_thread_id_{(PId)CurrentThread::tid()}
   , looping_{false}
   , quit_{false}
   , calling_functors_{false}
-- 
2.43.0


From 6614fd9834dc04f05e6843b95dc2fdf1beb5e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 069/167] fix: Functors queued before the loop starts must wake
 it up

---
 kanon/net/event_loop.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 696c403..a5e59ca 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -224,7 +224,8 @@ void EventLoop::QueueToLoop(FunctorCallback cb)
   // ConnectionCallback) then WriteCompleteCallback continue write and register
   // it if not complete, but this is in the phase3, if we don't Wakeup(), the
   // next loop must be blocked. \see example/file_transfer/client.cc
-  if (!IsLoopInThread() || calling_functors_) {
+  // Also, the loop doesn't start yet, the first poll must not block.
+  if (!IsLoopInThread() || calling_functors_ || !looping_) {
     Wakeup();
   }
 }
-- 
2.43.0


From 58c4b060689321846adb3a35fe9b321484980a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 070/167] fix: Functors queued before Quit() must be called

---
 kanon/net/event_loop.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index a5e59ca..6552e2e 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -172,6 +172,9 @@ void EventLoop::StartLoop()
     activeChannels.clear();
   }
 
+  // The functors queued before Quit() must be called
+  CallFunctors();
+
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
 
   looping_ = false;
@@ -236,10 +239,6 @@ void EventLoop::RemoveChannel(Channel *ch) { poller_->RemoveChannel(ch); }
 
 void EventLoop::CallFunctors()
 {
-  if (quit_) {
-    return;
-  }
-
   decltype(functors_) functors;
   {
     MutexGuard dummy{lock_};
-- 
2.43.0


From cd9d86a3a41896cf2d49e2f803fa4d5d551a153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 071/167] fix: Functors queued by the dtor of a functor must
 wake the loop up

---
 kanon/net/event_loop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 6552e2e..90286bf 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -265,6 +265,8 @@ void EventLoop::CallFunctors()
     }
   }
 
+  // The dtor of functors might queue functor also
+  functors.clear();
   calling_functors_ = false;
 }
 
-- 
2.43.0


From 5ed8f595aade644831e6f154077bf57467c1b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 072/167] fix: EventLoopThread must not race with a loop that
 quits on its own

---
 kanon/net/event_loop_thread.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index c4407be..cd97bfa 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -16,10 +16,15 @@ EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
 {
   // if Quit() is not called through pointer return from StartRun()
   // we should call quit explicitly
-  if (loop_ != nullptr) {
-    loop_->Quit();
-    thr_.Join(); // wait loop quiting
+  {
+    // The loop can't be destroyed when calling Quit()
+    MutexGuard guard{mutex_};
+    if (loop_ != nullptr) loop_->Quit();
   }
+
+  // wait loop quiting
+  // The thread uses this even though the loop has quited
+  if (thr_.GetPthreadId() != 0) thr_.Join();
 }
 
 EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
@@ -53,5 +58,6 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
   // but it is harmless.
   loop_->StartLoop();
 
+  MutexGuard guard{mutex_};
   loop_ = nullptr;
 }
-- 
2.43.0


From d02e13ee8b43e60372d3b8a0ca0a2199652bb94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 073/167] fix: EventLoopThread::StartRun() must return even if
 the loop has quited already

---
 kanon/net/event_loop_thread.cc | 10 ++++++----
 kanon/net/event_loop_thread.h  |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index cd97bfa..e75d87b 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -6,6 +6,7 @@ using namespace kanon;
 
 EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
+  , started_{false}
   , mutex_{}
   , cond_{mutex_}
   , thr_{name}
@@ -35,12 +36,12 @@ EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
 
   {
     MutexGuard guard{mutex_};
-    while (loop_ == nullptr) {
+    while (!started_) {
       cond_.Wait();
     }
-  }
 
-  return loop_;
+    return loop_;
+  }
 }
 
 void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
@@ -51,12 +52,13 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
   {
     MutexGuard guard{mutex_};
     loop_ = &loop;
+    started_ = true;
     cond_.Notify();
   }
 
   // Maybe quit before StartLoop() be called,
   // but it is harmless.
-  loop_->StartLoop();
+  loop.StartLoop();
 
   MutexGuard guard{mutex_};
   loop_ = nullptr;
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 33a52c5..9fc842a 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -46,6 +46,7 @@ class EventLoopThread : noncopyable {
   KANON_NET_NO_API void BackGroundStartLoop(ThreadInitCallback const &init_cb);
 
   EventLoop *loop_;
+  bool started_ GUARDED_BY(mutex_); //!< Whether the loop has been created
 
   MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
-- 
2.43.0


From dba47668ce7c03cc15173d766b5418507038cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 074/167] fix: EventLoopPool that is not started can be
 destroyed

---
 kanon/net/event_loop_pool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/event_loop_pool.cc b/kanon/net/event_loop_pool.cc
index 3a1db11..ec08de8 100644
--- a/kanon/net/event_loop_pool.cc
+++ b/kanon/net/event_loop_pool.cc
@@ -19,7 +19,7 @@ EventLoopPool::EventLoopPool(EventLoop *base_loop, std::string const &name)
 {
 }
 
-EventLoopPool::~EventLoopPool() KANON_NOEXCEPT { assert(started_); }
+EventLoopPool::~EventLoopPool() KANON_NOEXCEPT {}
 
 void EventLoopPool::StartRun(ThreadInitCallback const &cb)
 {
-- 
2.43.0


From 9b0384a6d499dcd311adcc2ae7fdc1611117d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 075/167] fix: A Connector that is released must not be used by
 its callbacks

---
 kanon/linux/net/connector.cc | 15 ++++++++++-----
 kanon/net/connector.cc       | 33 ++++++++++++++++++++++-----------
 kanon/net/connector.h        |  2 ++
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index cab1787..33d6968 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -76,13 +76,17 @@ void Connector::CompleteConnect(FdType sockfd)
   assert(!channel_);
   channel_ = kanon::make_unique<Channel>(loop_, sockfd);
 
-  channel_->SetWriteCallback([this]() {
-    FdType sockfd = channel_->GetFd();
+  std::weak_ptr<Connector> wp_self(shared_from_this());
+
+  channel_->SetWriteCallback([this, wp_self]() {
+    // Keep this alive until the callback returns
+    auto self = wp_self.lock();
     // NOTICE:
     // OUT maybe occurs with ERR(and HUP).
     // Therefore, the error callback is called before this,
     // use state to distinguish them.
-    if (state_ == State::kConnecting) {
+    if (self && state_ == State::kConnecting) {
+      FdType sockfd = channel_->GetFd();
       ResetChannel();
       int err = sock::GetSocketError(sockfd);
 
@@ -127,8 +131,9 @@ void Connector::CompleteConnect(FdType sockfd)
     }
   });
 
-  channel_->SetErrorCallback([this]() {
-    if (state_ == State::kConnecting) {
+  channel_->SetErrorCallback([this, wp_self]() {
+    auto self = wp_self.lock();
+    if (self && state_ == State::kConnecting) {
       FdType sockfd = channel_->GetFd();
       ResetChannel();
       int err = sock::GetSocketError(sockfd);
diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 4d5a919..5f9fde6 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -30,12 +30,13 @@ Connector::~Connector() KANON_NOEXCEPT
 
 void Connector::StartRun()
 {
-  loop_->RunInLoop([this]() {
-    loop_->AssertInThread();
+  // The connector may be released before the loop runs this
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->loop_->AssertInThread();
 
-    assert(state_ == kDisconnected);
-    if (connect_) {
-      Connect();
+    if (self->connect_) {
+      self->Connect();
     }
   });
 }
@@ -75,7 +76,14 @@ void Connector::StopInLoop()
 
 void Connector::Restrat()
 {
-  loop_->RunInLoop([this]() {
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->RestartInLoop();
+  });
+}
+
+void Connector::RestartInLoop()
+{
     connect_ = true;
 
     /*
@@ -91,7 +99,6 @@ void Connector::Restrat()
     retry_interval_ = INIT_RETRY_INTERVAL;
 
     StartRun();
-  });
 }
 
 void Connector::Retry(FdType sockfd)
@@ -107,9 +114,12 @@ void Connector::Retry(FdType sockfd)
     LOG_TRACE_KANON << "Client will reconnect to " << serv_addr_.ToIpPort()
                     << " after " << delay_sec << " seconds";
 
+    // The timer must not keep the connector alive
+    std::weak_ptr<Connector> wp_self(shared_from_this());
     timer_ = loop_->RunAfter(
-        [this]() {
-          StartRun();
+        [wp_self]() {
+          auto self = wp_self.lock();
+          if (self) self->StartRun();
         },
         delay_sec);
 
@@ -129,7 +139,8 @@ void Connector::ResetChannel()
   // \warning
   // In event handle phase now if called in phase2
   // So, you can't call it immediately
-  loop_->QueueToLoop([this]() {
-    channel_.reset();
+  // and the connector may be released before that phase.
+  std::shared_ptr<Channel> channel(std::move(channel_));
+  loop_->QueueToLoop([channel]() {
   });
 }
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 4f17a92..eeff861 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -140,6 +140,8 @@ class KANON_NET_NO_API Connector
 
   void StopInLoop();
 
+  void RestartInLoop();
+
   EventLoop *loop_;
   InetAddr serv_addr_;
   uint32_t retry_interval_; //!< Time interval of retry connect
-- 
2.43.0


From 1d692153a3d1ea0c208d1cd0c0217b425b52d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 076/167] fix: The retry interval of Connector must not
 overflow

---
 kanon/net/connector.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 5f9fde6..436f911 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -108,8 +108,7 @@ void Connector::Retry(FdType sockfd)
   sock::Close(sockfd);
   SetState(kDisconnected);
   if (connect_) {
-    double delay_sec =
-        std::min<uint32_t>(retry_interval_, MAX_RETRY_INTERVAL) / 1000.0;
+    double delay_sec = retry_interval_ / 1000.0;
 
     LOG_TRACE_KANON << "Client will reconnect to " << serv_addr_.ToIpPort()
                     << " after " << delay_sec << " seconds";
@@ -123,7 +122,8 @@ void Connector::Retry(FdType sockfd)
         },
         delay_sec);
 
-    retry_interval_ *= 2;
+    retry_interval_ =
+        std::min<uint32_t>(retry_interval_ * 2, MAX_RETRY_INTERVAL);
   }
 }
 
-- 
2.43.0


From 1ba59bb36be0d9d99e791c490945eb848b471e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 077/167] fix: Connector must close the socket if nobody takes
 it

---
 kanon/linux/net/connector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index 33d6968..0375102 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -120,6 +120,7 @@ void Connector::CompleteConnect(FdType sockfd)
           else {
             LOG_WARN_KANON << "There is no new connection callback, cannot to create "
                         "connection";
+            sock::Close(sockfd);
           }
           LOG_TRACE_KANON << "Connection is established successfully";
         } else {
-- 
2.43.0


From 61761994428051892eabe62b03d54e2986c04c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 078/167] fix: Connector must keep at most one attempt and one
 retry timer

---
 kanon/net/connector.cc | 40 +++++++++++++++++++++++++---------------
 kanon/net/connector.h  |  3 +++
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 436f911..a6c5d94 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -36,6 +36,7 @@ void Connector::StartRun()
     self->loop_->AssertInThread();
 
     if (self->connect_) {
+      self->CancelRetry();
       self->Connect();
     }
   });
@@ -62,7 +63,7 @@ void Connector::StopInLoop()
   LOG_TRACE_KANON << "Connector is stopping";
 
   connect_ = false;
-  if (timer_) loop_->CancelTimer(*timer_);
+  CancelRetry();
 
   if (state_ == State::kConnecting) {
     // Only be called when connecting,
@@ -84,21 +85,22 @@ void Connector::Restrat()
 
 void Connector::RestartInLoop()
 {
-    connect_ = true;
-
-    /*
-     * Can't distinguish passive close and active close
-     * e.g. Connector is destroyed and restart shouldn't be thinked to close
-     *      if connection is not established.
-     */
-    if (state_ != kConnected) {
-      // LOG_WARN_KANON << "Restart() must be used for reconnecting when passive
-      // closed by peer";
-    }
-    SetState(State::kDisconnected);
-    retry_interval_ = INIT_RETRY_INTERVAL;
+  loop_->AssertInThread();
+
+  connect_ = true;
+  retry_interval_ = INIT_RETRY_INTERVAL;
+
+  // The current attempt continues
+  if (state_ == kConnecting) return;
 
-    StartRun();
+  /*
+   * Can't distinguish passive close and active close
+   * e.g. Connector is destroyed and restart shouldn't be thinked to close
+   *      if connection is not established.
+   */
+  SetState(State::kDisconnected);
+
+  StartRun();
 }
 
 void Connector::Retry(FdType sockfd)
@@ -127,6 +129,14 @@ void Connector::Retry(FdType sockfd)
   }
 }
 
+void Connector::CancelRetry()
+{
+  if (timer_) {
+    loop_->CancelTimer(*timer_);
+    timer_ = make_null_optional<TimerId>();
+  }
+}
+
 void Connector::ResetChannel()
 {
   // Ensure this is called in loop
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index eeff861..d27c101 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -142,6 +142,9 @@ class KANON_NET_NO_API Connector
 
   void RestartInLoop();
 
+  // Cancel the pending retry timer
+  void CancelRetry();
+
   EventLoop *loop_;
   InetAddr serv_addr_;
   uint32_t retry_interval_; //!< Time interval of retry connect
-- 
2.43.0


From 73f0d7b909373747077489766d6160f6455153aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 079/167] fix: AddTimer() must not access a timer that may be
 deleted already

---
 kanon/linux/net/timer/timer_queue.cc | 4 +++-
 kanon/net/timer/timer_id.h           | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 571dd77..caedab8 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -137,6 +137,8 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
   Timer *timer = new Timer(std::move(cb), time, interval);
+  // The loop may run and delete the timer before RunInLoop() returns
+  const TimerId id{timer};
   loop_->RunInLoop([this, timer]() {
     loop_->AssertInThread();
 
@@ -147,7 +149,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     }
   });
 
-  return timer;
+  return id;
 }
 
 void TimerQueue::CancelTimer(TimerId id)
diff --git a/kanon/net/timer/timer_id.h b/kanon/net/timer/timer_id.h
index 083557e..b51c4ac 100644
--- a/kanon/net/timer/timer_id.h
+++ b/kanon/net/timer/timer_id.h
@@ -36,9 +36,9 @@ class KANON_NET_NO_API TimerId {
   KANON_INLINE ~TimerId() = default;
 
  private:
-  Timer *timer_;
-  uint64_t seq_;
-  void *ctx_;
+  Timer *timer_ = nullptr;
+  uint64_t seq_ = 0;
+  void *ctx_ = nullptr;
 };
 
 //!@}
-- 
2.43.0


From 93fdd2017d4155d191b6edbf5a984825bbfa0e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 080/167] fix: CancelTimer() must not access deleted timers and
 must delete the canceled one

---
 kanon/linux/net/timer/timer_queue.cc | 33 +++++++++++++++++++++-------
 kanon/linux/net/timer/timer_queue.h  | 10 +++++++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index caedab8..7a14ea2 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -142,6 +142,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
   loop_->RunInLoop([this, timer]() {
     loop_->AssertInThread();
 
+    alive_timers_.emplace(timer->sequence(), timer);
     bool earliest_update = Emplace(timer);
 
     if (earliest_update) {
@@ -159,10 +160,20 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
+    const auto alive_timer_iter = alive_timers_.find(id.seq_);
+
+    if (alive_timers_.end() == alive_timer_iter ||
+        alive_timer_iter->second != id.timer_)
+    {
+      // Has been deleted
+      return;
+    }
+
     const auto active_timer_iter = timers_.find({id.timer_, id.seq_});
 
     if (timers_.end() != active_timer_iter) {
       timers_.erase(active_timer_iter);
+      DeleteTimer(id.timer_);
     } else if (calling_timer_) {
       // Self-cancel
       // \see ProcessAllExpiredTimers()
@@ -171,6 +182,12 @@ void TimerQueue::CancelTimer(TimerId id)
   });
 }
 
+void TimerQueue::DeleteTimer(Timer *timer)
+{
+  alive_timers_.erase(timer->sequence());
+  delete timer;
+}
+
 bool TimerQueue::Emplace(Timer *timer)
 {
   auto earliest_timer_iter = timers_.begin();
@@ -268,18 +285,18 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
   Timer *next_expire{nullptr};
 
   for (auto &timer : expireds) {
-    if (timer->repeat()) {
+    const bool canceled =
+        canceling_timers_.find({timer, timer->sequence()}) !=
+        canceling_timers_.end();
+
+    if (timer->repeat() && !canceled) {
       // If timer is repeat, we should restart it
       // but if it in such case as self-cancel,
       // we shouldn't restart it and do nothing.
-      if (canceling_timers_.find({timer, timer->sequence()}) ==
-          canceling_timers_.end())
-      {
-        timer->restart(now);
-        Emplace(timer);
-      }
+      timer->restart(now);
+      Emplace(timer);
     } else {
-      delete timer;
+      DeleteTimer(timer);
     }
   }
 
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 909db52..3c8875d 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -4,6 +4,7 @@
 #include "kanon/net/timer/itimer_queue_platform.h"
 
 #include <set>
+#include <unordered_map>
 #include <unordered_set>
 #include "kanon/util/ptr.h"
 #include "kanon/util/time_stamp.h"
@@ -97,6 +98,9 @@ class TimerQueue : public ITimerQueuePlatform {
   /** Helper of AddTimer() */
   bool Emplace(Timer *timer);
 
+  /** Delete a timer that is not in timers_ */
+  void DeleteTimer(Timer *timer);
+
   /** The read callback of timerfd */
   void ProcessAllExpiredTimers(TimeStamp recv_time);
 
@@ -186,6 +190,12 @@ class TimerQueue : public ITimerQueuePlatform {
     }
   };
 
+  /**
+   * All timers which are not deleted, including the ones that are expired and
+   * being processed. The TimerId of a deleted timer must not be dereferenced.
+   */
+  std::unordered_map<uint64_t, TimerPtr> alive_timers_;
+
   std::unordered_set<TimerEntry, TimerEntryHash>
       canceling_timers_; //!< Store the self-cancel timer to avoid reset
 };
-- 
2.43.0


From ab5577d79850f65e72f91885802489adb4660c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 081/167] fix: The hash of canceling timers must not depend on
 the current time

---
 kanon/linux/net/timer/timer_queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 3c8875d..1287fe3 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -185,8 +185,9 @@ class TimerQueue : public ITimerQueuePlatform {
   struct TimerEntryHash {
     KANON_INLINE uint64_t operator()(TimerEntry const &x) const KANON_NOEXCEPT
     {
-      return XXH64(&x.first, sizeof x.first, time(NULL)) ^
-             (XXH64(&x.second, sizeof x.second, time(NULL)) << 1);
+      // The seed must be same for the same key
+      return XXH64(&x.first, sizeof x.first, 0) ^
+             (XXH64(&x.second, sizeof x.second, 0) << 1);
     }
   };
 
-- 
2.43.0


From 5c5da30f289a5f3b87a89722ec06db33050915a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 082/167] fix: A timer canceled by the callback of another
 expired timer must not fire

---
 kanon/linux/net/timer/timer_queue.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 7a14ea2..365a80d 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -229,6 +229,13 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
   calling_timer_ = true;
 
   for (auto const &timer : expired_timers) {
+    // Canceled by the callback of the other timer that is expired also
+    if (canceling_timers_.find({timer, timer->sequence()}) !=
+        canceling_timers_.end())
+    {
+      continue;
+    }
+
     try {
       timer->run();
     }
-- 
2.43.0


From 389de8436757c6941e5a0b4685e957b4e29378ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 083/167] fix: The dtor of a timer callback may cancel another
 expired timer

---
 kanon/linux/net/timer/timer_queue.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 365a80d..68dd5f1 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -252,8 +252,9 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
     }
   }
 
-  calling_timer_ = false;
+  // The destructor of a callback may cancel the other expired timers also
   ResetTimers(expired_timers, now);
+  calling_timer_ = false;
 }
 
 auto TimerQueue::GetExpiredTimers(TimeStamp time) -> TimerVector
-- 
2.43.0


From af53ca9184fb409fdb186b5676637f82cf2ef513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 084/167] fix: A connection must be closed once only

---
 kanon/net/connection/connection_base.cc | 10 +++++++---
 kanon/net/connection/connection_base.h  |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 103e481..b63c5c8 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -344,6 +344,9 @@ void ConnectionBase<D>::HandleClose()
   loop_->AssertInThread();
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
+  // Closed already,
+  // e.g. ForceClose() is called many times or peer closes at the same time
+  if (state_ == kDisconnected) return;
   assert(state_ == kConnected || state_ == kDisconnecting);
   state_ = kDisconnected;
 
@@ -389,9 +392,10 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
   // If connection is not established or
   // disconnected,
   // ForceClose() do nothing.
-  if (state_ == kConnected || state_ == kDisconnecting) {
-    state_ = kDisconnecting;
-
+  State state = kConnected;
+  if (state_.compare_exchange_strong(state, kDisconnecting) ||
+      state == kDisconnecting)
+  {
     loop_->RunInLoop(
         std::bind(&ConnectionBase<D>::HandleClose, this->shared_from_this()));
   }
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index e25cac7..888afa7 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -1,6 +1,7 @@
 #ifndef KANON_NET_CONNECTION_BASE_H
 #define KANON_NET_CONNECTION_BASE_H
 
+#include <atomic>
 #include <memory>
 
 #include "kanon/util/noncopyable.h"
@@ -302,7 +303,7 @@ class ConnectionBase
    * about a specific connnection(So, it named context)
    */
   RawAny context_;
-  State state_; //!< Internal useage
+  std::atomic<State> state_; //!< Internal useage(also read by other threads)
 
 #ifdef KANON_ON_WIN
  public:
-- 
2.43.0


From cdc35149135026115eaea6efd1c3aa39e7b52667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 085/167] fix: A closed connection must not deliver message

---
 kanon/linux/net/connection/connection_base.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0435bc0..59ae379 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -6,6 +6,10 @@ template <typename D>
 void ConnectionBase<D>::HandleRead(TimeStamp recv_time)
 {
   loop_->AssertInThread();
+
+  // Closed by the other callback of the same event
+  if (state_ == kDisconnected) return;
+
   if (loop_->IsEdgeTriggerMode()) {
     HandleEtRead(recv_time);
   } else {
-- 
2.43.0


From 20bdeb55d66cecfe84d454c4b4a85693f0f0b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 086/167] fix: ConnectionDestroyed() must accept a
 disconnecting connection

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index b63c5c8..3a8dce6 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -77,7 +77,7 @@ void ConnectionBase<D>::ConnectionDestroyed()
                   << " destoryed";
   // This may be called by TcpServer dtor or close_callback_(see TcpServer)
   // if close_callback_ has be called, just remove channel;
-  if (state_ == kConnected) {
+  if (state_ == kConnected || state_ == kDisconnecting) {
     channel_->DisableAll();
     state_ = kDisconnected;
 
-- 
2.43.0


From a1032ccf362e8ed7afdeea6429763ae3aad5fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 087/167] fix: The message must be stored if the socket is not
 writable

---
 kanon/linux/net/connection/connection_base.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 59ae379..a8f828d 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -261,9 +261,12 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN) // EWOULDBLOCK
+      if (errno != EAGAIN && errno != EINTR) { // EWOULDBLOCK
         LOG_SYSERROR_KANON << "write unexpected error occurred";
-      return;
+        return;
+      }
+      // Nothing is written, store entire message
+      n = 0;
     }
   }
 
-- 
2.43.0


From f802e40f7fbf5d685ef7b5bf0236b3631dcad2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 088/167] fix: The contents of buffer must be sent even though
 the socket is not writable

---
 .../linux/net/connection/connection_base.inl  | 49 +------------------
 1 file changed, 1 insertion(+), 48 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index a8f828d..6abe41a 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -51,54 +51,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
     return;
   }
 
-  // if (!channel_->IsWriting() && !output_buffer_.HasReadable()) {
-  if (!output_buffer_.HasReadable()) {
-    // output_buffer_.swap(buffer);
-
-    // auto n = sock::Write(
-    //   channel_->GetFd(),
-    //   output_buffer_.ToStringView().data(),
-    //   output_buffer_.GetReadableSize());
-
-    output_buffer_.Append(buffer.ToStringView());
-    int saved_errno = 0;
-    auto n = ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
-
-    if (saved_errno && saved_errno != EAGAIN) {
-      LOG_SYSERROR_KANON << "write unexpected error occurred";
-    }
-
-    if (n > 0) {
-      LOG_TRACE_KANON << "Write length = " << n;
-      output_buffer_.AdvanceRead(n);
-      if (output_buffer_.HasReadable()) {
-#ifdef PRINT_REMAIN
-        LOG_TRACE_KANON << "Remaining length = "
-                        << output_buffer_.GetReadableSize();
-#endif
-
-        if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
-            high_water_mark_callback_)
-        {
-          loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                       this->shared_from_this(),
-                                       output_buffer_.GetReadableSize()));
-        }
-        channel_->EnableWriting();
-      } else {
-        if (write_complete_callback_) {
-          loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
-        }
-
-        if (channel_->IsWriting()) {
-          channel_->DisableWriting();
-        }
-      }
-    }
-  } else {
-    SendInLoop(buffer.ToStringView());
-  }
+  SendInLoop(buffer.ToStringView());
 }
 
 template <typename D>
-- 
2.43.0


From 8bb9a7e5813f119ad0c5c25336aecf608c212292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 089/167] fix: The chunk list must be sent after the pending
 message and entirely

---
 .../linux/net/connection/connection_base.inl  | 62 +++++++++++--------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 6abe41a..30f88b9 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -68,36 +68,26 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   //     "The Send() for ChunkList must be called when output_buffer_ is
   //     empty");
 
-  int saved_errno = 0;
-  auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
-
-  if (saved_errno && saved_errno != EAGAIN) {
-    LOG_SYSERROR_KANON << "write unexpected error occurred";
+  if (state_ != kConnected) {
+    LOG_WARN_KANON << "This connection[" << name_
+                   << "] is not connected, don't send any message";
+    return;
   }
 
-  if (write_n > 0) {
+  // Can't write directly before the pending message is written
+  if (!output_buffer_.HasReadable()) {
+    int saved_errno = 0;
+    auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
+
+    if (saved_errno && saved_errno != EAGAIN) {
+      LOG_SYSERROR_KANON << "write unexpected error occurred";
+      return;
+    }
+
     LOG_DEBUG_KANON << "Write " << write_n << " bytes";
     buffer.AdvanceRead(write_n);
 
-    if (buffer.HasReadable()) {
-      if (high_water_mark_callback_ &&
-          buffer.GetReadableSize() > high_water_mark_)
-      {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     high_water_mark_));
-      }
-
-#if 1
-      if (output_buffer_.HasReadable()) {
-        output_buffer_.AppendChunkList(&buffer);
-      } else {
-        output_buffer_.swap(buffer);
-      }
-#else
-      output_buffer_.swap(buffer);
-#endif
-    } else {
+    if (!buffer.HasReadable()) {
       LOG_DEBUG_KANON << "Write complete";
       if (write_complete_callback_) {
         loop_->QueueToLoop(std::bind(&ConnectionBase::CallWriteCompleteCallback,
@@ -107,6 +97,28 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
       if (channel_->IsWriting()) {
         channel_->DisableWriting();
       }
+
+      return;
+    }
+  }
+
+  if (buffer.HasReadable()) {
+    if (high_water_mark_callback_) {
+      auto readable_len = output_buffer_.GetReadableSize();
+      auto remaining = buffer.GetReadableSize();
+
+      if (readable_len + remaining >= high_water_mark_ &&
+          readable_len < high_water_mark_)
+      {
+        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                     this->shared_from_this(),
+                                     readable_len + remaining));
+      }
+    }
+
+    output_buffer_.AppendChunkList(&buffer);
+    if (!channel_->IsWriting()) {
+      channel_->EnableWriting();
     }
   }
 }
-- 
2.43.0


From 6e0baf1165bd4e70deafb724bcb880b717a5c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 090/167] fix: Don't disable writing when there is pending
 message

---
 kanon/net/connection/connection_base.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 3a8dce6..a0e7fa3 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -263,10 +263,14 @@ void ConnectionBase<D>::HandleLtWrite()
 template <typename D>
 void ConnectionBase<D>::CallWriteCompleteCallback()
 {
+  // The connection is down already, or the callback is unset
+  if (state_ == kDisconnected || !write_complete_callback_) return;
+
   if (write_complete_callback_(this->shared_from_this())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
-    // The write_complete_callback_ maybe disable writing in the SendInLoop()
-    if (channel_->IsWriting()) {
+    // The write_complete_callback_ maybe disable writing in the SendInLoop(),
+    // or send message that is not written entirely
+    if (channel_->IsWriting() && !output_buffer_.HasReadable()) {
       channel_->DisableWriting();
     }
   } else {
-- 
2.43.0


From c5d0312288035ffa4a2fcaa5317865285180f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 091/167] fix: No write complete and high watermark callback
 after connection is down

---
 kanon/linux/net/connection/connection_base.inl | 15 ++++++++-------
 kanon/net/connection/connection_base.cc        |  8 ++++++++
 kanon/net/connection/connection_base.h         |  1 +
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 30f88b9..61179cb 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -110,9 +110,9 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
       if (readable_len + remaining >= high_water_mark_ &&
           readable_len < high_water_mark_)
       {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     readable_len + remaining));
+        loop_->QueueToLoop(
+            std::bind(&ConnectionBase::CallHighWaterMarkCallback,
+                      this->shared_from_this(), readable_len + remaining));
       }
     }
 
@@ -215,7 +215,8 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
       } else {
         if (write_complete_callback_) {
           loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
+              std::bind(&ConnectionBase::CallWriteCompleteCallback,
+                        this->shared_from_this()));
         }
 
         if (channel_->IsWriting()) {
@@ -246,9 +247,9 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
       if (readable_len + remaining >= high_water_mark_ &&
           readable_len < high_water_mark_)
       {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     readable_len + remaining));
+        loop_->QueueToLoop(
+            std::bind(&ConnectionBase::CallHighWaterMarkCallback,
+                      this->shared_from_this(), readable_len + remaining));
         // loop_->QueueToLoop([this, readable_len, remaining]() {
         //   high_water_mark_callback_(this->shared_from_this(), readable_len +
         //   remaining);
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index a0e7fa3..a983e5e 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -279,6 +279,14 @@ void ConnectionBase<D>::CallWriteCompleteCallback()
   }
 }
 
+template <typename D>
+void ConnectionBase<D>::CallHighWaterMarkCallback(size_t size)
+{
+  if (state_ == kDisconnected || !high_water_mark_callback_) return;
+
+  high_water_mark_callback_(this->shared_from_this(), size);
+}
+
 template <typename D>
 void ConnectionBase<D>::HandleEtWrite()
 {
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index 888afa7..d392bd8 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -238,6 +238,7 @@ class ConnectionBase
   void HandleClose();
 
   void CallWriteCompleteCallback();
+  void CallHighWaterMarkCallback(size_t size);
   void SendInLoop(void const *data, size_t len);
   void SendInLoop(StringView data);
   void SendInLoopForStr(std::string &data);
-- 
2.43.0


From 3a3155b3b116d39b8bd41ef4f19da18f2087b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 092/167] fix: ShutdownWrite() must flush the messages sent
 before

---
 .../linux/net/connection/connection_base.inl  |  6 +--
 kanon/net/connection/connection_base.cc       | 44 +++++++++++--------
 kanon/net/connection/connection_base.h        |  8 ++++
 3 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 61179cb..6fad04f 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -45,7 +45,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
   LOG_TRACE_KANON << "Connection: [" << name_
                   << "], fd = " << channel_->GetFd();
 
-  if (state_ != kConnected) {
+  if (IsDisconnected() || shutdown_write_) {
     LOG_WARN_KANON << "This connection[" << name_
                    << "] is not connected, don't send any message";
     return;
@@ -68,7 +68,7 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   //     "The Send() for ChunkList must be called when output_buffer_ is
   //     empty");
 
-  if (state_ != kConnected) {
+  if (IsDisconnected() || shutdown_write_) {
     LOG_WARN_KANON << "This connection[" << name_
                    << "] is not connected, don't send any message";
     return;
@@ -134,7 +134,7 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
   // Although Send() has checked state_ is kConnected
   // But connection also can be closed in the phase 2
   // when this is called in phase 3
-  if (state_ != kConnected) {
+  if (IsDisconnected() || shutdown_write_) {
     LOG_WARN_KANON << "This connection [" << name_
                    << "] is not connected, don't send any message";
     return;
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index a983e5e..a429e9e 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -25,6 +25,7 @@ ConnectionBase<D>::ConnectionBase(EventLoop *loop, std::string const &name,
   , channel_(new Channel(loop_, sockfd))
   , high_water_mark_{kDefaultHighWatermark}
   , state_{kConnecting}
+  , shutdown_write_{false}
 {
   // Pass raw pointer is safe here since
   // will disable all events when connection
@@ -250,11 +251,10 @@ void ConnectionBase<D>::HandleLtWrite()
         channel_->DisableWriting();
       }
 
-      // Disconnecting is set in ShutdownWrite(). Because there are some message
-      // need write(channel_->IsWriting()) to kernel space, delay the shutdown()
-      // to here
-      if (state_ == kDisconnecting) {
-        ShutdownWrite();
+      // Because there are some message need write(channel_->IsWriting()) to
+      // kernel space, delay the shutdown() to here
+      if (shutdown_write_) {
+        socket_->ShutdownWrite();
       }
     }
   }
@@ -333,7 +333,7 @@ void ConnectionBase<D>::HandleEtWrite()
                     this->shared_from_this()));
     }
 
-    if (state_ == kDisconnecting) {
+    if (shutdown_write_) {
       socket_->ShutdownWrite();
     }
   }
@@ -383,18 +383,26 @@ void ConnectionBase<D>::HandleClose()
 template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
-  if (state_ == kConnected) {
-    state_ = kDisconnecting;
-
-    // Pass raw pointer is safe.
-    loop_->RunInLoop([this]() {
-      // If channel is writing state, we need write all message to
-      // the buffer in kernel space, in case peer half-close can
-      // also receive message
-      if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
-        socket_->ShutdownWrite();
-      }
-    });
+  State state = kConnected;
+  if (state_.compare_exchange_strong(state, kDisconnecting)) {
+    // The messages sent by other threads before are still in the queue.
+    // Pass raw pointer is unsafe since the connection may be released before.
+    loop_->QueueToLoop(std::bind(&ConnectionBase<D>::ShutdownWriteInLoop,
+                                 this->shared_from_this()));
+  }
+}
+
+template <typename D>
+void ConnectionBase<D>::ShutdownWriteInLoop()
+{
+  if (state_ == kDisconnected) return;
+
+  shutdown_write_ = true;
+  // If there is pending message, we need write all message to
+  // the buffer in kernel space, in case peer half-close can
+  // also receive message
+  if (!output_buffer_.HasReadable()) {
+    socket_->ShutdownWrite();
   }
 }
 
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index d392bd8..af00fd3 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -237,6 +237,7 @@ class ConnectionBase
   void HandleError();
   void HandleClose();
 
+  void ShutdownWriteInLoop();
   void CallWriteCompleteCallback();
   void CallHighWaterMarkCallback(size_t size);
   void SendInLoop(void const *data, size_t len);
@@ -306,6 +307,13 @@ class ConnectionBase
   RawAny context_;
   std::atomic<State> state_; //!< Internal useage(also read by other threads)
 
+
+  /**
+   * ShutdownWrite() takes effect in the loop.
+   * Shutdown after the pending message is written
+   */
+  bool shutdown_write_;
+
 #ifdef KANON_ON_WIN
  public:
   std::vector<WSABUF> wsabufs;
-- 
2.43.0


From a7bbbc23bcbc9b1baf74d15772a03a037ea1d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 093/167] fix: Writable event without pending message must be
 harmless

---
 kanon/linux/net/connection/connection_base.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 6fad04f..997e835 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -26,12 +26,19 @@ void ConnectionBase<D>::HandleWrite()
   // 1. HandleClose() call DisableAll()
   // 2. ConnectionDestoryed() is called when connection is active
   //    (e.g. TcpServer desctroyed)
+  // 3. The writing is disabled by the read callback of the same event
   if (!channel_->IsWriting()) {
-    assert(state_ == kDisconnected);
     LOG_TRACE_KANON << "This Connection: " << name_ << " is down";
     return;
   }
 
+  // Nothing to write, e.g. the write complete callback return false but don't
+  // send any message
+  if (!output_buffer_.HasReadable()) {
+    channel_->DisableWriting();
+    return;
+  }
+
   if (loop_->IsEdgeTriggerMode()) {
     HandleEtWrite();
   } else {
-- 
2.43.0


From ce4869d71dda160e087d04de1d236bfee63b43f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 094/167] fix: HandleEtWrite() must not be a busy loop

---
 kanon/net/connection/connection_base.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index a429e9e..4372aaa 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -293,7 +293,7 @@ void ConnectionBase<D>::HandleEtWrite()
   // The event occurred only in the:
   // 1. buffer high-watermark to low-watermark(writable)
 
-  while (true) {
+  while (output_buffer_.HasReadable()) {
     // auto writen = sock::Write(
     // channel_->GetFd(),
     // output_buffer_.GetReadBegin(),
@@ -315,17 +315,13 @@ void ConnectionBase<D>::HandleEtWrite()
 
     output_buffer_.AdvanceRead(writen);
 
-    if (!output_buffer_.HasReadable() && saved_errno == EAGAIN) {
-      break;
-    }
+    // Not writable or error occurred
+    if (saved_errno) break;
   }
 
-  if (output_buffer_.HasReadable()) {
-    // LOG_TRACE_KANON << "Output Buffer remaining = " <<
-    // output_buffer_.GetReadableSize(); To write entire message, we need
-    // resigter write event again
-    channel_->EnableWriting();
-  } else {
+  // To write entire message, the next writable event will be notified, no need
+  // to resigter write event again
+  if (!output_buffer_.HasReadable()) {
     if (write_complete_callback_) {
       // No need to disable writing
       loop_->QueueToLoop(
-- 
2.43.0


From a2b7789c994eff9fc3150b7f9e9162dd5af2126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 095/167] fix: HandleEtRead() must not handle the errors and
 closed connection as message

---
 kanon/net/connection/connection_base.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 4372aaa..ab10ed2 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -153,19 +153,23 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
   // 4. The message length is equal to 0, it dicates that peer close this
   // connection
   //    then call HandleClose() since this is passive close
-  int saved_errno = 0;
-
-  for (;;) {
+  // The message callback may close the connection or disable reading
+  while (state_ != kDisconnected && channel_->IsReading()) {
+    int saved_errno = 0;
     auto readn =
         BufferReadFromFd(input_buffer_, channel_->GetFd(), saved_errno);
 
     if (saved_errno != 0) {
+      if (saved_errno == EINTR) continue;
+
       if (saved_errno != EAGAIN) {
+        errno = saved_errno;
         LOG_SYSERROR_KANON << "Read event handle error";
         HandleError();
-      } else {
-        break;
+        // There is no event notified any more
+        HandleClose();
       }
+      break;
     }
 
     LOG_DEBUG_KANON << "Read " << readn << " bytes from [Connection: " << name_
-- 
2.43.0


From 96de469ec6021e7bd445d7d40263f84ca2440181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 096/167] fix: Interrupted read is not an error

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index ab10ed2..af3f43c 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -109,7 +109,7 @@ void ConnectionBase<D>::HandleLtRead(TimeStamp recv_time)
   if (saved_errno != 0) {
     errno = saved_errno;
 
-    if (errno != EAGAIN) {
+    if (errno != EAGAIN && errno != EINTR) {
       LOG_SYSERROR_KANON << "Read event handle error";
       HandleError();
     }
-- 
2.43.0


From 347128bbc957d1e1e3f483534efdcbb967bfb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 097/167] fix: Reading can be disabled and enabled after
 ShutdownWrite()

---
 kanon/net/connection/connection_base.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index af3f43c..0ff1004 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -511,7 +511,7 @@ void ConnectionBase<D>::SendInLoop(StringView data)
 template <typename D>
 void ConnectionBase<D>::DisbaleRead()
 {
-  if (state_ == kConnected && channel_->IsReading()) {
+  if ((IsConnected() || IsDisconnecting()) && channel_->IsReading()) {
     channel_->DisableReading();
   }
 }
@@ -519,7 +519,7 @@ void ConnectionBase<D>::DisbaleRead()
 template <typename D>
 void ConnectionBase<D>::EnableRead()
 {
-  if (state_ == kConnected && !channel_->IsReading()) {
+  if ((IsConnected() || IsDisconnecting()) && !channel_->IsReading()) {
     channel_->EnableReading();
   }
 }
-- 
2.43.0


From 98e2818adf10a765dd319ea463fe40d8bbaf6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 098/167] fix: The messages sent before hangup must be
 delivered even though reading is disabled

---
 kanon/net/connection/connection_base.cc | 33 +++++++++++++++++++++++--
 kanon/net/connection/connection_base.h  |  1 +
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 0ff1004..bab7aab 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -34,7 +34,7 @@ ConnectionBase<D>::ConnectionBase(EventLoop *loop, std::string const &name,
   channel_->SetReadCallback(std::bind(&ConnectionBase::HandleRead, this, _1));
   channel_->SetWriteCallback(std::bind(&ConnectionBase::HandleWrite, this));
   channel_->SetErrorCallback(std::bind(&ConnectionBase::HandleError, this));
-  channel_->SetCloseCallback(std::bind(&ConnectionBase::HandleClose, this));
+  channel_->SetCloseCallback(std::bind(&ConnectionBase::HandleHangup, this));
 }
 
 template <typename D>
@@ -380,6 +380,35 @@ void ConnectionBase<D>::HandleClose()
   }
 }
 
+template <typename D>
+void ConnectionBase<D>::HandleHangup()
+{
+  loop_->AssertInThread();
+
+#ifdef KANON_ON_UNIX
+  // If reading is disabled, the messages that peer sent before hangup are not
+  // received yet
+  if (state_ != kDisconnected && !channel_->IsReading()) {
+    size_t total = 0;
+    for (;;) {
+      int saved_errno = 0;
+      auto n = BufferReadFromFd(input_buffer_, channel_->GetFd(), saved_errno);
+
+      if (saved_errno == EINTR) continue;
+      if (saved_errno != 0 || n == 0) break;
+      total += n;
+    }
+
+    if (total > 0 && message_callback_) {
+      message_callback_(this->shared_from_this(), input_buffer_,
+                        TimeStamp::Now());
+    }
+  }
+#endif
+
+  HandleClose();
+}
+
 template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
@@ -549,7 +578,7 @@ void ConnectionBase<D>::SetChannel(std::unique_ptr<Channel> ch)
   channel_->SetReadCallback(std::bind(&ConnectionBase::HandleRead, this, _1));
   channel_->SetWriteCallback(std::bind(&ConnectionBase::HandleWrite, this));
   channel_->SetErrorCallback(std::bind(&ConnectionBase::HandleError, this));
-  channel_->SetCloseCallback(std::bind(&ConnectionBase::HandleClose, this));
+  channel_->SetCloseCallback(std::bind(&ConnectionBase::HandleHangup, this));
 }
 #ifdef KANON_ON_WIN
 #  include "kanon/win/net/connection/connection_base.inl"
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index af00fd3..38f3d75 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -236,6 +236,7 @@ class ConnectionBase
 
   void HandleError();
   void HandleClose();
+  void HandleHangup();
 
   void ShutdownWriteInLoop();
   void CallWriteCompleteCallback();
-- 
2.43.0


From a301590b0a14c50673cacff9f447e0dba449692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 099/167] fix: Register write event again in edge trigger mode

---
 kanon/linux/net/connection/connection_base.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 997e835..54a3aee 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -124,7 +124,8 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
     }
 
     output_buffer_.AppendChunkList(&buffer);
-    if (!channel_->IsWriting()) {
+    // In edge trigger mode, the writable event may have been notified
+    if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
       channel_->EnableWriting();
     }
   }
@@ -266,7 +267,8 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
 
     LOG_TRACE_KANON << "Remaining content length = " << remaining;
     output_buffer_.Append(static_cast<char const *>(data) + n, remaining);
-    if (!channel_->IsWriting()) {
+    // In edge trigger mode, the writable event may have been notified
+    if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
       channel_->EnableWriting();
     }
   }
-- 
2.43.0


From 26d84cb726ea8c966eae680ace70034723800f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 100/167] fix: The state of connection must be changed in the
 loop only

---
 kanon/net/connection/connection_base.cc | 19 ++++++++++---------
 kanon/net/connection/connection_base.h  | 11 +++++++++++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index bab7aab..b26c371 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -26,6 +26,7 @@ ConnectionBase<D>::ConnectionBase(EventLoop *loop, std::string const &name,
   , high_water_mark_{kDefaultHighWatermark}
   , state_{kConnecting}
   , shutdown_write_{false}
+  , closing_{false}
 {
   // Pass raw pointer is safe here since
   // will disable all events when connection
@@ -412,8 +413,9 @@ void ConnectionBase<D>::HandleHangup()
 template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
-  State state = kConnected;
-  if (state_.compare_exchange_strong(state, kDisconnecting)) {
+  if (IsConnected() && !closing_.exchange(true)) {
+    if (loop_->IsLoopInThread()) state_ = kDisconnecting;
+
     // The messages sent by other threads before are still in the queue.
     // Pass raw pointer is unsafe since the connection may be released before.
     loop_->QueueToLoop(std::bind(&ConnectionBase<D>::ShutdownWriteInLoop,
@@ -426,6 +428,7 @@ void ConnectionBase<D>::ShutdownWriteInLoop()
 {
   if (state_ == kDisconnected) return;
 
+  state_ = kDisconnecting;
   shutdown_write_ = true;
   // If there is pending message, we need write all message to
   // the buffer in kernel space, in case peer half-close can
@@ -441,10 +444,8 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
   // If connection is not established or
   // disconnected,
   // ForceClose() do nothing.
-  State state = kConnected;
-  if (state_.compare_exchange_strong(state, kDisconnecting) ||
-      state == kDisconnecting)
-  {
+  if (IsConnected() || IsDisconnecting()) {
+    closing_ = true;
     loop_->RunInLoop(
         std::bind(&ConnectionBase<D>::HandleClose, this->shared_from_this()));
   }
@@ -453,7 +454,7 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
 template <typename D>
 void ConnectionBase<D>::Send(void const *data, size_t len)
 {
-  if (state_ == kConnected) {
+  if (IsSendable()) {
     if (loop_->IsLoopInThread()) {
       SendInLoop(data, len);
     } else {
@@ -486,7 +487,7 @@ void ConnectionBase<D>::Send(StringView data)
 template <typename D>
 void ConnectionBase<D>::Send(InputBuffer &buf)
 {
-  if (state_ == kConnected) {
+  if (IsSendable()) {
     if (loop_->IsLoopInThread()) {
       // No need to call swap() even even though output_buffer_ is empty.
       // We just use it in this loop, the remaining contents will cached
@@ -509,7 +510,7 @@ void ConnectionBase<D>::Send(InputBuffer &buf)
 template <typename D>
 void ConnectionBase<D>::Send(OutputBuffer &buffer)
 {
-  if (!IsConnected()) {
+  if (!IsSendable()) {
     LOG_TRACE_KANON << "Connection [" << name_ << "](fd = " << channel_->GetFd()
                     << ") is down\n"
                     << "state(" << State2String() << "), stop send";
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index 38f3d75..4b3e8c9 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -249,6 +249,8 @@ class ConnectionBase
 
   char const *State2String() const KANON_NOEXCEPT;
 
+  bool IsSendable() const KANON_NOEXCEPT { return IsConnected() && !closing_; }
+
   // OVERLAPPED overlapped_;
 
   EventLoop *loop_;
@@ -315,6 +317,15 @@ class ConnectionBase
    */
   bool shutdown_write_;
 
+  /**
+   * ShutdownWrite() or ForceClose() is called.
+   * Don't accept message any more.
+   *
+   * The other threads only set this, state_ is always changed in the loop.
+   * Otherwise, the connection may be thought down when it is up just now.
+   */
+  std::atomic<bool> closing_;
+
 #ifdef KANON_ON_WIN
  public:
   std::vector<WSABUF> wsabufs;
-- 
2.43.0


From 5c8dd49c7794c29474f65c889959385fd3cc65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 101/167] fix: errno must be kept for the caller of Accept()

---
 kanon/linux/net/sock_api.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/sock_api.cc b/kanon/linux/net/sock_api.cc
index 5fe07b3..ad8d36b 100644
--- a/kanon/linux/net/sock_api.cc
+++ b/kanon/linux/net/sock_api.cc
@@ -47,7 +47,8 @@ FdType sock::Accept(FdType fd, sockaddr_in6 *addr) KANON_NOEXCEPT
       ::accept4(fd, sock::to_sockaddr(addr), &socklen, O_NONBLOCK | O_CLOEXEC);
 #endif
   if (cli_sock < 0) {
-    switch (errno) {
+    auto saved_errno = errno;
+    switch (saved_errno) {
       case EAGAIN: // In linux, EAGAIN = EWOULDBLOCK
       case ECONNABORTED:
       case EINTR:
@@ -69,6 +70,8 @@ FdType sock::Accept(FdType fd, sockaddr_in6 *addr) KANON_NOEXCEPT
         LOG_SYSFATAL << "accept() unknown error occurred";
         break;
     }
+    // The logging may change it but the caller check it
+    errno = saved_errno;
   }
   return cli_sock;
 }
-- 
2.43.0


From e0566ce56ca0e303030e3c9b361ae119de29bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 102/167] fix: Accept all clients in edge trigger mode

---
 kanon/net/acceptor.cc | 61 +++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 7aa0192..fb5030c 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -26,36 +26,47 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
     KANON_UNUSED(stamp);
     loop_->AssertInThread();
 
-    InetAddr cli_addr;
-    auto cli_fd = socket_.Accpet(cli_addr);
+    // In edge trigger mode, the clients that arrive together are notified once
+    // only
+    bool more;
+    do {
+      more = true;
 
-    if (cli_fd >= 0) {
-      if (new_connection_callback_) {
-        // dispatching connection to IO thread
-        new_connection_callback_(cli_fd, cli_addr);
+      InetAddr cli_addr;
+      auto cli_fd = socket_.Accpet(cli_addr);
+
+      if (cli_fd >= 0) {
+        if (new_connection_callback_) {
+          // dispatching connection to IO thread
+          new_connection_callback_(cli_fd, cli_addr);
+        } else {
+          sock::Close(cli_fd);
+        }
       } else {
-        sock::Close(cli_fd);
-      }
-    } else {
-      // if process limited open fd has reached,
-      // os also accept this fd and put to wait queue
-      // since we take level trigger policy,
-      // so it will cause busy loop
-      // so we should use dummy fd to accept and close it
-      if (errno == EMFILE) {
-// first close dummy fd, leave a space for fd in wait queue
+        // The next client may be still there
+        more = errno == EINTR || errno == ECONNABORTED;
+
+        // if process limited open fd has reached,
+        // os also accept this fd and put to wait queue
+        // since we take level trigger policy,
+        // so it will cause busy loop
+        // so we should use dummy fd to accept and close it
+        if (errno == EMFILE) {
+  // first close dummy fd, leave a space for fd in wait queue
 #ifdef KANON_ON_UNIX
-        ::close(dummyfd_);
-        // accept the fd
-        dummyfd_ = ::accept(socket_.GetFd(), NULL, NULL);
-        ::close(dummyfd_);
-        // create new dummy fd to use after
-        dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
+          ::close(dummyfd_);
+          // accept the fd
+          dummyfd_ = ::accept(socket_.GetFd(), NULL, NULL);
+          more = dummyfd_ >= 0;
+          ::close(dummyfd_);
+          // create new dummy fd to use after
+          dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
 #endif
-      }
+        }
 
-      // We don't handle error since sock::Accept() has handled
-    }
+        // We don't handle error since sock::Accept() has handled
+      }
+    } while (more && loop_->IsEdgeTriggerMode());
   });
 
   // Can't call Channel::EnableReading() in the ctor
-- 
2.43.0


From 20aae5c973ee4816951a24485017a1f0e6265d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 103/167] fix: StartRun() must start the server once only

---
 kanon/net/tcp_server.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6324dfc..2afdce7 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -193,7 +193,7 @@ void TcpServer::StartRun() KANON_NOEXCEPT
   // If the other thread also call this function,
   // may be call this more than once.
   // EventLoopPool::StartRun() can only be called once
-  if (!start_once_) {
+  if (!start_once_.exchange(true)) {
     // start IO loop
     loop_->RunInLoop([this]() {
       // Boot the loop pool in the binded loop
@@ -213,7 +213,6 @@ void TcpServer::StartRun() KANON_NOEXCEPT
       pool_->StartRun(init_cb_);
       LOG_INFO_KANON << name_ << " is listening in " << ip_port_;
       acceptor_->Listen();
-      start_once_ = true;
     });
   }
 }
-- 
2.43.0


From ad22ae397ca90df9779f3f1a0a699c1ff0aeeb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 104/167] fix: The callback of ApplyAllPeers() may close the
 connection

---
 kanon/net/tcp_server.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 2afdce7..f9909e5 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -13,6 +13,7 @@
 
 #include <signal.h>
 #include <atomic>
+#include <vector>
 
 using namespace kanon;
 
@@ -221,8 +222,18 @@ bool TcpServer::IsRunning() KANON_NOEXCEPT { return acceptor_->Listening(); }
 
 void TcpServer::ApplyAllPeers(ConnApplyCb cb)
 {
-  MutexGuard gaurd(lock_conn_);
-  for (auto &name_conn : connections_) {
-    cb(name_conn.second);
+  // The callback may close the connection which is removed from connections_
+  // then
+  std::vector<TcpConnectionPtr> conns;
+  {
+    MutexGuard gaurd(lock_conn_);
+    conns.reserve(connections_.size());
+    for (auto &name_conn : connections_) {
+      conns.push_back(name_conn.second);
+    }
+  }
+
+  for (auto &conn : conns) {
+    cb(conn);
   }
 }
-- 
2.43.0


From 161be4cecaa71e4cf52d7971490b95961bed8ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 105/167] fix: The IO loops must not use the destroyed server

---
 kanon/net/tcp_server.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index f9909e5..df2baa4 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -142,7 +142,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                             << connections_.size();
           }
 
-          assert(n == 1);
+          // The server is being destroyed, the dtor does it
+          if (n == 0) return;
 
           // !Must call QueueToLoop() here,
           // we can't destroy the channel_ in the handling events phase,
@@ -173,8 +174,14 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
 TcpServer::~TcpServer() KANON_NOEXCEPT
 {
-  //
-  for (auto &conn_pair : connections_) {
+  // The IO loops may remove connection at the same time
+  ConnectionMap connections;
+  {
+    MutexGuard guard(lock_conn_);
+    connections.swap(connections_);
+  }
+
+  for (auto &conn_pair : connections) {
     auto conn = conn_pair.second;
     conn_pair.second.reset();
 
@@ -183,6 +190,9 @@ TcpServer::~TcpServer() KANON_NOEXCEPT
       conn->ConnectionDestroyed();
     });
   }
+
+  // The callbacks called in the IO loops use the members, wait the loops exit
+  pool_.reset();
 }
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
-- 
2.43.0


From 18646d1c1321a5bc51d3e6af94ec6f629defb828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 106/167] fix: The pool of connections must be thread-safe and
 outlive the connections

---
 kanon/net/tcp_server.cc | 66 ++++++++++++++++++++++++++++++++++++-----
 kanon/net/tcp_server.h  | 18 +++++++++--
 2 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index df2baa4..b2d131b 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -9,10 +9,9 @@
 #include "kanon/net/event_loop_pool.h"
 #include "kanon/net/acceptor.h"
 
-#include "kanon/mem/object_pool_allocator.h"
-
 #include <signal.h>
 #include <atomic>
+#include <new>
 #include <vector>
 
 using namespace kanon;
@@ -57,6 +56,55 @@ KANON_INLINE void SigTermHandler(int signo) KANON_NOEXCEPT
   exit(1);
 }
 
+/** Each connection shares the ownership of pool */
+template <typename T>
+class TcpServer::ConnectionAllocator {
+ public:
+  using value_type = T;
+
+  explicit ConnectionAllocator(std::shared_ptr<ConnectionPool> pool)
+    : pool_(std::move(pool))
+  {
+  }
+
+  template <typename U>
+  ConnectionAllocator(ConnectionAllocator<U> const &rhs)
+    : pool_(rhs.pool_)
+  {
+  }
+
+  T *allocate(size_t n)
+  {
+    KANON_UNUSED(n);
+    assert(n == 1);
+    MutexGuard guard(pool_->lock);
+    auto ptr = pool_->pool.Malloc(sizeof(T));
+    if (!ptr) throw std::bad_alloc();
+    return static_cast<T *>(ptr);
+  }
+
+  void deallocate(T *ptr, size_t n) KANON_NOEXCEPT
+  {
+    KANON_UNUSED(n);
+    MutexGuard guard(pool_->lock);
+    pool_->pool.Free(ptr);
+  }
+
+  template <typename U>
+  bool operator==(ConnectionAllocator<U> const &rhs) const KANON_NOEXCEPT
+  {
+    return pool_ == rhs.pool_;
+  }
+
+  template <typename U>
+  bool operator!=(ConnectionAllocator<U> const &rhs) const KANON_NOEXCEPT
+  {
+    return pool_ != rhs.pool_;
+  }
+
+  std::shared_ptr<ConnectionPool> pool_;
+};
+
 TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                      StringArg name, bool reuseport)
   : loop_{loop}
@@ -69,7 +117,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                                             static_cast<char const *>(name))}
   , start_once_{false}
   , enable_pool_{false}
-  , conn_pool_{10}
+  , conn_pool_{std::make_shared<ConnectionPool>()}
 {
   g_loop = loop_;
   ::signal(SIGINT, &SigIntHandler);
@@ -106,9 +154,13 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
       conn = TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock, local_addr, cli_addr);  
     }
 #else
-        LOG_TRACE_KANON << "Pool block num = " << conn_pool_.GetBlockNum();
-        LOG_TRACE_KANON << "Pool usage = "
-                        << conn_pool_.GetUsage(sizeof(TcpConnection));
+        {
+          MutexGuard guard(conn_pool_->lock);
+          LOG_TRACE_KANON << "Pool block num = "
+                          << conn_pool_->pool.GetBlockNum();
+          LOG_TRACE_KANON << "Pool usage = "
+                          << conn_pool_->pool.GetUsage(sizeof(TcpConnection));
+        }
         LOG_TRACE_KANON << "The number of alive connections: "
                         << connections_.size();
 
@@ -116,7 +168,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
             enable_pool_
                 ? TcpConnection::NewTcpConnection(
                       io_loop, conn_name, cli_sock, local_addr, cli_addr,
-                      ObjectPoolAllocator<void>(conn_pool_))
+                      ConnectionAllocator<TcpConnection>(conn_pool_))
                 : TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock,
                                                   local_addr, cli_addr);
 #endif
diff --git a/kanon/net/tcp_server.h b/kanon/net/tcp_server.h
index 08704b8..01e6534 100644
--- a/kanon/net/tcp_server.h
+++ b/kanon/net/tcp_server.h
@@ -6,6 +6,7 @@
 #  include <winsock2.h>
 #endif
 
+#include <memory>
 #include <unordered_map>
 
 #include "kanon/util/noncopyable.h"
@@ -52,6 +53,18 @@ class EventLoopPool;
 class TcpServer : noncopyable {
   using ThreadInitCallback = EventLoopThread::ThreadInitCallback;
 
+  /**
+   * The connections are allocated in the listening loop but freed in the IO
+   * loops, and the user can keep them even though the server is destroyed.
+   */
+  struct ConnectionPool {
+    MutexLock lock;
+    FixedChunkMemoryPool pool{10};
+  };
+
+  template <typename T>
+  class ConnectionAllocator;
+
   using ConnectionMap =
       std::unordered_map<std::string, kanon::TcpConnectionPtr>;
 
@@ -123,7 +136,8 @@ class TcpServer : noncopyable {
 
   void SetChunkPerBlock(size_t n) KANON_NOEXCEPT
   {
-    conn_pool_.SetChunkPerBlock(n);
+    MutexGuard guard(conn_pool_->lock);
+    conn_pool_->pool.SetChunkPerBlock(n);
   }
 
   //!@}
@@ -230,7 +244,7 @@ class TcpServer : noncopyable {
    * Fixed chunk memory pool.
    * The chunk size is sizeof(TcpConnection).
    */
-  FixedChunkMemoryPool conn_pool_;
+  std::shared_ptr<ConnectionPool> conn_pool_;
 };
 
 //!@}
-- 
2.43.0


From ddb37aa3f1d681fe96ea3145928b1f9ca5bc7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 107/167] fix: The new socket must be closed if the client has
 been destroyed

---
 kanon/net/tcp_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 89a5e61..6f5a715 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -110,7 +110,11 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   /* Avoid reference cycle */
   auto cli = wcli.lock();
 
-  if (!cli || cli->conn_) return;
+  if (!cli || cli->conn_) {
+    // No connection manages it
+    sock::Close(sockfd);
+    return;
+  }
 
   LOG_DEBUG_KANON << "cli sc = " << cli.use_count();
 
-- 
2.43.0


From 317506189dac86d441f518e50f55ab30803aa0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 108/167] fix: The connection must be removed from loop even
 though the client has been destroyed

---
 kanon/net/tcp_client.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 6f5a715..bb916f4 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -178,12 +178,20 @@ TcpClientPtr kanon::NewTcpClient(EventLoop *loop, InetAddr const &serv_addr,
 void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
                                        TcpConnectionPtr const &conn)
 {
+  conn->GetLoop()->AssertInThread();
+
+  // ! In event handling phase, don't remove channel(disable is allowed)
+  // ! conn must be copied(\see TcoConnection::HandleClose())
+  // The channel must be removed even though the client has been destroyed
+  conn->GetLoop()->QueueToLoop([conn]() {
+    conn->ConnectionDestroyed();
+  });
+
   auto cli = wp_cli.lock();
   if (!cli) {
     return;
   }
 
-  cli->loop_->AssertInThread();
   // passive close connection
   assert(conn == cli->conn_);
   assert(conn->GetLoop() == cli->loop_);
@@ -195,12 +203,6 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
     LOG_INFO_KANON << conn->GetName() << " has removed";
   }
 
-  // ! In event handling phase, don't remove channel(disable is allowed)
-  // ! conn must be copied(\see TcoConnection::HandleClose())
-  cli->loop_->QueueToLoop([conn]() {
-    conn->ConnectionDestroyed();
-  });
-
   // If user does not call Disconnect() and
   // support restart when passive close occurred
   if (cli->retry_) {
-- 
2.43.0


From e243d9ab795b5fd45b80b11cb88d1ae2d8dbcef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 109/167] fix: The connection must be closed if the client is
 destroyed in its callback

---
 kanon/net/tcp_client.cc | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index bb916f4..c007ac8 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -34,6 +34,28 @@ InetAddr const &TcpClient::GetServerAddr() const KANON_NOEXCEPT
   return connector_->GetServerAddr();
 }
 
+// Called in the loop after the client is destroyed
+static void ReleaseConnection(TcpConnectionPtr const &conn)
+{
+  if (conn->IsDisconnected()) return;
+
+  if (conn.use_count() == 1) {
+    conn->ForceClose();
+    return;
+  }
+
+  // The user still holds the connection but may release it without closing,
+  // it must be alive until it is closed
+  conn->SetCloseCallback([conn](TcpConnectionPtr const &) {
+    auto closed_conn = conn;
+    conn->GetLoop()->QueueToLoop([closed_conn]() {
+      closed_conn->ConnectionDestroyed();
+      // Break the reference cycle
+      closed_conn->SetCloseCallback(nullptr);
+    });
+  });
+}
+
 TcpClient::~TcpClient() KANON_NOEXCEPT
 {
   LOG_TRACE_KANON << "TcpClient-[" << name_ << "]"
@@ -65,6 +87,14 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
     // may be other thread using it
     if (is_unique) {
       conn->ForceClose();
+    } else {
+      // The duplicates may be just held by the loop, e.g. the client is
+      // destroyed in the callback of the connection. Check it again when the
+      // current callbacks have been released.
+      auto loop = loop_;
+      loop->QueueToLoop([loop, conn]() {
+        loop->QueueToLoop(std::bind(&ReleaseConnection, conn));
+      });
     }
   } else {
     // Disable the connector
-- 
2.43.0


From 5d3b50a59e8750ef8b16ec57333841598ba8e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 110/167] fix: The client can connect again after the
 connection is closed

---
 kanon/net/connector.cc  | 10 ++++++++++
 kanon/net/connector.h   |  6 ++++++
 kanon/net/tcp_client.cc |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index a6c5d94..48aabb1 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -83,6 +83,16 @@ void Connector::Restrat()
   });
 }
 
+void Connector::Reset()
+{
+  loop_->AssertInThread();
+
+  if (state_ == State::kConnected) {
+    retry_interval_ = INIT_RETRY_INTERVAL;
+    SetState(State::kDisconnected);
+  }
+}
+
 void Connector::RestartInLoop()
 {
   loop_->AssertInThread();
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index d27c101..3be8408 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -92,6 +92,12 @@ class KANON_NET_NO_API Connector
    */
   void Restrat();
 
+  /**
+   * \brief The connection is closed, StartRun() can connect to peer again
+   * \note Must be called in loop
+   */
+  void Reset();
+
   void SetNewConnectionCallback(NewConnectionCallback cb) KANON_NOEXCEPT
   {
     new_connection_callback_ = std::move(cb);
diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index c007ac8..bd5a90c 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -237,5 +237,7 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
   // support restart when passive close occurred
   if (cli->retry_) {
     cli->connector_->Restrat();
+  } else {
+    cli->connector_->Reset();
   }
 }
-- 
2.43.0


From b1dc1354fde5ab9835e80ac298a47107b14c0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 111/167] fix: Disconnect() must not be lost when the
 connection is being established

---
 kanon/net/tcp_client.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index bd5a90c..e975978 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -110,7 +110,15 @@ void TcpClient::Disconnect()
   // FIXME use weak callback?
   MutexGuard guard{mutex_};
   if (conn_) {
-    conn_->ShutdownWrite();
+    if (conn_->IsConnecting()) {
+      // The loop is establishing it just now
+      auto conn = conn_;
+      loop_->QueueToLoop([conn]() {
+        conn->ShutdownWrite();
+      });
+    } else {
+      conn_->ShutdownWrite();
+    }
   }
 }
 
-- 
2.43.0


From a3ca6e61a463c57dc533ea85c271a405c4596d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 112/167] fix: The size of connections must be read with lock

---
 kanon/net/tcp_server.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index b2d131b..fe59bbb 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -161,9 +161,6 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
           LOG_TRACE_KANON << "Pool usage = "
                           << conn_pool_->pool.GetUsage(sizeof(TcpConnection));
         }
-        LOG_TRACE_KANON << "The number of alive connections: "
-                        << connections_.size();
-
         auto conn =
             enable_pool_
                 ? TcpConnection::NewTcpConnection(
@@ -175,6 +172,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
         {
           MutexGuard guard(lock_conn_);
+          LOG_TRACE_KANON << "The number of alive connections: "
+                          << connections_.size();
           connections_[conn_name] = conn;
         }
 
-- 
2.43.0


From 688ad033a709e161b3bb859d5ed3cc0f5f7e38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 113/167] fix: The last reference to the connection must be
 released in its loop

---
 kanon/net/tcp_client.cc | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index e975978..d578ae5 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -56,28 +56,24 @@ static void ReleaseConnection(TcpConnectionPtr const &conn)
   });
 }
 
+static void DelayReleaseConnection(EventLoop *loop,
+                                   TcpConnectionPtr const &conn)
+{
+  loop->QueueToLoop(std::bind(&ReleaseConnection, conn));
+}
+
 TcpClient::~TcpClient() KANON_NOEXCEPT
 {
   LOG_TRACE_KANON << "TcpClient-[" << name_ << "]"
                   << " is destructed";
 
-  bool is_unique = false;
   TcpConnectionPtr conn;
   {
     MutexGuard guard{mutex_};
-
-    is_unique = (conn_.use_count() == 1); // not atomic
-
-    // To write or read conn_ is not thread-safe,
-    // we can copy it first, for the duplication,
-    // it is thread-safe.
-    // Because conn_ if is not released, conn also.
-    // In the following operations, it is also alive
-    // since ref count is not 0(i.e. pinned). Otherwise,
-    // conn is released. we can't access it.
-    conn = conn_;
+    conn.swap(conn_);
   }
 
+  const bool is_unique = (conn.use_count() == 1); // not atomic
   LOG_INFO << "is_unique: " << is_unique;
 
   // Has established new connection
@@ -85,16 +81,17 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
     assert(conn->GetLoop() == loop_);
     // Should not use old close callback
     // may be other thread using it
-    if (is_unique) {
+    if (is_unique && loop_->IsLoopInThread()) {
       conn->ForceClose();
     } else {
       // The duplicates may be just held by the loop, e.g. the client is
       // destroyed in the callback of the connection. Check it again when the
       // current callbacks have been released.
-      auto loop = loop_;
-      loop->QueueToLoop([loop, conn]() {
-        loop->QueueToLoop(std::bind(&ReleaseConnection, conn));
-      });
+      //
+      // The loop may be handling the event of the connection if this is called
+      // by other thread, then the last duplicate must be released by the loop.
+      loop_->QueueToLoop(
+          std::bind(&DelayReleaseConnection, loop_, std::move(conn)));
     }
   } else {
     // Disable the connector
-- 
2.43.0


From d9e2c308d38a3f84be397bc26cdc22f5f484a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 114/167] fix: The unused fields of address must be zero

---
 kanon/net/inet_addr.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 37c50c4..1b79586 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -33,6 +33,7 @@ static_assert(sizeof(InetAddr) == sizeof(struct sockaddr_in6),
               "InetAddr size should equal to sockaddr_in6");
 
 InetAddr::InetAddr(Port port, bool loopback, bool v6)
+  : addr6_()
 {
   if (v6) {
     addr6_.sin6_port = sock::ToNetworkByteOrder16(port);
@@ -47,6 +48,7 @@ InetAddr::InetAddr(Port port, bool loopback, bool v6)
 }
 
 InetAddr::InetAddr(StringView ip, Port port)
+  : addr6_()
 {
   if (ip.find('.') != StringView::npos) {
     sock::FromIpPort(ip.data(), port, addr_);
@@ -58,6 +60,7 @@ InetAddr::InetAddr(StringView ip, Port port)
 }
 
 InetAddr::InetAddr(StringView addr)
+  : addr6_()
 {
 #if 0
   // Address format:
@@ -163,6 +166,7 @@ InetAddr::InetAddr(StringView addr)
 }
 
 InetAddr::InetAddr(StringArg hostname, StringArg service)
+  : addr6_()
 {
   const auto addrs = Resolve(hostname, service, false);
 
-- 
2.43.0


From 4bc2693e9b09b82af2e965a07517e1df5cdec49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 115/167] fix: The ip may be not null-terminated, IPv4-mapped
 or invalid

---
 kanon/net/inet_addr.cc | 16 ++++++++++------
 kanon/net/sock_api.h   | 13 +++++--------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 1b79586..864435e 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -50,12 +50,16 @@ InetAddr::InetAddr(Port port, bool loopback, bool v6)
 InetAddr::InetAddr(StringView ip, Port port)
   : addr6_()
 {
-  if (ip.find('.') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr_);
-  } else if (ip.find(':') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr6_);
-  } else {
-    throw InetAddr("This is invalid ip argument");
+  // ip may be not null-terminated
+  auto const ip_str = ip.ToString();
+  // Ipv6 address also can hold dot, e.g. ::ffff:127.0.0.1
+  const bool ok = ip.find(':') != StringView::npos
+                      ? sock::FromIpPort(ip_str, port, addr6_)
+                      : sock::FromIpPort(ip_str, port, addr_);
+
+  // inet_pton() ignores the characters after null
+  if (!ok || ip_str.find('\0') != std::string::npos) {
+    throw InetAddrException("This is invalid ip argument");
   }
 }
 
diff --git a/kanon/net/sock_api.h b/kanon/net/sock_api.h
index b6dd4ef..55fccc8 100644
--- a/kanon/net/sock_api.h
+++ b/kanon/net/sock_api.h
@@ -77,26 +77,23 @@ to_sockaddr(S *addr) KANON_NOEXCEPT
 KANON_NET_NO_API void ToIpPort(char *buf, size_t size, sockaddr const *addr);
 KANON_NET_NO_API void ToIp(char *buf, size_t size, sockaddr const *addr);
 
-KANON_INLINE void FromIpPort(StringArg ip, uint16_t port,
+// \return false if ip is not a valid presentation
+KANON_INLINE bool FromIpPort(StringArg ip, uint16_t port,
                              sockaddr_in &addr) KANON_NOEXCEPT
 {
   addr.sin_family = AF_INET;
   addr.sin_port = sock::ToNetworkByteOrder16(port);
 
-  if (!::inet_pton(addr.sin_family, ip, &addr.sin_addr)) {
-    LOG_SYSFATAL << "fail to convert ip presentation to numeric";
-  }
+  return ::inet_pton(addr.sin_family, ip, &addr.sin_addr) == 1;
 }
 
-KANON_INLINE void FromIpPort(StringArg ip, uint16_t port,
+KANON_INLINE bool FromIpPort(StringArg ip, uint16_t port,
                              sockaddr_in6 &addr) KANON_NOEXCEPT
 {
   addr.sin6_family = AF_INET6;
   addr.sin6_port = sock::ToNetworkByteOrder16(port);
 
-  if (!::inet_pton(addr.sin6_family, ip, &addr.sin6_addr)) {
-    LOG_SYSFATAL << "fail to convert ip presentation to numeric(ipv6)";
-  }
+  return ::inet_pton(addr.sin6_family, ip, &addr.sin6_addr) == 1;
 }
 
 KANON_NET_NO_API void SetNonBlockAndCloExec(FdType fd) KANON_NOEXCEPT;
-- 
2.43.0


From 93999a22898db0107b4ea89de5df52bf4f98cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 116/167] fix: The form of address string must be checked

---
 kanon/net/inet_addr.cc | 47 ++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 864435e..52d4574 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -63,6 +63,20 @@ InetAddr::InetAddr(StringView ip, Port port)
   }
 }
 
+// A port number is 16bit decimal
+static optional<InetAddr::Port> ParsePort(StringView port) KANON_NOEXCEPT
+{
+  if (port.empty()) return make_null_optional<InetAddr::Port>();
+
+  uint32_t ret = 0;
+  for (auto c : port) {
+    if (c < '0' || c > '9') return make_null_optional<InetAddr::Port>();
+    ret = ret * 10 + (c - '0');
+    if (ret > 65535) return make_null_optional<InetAddr::Port>();
+  }
+  return static_cast<InetAddr::Port>(ret);
+}
+
 InetAddr::InetAddr(StringView addr)
   : addr6_()
 {
@@ -127,7 +141,14 @@ InetAddr::InetAddr(StringView addr)
     }
   }
 #else
-  if (std::isalpha(addr[0])) {
+  const unsigned char first =
+      addr.empty() ? 0 : static_cast<unsigned char>(addr[0]);
+
+  // Hostname also can start with digit, but it can't be digits and dots only
+  if (std::isalnum(first) &&
+      addr.substr(0, addr.find(':')).find_first_not_of("0123456789.") !=
+          StringView::npos)
+  {
     // Hostname
     auto colon_pos = addr.find(':');
     if (colon_pos != StringView::npos) {
@@ -136,8 +157,8 @@ InetAddr::InetAddr(StringView addr)
       *this = InetAddr(hostname, service);
       return;
     }
-  } else if ((std::isalnum(addr[0]) && addr.find('.') != StringView::npos) ||
-             addr[0] == '*')
+  } else if ((std::isalnum(first) && addr.find('.') != StringView::npos) ||
+             first == '*')
   {
     // Ipv4 address
     auto colon_pos = addr.find(':');
@@ -145,21 +166,21 @@ InetAddr::InetAddr(StringView addr)
       auto ip = addr.substr(0, colon_pos).ToString();
       // ip must be dotted decimal presentation
       if (ip == "*") ip = "0.0.0.0";
-      auto const port = addr.substr(colon_pos + 1).ToString();
-      auto o_port = StringViewToU16(port);
+      auto o_port = ParsePort(addr.substr(colon_pos + 1));
       if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr_);
+        *this = InetAddr(StringView(ip), *o_port);
         return;
       }
     }
-  } else if (addr[0] == '[') {
+  } else if (first == '[') {
     auto right_pos = addr.find(']');
-    if (right_pos != StringView::npos) {
-      auto const ip = addr.substr_range(1, right_pos).ToString();
-      auto const port = addr.substr(right_pos + 2).ToString();
-      auto o_port = StringViewToU16(port);
-      if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr6_);
+    if (right_pos != StringView::npos && right_pos + 1 < addr.size() &&
+        addr[right_pos + 1] == ':')
+    {
+      auto const ip = addr.substr_range(1, right_pos);
+      auto o_port = ParsePort(addr.substr(right_pos + 2));
+      if (o_port && ip.find(':') != StringView::npos) {
+        *this = InetAddr(ip, *o_port);
         return;
       }
     }
-- 
2.43.0


From 81cb539514bbf33059bf4346290b1f486df19b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 117/167] fix: the error of a system error record must be the
 one at the log statement, not the one of formatting its prefix

---
 kanon/log/logger.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 89b7b74..6ff2f4c 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -113,6 +113,8 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   , cur_log_level_(level)
   , line_(line)
 {
+  // The functions used to format may modify errno
+  auto const saved_errno = errno;
   FormatTime();
   CurrentThread::tid();
   stream_ << StringView(CurrentThread::t_tidString,
@@ -129,6 +131,7 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   } else {
     stream_ << "[" << s_log_level_names_[level] << "] ";
   }
+  errno = saved_errno;
 }
 
 Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
-- 
2.43.0


From 0f63034d2dd2a75df3d12a72ffda16a0bec9791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 118/167] fix: a system error record without a current error
 must not contain an uninitialized buffer

---
 kanon/log/logger.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 6ff2f4c..daa9a56 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -142,16 +142,12 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
   char error_buf[4096];
 #ifdef KANON_ON_UNIX
   auto savedErrno = errno;
-  if (savedErrno) {
-    ::snprintf(error_buf, ERRNO_BUFFER_SIZE, "errno: %d, errmsg: %s",
-               savedErrno, strerror_tl(savedErrno));
-  }
+  ::snprintf(error_buf, ERRNO_BUFFER_SIZE, "errno: %d, errmsg: %s", savedErrno,
+             strerror_tl(savedErrno));
 #elif defined(KANON_ON_WIN)
   auto savedErrno = ::WSAGetLastError();
-  if (savedErrno) {
-    ::snprintf(error_buf, ERRNO_BUFFER_SIZE, "errno: 0x%d, errmsg: %s",
-               savedErrno, win_last_strerror(savedErrno));
-  }
+  ::snprintf(error_buf, ERRNO_BUFFER_SIZE, "errno: 0x%d, errmsg: %s",
+             savedErrno, win_last_strerror(savedErrno));
 #endif
   stream_ << error_buf << " ";
   errno = savedErrno;
-- 
2.43.0


From 9fa7f4f5103c43b7a195aa9bf0290ceafe5856a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 119/167] fix: strerror_tl() returned an empty buffer, since
 the GNU strerror_r() need not use it

---
 kanon/log/logger.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index daa9a56..187c66e 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -86,16 +86,30 @@ Logger::FlushCallback Logger::flush_callback_ = &DefaultFlush;
 KANON_TLS char t_errorBuf[ERRNO_BUFFER_SIZE];
 KANON_TLS char t_lastErrorBuf[ERRNO_BUFFER_SIZE];
 
+#ifdef KANON_ON_UNIX
+// The GNU strerror_r() returns the message, which need not be in the buffer,
+// while the POSIX one stores the message in the buffer and returns an error
+static KANON_INLINE char const *StrerrorResult(char const *msg, char const *)
+{
+  return msg;
+}
+
+static KANON_INLINE char const *StrerrorResult(int, char const *buf)
+{
+  return buf;
+}
+#endif
+
 // tl = thread local
 char const *strerror_tl(int savedErrno)
 {
 #ifdef KANON_ON_UNIX
-  auto ret = ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE);
+  return StrerrorResult(
+      ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE), t_errorBuf);
 #else
-  auto ret = ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno);
-#endif
-  KANON_UNUSED(ret);
+  ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno);
   return t_errorBuf;
+#endif
 }
 
 #ifdef KANON_ON_WIN
-- 
2.43.0


From 812d0d8548b2f71d43a8bc041beebcbc1b9a6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 120/167] fix: a record that fills the line buffer must still
 end in its file, line and newline

---
 kanon/log/logger.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 187c66e..56b0abc 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -6,6 +6,9 @@
 #include <string.h>
 #include <time.h>
 
+#include <algorithm>
+#include <string>
+
 #include "kanon/thread/current_thread.h"
 #include "kanon/util/time.h"
 #include "kanon/log/terminal_color.h"
@@ -169,8 +172,20 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
 
 Logger::~Logger() KANON_NOEXCEPT
 {
-  stream_ << " - " << basename_ << ":" << line_ << "\n";
-  output_callback_(stream_.data(), stream_.size());
+  LogStream tail;
+  tail << " - " << basename_ << ":" << line_ << "\n";
+
+  if (tail.size() < stream_.buffer().avali()) {
+    stream_.Append(tail.data(), tail.size());
+    output_callback_(stream_.data(), stream_.size());
+  } else {
+    // Truncate the message, otherwise the record has no end
+    std::string record(stream_.data(),
+                       std::min(stream_.size(),
+                                stream_.maxsize() - 1 - tail.size()));
+    record.append(tail.data(), tail.size());
+    output_callback_(record.data(), record.size());
+  }
 
   if (cur_log_level_ == KANON_LL_FATAL || cur_log_level_ == KANON_LL_SYS_FATAL)
   {
-- 
2.43.0


From dcc8537a0e19401c775d65fee41807cdca3ba958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 121/167] fix: EnableAllLog() had no effect after the
 initialization of the log level

---
 kanon/log/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/log/logger.h b/kanon/log/logger.h
index 9d9f316..08df746 100644
--- a/kanon/log/logger.h
+++ b/kanon/log/logger.h
@@ -131,7 +131,7 @@ class Logger : noncopyable {
   KANON_INLINE static void SetColor(bool c) KANON_NOEXCEPT { need_color_ = c; }
   KANON_INLINE static LogLevel GetLogLevel() KANON_NOEXCEPT
   {
-    return log_level_;
+    return g_all_log ? log_level_ : KANON_LL_OFF;
   }
   KANON_INLINE static void SetLogLevel(LogLevel level) KANON_NOEXCEPT
   {
-- 
2.43.0


From 04c2e9a3a60a9e17d550d3442df83e275acdb891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 122/167] fix: an else after a log statement belonged to the
 level check of the statement

---
 kanon/log/logger.h | 62 ++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/kanon/log/logger.h b/kanon/log/logger.h
index 08df746..f8df3be 100644
--- a/kanon/log/logger.h
+++ b/kanon/log/logger.h
@@ -215,35 +215,43 @@ KANON_CORE_API void DefaultOutput(char const *, size_t);
 #  undef LOG_SYSFATAL
 #endif
 
+// There must be an else branch so that an else after the log statement doesn't
+// belong to the check of the log level
 #define LOG_TRACE                                                              \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_TRACE)           \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_TRACE, __func__)   \
-      .stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_TRACE) {          \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_TRACE, __func__) \
+        .stream()
 
 #define LOG_DEBUG                                                              \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_DEBUG)           \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_DEBUG, __func__)   \
-      .stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_DEBUG) {          \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_DEBUG, __func__) \
+        .stream()
 
 #define LOG_INFO                                                               \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_INFO)            \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_INFO).stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_INFO) {           \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_INFO).stream()
 
 #define LOG_WARN                                                               \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_WARN)            \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_WARN).stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_WARN) {           \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_WARN).stream()
 
 #define LOG_ERROR                                                              \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_ERROR)           \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_ERROR).stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_ERROR) {          \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_ERROR).stream()
 
 #define LOG_FATAL                                                              \
   kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_FATAL).stream()
 
 #define LOG_SYSERROR                                                           \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_SYS_ERROR)       \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_SYS_ERROR, true)   \
-      .stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_SYS_ERROR) {      \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_SYS_ERROR, true) \
+        .stream()
 
 #define LOG_SYSFATAL                                                           \
   kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_SYS_FATAL, true)   \
@@ -251,22 +259,34 @@ KANON_CORE_API void DefaultOutput(char const *, size_t);
 
 // Kanon lib macro
 #define LOG_TRACE_KANON                                                        \
-  if (g_kanon_log) LOG_TRACE
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_TRACE
 
 #define LOG_DEBUG_KANON                                                        \
-  if (g_kanon_log) LOG_DEBUG
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_DEBUG
 
 #define LOG_INFO_KANON                                                         \
-  if (g_kanon_log) LOG_INFO
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_INFO
 
 #define LOG_WARN_KANON                                                         \
-  if (g_kanon_log) LOG_WARN
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_WARN
 
 #define LOG_ERROR_KANON                                                        \
-  if (g_kanon_log) LOG_ERROR
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_ERROR
 
 #define LOG_SYSERROR_KANON                                                     \
-  if (g_kanon_log) LOG_SYSERROR
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_SYSERROR
 
 // Format logging macros
 #define FMT_LOG_TRACE(fmt, ...)                                                \
-- 
2.43.0


From 736fdb111772485598bdb9ea279a69451a562f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 123/167] fix: the color setting may be changed by the thread
 of AsyncLog while other threads log

---
 kanon/log/logger.cc | 2 +-
 kanon/log/logger.h  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 56b0abc..58b2a28 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -26,7 +26,7 @@ static KANON_TLS char t_timebuf[64] = {0};
 bool g_kanon_log = true;
 bool g_all_log = true;
 
-bool Logger::need_color_ = true;
+std::atomic<bool> Logger::need_color_{true};
 
 char const
     *Logger::s_log_level_names_[Logger::LogLevel::KANON_LL_NUM_LOG_LEVEL] = {
diff --git a/kanon/log/logger.h b/kanon/log/logger.h
index f8df3be..f569192 100644
--- a/kanon/log/logger.h
+++ b/kanon/log/logger.h
@@ -1,6 +1,7 @@
 #ifndef KANON_LOGGER_H
 #define KANON_LOGGER_H
 
+#include <atomic>
 #include <functional>
 
 #include "kanon/string/fmt_stream.h"
@@ -170,7 +171,7 @@ class Logger : noncopyable {
    * You can define environment variable to specify WARN or TRACE
    */
   KANON_CORE_API static LogLevel log_level_;
-  KANON_CORE_API static bool need_color_;
+  KANON_CORE_API static std::atomic<bool> need_color_;
   KANON_CORE_API static OutputCallback output_callback_;
   KANON_CORE_API static FlushCallback flush_callback_;
 };
-- 
2.43.0


From d237a711f61fa312bd0e5a587de8fd3ed1fa3344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 124/167] fix: the directory of a log file was created without
 the permission to use it and without its parents

---
 kanon/log/append_file.cc | 55 +++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 81300ee..035b786 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -1,5 +1,9 @@
 #include "kanon/log/append_file.h"
 
+#include <errno.h>
+#include <stdlib.h>
+#include <string>
+
 #include "kanon/util/macro.h"
 
 #ifdef KANON_ON_UNIX
@@ -13,32 +17,49 @@
 
 namespace kanon {
 
+static bool MakeDirectory(std::string const &dir)
+{
+#ifdef KANON_ON_UNIX
+  auto ret = ::mkdir(dir.data(), S_IRWXU | S_IRWXG | S_IRWXO);
+#elif defined(KANON_ON_WIN)
+  auto ret = ::_mkdir(dir.data());
+#else
+#  error "TODO: Call the directory creation function in specific platform!"
+#endif
+  // Others may create it at the same time
+  return ret == 0 || errno == EEXIST;
+}
+
+// Also create the missing parents
+static bool MakeDirectories(std::string const &dir)
+{
+  for (auto pos = dir.find('/', 1); pos != std::string::npos;
+       pos = dir.find('/', pos + 1))
+  {
+    if (!MakeDirectory(dir.substr(0, pos))) return false;
+  }
+
+  return MakeDirectory(dir);
+}
+
 AppendFile::AppendFile(StringArg filename)
   : writtenBytes_(0)
 {
-  while (!(fp_ = ::fopen(filename.data(), "a"))) {
-    if (errno != ENOENT) {
+  for (auto created = false; !(fp_ = ::fopen(filename.data(), "a"));
+       created = true)
+  {
+    auto filename_view = StringView(filename.data());
+    auto pos = filename_view.rfind('/');
+
+    if (errno != ENOENT || created || pos == StringView::npos) {
       ::fprintf(stderr, "Failed to open file: %s\n", filename.data());
       ::fflush(stderr);
       ::abort();
     }
 
-    auto filename_view = StringView(filename.data());
-    const std::string dir =
-        filename_view.substr(0, filename_view.rfind('/')).ToString();
-    auto ret = 0;
+    const std::string dir = filename_view.substr(0, pos).ToString();
 
-#ifdef KANON_ON_UNIX
-    ret = ::mkdir(dir.data(), S_IRUSR);
-#elif defined(KANON_ON_WIN)
-    ret = ::_mkdir(dir.data());
-#else
-    // TODO Use c++17 file system API
-    ::fprintf(
-        "TODO: Call the directory creation function in specific platform!");
-    ::abort();
-#endif
-    if (ret != 0) {
+    if (!MakeDirectories(dir)) {
       ::fprintf(stderr, "Failed to create a directory: %s\n", dir.data());
       ::fflush(stderr);
       ::abort();
-- 
2.43.0


From 62b2bb87bf387f0faa8303cacb1501b3b507a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 125/167] fix: the name of a log file was composed in buffers
 shared by all threads

---
 kanon/log/log_file.cc         |  8 ++++----
 kanon/process/process_info.cc | 25 +++++++++----------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index e0507b3..8ba5851 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -139,13 +139,13 @@ std::string LogFile<T>::GetLogFilename(time_t &now)
   char timebuf[32];
   ::tzset();
 
-  // FIXME Don't call localtime_r() here?
-#if 0
   struct tm tm;
+#ifdef KANON_ON_UNIX
   ::localtime_r(&now, &tm);
+#else
+  ::localtime_s(&tm, &now);
 #endif
-  auto tm = localtime(&now);
-  ::strftime(timebuf, sizeof timebuf, ".%Y%m%d-%H%M%S.", tm);
+  ::strftime(timebuf, sizeof timebuf, ".%Y%m%d-%H%M%S.", &tm);
 
   filename += timebuf;
   filename += process::PidString().data();
diff --git a/kanon/process/process_info.cc b/kanon/process/process_info.cc
index 2934217..ac44f1d 100644
--- a/kanon/process/process_info.cc
+++ b/kanon/process/process_info.cc
@@ -5,15 +5,12 @@ using namespace kanon;
 StringView 
 process::PidString() KANON_NOEXCEPT {
 
-  static char pid_cache[32];
-  static bool has_cache = false;
+  // Not cached, since a child process has another pid
+  static KANON_TLS char pid_cache[32];
   
-  if (!has_cache) {
-    
-    if (::snprintf(pid_cache, sizeof pid_cache, 
-          "%d", Pid()) < 0) {
-      ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
-    } 
+  if (::snprintf(pid_cache, sizeof pid_cache, 
+        "%d", Pid()) < 0) {
+    ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
   } 
 
   return pid_cache;
@@ -22,15 +19,11 @@ process::PidString() KANON_NOEXCEPT {
 StringView
 process::Hostname() KANON_NOEXCEPT {
   // hostname is limited to HOST_NAME_MAX in posix,
-  // it is 64 in linux.
-  static char hostname_cache[64];
-  static bool has_cache = false;
+  // it is 64 in linux(excluding the terminating null byte).
+  static KANON_TLS char hostname_cache[65];
   
-  if (!has_cache) {
-    
-    if (::gethostname(hostname_cache, sizeof hostname_cache) < 0) {
-      ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
-    } 
+  if (::gethostname(hostname_cache, sizeof hostname_cache) < 0) {
+    ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
   } 
 
   return hostname_cache;
-- 
2.43.0


From 7fe8580063c7d282eeeb92ea31c045898e197750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 126/167] fix: the thread that removes old log files raced with
 Append(), spun, and missed files and its end

---
 kanon/log/log_file.cc | 30 ++++++++++++++++++++----------
 kanon/log/log_file.h  |  2 +-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index 8ba5851..57cd862 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -26,19 +26,21 @@ LogFile<T>::LogFile(StringView basename, size_t roll_size, StringView prefix,
 
   if (log_file_num_ != UINT_MAX) {
     remove_thr_.StartRun([this]() {
-      while (!quit_remove_thr_) {
+      for (;;) {
+        std::vector<std::string> old_files;
         {
           MutexGuard guard(remove_mtx_);
-          // There is one consumer only, don't use while is also ok
-          if (log_files_dup_.size() < log_file_num_ - 1) {
+          while (!quit_remove_thr_ && log_files_dup_.empty()) {
             remove_cond_.Wait();
           }
+          // Remove the pending files before quit
+          if (log_files_dup_.empty()) return;
+          old_files.swap(log_files_dup_);
         }
 
-        for (auto log_file : log_files_dup_) {
+        for (auto const &log_file : old_files) {
           ::remove(log_file.c_str());
         }
-        log_files_dup_.clear();
       }
     });
   }
@@ -48,8 +50,11 @@ template <bool T>
 KANON_INLINE LogFile<T>::~LogFile() KANON_NOEXCEPT
 {
   if (log_file_num_ != UINT_MAX) {
-    quit_remove_thr_ = true;
-    remove_cond_.Notify();
+    {
+      MutexGuard guard(remove_mtx_);
+      quit_remove_thr_ = true;
+      remove_cond_.Notify();
+    }
 
     remove_thr_.Join();
   }
@@ -83,14 +88,19 @@ void LogFile<T>::Append(char const *data, size_t num) KANON_NOEXCEPT
     }
   }
 
-  if (log_files_.size() >= log_file_num_) {
+  // The newest file is never removed
+  if (log_files_.size() >= log_file_num_ && log_files_.size() > 1) {
     auto last_file = std::move(log_files_.back());
     log_files_.pop_back();
 
-    log_files_dup_.swap(log_files_);
+    KANON_MUTEX_GUARD(remove_mtx_);
+    // The files before may not be removed
+    for (auto &log_file : log_files_) {
+      log_files_dup_.emplace_back(std::move(log_file));
+    }
+    log_files_.clear();
     log_files_.emplace_back(std::move(last_file));
 
-    KANON_MUTEX_GUARD(remove_mtx_);
     remove_cond_.Notify();
   }
 }
diff --git a/kanon/log/log_file.h b/kanon/log/log_file.h
index bbea378..199582f 100644
--- a/kanon/log/log_file.h
+++ b/kanon/log/log_file.h
@@ -81,7 +81,7 @@ class LogFile : noncopyable {
 
   size_t log_file_num_;
   std::vector<std::string> log_files_;
-  std::vector<std::string> log_files_dup_;
+  std::vector<std::string> log_files_dup_; //!< files to be removed
   Thread remove_thr_;
   Condition remove_cond_;
   MutexLock remove_mtx_;
-- 
2.43.0


From d25776dcfe9d3e5761dfbbce2cb9e3200b513ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 127/167] fix: AsyncLog::Stop() lost the messages not written
 yet, and its notification could be lost

---
 kanon/log/async_log.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 89e1e0f..dd6e24b 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -65,7 +65,8 @@ void AsyncLog::StartRun()
                      roll_interval_, flush_interval_);
 
     // back thread do long loop
-    while (running_) {
+    // The messages appended before Stop() is called must be logged also
+    for (auto last = false; !last;) {
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -80,7 +81,10 @@ void AsyncLog::StartRun()
         // \note
         //   This is not a classic use,
         //   but there is one cosumer, use if here is safe
-        if (buffers_.empty()) {
+        // \note
+        //   running_ is modified with the lock held, otherwise the notification
+        //   of Stop() can be lost.
+        if (buffers_.empty() && running_) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -88,6 +92,8 @@ void AsyncLog::StartRun()
           // not_empty_.Wait();
         }
 
+        last = !running_;
+
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
         buffers_.emplace_back(std::move(current_buffer_));
@@ -152,8 +158,11 @@ void AsyncLog::Stop() KANON_NOEXCEPT
 {
   assert(running_);
 
-  running_ = false;
-  not_empty_.Notify();
+  {
+    MutexGuard guard{mutex_};
+    running_ = false;
+    not_empty_.Notify();
+  }
   back_thr_.Join();
 }
 
-- 
2.43.0


From 1e9d553bdf0b46437c233ba6d4d37788a2d252d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 128/167] fix: AsyncLog::Flush() did nothing, so the message of
 a fatal error was never written

---
 kanon/log/async_log.cc | 31 +++++++++++++++++++++++++++----
 kanon/log/async_log.h  |  9 +++++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index dd6e24b..48c4c37 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -18,10 +18,14 @@ AsyncLog::AsyncLog(StringView basename, size_t roll_size, StringView prefix,
   , roll_interval_(roll_interval)
   , flush_interval_{flush_interval}
   , running_{false}
+  , writing_{false}
+  , flush_requested_{0}
+  , flush_done_{0}
   , current_buffer_{kanon::make_unique<Buffer>()}
   , next_buffer_{kanon::make_unique<Buffer>()}
   , mutex_{}
   , not_empty_{mutex_}
+  , flushed_{mutex_}
   , back_thr_{"AsyncLog"}
   , latch_{1}
 {
@@ -45,6 +49,10 @@ void AsyncLog::StartRun()
   assert(!running_);
 
   running_ = true;
+  {
+    MutexGuard guard{mutex_};
+    writing_ = true;
+  }
 
   buffers_dup_.reserve(16);
 
@@ -67,6 +75,7 @@ void AsyncLog::StartRun()
     // back thread do long loop
     // The messages appended before Stop() is called must be logged also
     for (auto last = false; !last;) {
+      uint64_t flush_request = 0;
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -84,7 +93,7 @@ void AsyncLog::StartRun()
         // \note
         //   running_ is modified with the lock held, otherwise the notification
         //   of Stop() can be lost.
-        if (buffers_.empty() && running_) {
+        if (buffers_.empty() && running_ && flush_done_ == flush_requested_) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -93,6 +102,7 @@ void AsyncLog::StartRun()
         }
 
         last = !running_;
+        flush_request = flush_requested_;
 
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
@@ -144,10 +154,14 @@ void AsyncLog::StartRun()
       buffers_dup_.clear();
 
       output.Flush();
-    }
 
-    // Flush output buffer(the last)
-    output.Flush();
+      {
+        MutexGuard guard{mutex_};
+        flush_done_ = flush_request;
+        if (last) writing_ = false;
+        flushed_.NotifyAll();
+      }
+    }
   });
 
   // Main thread wait until back thread runs
@@ -192,4 +206,13 @@ void AsyncLog::Append(char const *data, size_t len) KANON_NOEXCEPT
 void AsyncLog::Flush() KANON_NOEXCEPT
 {
   // The flush operation is called in back thread
+  MutexGuard guard{mutex_};
+  if (!writing_) return;
+
+  auto const request = ++flush_requested_;
+  not_empty_.Notify();
+
+  while (writing_ && flush_done_ < request) {
+    flushed_.Wait();
+  }
 }
diff --git a/kanon/log/async_log.h b/kanon/log/async_log.h
index fc4101c..18dea9e 100644
--- a/kanon/log/async_log.h
+++ b/kanon/log/async_log.h
@@ -66,6 +66,12 @@ class KANON_CORE_API AsyncLog : noncopyable {
 
   std::atomic<bool> running_;
 
+  // The back thread doesn't write all messages before Stop() to disk
+  bool writing_;
+  // The number of Flush() called, and the ones satisfied by the back thread
+  uint64_t flush_requested_;
+  uint64_t flush_done_;
+
   /**
    * use "Multiplex Buffering" technique
    * \see "Multiplex Buffering" entry of Wikipedia
@@ -81,6 +87,9 @@ class KANON_CORE_API AsyncLog : noncopyable {
   // If buffers_ is empty, back thread sleeping
   Condition not_empty_;
 
+  // If the flush requested isn't done, the caller of Flush() sleeping
+  Condition flushed_;
+
   // back thread log buffer to disk
   Thread back_thr_;
 
-- 
2.43.0


From 106f2209ab87315689a977e5d6cbc31dacdb03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 129/167] fix: GenericPbCodec aborted or spun when it sent an
 empty message with an empty tag

---
 kanon/protobuf/chunk_stream.cc     |  6 ++++++
 kanon/protobuf/generic_pb_codec.cc | 13 +++----------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/kanon/protobuf/chunk_stream.cc b/kanon/protobuf/chunk_stream.cc
index ee133d0..4b4608d 100644
--- a/kanon/protobuf/chunk_stream.cc
+++ b/kanon/protobuf/chunk_stream.cc
@@ -7,8 +7,11 @@ bool ChunkStream::Next(void **data, int *size)
   Chunk *last_chunk =
       (chunk_list.IsEmpty()) ? nullptr : chunk_list.GetLastChunk();
   if (!last_chunk || last_chunk->GetWritableSize() == 0) {
+    const bool first = chunk_list.IsEmpty();
     chunk_list.ReserveChunk(1);
     last_chunk = chunk_list.GetLastChunk();
+    // Like Append(), leave the place of the header that may be prepended later
+    if (first) last_chunk->SetToHeader();
   }
   *data = last_chunk->GetWriteBegin();
   *size = last_chunk->GetWritableSize();
@@ -18,6 +21,9 @@ bool ChunkStream::Next(void **data, int *size)
 
 void ChunkStream::BackUp(int count)
 {
+  // protobuf calls BackUp(0) also when nothing was written, ie. the list is
+  // empty
+  if (count == 0) return;
   auto last_chunk = chunk_list.GetLastChunk();
   last_chunk->AdvanceWrite(-count);
 }
diff --git a/kanon/protobuf/generic_pb_codec.cc b/kanon/protobuf/generic_pb_codec.cc
index 1fed446..db1e23c 100644
--- a/kanon/protobuf/generic_pb_codec.cc
+++ b/kanon/protobuf/generic_pb_codec.cc
@@ -66,19 +66,12 @@ void GenericPbCodec::Send(TcpConnectionPtr const &conn,
   auto ok = XXH32_reset(state, 0) != XXH_ERROR;
   KANON_ASSERT(ok, "XXH32_reset() error");
 
-  auto chunk_count = buffer.GetChunkSize() - 1;
-  auto beg = buffer.begin();
-  while (chunk_count--) {
-    beg->AdvanceWriteAll();
-    ok = XXH32_update(state, beg->GetReadBegin(), beg->GetReadableSize()) !=
+  // No chunk if the tag and the message are empty
+  for (auto &chunk : buffer) {
+    ok = XXH32_update(state, chunk.GetReadBegin(), chunk.GetReadableSize()) !=
          XXH_ERROR;
     KANON_ASSERT(ok, "XXH32_update() error");
-    ++beg;
   }
-  assert(beg.next() == buffer.end());
-  ok = XXH32_update(state, beg->GetReadBegin(), beg->GetReadableSize()) !=
-       XXH_ERROR;
-  KANON_ASSERT(ok, "XXH32_update() error");
   uint32_t check_sum = XXH32_digest(state);
   XXH32_freeState(state);
   LOG_DEBUG_KANON_PROTOBUF << "CheckSum = " << check_sum;
-- 
2.43.0


From aa38047ed870d75b4644f48b528542e032f5e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 130/167] fix: GenericPbCodec discarded valid messages when 64M
 or more were readable at once

---
 kanon/protobuf/generic_pb_codec.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/kanon/protobuf/generic_pb_codec.cc b/kanon/protobuf/generic_pb_codec.cc
index db1e23c..83bb8bf 100644
--- a/kanon/protobuf/generic_pb_codec.cc
+++ b/kanon/protobuf/generic_pb_codec.cc
@@ -101,15 +101,6 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
    * 3.2 Otherwise, call message_callback_
    */
 
-  // Discard too large buffer early to avoid making memory overflow
-  if (buffer.GetReadableSize() >= kMaxMessageLength) {
-    LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
-    buffer.AdvanceAll();
-    buffer.Shrink();
-    error_callback_(conn, kInvalidLength);
-    return;
-  }
-
   // Use while here since maybe not just one message in buffer
   while (buffer.GetReadableSize() >= kMinMessageLength) {
     const uint32_t size_header = buffer.GetReadBegin32();
@@ -142,6 +133,16 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
       break;
     }
   }
+
+  // Discard too large buffer to avoid making memory overflow.
+  // It can't be the begin of a valid message: the complete messages have been
+  // processed(there may be many of them), and the size of them is limited
+  if (buffer.GetReadableSize() >= kSizeLength + kMaxMessageLength) {
+    LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
+    buffer.AdvanceAll();
+    buffer.Shrink();
+    error_callback_(conn, kInvalidLength);
+  }
 }
 
 auto GenericPbCodec::Parse(char const *buffer, uint32_t size,
-- 
2.43.0


From fdb9de67a41a465b44f030d1773d01476364f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 131/167] fix: the else after a log statement of the protobuf
 and RPC libraries belonged to the statement

---
 kanon/protobuf/logger.h | 24 ++++++++++++++++++------
 kanon/rpc/logger.h      | 24 ++++++++++++++++++------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/kanon/protobuf/logger.h b/kanon/protobuf/logger.h
index c50ab57..057aa9d 100644
--- a/kanon/protobuf/logger.h
+++ b/kanon/protobuf/logger.h
@@ -16,21 +16,33 @@ KANON_INLINE void SetProtobufLog(bool val) KANON_NOEXCEPT
 } // namespace kanon
 
 #define LOG_TRACE_KANON_PROTOBUF                                               \
-  if (::kanon::detail::g_kanon_protobuf_log) LOG_TRACE
+  if (!::kanon::detail::g_kanon_protobuf_log) {                                \
+  } else                                                                       \
+    LOG_TRACE
 
 #define LOG_DEBUG_KANON_PROTOBUF                                               \
-  if (::kanon::detail::g_kanon_protobuf_log) LOG_DEBUG
+  if (!::kanon::detail::g_kanon_protobuf_log) {                                \
+  } else                                                                       \
+    LOG_DEBUG
 
 #define LOG_INFO_KANON_PROTOBUF                                                \
-  if (::kanon::detail::g_kanon_protobuf_log) LOG_INFO
+  if (!::kanon::detail::g_kanon_protobuf_log) {                                \
+  } else                                                                       \
+    LOG_INFO
 
 #define LOG_WARN_KANON_PROTOBUF                                                \
-  if (::kanon::detail::g_kanon_protobuf_log) LOG_WARN
+  if (!::kanon::detail::g_kanon_protobuf_log) {                                \
+  } else                                                                       \
+    LOG_WARN
 
 #define LOG_ERROR_KANON_PROTOBUF                                               \
-  if (::kanon::detail::g_kanon_protobuf_log) LOG_ERROR
+  if (!::kanon::detail::g_kanon_protobuf_log) {                                \
+  } else                                                                       \
+    LOG_ERROR
 
 #define LOG_SYSERROR_KANON_PROTOBUF                                            \
-  if (::kanon::detail::g_kanon_protobuf_log) LOG_SYSERROR
+  if (!::kanon::detail::g_kanon_protobuf_log) {                                \
+  } else                                                                       \
+    LOG_SYSERROR
 
 #endif
diff --git a/kanon/rpc/logger.h b/kanon/rpc/logger.h
index e035fd0..0caf6e4 100644
--- a/kanon/rpc/logger.h
+++ b/kanon/rpc/logger.h
@@ -16,21 +16,33 @@ KANON_INLINE void SetProtobufRpcLog(bool val) KANON_NOEXCEPT
 } // namespace kanon
 
 #define LOG_TRACE_KANON_PROTOBUF_RPC                                           \
-  if (::kanon::detail::g_kanon_protobuf_rpc_log_enable) LOG_TRACE
+  if (!::kanon::detail::g_kanon_protobuf_rpc_log_enable) {                     \
+  } else                                                                       \
+    LOG_TRACE
 
 #define LOG_DEBUG_KANON_PROTOBUF_RPC                                           \
-  if (::kanon::detail::g_kanon_protobuf_rpc_log_enable) LOG_DEBUG
+  if (!::kanon::detail::g_kanon_protobuf_rpc_log_enable) {                     \
+  } else                                                                       \
+    LOG_DEBUG
 
 #define LOG_INFO_KANON_PROTOBUF_RPC                                            \
-  if (::kanon::detail::g_kanon_protobuf_rpc_log_enable) LOG_INFO
+  if (!::kanon::detail::g_kanon_protobuf_rpc_log_enable) {                     \
+  } else                                                                       \
+    LOG_INFO
 
 #define LOG_WARN_KANON_PROTOBUF_RPC                                            \
-  if (::kanon::detail::g_kanon_protobuf_rpc_log_enable) LOG_WARN
+  if (!::kanon::detail::g_kanon_protobuf_rpc_log_enable) {                     \
+  } else                                                                       \
+    LOG_WARN
 
 #define LOG_ERROR_KANON_PROTOBUF_RPC                                           \
-  if (::kanon::detail::g_kanon_protobuf_rpc_log_enable) LOG_ERROR
+  if (!::kanon::detail::g_kanon_protobuf_rpc_log_enable) {                     \
+  } else                                                                       \
+    LOG_ERROR
 
 #define LOG_SYSERROR_KANON_PROTOBUF_RPC                                        \
-  if (::kanon::detail::g_kanon_protobuf_rpc_log_enable) LOG_SYSERROR
+  if (!::kanon::detail::g_kanon_protobuf_rpc_log_enable) {                     \
+  } else                                                                       \
+    LOG_SYSERROR
 
 #endif
-- 
2.43.0


From 0c7cc99122c18351b40dae58aa49004947b08feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 132/167] fix: ProtobufCodec2 aborted when the size header of a
 message arrived alone

---
 kanon/protobuf/protobuf_codec2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 534b777..0489895 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -91,7 +91,7 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       }
 
       KANON_ASSERT(
-          buffer.GetReadableSize() > size_header_len,
+          buffer.GetReadableSize() >= size_header_len,
           "Buffer's readable size must be >= the length of size_header");
       // Waiting complete message
       if (buffer.GetReadableSize() - size_header_len < size_header) break;
-- 
2.43.0


From c33a083803e25336df5557caed512f5f8c00c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 133/167] fix: ProtobufCodec2 discarded valid messages when
 max_size bytes or more were readable at once

---
 kanon/protobuf/protobuf_codec2.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 0489895..4f9eca1 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -45,14 +45,16 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
 {
   conn->SetMessageCallback([this](TcpConnectionPtr const &conn, Buffer &buffer,
                                   TimeStamp receive_time) {
-    // Discard too large buffer early to avoid making memory overflow
-    if (buffer.GetReadableSize() >= max_size_) {
-      LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
-      buffer.AdvanceAll();
-      buffer.Shrink();
-      error_callback_(conn, E_INVALID_SIZE_HEADER);
-      return;
-    }
+    // The buffer may hold many valid messages, only what follows an error is
+    // discarded(if it is too large) to avoid making memory overflow
+    const auto on_error = [this, &conn, &buffer](ErrorCode errcode) {
+      if (buffer.GetReadableSize() >= max_size_) {
+        LOG_WARN_KANON_PROTOBUF << "The invalid message too large, just discard";
+        buffer.AdvanceAll();
+        buffer.Shrink();
+      }
+      error_callback_(conn, errcode);
+    };
 
     uint32_t size_header = 0;
     size_t size_header_len = 0;
@@ -67,7 +69,7 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
               << "This is a valid message encoded by varint";
           break;
         case KVARINT_DECODE_BUF_INVALID:
-          error_callback_(conn, E_INVALID_MESSAGE);
+          on_error(E_INVALID_MESSAGE);
           return;
         case KVARINT_DECODE_BUF_SHORT:
 #ifndef NDEBUG
@@ -86,7 +88,7 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       if (size_header < tag_.size() + CHECKSUM_LENGTH ||
           size_header >= max_size_ - size_header_len)
       {
-        error_callback_(conn, E_INVALID_SIZE_HEADER);
+        on_error(E_INVALID_SIZE_HEADER);
         break;
       }
 
@@ -104,12 +106,12 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       // untrusted field. Such message should discard.
 
       if (!VerifyCheckSum(buffer, size_header)) {
-        error_callback_(conn, E_INVALID_CHECKSUM);
+        on_error(E_INVALID_CHECKSUM);
         break;
       }
 
       if (::memcmp(buffer.GetReadBegin(), tag_.data(), tag_.size()) != 0) {
-        error_callback_(conn, E_INVALID_MESSAGE);
+        on_error(E_INVALID_MESSAGE);
         break;
       }
 
-- 
2.43.0


From 79e177ec9f862e1ca5e602ecf8f01c599174de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 134/167] fix: ProtobufCodec2 took the content of an invalid
 message for messages

---
 kanon/protobuf/protobuf_codec2.cc | 18 ++++++++++--------
 kanon/protobuf/protobuf_codec2.h  |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 4f9eca1..68b5404 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -98,24 +98,25 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       // Waiting complete message
       if (buffer.GetReadableSize() - size_header_len < size_header) break;
 
-      buffer.AdvanceRead(size_header_len);
-
       // BUG FIX:
       // If peer send invalid message whose length over size_header and
       // MIN_SIZE, then can reach this. In this case, size_header is a
       // untrusted field. Such message should discard.
 
-      if (!VerifyCheckSum(buffer, size_header)) {
+      // Don't consume anything of a invalid message, otherwise its content will
+      // be considered as messages later.
+      auto const body = buffer.GetReadBegin() + size_header_len;
+      if (!VerifyCheckSum(body, size_header)) {
         on_error(E_INVALID_CHECKSUM);
         break;
       }
 
-      if (::memcmp(buffer.GetReadBegin(), tag_.data(), tag_.size()) != 0) {
+      if (::memcmp(body, tag_.data(), tag_.size()) != 0) {
         on_error(E_INVALID_MESSAGE);
         break;
       }
 
-      buffer.AdvanceRead(tag_.size());
+      buffer.AdvanceRead(size_header_len + tag_.size());
 
       message_callback_(conn, buffer,
                         size_header - tag_.size() - CHECKSUM_LENGTH,
@@ -213,15 +214,16 @@ KANON_INLINE uint32_t ProtobufCodec2::GetCheckSum(void const *buffer,
   return XXH32(buffer, len, 0);
 }
 
-bool ProtobufCodec2::VerifyCheckSum(Buffer &buffer, SizeHeaderType size_header)
+bool ProtobufCodec2::VerifyCheckSum(char const *body,
+                                    SizeHeaderType size_header)
 {
   LOG_DEBUG << "calculated range: " << size_header - CHECKSUM_LENGTH;
 
   const auto calculated_check_sum =
-      XXH32(buffer.GetReadBegin(), size_header - CHECKSUM_LENGTH, 0);
+      XXH32(body, size_header - CHECKSUM_LENGTH, 0);
   CheckSumType prepared_checksum = 0;
   ::memcpy(&prepared_checksum,
-           buffer.GetReadBegin() + size_header - CHECKSUM_LENGTH,
+           body + size_header - CHECKSUM_LENGTH,
            CHECKSUM_LENGTH);
   prepared_checksum = sock::ToHostByteOrder32(prepared_checksum);
 
diff --git a/kanon/protobuf/protobuf_codec2.h b/kanon/protobuf/protobuf_codec2.h
index 9b232dc..9825d0e 100644
--- a/kanon/protobuf/protobuf_codec2.h
+++ b/kanon/protobuf/protobuf_codec2.h
@@ -151,7 +151,7 @@ class ProtobufCodec2 : noncopyable {
  private:
   static KANON_INLINE uint32_t GetCheckSum(void const *buffer,
                                            size_t len) noexcept;
-  static KANON_INLINE bool VerifyCheckSum(Buffer &buffer,
+  static KANON_INLINE bool VerifyCheckSum(char const *body,
                                           SizeHeaderType size_header);
   static KANON_INLINE char const *ErrorToString(ErrorCode err) noexcept;
 
-- 
2.43.0


From 0d89bd745ac9ad5a54e3f54ad7cc2c3b2fc8b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 135/167] fix: ProtobufCodec2 lost the frame boundary when the
 message callback left some of the payload

---
 kanon/protobuf/protobuf_codec2.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 68b5404..03149ab 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -118,10 +118,14 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
 
       buffer.AdvanceRead(size_header_len + tag_.size());
 
+      // The callback may leave the payload(e.g. can't parse it)
+      const auto rest =
+          buffer.GetReadableSize() - (size_header - tag_.size());
       message_callback_(conn, buffer,
                         size_header - tag_.size() - CHECKSUM_LENGTH,
                         receive_time);
-      buffer.AdvanceRead32(); // checksum
+      assert(buffer.GetReadableSize() >= rest + CHECKSUM_LENGTH);
+      buffer.AdvanceRead(buffer.GetReadableSize() - rest);
     }
   });
 }
-- 
2.43.0


From da34ad358eeaffa1f93c594db7c5503a2638f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 136/167] fix: ProtobufCodec2 ran beyond the chunks when it
 sent an empty message with an empty tag

---
 kanon/protobuf/protobuf_codec2.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 03149ab..dcff1f5 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -163,19 +163,12 @@ void ProtobufCodec2::Send(TcpConnection *const conn,
   KANON_UNUSED(ok);
   KANON_ASSERT(ok, "XXH32_reset() error");
 
-  auto chunk_count = buffer.GetChunkSize() - 1;
-  auto beg = buffer.begin();
-  while (chunk_count--) {
-    assert(beg->GetWritableSize() == 0);
-    ok = XXH32_update(state, beg->GetReadBegin(), beg->GetReadableSize()) !=
+  // No chunk if the tag and the message are empty
+  for (auto &chunk : buffer) {
+    ok = XXH32_update(state, chunk.GetReadBegin(), chunk.GetReadableSize()) !=
          XXH_ERROR;
     KANON_ASSERT(ok, "XXH32_update() error");
-    ++beg;
   }
-  assert(beg.next() == buffer.end());
-  ok = XXH32_update(state, beg->GetReadBegin(), beg->GetReadableSize()) !=
-       XXH_ERROR;
-  KANON_ASSERT(ok, "XXH32_update() error");
   uint32_t check_sum = XXH32_digest(state);
   XXH32_freeState(state);
 
-- 
2.43.0


From a91ffac939ef65d91d753186485c27378d3c1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 137/167] fix: RpcChannel of a client used uninitialised
 members

---
 kanon/rpc/rpc_channel.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index d5bf897..25b783e 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -21,12 +21,17 @@ using namespace kanon::protobuf::rpc;
 
 static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept;
 
-RpcChannel::RpcChannel() = default;
+RpcChannel::RpcChannel()
+  : id_(0)
+  , services_(nullptr)
+{
+}
 
 // Constructor does not recommended to do many thing except for initial work
 RpcChannel::RpcChannel(TcpConnectionPtr const &conn)
   : id_(0)
   , codec_()
+  , services_(nullptr)
 {
   SetConnection(conn);
 }
@@ -264,10 +269,14 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
   RpcMessage::ErrorCode error_code = RpcMessage::kNoError;
   if (message->has_request() && message->has_service() && message->has_method())
   {
-    const auto it = services_->find(message->service());
+    // There are no services if it is the channel of a client
+    Service *service = nullptr;
+    if (services_) {
+      const auto it = services_->find(message->service());
+      if (it != services_->end()) service = it->second;
+    }
 
-    if (it != services_->end()) {
-      Service *service = it->second;
+    if (service) {
       MethodDescriptor const *method =
           service->GetDescriptor()->FindMethodByName(message->method());
 
-- 
2.43.0


From 715af23aff2d224ebcd5b51bcd7845e66e3683e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 138/167] fix: RpcChannel gave the same id to calls of
 different threads

---
 kanon/rpc/rpc_channel.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 25b783e..d7f31b3 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -55,9 +55,7 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
   RpcController *contr = kanon::down_pointer_cast<RpcController>(controller);
 
   RpcMessage message;
-  auto id = id_.load(std::memory_order_relaxed);
-  message.set_id(id);
-  id_.fetch_add(1, std::memory_order_relaxed);
+  message.set_id(id_.fetch_add(1, std::memory_order_relaxed));
 
   message.set_type(RpcMessage::kRequest);
   message.set_request(request->SerializeAsString());
-- 
2.43.0


From ed0d72509c3e785384df27ac3ad3b9f200d684c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 139/167] fix: RpcChannel used the controller of a call when it
 is NULL or deleted

---
 kanon/rpc/rpc_channel.cc | 21 +++++++++++----------
 kanon/rpc/rpc_channel.h  |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index d7f31b3..ce5da94 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -52,8 +52,6 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
                             Message const *request, Message *response,
                             Closure *done)
 {
-  RpcController *contr = kanon::down_pointer_cast<RpcController>(controller);
-
   RpcMessage message;
   message.set_id(id_.fetch_add(1, std::memory_order_relaxed));
 
@@ -64,13 +62,19 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
   message.set_method(method->name());
   message.set_service(method->service()->full_name());
 
+  // The controller is optional, and the user may delete it after the call
+  if (controller) {
+    auto contr = kanon::down_pointer_cast<RpcController>(controller);
+    if (contr->deadline() != INVALID_DEADLINE)
+      message.set_deadline(contr->deadline());
+  }
+
   conn_->GetLoop()->RunInLoop(std::bind(&RpcChannel::SendRpcRequest, this,
-                                        std::move(message), response, done,
-                                        contr));
+                                        std::move(message), response, done));
 }
 
 void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
-                                Closure *done, RpcController *controller)
+                                Closure *done)
 {
   // Must insert <id, outstanding_call> into outstanding_calls_ first
   // There are maybe server response reach but outstanding_call is not
@@ -90,18 +94,15 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
                  "Notifiction(done is NULL) no need to set response");
   }
 
-  if (controller->deadline() != INVALID_DEADLINE)
-    message.set_deadline(controller->deadline());
-
   codec_.Send(conn_, &message);
 
-  if (controller->deadline() != INVALID_DEADLINE) {
+  if (message.has_deadline()) {
     auto id = message.id();
     conn_->GetLoop()->RunAt(
         [this, id]() {
           outstanding_calls_.erase(id);
         },
-        TimeStamp((int64_t)controller->deadline() * 1000));
+        TimeStamp((int64_t)message.deadline() * 1000));
   }
 }
 
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 1124e24..61ad724 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -66,7 +66,7 @@ class RpcChannel
    * since c++11 don't allow variable initialization in capture list
    */
   void SendRpcRequest(RpcMessage &message, PROTOBUF::Message *response,
-                      PROTOBUF::Closure *done, RpcController *controller);
+                      PROTOBUF::Closure *done);
   /**
    * This call the Service::CallMethod(), the logic is
    * fill the response according to the request
-- 
2.43.0


From 4dc5a243e4dcbedba4dbf7961f0f57b0c70d6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 140/167] fix: The deadline timer of a call used the RpcChannel
 after its destruction

---
 kanon/rpc/rpc_channel.cc | 5 +++--
 kanon/rpc/rpc_channel.h  | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index ce5da94..c465bcd 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -98,9 +98,10 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
 
   if (message.has_deadline()) {
     auto id = message.id();
+    std::weak_ptr<void> alive = alive_;
     conn_->GetLoop()->RunAt(
-        [this, id]() {
-          outstanding_calls_.erase(id);
+        [this, alive, id]() {
+          if (!alive.expired()) outstanding_calls_.erase(id);
         },
         TimeStamp((int64_t)message.deadline() * 1000));
   }
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 61ad724..f668a6a 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -2,6 +2,7 @@
 #define KANON_KRPC_RPCHANNLE_H_
 
 #include <atomic>
+#include <memory>
 #include <unordered_map>
 
 // ProtobufCodec<> need class definition for following reasons:
@@ -133,6 +134,9 @@ class RpcChannel
    */
   std::unordered_map<IdType, OutstandingCall> outstanding_calls_;
 
+  /** The deadline timers outlive the channel, they hold this weakly */
+  std::shared_ptr<void> alive_ = std::make_shared<char>();
+
   std::unordered_map<IdType, OutstandingCall> canceling_calls_;
 };
 
-- 
2.43.0


From 8fa258046dafbd23edaf9ad6aff07cf62b091106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 141/167] fix: A call with a deadline beyond the range of
 TimeStamp expired at once

---
 kanon/rpc/rpc_channel.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index c465bcd..11d100e 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -1,3 +1,5 @@
+#include <stdint.h>
+
 #include <functional>
 
 #include <google/protobuf/service.h>
@@ -96,7 +98,8 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
 
   codec_.Send(conn_, &message);
 
-  if (message.has_deadline()) {
+  // A later deadline is beyond the range of TimeStamp
+  if (message.has_deadline() && message.deadline() <= INT64_MAX / 1000) {
     auto id = message.id();
     std::weak_ptr<void> alive = alive_;
     conn_->GetLoop()->RunAt(
-- 
2.43.0


From acdae2400e4ef7e5e5de6fcd3f9de9f6f406ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 142/167] fix: RpcChannel leaked the request and response of an
 invalid request

---
 kanon/rpc/rpc_channel.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 11d100e..f336830 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -287,11 +287,8 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
         // request only used in specific method
         // but the response will used in "done" callback
         // then free it in SendRpcResponse
-        auto request = service->GetRequestPrototype(method).New();
-
-        // response's lifetime managed by SendRpcResponse()
-        // prototype pattern
-        Message *response = service->GetResponsePrototype(method).New();
+        std::unique_ptr<Message> request(
+            service->GetRequestPrototype(method).New());
 
         if (request->ParseFromString(message->request())) {
           // Closure see google/protobuf/stubs/callback.h
@@ -305,13 +302,16 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
           // derived class of Service.
           //
           // The request need managed by concrete service function
+          // The response's lifetime managed by SendRpcResponse()
+          // prototype pattern
+          Message *response = service->GetResponsePrototype(method).New();
           RpcController *controller = new RpcController;
           if (message->has_deadline()) {
             controller->SetDeadline(message->deadline());
             LOG_DEBUG_KANON_PROTOBUF_RPC << "deadline=" << controller->deadline() << " Ms";
           }
           service->CallMethod(
-              method, controller, request, response,
+              method, controller, request.release(), response,
               PROTOBUF::NewCallback(this, &RpcChannel::SendRpcResponse,
                                     response, message->id()));
         } else {
-- 
2.43.0


From c9d5c800478b017fc96aeaa50f2fbfc1cfacd91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 143/167] fix: done of a service method used the RpcChannel
 after its destruction

---
 kanon/rpc/rpc_channel.cc | 17 +++++++++++++----
 kanon/rpc/rpc_channel.h  |  3 ++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index f336830..6a50621 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -110,15 +110,19 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
   }
 }
 
-void RpcChannel::SendRpcResponse(Message *response, uint64_t id)
+void RpcChannel::SendRpcResponse(TcpConnectionPtr const &conn,
+                                 Message *response, uint64_t id)
 {
+  // The channel may be destroyed already: don't use the codec of it
+  static Codec codec;
+
   // The method is completed, fill RpcMessae and send
   RpcMessage message;
   message.set_id(id);
   message.set_response(response->SerializeAsString());
   message.set_type(RpcMessage::kResponse);
 
-  codec_.Send(conn_, &message);
+  codec.Send(conn, &message);
   // The response is new by Service::GetResponsePrototype().
   // Must delete it to avoid memory leak.
   delete response;
@@ -310,10 +314,15 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
             controller->SetDeadline(message->deadline());
             LOG_DEBUG_KANON_PROTOBUF_RPC << "deadline=" << controller->deadline() << " Ms";
           }
+          // The method may call done later, in any thread, i.e. the connection
+          // may be closed and this channel may be destroyed before.
+          const TcpConnectionPtr server_conn = conn_;
+          const uint64_t id = message->id();
           service->CallMethod(
               method, controller, request.release(), response,
-              PROTOBUF::NewCallback(this, &RpcChannel::SendRpcResponse,
-                                    response, message->id()));
+              NewCallable([server_conn, response, id]() {
+                SendRpcResponse(server_conn, response, id);
+              }));
         } else {
           error_code = RpcMessage::kInvalidRequest;
         }
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index f668a6a..4b104c4 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -97,7 +97,8 @@ class RpcChannel
    * Fill response and send
    * Used for server side
    */
-  void SendRpcResponse(PROTOBUF::Message *response, uint64_t id);
+  static void SendRpcResponse(TcpConnectionPtr const &conn,
+                              PROTOBUF::Message *response, uint64_t id);
 
  private:
   TcpConnectionPtr conn_;
-- 
2.43.0


From 190bf7278d168510cab9854ac2833dc2a82d101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 144/167] fix: RpcChannel leaked the controller of every
 request

---
 kanon/rpc/rpc_channel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 6a50621..1313662 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -309,6 +309,7 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
           // The response's lifetime managed by SendRpcResponse()
           // prototype pattern
           Message *response = service->GetResponsePrototype(method).New();
+          // The controller is valid until the method calls done
           RpcController *controller = new RpcController;
           if (message->has_deadline()) {
             controller->SetDeadline(message->deadline());
@@ -320,8 +321,9 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
           const uint64_t id = message->id();
           service->CallMethod(
               method, controller, request.release(), response,
-              NewCallable([server_conn, response, id]() {
+              NewCallable([server_conn, controller, response, id]() {
                 SendRpcResponse(server_conn, response, id);
+                delete controller;
               }));
         } else {
           error_code = RpcMessage::kInvalidRequest;
-- 
2.43.0


From 4a933a3b66fda80b95dc3b69c5156c86ffea9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 145/167] fix: RpcChannel aborted when the peer sent the
 response of no call

---
 kanon/rpc/rpc_channel.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 1313662..4f183b4 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -188,15 +188,8 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
    * 3. Call done with the response, it will process the response
    */
   if (!message->has_error()) {
-    // The response must be setted in RpcServer
-    KANON_ASSERT(message->has_response(),
-                 "Server Internal error or unknown error");
-
     const uint64_t id = message->id();
 
-    KANON_ASSERT(id <= id_, "The id in response should be not greater than the "
-                            "id_ maintained by client");
-
     // Thread safe since the CallMethod()
     // insert the outstanding_calls in the loop.
     OutstandingCall outstanding_call{nullptr, nullptr};
@@ -207,13 +200,18 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
     //              "The outstanding_call must be setted before the RpcMessage "
     //              "on_message Callback");
 
-    // If deadline is setted, may the done is erased
+    // If deadline is setted, may the done is erased.
+    // Also, the peer can send the response of no call.
     if (it == outstanding_calls_.end()) {
       return;
     }
     outstanding_call = it->second;
     outstanding_calls_.erase(it);
 
+    // The response must be setted in RpcServer
+    KANON_ASSERT(message->has_response(),
+                 "Server Internal error or unknown error");
+
     // done and response is setted by client
     KANON_ASSERT(outstanding_call.response != nullptr,
                  "response must be setted by client");
@@ -236,9 +234,10 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
     outstanding_call.done->Run();
   } else {
     // Response with error setted
+    // Ignore it if it isn't the response of a call, or the deadline of the call
+    // is expired
     const auto n = outstanding_calls_.erase(message->id());
-    KANON_UNUSED(n);
-    assert(n == 1);
+    if (n == 0) return;
 
     // Since this error is logic error(i.e. ensure it don't happened)
     LOG_FATAL << "Rpc error message from server: "
-- 
2.43.0


From 03cb1bf22e485f1aeb3e9f720e5e07df7a95c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 146/167] fix: RpcChannel aborted when the response says no
 error

---
 kanon/rpc/rpc_channel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 4f183b4..f01411f 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -187,7 +187,7 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
    * 2. Fill(/Parse) the response
    * 3. Call done with the response, it will process the response
    */
-  if (!message->has_error()) {
+  if (message->error() == RpcMessage::kNoError) {
     const uint64_t id = message->id();
 
     // Thread safe since the CallMethod()
-- 
2.43.0


From e071f4ed4ab99de1ff47e0dde00f969ba2b52673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 147/167] fix: Worker loops used the services of a destroyed
 RpcServer

---
 kanon/rpc/rpc_server.cc | 6 ++++--
 kanon/rpc/rpc_server.h  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/kanon/rpc/rpc_server.cc b/kanon/rpc/rpc_server.cc
index f3829de..1c8a9c8 100644
--- a/kanon/rpc/rpc_server.cc
+++ b/kanon/rpc/rpc_server.cc
@@ -8,11 +8,13 @@ using namespace kanon::protobuf::rpc;
 RpcServer::RpcServer(EventLoop *loop, InetAddr const &addr, StringArg name,
                      bool reuseport)
   : TcpServer(loop, addr, name, reuseport)
+  , services_(std::make_shared<RpcChannel::ServiceMap>())
 {
-  SetConnectionCallback([this](TcpConnectionPtr const &conn) {
+  auto services = services_;
+  SetConnectionCallback([services](TcpConnectionPtr const &conn) {
     if (conn->IsConnected()) {
       auto channel = new RpcChannel(conn);
-      channel->SetServices(services_);
+      channel->SetServices(*services);
       conn->SetContext(*channel);
     } else {
       auto p = AnyCast<RpcChannel>(conn->GetContext());
diff --git a/kanon/rpc/rpc_server.h b/kanon/rpc/rpc_server.h
index 96ea74f..9863c23 100644
--- a/kanon/rpc/rpc_server.h
+++ b/kanon/rpc/rpc_server.h
@@ -22,12 +22,14 @@ public:
 
   inline void AddServices(PROTOBUF::Service* service);
 private:
-  RpcChannel::ServiceMap services_;
+  /** Shared with the connection callback: the worker loops process requests
+   * until the base class is destroyed */
+  std::shared_ptr<RpcChannel::ServiceMap> services_;
 };
 
 void RpcServer::AddServices(PROTOBUF::Service* service)
 {
-  services_.emplace(service->GetDescriptor()->full_name(), service);
+  services_->emplace(service->GetDescriptor()->full_name(), service);
 }
 
 } // namespace rpc
-- 
2.43.0


From d5a34b935756ef5d4b6ab9e1bdf3ab40c866db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 148/167] fix: A call of another thread used the RpcChannel
 after its destruction

---
 kanon/rpc/rpc_channel.cc | 8 ++++++--
 kanon/rpc/rpc_channel.h  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index f01411f..1c92d2e 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -71,8 +71,12 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
       message.set_deadline(contr->deadline());
   }
 
-  conn_->GetLoop()->RunInLoop(std::bind(&RpcChannel::SendRpcRequest, this,
-                                        std::move(message), response, done));
+  // The channel may be destroyed in the loop before a call of another thread is
+  // sent
+  std::weak_ptr<void> alive = alive_;
+  conn_->GetLoop()->RunInLoop([this, alive, message, response, done]() mutable {
+    if (!alive.expired()) SendRpcRequest(message, response, done);
+  });
 }
 
 void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 4b104c4..786ce00 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -135,7 +135,8 @@ class RpcChannel
    */
   std::unordered_map<IdType, OutstandingCall> outstanding_calls_;
 
-  /** The deadline timers outlive the channel, they hold this weakly */
+  /** The deadline timers and the calls of other threads may outlive the channel,
+   * they hold this weakly */
   std::shared_ptr<void> alive_ = std::make_shared<char>();
 
   std::unordered_map<IdType, OutstandingCall> canceling_calls_;
-- 
2.43.0


From dc6d6a5ea40b2128824be3e2fb5f2124310066f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 149/167] fix: MeasureTime printed more than the given function
 name

---
 kanon/util/measure_time.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kanon/util/measure_time.h b/kanon/util/measure_time.h
index d94ee20..4af6579 100644
--- a/kanon/util/measure_time.h
+++ b/kanon/util/measure_time.h
@@ -83,25 +83,29 @@ class MeasureTime {
  private:
   void printTime(CHRONO::seconds const &dura) const
   {
-    printf("Function { %s }: %llus\n", func_name_.data(),
+    printf("Function { %.*s }: %llus\n",
+           static_cast<int>(func_name_.size()), func_name_.data(),
            static_cast<count_t>(dura.count()));
   }
 
   void printTime(CHRONO::milliseconds const &dura) const
   {
-    printf("Function { %s }: %llums\n", func_name_.data(),
+    printf("Function { %.*s }: %llums\n",
+           static_cast<int>(func_name_.size()), func_name_.data(),
            static_cast<count_t>(dura.count()));
   }
 
   void printTime(CHRONO::microseconds const &dura) const
   {
-    printf("Function { %s }: %lluus\n", func_name_.data(),
+    printf("Function { %.*s }: %lluus\n",
+           static_cast<int>(func_name_.size()), func_name_.data(),
            static_cast<count_t>(dura.count()));
   }
 
   void printTime(CHRONO::nanoseconds const &dura) const
   {
-    printf("Function { %s }: %lluns\n", func_name_.data(),
+    printf("Function { %.*s }: %lluns\n",
+           static_cast<int>(func_name_.size()), func_name_.data(),
            static_cast<count_t>(dura.count()));
   }
 
-- 
2.43.0


From 78204784b8306a898e8a5685bc5f952147e8b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 150/167] fix: SetNonBlockAndCloExec() did not set
 close-on-exec

---
 kanon/net/sock_api.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kanon/net/sock_api.cc b/kanon/net/sock_api.cc
index 1f47bb5..c693452 100644
--- a/kanon/net/sock_api.cc
+++ b/kanon/net/sock_api.cc
@@ -55,10 +55,15 @@ void sock::SetNonBlockAndCloExec(FdType fd) KANON_NOEXCEPT
   auto ret = ::fcntl(fd, F_GETFL, 0);
   if (ret < 0) LOG_SYSFATAL << "fail to get file status flag";
 
-  ret |= (O_NONBLOCK | O_CLOEXEC);
-  ret = ::fcntl(fd, F_SETFL, ret);
-  if (ret < 0)
-    LOG_SYSFATAL << "fail to set file status flag(O_NONBLOCK | O_CLOEXEC)";
+  ret = ::fcntl(fd, F_SETFL, ret | O_NONBLOCK);
+  if (ret < 0) LOG_SYSFATAL << "fail to set file status flag(O_NONBLOCK)";
+
+  // FD_CLOEXEC is a file descriptor flag, not a file status flag
+  ret = ::fcntl(fd, F_GETFD, 0);
+  if (ret < 0) LOG_SYSFATAL << "fail to get file descriptor flag";
+
+  ret = ::fcntl(fd, F_SETFD, ret | FD_CLOEXEC);
+  if (ret < 0) LOG_SYSFATAL << "fail to set file descriptor flag(FD_CLOEXEC)";
 #endif
 }
 
-- 
2.43.0


From b6f1fd81ac86bbcbf0f818e42c230248fcb28f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 151/167] fix: Copying a ReservedArray without memory crashed

---
 kanon/algo/reserved_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 3a5bbc2..2798ce1 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -127,6 +127,10 @@ class ReservedArray : protected Alloc {
     : data_(AllocTraits::allocate(*this, other.size()))
     , end_(data_ + other.size())
   {
+    if (data_ == NULL) {
+      throw std::bad_alloc{};
+    }
+
     try {
       std::uninitialized_copy(other.begin(), other.end(), data_);
     }
-- 
2.43.0


From 7250486f62de73922780a238abc0013a336089ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 152/167] fix: ReservedArray::Shrink() destroyed elements twice
 without memory

---
 kanon/algo/reserved_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 2798ce1..e661de6 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -295,8 +295,10 @@ class ReservedArray : protected Alloc {
 
     auto tmp = this->reallocate(data_, n);
 
-    if (tmp == NULL && n != 0) {
-      throw std::bad_alloc{};
+    // The elements are destroyed already, and the old memory block(not freed)
+    // is large enough
+    if (tmp == NULL) {
+      tmp = data_;
     }
 
     if (n == 0) {
-- 
2.43.0


From bf233da777af7424ac4bdd38d34d500f88f61ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 153/167] fix: A too large ReservedArray got too little memory

---
 kanon/algo/libc_allocator_with_realloc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/algo/libc_allocator_with_realloc.h b/kanon/algo/libc_allocator_with_realloc.h
index 0595047..5a1be58 100644
--- a/kanon/algo/libc_allocator_with_realloc.h
+++ b/kanon/algo/libc_allocator_with_realloc.h
@@ -49,10 +49,12 @@ class LibcAllocatorWithRealloc {
   const_pointer address(const_reference x) KANON_NOEXCEPT { return &x; }
   
   T* allocate(size_type n) KANON_NOEXCEPT {
+    if (n > static_cast<size_type>(-1) / sizeof(T)) return NULL;
     return reinterpret_cast<T*>(::malloc(n*sizeof(T))); 
   }
   
   T* reallocate(pointer p, size_type n) KANON_NOEXCEPT {
+    if (n > static_cast<size_type>(-1) / sizeof(T)) return NULL;
     return reinterpret_cast<T*>(::realloc(p, n*sizeof(T))); 
   } 
 
-- 
2.43.0


From 2d26be3582da86418af40b4de31789b21d98b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 154/167] fix: A too large FixedVector got too little memory

---
 kanon/algo/fixed_vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/algo/fixed_vector.h b/kanon/algo/fixed_vector.h
index 73a9088..433e867 100644
--- a/kanon/algo/fixed_vector.h
+++ b/kanon/algo/fixed_vector.h
@@ -17,6 +17,10 @@ public:
   : data_(nullptr)
   , size_(size)
   {
+    if (size > static_cast<size_t>(-1) / sizeof(T)) {
+      throw std::bad_alloc();
+    }
+
     data_ = static_cast<T*>(::malloc(sizeof(T)*size));
 
     if (!data_) {
-- 
2.43.0


From 227501f64c47310967c8cca19adcd79cc0a52aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 155/167] fix: ObjectPoolAllocator returned a null pointer
 without memory

---
 kanon/mem/object_pool_allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/mem/object_pool_allocator.h b/kanon/mem/object_pool_allocator.h
index c083abe..6372702 100644
--- a/kanon/mem/object_pool_allocator.h
+++ b/kanon/mem/object_pool_allocator.h
@@ -1,6 +1,8 @@
 #ifndef KANON_OBJECT_POOL_ALLOCATOR_H__
 #define KANON_OBJECT_POOL_ALLOCATOR_H__
 
+#include <new> // std::bad_alloc
+
 #include "fixed_chunk_memory_pool.h"
 
 #include "kanon/zstl/type_traits.h"
@@ -43,7 +45,9 @@ class ObjectPoolAllocator {
   T *allocate(size_type n)
   {
     if (n > 1) throw "";
-    return reinterpret_cast<T*>(pool_->Malloc(sizeof(T)));
+    auto ptr = pool_->Malloc(sizeof(T));
+    if (!ptr) throw std::bad_alloc();
+    return reinterpret_cast<T*>(ptr);
   }
 
   void deallocate(pointer p, size_type n) KANON_NOEXCEPT {
-- 
2.43.0


From 45e11ae1a3d890f29381ac872b52d2b7f6c8d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:45 +0000
Subject: [PATCH 156/167] fix: ReservedArray computed with a null pointer
 without memory

---
 kanon/algo/reserved_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index e661de6..28b435a 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -107,12 +107,13 @@ class ReservedArray : protected Alloc {
 
   explicit ReservedArray(size_type n)
     : data_(AllocTraits::allocate(*this, n))
-    , end_(data_ + n)
+    , end_(data_)
   {
     if (data_ == NULL) {
       throw std::bad_alloc{};
     }
 
+    end_ = data_ + n;
     try {
       zstl::UninitializedDefaultConstruct(data_, end_);
     }
@@ -125,12 +126,13 @@ class ReservedArray : protected Alloc {
 
   ReservedArray(ReservedArray const &other)
     : data_(AllocTraits::allocate(*this, other.size()))
-    , end_(data_ + other.size())
+    , end_(data_)
   {
     if (data_ == NULL) {
       throw std::bad_alloc{};
     }
 
+    end_ = data_ + other.size();
     try {
       std::uninitialized_copy(other.begin(), other.end(), data_);
     }
-- 
2.43.0


From 221eead4e8c03c5c5e085a64fcf04951eaf8d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 157/167] fix: ForwardList leaked the node of an element whose
 constructor throws

---
 kanon/algo/forward_list.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 104b1bf..d2be251 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -494,7 +494,12 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
     auto node = AllocTraits::allocate(*this, sizeof(Node) + sz);
 
     node->next = nullptr;
-    AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
+    try {
+      AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
+    } catch (...) {
+      AllocTraits::deallocate(*this, node, sizeof(Node) + sz);
+      throw;
+    }
 
     return node;
   }
-- 
2.43.0


From 4f600c2b1ef828bf7186ec2b0f6cb14fe0094e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 158/167] fix: The constructors of ForwardList leaked the
 elements if one throws

---
 kanon/algo/forward_list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index d2be251..a37433d 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -121,7 +121,10 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE ForwardList() = default;
 
+  // The elements inserted so far must be dropped if an exception is thrown,
+  // so these constructors delegate to the default one
   KANON_INLINE explicit ForwardList(SizeType n, ValueType const &val = {})
+    : ForwardList()
   {
     insert_after(cbefore_begin(), n, val);
   }
@@ -130,6 +133,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
             typename = zstl::enable_if_t<
                 zstl::is_input_iterator<InputIterator>::value>>
   KANON_INLINE ForwardList(InputIterator first, InputIterator last)
+    : ForwardList()
   {
     insert_after(cbefore_begin(), first, last);
   }
@@ -146,7 +150,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   KANON_INLINE ~ForwardList() KANON_NOEXCEPT { clear(); }
 
   KANON_INLINE ForwardList(ForwardList const &other)
-    : Base()
+    : ForwardList()
   {
     insert_after(cbefore_begin(), other.cbegin(), other.cend());
   }
-- 
2.43.0


From 9533c56c4c21440595ee329f7bd6d116b8ce30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 159/167] fix: ForwardList::assign() destroyed elements before
 copying them or others

---
 kanon/algo/forward_list/forward_list_impl.h | 43 +++------------------
 1 file changed, 6 insertions(+), 37 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 38626e3..e3c381a 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -41,49 +41,18 @@ void FORWARD_LIST_TEMPLATE::resize(SizeType n, ValueType const &val)
 FORWARD_LIST_TEMPLATE_LIST
 void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
 {
-  Iterator beg;
-  for (beg = before_begin(); count != 0 && beg.next() != end(); ++beg) {
-    AllocTraits::destroy(*this, &*beg.next());
-    AllocTraits::construct(*this, &*beg.next(), value);
-    --count;
-  }
-
-  // count > size()
-  if (count > 0) {
-    while (count--) {
-      push_front(value);
-    }
-  } else {
-    // count <= size()
-    while (beg.next() != end()) {
-      erase_after(beg);
-    }
-  }
+  // The value may be an element of this list, and copying it may throw
+  Self list(count, value);
+  this->swap(list);
 }
 
 FORWARD_LIST_TEMPLATE_LIST
 template <typename InputIterator, typename>
 void FORWARD_LIST_TEMPLATE::assign(InputIterator first, InputIterator last)
 {
-  Iterator beg;
-  for (beg = before_begin(); beg.next() != end() && first != last;
-       ++beg, ++first) {
-    AllocTraits::destroy(*this, &*beg.next());
-    AllocTraits::construct(*this, &*beg.next(), *first);
-  }
-
-  // size() < distance(first, last)
-  if (beg.next() == end()) {
-    while (first != last) {
-      // insert_after(beg, *first);
-      push_back(*first++);
-    }
-  } else if (first == last) {
-    // size() > distance(first, last)
-    while (beg.next() != end()) {
-      erase_after(beg);
-    }
-  }
+  // The range may be a part of this list, and copying elements may throw
+  Self list(first, last);
+  this->swap(list);
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From 5c0b85b220be79e83bd5b5cca41ab3da20f12ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 160/167] fix: ForwardList::remove() compared with an element
 it had destroyed

---
 kanon/algo/forward_list/forward_list_impl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index e3c381a..f2e836b 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -340,16 +340,16 @@ FORWARD_LIST_TEMPLATE_LIST
 template <typename UnaryPred>
 auto FORWARD_LIST_TEMPLATE::remove_if(UnaryPred pred) -> SizeType
 {
-  SizeType count = 0;
+  // The predicate may refer to an element of this list, e.g. remove(front())
+  Self removed;
 
   auto it = search_before(pred);
   while (it != end()) {
-    ++count;
-    erase_after(it);
+    removed.push_front(extract_after(it));
     it = search_before(pred, it);
   }
 
-  return count;
+  return removed.size();
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From 66cebf9b55446f3f48efcf584ed0fbfa85c26a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 161/167] fix: ForwardList::merge() with itself lost the
 elements

---
 kanon/algo/forward_list/forward_list_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index f2e836b..a303ed7 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -265,7 +265,7 @@ FORWARD_LIST_TEMPLATE_LIST
 template <typename BinaryPred>
 void FORWARD_LIST_TEMPLATE::merge(Self &list, BinaryPred pred)
 {
-  if (list.empty()) return;
+  if (this == &list || list.empty()) return;
 
   BaseNode *beg = &header_;
   BaseNode *obeg = &list.header_;
-- 
2.43.0


From 39c46977f826feccfcfee6cfe3fff8d112615190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 162/167] fix: LinearFixedMemoryPool took too little memory or
 lost it without memory

---
 kanon/mem/linear_fixed_memory_pool.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/kanon/mem/linear_fixed_memory_pool.h b/kanon/mem/linear_fixed_memory_pool.h
index 73226d5..45995a5 100644
--- a/kanon/mem/linear_fixed_memory_pool.h
+++ b/kanon/mem/linear_fixed_memory_pool.h
@@ -4,6 +4,7 @@
 #include <stdlib.h>
 #include <assert.h>
 
+#include <new>
 #include <stdexcept>
 #include <unordered_set>
 #include <vector>
@@ -84,6 +85,10 @@ class LinearFixedMemoryPool {
 
   void AddPool(size_t size)
   {
+    if (size > static_cast<size_t>(-1) / BLOCK_SIZE) {
+      throw std::bad_alloc{};
+    }
+
     pools_.reserve(pools_.size() + 1);
     auto pool = static_cast<T*>(malloc(size * BLOCK_SIZE));
     if (pool == nullptr) {
@@ -91,8 +96,16 @@ class LinearFixedMemoryPool {
     }
 
     pools_.push_back(Pool{pool, size});
-    for (size_t i = 0; i < size; ++i)
-      free_hset_.insert(pool + i);
+    try {
+      for (size_t i = 0; i < size; ++i)
+        free_hset_.insert(pool + i);
+    } catch (...) {
+      for (size_t i = 0; i < size; ++i)
+        free_hset_.erase(pool + i);
+      pools_.pop_back();
+      free(pool);
+      throw;
+    }
     size_ += size;
   }
 
-- 
2.43.0


From f5c70adc15015db54e15ce76b701a43dc5cf6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 163/167] fix: FixedChunkMemoryPool took too little memory for
 chunks or blocks that are too large

---
 kanon/mem/fixed_chunk_memory_pool.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 1b21ffe..80336dc 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -13,6 +13,8 @@ using namespace kanon;
 #define BLOCK_SPACE(sz, n) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (n))
 #define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : (ROUNDUP16(sz + CHUNK_NEXT_OFFSET) - CHUNK_NEXT_OFFSET))
 #define CHECK_ALIGNED(sz) (sz >= 8)
+/* The aligned size must not overflow */
+#define MAX_CHUNK_SIZE (static_cast<size_t>(-1) - CHUNK_NEXT_OFFSET - 16)
 
 FixedChunkMemoryPool::FixedChunkMemoryPool(size_t chunk_per_block)
   : chunk_per_block_(chunk_per_block)
@@ -34,7 +36,7 @@ FixedChunkMemoryPool::~FixedChunkMemoryPool() KANON_NOEXCEPT
 
 void *FixedChunkMemoryPool::Malloc(size_t sz)
 {
-  if (sz == 0) return nullptr;
+  if (sz == 0 || sz > MAX_CHUNK_SIZE) return nullptr;
 
   /* Align to the size of pointer at least
    * since the space of `next` must greater than the object size */
@@ -132,6 +134,10 @@ size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
 auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 {
   assert(CHECK_ALIGNED(sz));
+  /* The space of the block can't be represented */
+  if (chunk_per_block_ > (static_cast<size_t>(-1) - sizeof(Block)) / (CHUNK_NEXT_OFFSET + sz))
+    return nullptr;
+
   auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz, chunk_per_block_)));
   if (!header) return nullptr;
   
-- 
2.43.0


From ae891be0a84d8e26b99ca8275257a5e6e4ce62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:48 +0000
Subject: [PATCH 164/167] fix: Any and UniqueAny took a container of themselves
 for a list of its elements

---
 kanon/util/any.h        | 4 ++--
 kanon/util/unique_any.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index 9e6a62d..70d5116 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -161,7 +161,7 @@ class Any final {
     ~Holder() = default;
 
     Holder(V const &v)
-      : holder_{v}
+      : holder_(v)
     {
     }
 
@@ -169,7 +169,7 @@ class Any final {
 
     /* Don't mark KANON_NOEXCEPT */
     Holder(V &&v)
-      : holder_{std::move(v)}
+      : holder_(std::move(v))
     {
     }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 51c4fe9..d9c6387 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -126,7 +126,7 @@ class UniqueAny final {
     Holder &operator=(Holder const &) = delete;
 
     Holder(V &&v)
-      : holder_{std::move(v)}
+      : holder_(std::move(v))
     {
     }
 
-- 
2.43.0


From 5cc0588d220dc7acba2aeca1ef90f407c148a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 165/167] fix: optional made a list of the container it is
 given

---
 kanon/util/optional.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index e182c13..510b441 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -49,6 +49,22 @@ template <typename T>
 struct remove_cvref
   : std::remove_cv<typename std::remove_reference<T>::type> {};
 
+// T(value), for a container T{value} may be a list that contains the value.
+// The aggregate has no such constructor.
+template <typename T, typename U>
+typename std::enable_if<std::is_constructible<T, U &&>::value, T>::type
+make_value(U &&value)
+{
+  return T(std::forward<U>(value));
+}
+
+template <typename T, typename U>
+typename std::enable_if<!std::is_constructible<T, U &&>::value, T>::type
+make_value(U &&value)
+{
+  return T{std::forward<U>(value)};
+}
+
 } // namespace detail
 
 template <typename T>
@@ -71,7 +87,7 @@ class optional {
   template <typename U = T,
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional(U &&value)
-    : opt_{Rep{true, T{std::forward<U>(value)}}}
+    : opt_{Rep{true, detail::make_value<T>(std::forward<U>(value))}}
   {
   }
 
@@ -115,7 +131,7 @@ class optional {
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional &operator=(U &&other)
   {
-    opt_ = Rep{true, T{std::forward<U>(other)}};
+    opt_ = Rep{true, detail::make_value<T>(std::forward<U>(other))};
     return *this;
   }
 
-- 
2.43.0


From 8955a916611187d537392c65cb1062f94d995317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 166/167] fix: optional had a value after the assignment of one
 threw

---
 kanon/util/optional.h | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 510b441..c000b85 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -2,7 +2,7 @@
 #define KANON_UTIL_OPTIONAL_H
 
 // This is dummy optional.
-// It is a wrapper of std::pair<bool, Result>
+// It is a wrapper of std::pair<Result, bool>
 //
 // before c++17, you can use boost::optional or absl::optional
 // but I don't import them since this is just a base tool for some places
@@ -75,19 +75,20 @@ struct is_optional
 template <typename T>
 class optional {
   typedef optional<T> Self;
-  typedef std::pair<bool, T> Rep;
+  // The value comes first: it is assigned first, and its assignment may throw
+  typedef std::pair<T, bool> Rep;
 
  public:
   template <typename = typename std::enable_if<
                 std::is_default_constructible<T>::value>::type>
-  optional() KANON_NOEXCEPT : opt_{Rep{false, T{}}}
+  optional() KANON_NOEXCEPT : opt_{Rep{T{}, false}}
   {
   }
 
   template <typename U = T,
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional(U &&value)
-    : opt_{Rep{true, detail::make_value<T>(std::forward<U>(value))}}
+    : opt_{Rep{detail::make_value<T>(std::forward<U>(value)), true}}
   {
   }
 
@@ -97,15 +98,15 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{other.has_value() ? Rep{true, T(other.value())}
-                             : Rep{false, T{}}}
+    : opt_{other.has_value() ? Rep{T(other.value()), true}
+                             : Rep{T{}, false}}
   {
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{other.has_value() ? Rep{true, T(std::move(other.value()))}
-                             : Rep{false, T{}}}
+    : opt_{other.has_value() ? Rep{T(std::move(other.value())), true}
+                             : Rep{T{}, false}}
   {
   }
 
@@ -131,50 +132,50 @@ class optional {
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional &operator=(U &&other)
   {
-    opt_ = Rep{true, detail::make_value<T>(std::forward<U>(other))};
+    opt_ = Rep{detail::make_value<T>(std::forward<U>(other)), true};
     return *this;
   }
 
-  operator bool() const KANON_NOEXCEPT { return opt_.first; }
+  operator bool() const KANON_NOEXCEPT { return opt_.second; }
 
-  bool has_value() const KANON_NOEXCEPT { return opt_.first; }
+  bool has_value() const KANON_NOEXCEPT { return opt_.second; }
 
   // if has_value() is false
   // should throw bad_optional_access exception
   T const &value() const &
   {
     assert(has_value());
-    return opt_.second;
+    return opt_.first;
   }
 
   T &value() &
   {
     assert(has_value());
-    return opt_.second;
+    return opt_.first;
   }
 
   T const &&value() const &&
   {
     assert(has_value());
-    return std::move(opt_.second);
+    return std::move(opt_.first);
   }
 
   T &&value() &&
   {
     assert(has_value());
-    return std::move(opt_.second);
+    return std::move(opt_.first);
   }
 
   T const *operator->() const KANON_NOEXCEPT
   {
     assert(has_value());
-    return std::addressof(opt_.second);
+    return std::addressof(opt_.first);
   }
 
   T *operator->() KANON_NOEXCEPT
   {
     assert(has_value());
-    return std::addressof(opt_.second);
+    return std::addressof(opt_.first);
   }
 
   T const &operator*() const &KANON_NOEXCEPT { return value(); }
@@ -185,10 +186,10 @@ class optional {
 
   T &&operator*() && KANON_NOEXCEPT { return std::move(value()); }
 
-  void SetInvalid() KANON_NOEXCEPT { opt_.first = false; }
+  void SetInvalid() KANON_NOEXCEPT { opt_.second = false; }
 
  private:
-  std::pair<bool, T> opt_;
+  Rep opt_;
 };
 
 template <typename T>
-- 
2.43.0


From 6caf74296cdce01647660a772b85bbad28aab476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:29 +0000
Subject: [PATCH 167/167] fix: make_unique() of an array left its elements
 uninitialized before C++14

---
 kanon/util/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/util/ptr.h b/kanon/util/ptr.h
index 3348eec..2e334d2 100644
--- a/kanon/util/ptr.h
+++ b/kanon/util/ptr.h
@@ -29,7 +29,7 @@ template <typename T,
           typename std::enable_if<Is_unbounded_array<T>::value, int>::type = 0>
 KANON_INLINE std::unique_ptr<T> make_unique(size_t num)
 {
-  return std::unique_ptr<T>(new typename std::remove_extent<T>::type[num]);
+  return std::unique_ptr<T>(new typename std::remove_extent<T>::type[num]());
 }
 
 #elif defined(CXX_STANDARD_14)
-- 
2.43.0


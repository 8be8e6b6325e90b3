From 4442f319144ff73ca0f302c7874522aa93d71400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:43 +0000
Subject: [PATCH 001/194] hook: report inline assembly atomics to a model
 checker (BSS_MODEL_CHECK)

---
 include/bss-util/lockless.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..f6b344e 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -22,6 +22,13 @@
 
 // These are all implemented using compiler intrinsics on MS compilers because the inline assembly does not behave well when inlined. GCC 
 // intrinsics are not used due to inconsistent locking barriers, and the wide availability of standardized inline assembly for them.
+#ifdef BSS_MODEL_CHECK // Inline assembly is invisible to compiler instrumentation, so a model checker is told about it through this hook.
+extern "C" void bss_mc_point(const volatile void* p, size_t size);
+#define BSS_MC_POINT(p, size) bss_mc_point(p, size)
+#else
+#define BSS_MC_POINT(p, size)
+#endif
+
 namespace bss {
   template<typename T> struct bss_PTag { T* p; size_t tag; }; // Stores a pointer and a tag value
 
@@ -274,12 +281,14 @@ namespace bss {
   template<typename T> // This performs an atomic addition, and returns the value of the variable BEFORE the addition. This is faster if p is 32-bit aligned.
   BSS_FORCEINLINE T atomic_xadd(volatile T* p, T val = 1)
   {
+    BSS_MC_POINT(p, sizeof(T));
     return internal::ATOMIC_XADDPICK<T, sizeof(T)>::atomic_xadd(p, val);
   }
 
   template<typename T> // This performs an atomic exchange, and returns the old value of *p. This is faster if p is 32-bit aligned.
   BSS_FORCEINLINE T atomic_xchg(volatile T* p, T val)
   {
+    BSS_MC_POINT(p, sizeof(T));
     return internal::ATOMIC_XCHGPICK<T, sizeof(T)>::atomic_xchg(p, val);
   }
 
@@ -302,12 +311,14 @@ namespace bss {
   template<typename T>
   inline bool asmbts(T* pval, T bit)
   {
+    BSS_MC_POINT(pval, sizeof(T));
     return internal::ASMBTS_PICK<T, sizeof(T)>::asmbts(pval, bit);
   }
 
   template<typename T>
   inline bool asmbtr(T* pval, T bit)
   {
+    BSS_MC_POINT(pval, sizeof(T));
     return internal::ASMBTR_PICK<T, sizeof(T)>::asmbtr(pval, bit);
   }
 
-- 
2.43.0


From e2a564e3b66cffaa2630747f980b08cf06772d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 002/194] fix: give bts/btr an explicit operand size and a
 memory clobber

Without a suffix the assembler picks the 32 bit form whenever the bit index is
an immediate, so optimised builds of RWLock set bit 31 instead of bit 63 and
Lock() never returns. Without the clobber the compiler may move accesses of the
protected data out of the critical section.
---
 include/bss-util/lockless.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index f6b344e..1459b71 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -218,10 +218,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
@@ -230,10 +231,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
@@ -255,10 +257,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
@@ -267,10 +270,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
-- 
2.43.0


From e2dd6dcf6a9219465546cdbce207db157c1dd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:11 +0000
Subject: [PATCH 003/194] fix: 4 byte compare-and-swap must not operate on 8
 bytes

long is 8 bytes on 64 bit Linux, so asmcas/asmcasr on a 4 byte type compared and
overwrote the neighbouring 4 bytes as well.
---
 include/bss-util/lockless.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index 1459b71..50dfe53 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -145,7 +145,7 @@ namespace bss {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 4> {
-      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
+      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 8> {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval) != 0; }
@@ -190,7 +190,7 @@ namespace bss {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(short*)&retval = __sync_val_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval); return *(int16_t*)&retval == *(int16_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 4> {
-      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long*)&retval = __sync_val_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
+      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(int32_t*)&retval = __sync_val_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 8> {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long long*)&retval = __sync_val_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval); return *(int64_t*)&retval == *(int64_t*)&oldval; }
-- 
2.43.0


From 26fa263ed8513fbd5df6f94069a04a7b71d9f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:19 +0000
Subject: [PATCH 004/194] fix: the default allocator of LocklessQueue must be a
 multithreaded one

All default constructed queues of one element type share one static policy, so
producers of two different queues corrupted the single-threaded free list.
---
 include/bss-util/LocklessQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 0e0a706..90ca025 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -40,8 +40,9 @@ namespace bss {
     };
   }
 
-  // Single-producer single-consumer lockless queue implemented in such a way that it can use a normal single-threaded allocator
-  template<typename T, typename LENGTH = void, typename Alloc = PolymorphicAllocator<internal::LQ_QNode<T>, BlockPolicy>>
+  // Single-producer single-consumer lockless queue implemented in such a way that it can use a normal single-threaded allocator, provided that
+  // allocator isn't shared with another queue. The default policy is shared by all queues of the same type, so it must be a multithreaded one.
+  template<typename T, typename LENGTH = void, typename Alloc = PolymorphicAllocator<internal::LQ_QNode<T>, LocklessBlockPolicy>>
   class LocklessQueue : public internal::LocklessQueue_Length<LENGTH>, public Alloc
   {
     typedef internal::LQ_QNode<T> QNODE;
-- 
2.43.0


From 4963662b5e4fec0e11982699227cf2123566c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 005/194] fix: MicroLockQueue must not look at _div->next
 without holding the consumer flag

The node can be released and reused by another consumer, so Pop() and Peek()
reported an empty queue that was never empty, or touched released memory.
---
 include/bss-util/LocklessQueue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 90ca025..d2297e5 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -169,8 +169,6 @@ namespace bss {
     BSS_FORCEINLINE void Push(T&& item) { _produce<T&&>(std::move(item)); }
     inline bool Pop(T& result)
     {
-      if(!_div->next) return false; // Remove some contending pressure
-
       while(_cflag.test_and_set(std::memory_order_acquire));
       QNODE* ref = _div;
       QNODE* n = _div->next;
@@ -189,7 +187,13 @@ namespace bss {
       _cflag.clear(std::memory_order_release);
       return false;
     }
-    inline bool Peek() { return _div->next != 0; }
+    inline bool Peek()
+    {
+      while(_cflag.test_and_set(std::memory_order_acquire)); // _div can be released and reused by a consumer at any point unless we hold this
+      bool r = _div->next != 0;
+      _cflag.clear(std::memory_order_release);
+      return r;
+    }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From a8cd8556a3f107cb7a1842acdf6c3edebeb71eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:38 +0000
Subject: [PATCH 006/194] fix: normalize the deadline of Thread::join(timeout)

Whenever the current nanoseconds plus the timeout crossed a second boundary,
pthread_timedjoin_np rejected the deadline and join reported a timeout at once.
---
 include/bss-util/Thread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/Thread.h b/include/bss-util/Thread.h
index 1235749..5573df4 100644
--- a/include/bss-util/Thread.h
+++ b/include/bss-util/Thread.h
@@ -93,6 +93,11 @@ namespace bss {
         {
           ts.tv_sec += mstimeout / 1000;
           ts.tv_nsec += (mstimeout % 1000) * 1000000;
+          if(ts.tv_nsec >= 1000000000) // The system rejects deadlines that aren't normalized
+          {
+            ts.tv_nsec -= 1000000000;
+            ++ts.tv_sec;
+          }
           if(pthread_timedjoin_np(native_handle(), (void**)&ret, &ts) != 0) // size_t is defined as being big enough to hold a pointer
             return (size_t)~0;
         }
-- 
2.43.0


From b99abc1e46e786ae95c3342bd211630518670db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:33 +0000
Subject: [PATCH 007/194] fix: self-assignment of Array and DynArray must keep
 the elements

---
 include/bss-util/Array.h    | 2 ++
 include/bss-util/DynArray.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 261411f..7676111 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -342,6 +342,8 @@ namespace bss {
 
     BSS_FORCEINLINE Array& operator=(const Array& copy) noexcept
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::_setCapacityDiscard(copy._capacity);
       BASE::_copy(_array, copy._array, _capacity);
diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..71261c0 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -98,6 +98,8 @@ namespace bss {
     inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _length, 0);
       if(copy._length > _capacity)
         BASE::_setCapacityDiscard(copy._capacity);
-- 
2.43.0


From 112ced394ee1b6befc5dbc480b96544ed6e98142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 008/194] fix: CompactArray from a short initializer list must
 fill the internal storage

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 868f7ff..278fdfe 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -46,7 +46,7 @@ namespace bss {
       CT len = Length();
 
       for(auto i = list.begin(); i != end && j < len; ++i)
-        new(_array + (j++)) T(*i);
+        new(begin() + (j++)) T(*i);
     }
     inline ~CompactArray() 
     { 
-- 
2.43.0


From 84293d7d722761cc21189b72d40d4c41d7644c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:14 +0000
Subject: [PATCH 009/194] fix: CompactArray::SetCapacity must not shrink the
 storage below the elements it holds

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 278fdfe..c03307a 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -85,7 +85,7 @@ namespace bss {
     }
     inline void SetCapacity(CT capacity)
     {
-      if(capacity > I)
+      if(capacity > Capacity())
       {
         capacity = T_FBNEXT(capacity);
 
-- 
2.43.0


From 2f28cb20dbd1aaabc8db0fc16fee90c1a89ce704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:21 +0000
Subject: [PATCH 010/194] fix: DynArray<bool> const Front/Back, AddConstruct,
 SetCapacity and copy assignment must address bits, not bytes

---
 include/bss-util/DynArray.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 71261c0..b71248a 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -193,7 +193,7 @@ namespace bss {
     }
     inline ~DynArray() {}
     BSS_FORCEINLINE CT Add(bool item) { _checkSize(); GetBit(_length++) = item; return _length - 1; }
-    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); _array[_length] = false; return _length++; }
+    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); GetBit(_length) = false; return _length++; }
     inline void Remove(CT index)
     {
       assert(index < _length);
@@ -215,7 +215,7 @@ namespace bss {
       for(CT i = _length; i < length; ++i) GetBit(i) = false;
       _length = length;
     }
-    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) SetCapacity(capacity); }
+    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) BASE::_setCapacity(capacity); }
     inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }
     CT CountBits(CT bitindex, CT length) const
     {
@@ -240,8 +240,8 @@ namespace bss {
     }
     BSS_FORCEINLINE CT Length() const { return _length; }
     BSS_FORCEINLINE CT Capacity() const { return _capacity*DIV_AMT; }
-    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return _array[0]; }
-    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return _array[_length - 1]; }
+    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return operator[](0); }
+    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return operator[](_length - 1); }
     BSS_FORCEINLINE BITREF Front() { assert(_length > 0); return GetBit(0); }
     BSS_FORCEINLINE BITREF Back() { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
@@ -258,7 +258,7 @@ namespace bss {
     {
       if(copy._length > (_capacity*DIV_AMT))
         BASE::_setCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(STORE));
+      memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));
       _length = copy._length;
       return *this;
     }
-- 
2.43.0


From d9cbe8c2861a3a97238734c0dfe5b67c9a1d5a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:21 +0000
Subject: [PATCH 011/194] fix: BitStream::Read must not mix old contents of the
 destination into the last bits

---
 include/bss-util/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 0385f31..721b333 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -64,7 +64,7 @@ namespace bss {
       if(!i)
         return;
 
-      d[k] |= (_base->peek() >> _roffset);
+      d[k] = (_base->peek() >> _roffset);
 
       if((_roffset + i) >= 8) // We ran over our current character
       {
-- 
2.43.0


From 7a5e40538030e81629cc99843784f0180f97d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:21 +0000
Subject: [PATCH 012/194] fix: ArbitraryArray::Add must grow when the remaining
 capacity is smaller than one element

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index b71248a..e834888 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -356,7 +356,7 @@ namespace bss {
     template<typename T>
     inline CT Add(const T& item)
     {
-      if((_length*_element) >= _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
+      if(((_length + 1)*_element) > _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
       memcpy(_array + (_length*_element), &item, std::min<CT>(sizeof(T), _element));
       return _length++;
     }
-- 
2.43.0


From 624ad167b8e49fc3dcfbc4922053908ae45624b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:21 +0000
Subject: [PATCH 013/194] fix: a moved-from ArbitraryArray must be empty

---
 include/bss-util/DynArray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index e834888..43f7d97 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -351,7 +351,7 @@ namespace bss {
 
   public:
     inline ArbitraryArray(const ArbitraryArray& copy) : BASE(copy._capacity), _length(copy._length), _element(copy._element) { memcpy(_array, copy._array, _length*_element); }
-    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) {}
+    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) { mov._length = 0; }
     inline ArbitraryArray(CT size = 0, CT element = 1) : BASE(size*element), _length(0), _element(element) {}
     template<typename T>
     inline CT Add(const T& item)
@@ -442,6 +442,7 @@ namespace bss {
       BASE::operator=(std::move(mov)); 
       _length = mov._length;
       _element = mov._element; 
+      mov._length = 0;
       return *this; 
     }
 
-- 
2.43.0


From f9141144652aac3d84cbc6394ab9381d0793bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:35 +0000
Subject: [PATCH 014/194] fix: DynArray<bool>::Insert must carry the original
 top bit of every byte

---
 include/bss-util/DynArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 43f7d97..658191b 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -319,12 +319,12 @@ namespace bss {
       STORE mask = (STORE)(~0) << off;
       STORE store = _array[ind];
       _array[ind] = ((_array[ind] & mask) << 1) | (_array[ind] & (~mask));
-      STORE test = _array[ind];
 
       for(CT i = ind + 1; i < len; ++i)
       {
+        STORE next = _array[i];
         _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
-        store = _array[i];
+        store = next;
       }
     }
 
-- 
2.43.0


From 2485a382607daf38546ac99b4e90526f84c4c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 015/194] fix: self-assignment of ArrayCircular must keep the
 elements

---
 include/bss-util/ArrayCircular.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 3f7fa0d..e0ff6b1 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -100,6 +100,8 @@ namespace bss {
     BSS_FORCEINLINE const T& operator[](CT index) const { return _array[_modIndex(index)]; }
     inline ArrayCircular& operator=(const ArrayCircular& right)
     {
+      if(this == &right)
+        return *this;
       Clear();
       BASE::_setCapacityDiscard(right._capacity);
       _cur = right._cur;
-- 
2.43.0


From eafff5d0be2cb3637a05192e340d60477c040642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 016/194] fix: Queue::Discard must destroy the element it
 discards

---
 include/bss-util/Queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Queue.h b/include/bss-util/Queue.h
index af98476..7154fe9 100644
--- a/include/bss-util/Queue.h
+++ b/include/bss-util/Queue.h
@@ -30,7 +30,7 @@ namespace bss {
     // Peeks at the value at the top of the queue but does not remove it. If there is no value, this is an illegal call.
     BSS_FORCEINLINE T& Peek() { assert(_length != 0); return BASE::Back(); }
     BSS_FORCEINLINE const T& Peek() const { assert(_length != 0); return BASE::Back(); }
-    BSS_FORCEINLINE void Discard() { --_length; }
+    BSS_FORCEINLINE void Discard() { assert(_length != 0); BASE::PopBack(); }
     // Returns true if there are no values in the queue (indicating that Pop() and Peek() cannot be called)
     BSS_FORCEINLINE bool Empty() { return !_length; }
     BSS_FORCEINLINE void Clear() { BASE::Clear(); }
-- 
2.43.0


From 77b69d5e8c525fa83d2d50ad6506a8ab44f50338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 017/194] fix: Stack could not be copied or moved

---
 include/bss-util/Stack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Stack.h b/include/bss-util/Stack.h
index 9d853d6..8b8a822 100644
--- a/include/bss-util/Stack.h
+++ b/include/bss-util/Stack.h
@@ -12,8 +12,8 @@ namespace bss {
   class BSS_COMPILER_DLLEXPORT Stack
   {
   public:
-    inline Stack(const Stack& copy) : _array(copy) {}
-    inline Stack(Stack&& mov) : _array(std::move(mov)) {}
+    inline Stack(const Stack& copy) : _array(copy._array) {}
+    inline Stack(Stack&& mov) : _array(std::move(mov._array)) {}
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Stack(CType init, typename Alloc::policy_type* policy) : _array(init, policy) {}
     inline explicit Stack(CType init = 0) : _array(init) {}
-- 
2.43.0


From 7f0644f89bfb5a541146271b0b7bb69f43583898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 018/194] fix: self-assignment of Hash must keep the elements

---
 include/bss-util/Hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index f1bb146..8d864b4 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -305,6 +305,8 @@ namespace bss {
 
     Hash& operator=(const Hash& copy)
     {
+      if(this == &copy)
+        return *this;
       Clear();
       if(!copy.n_buckets)
       {
-- 
2.43.0


From a68297cda093eaddd81ce0c171bbdfbd5d6dd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 019/194] fix: rehashing must destroy the elements it moved out
 of

---
 include/bss-util/Hash.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 8d864b4..3a9f4fd 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -488,6 +488,8 @@ namespace bss {
             khint_t new_mask;
             new_mask = new_n_buckets - 1;
             if constexpr(IsMap)val = std::move(vals[j]);
+            keys[j].~Key(); // This bucket no longer holds an element
+            if constexpr(IsMap) vals[j].~Data();
             __ac_set_isdel_true(flags, j);
             while(1)
             { /* kick-out process; sort of like in Cuckoo hashing */
@@ -624,7 +626,10 @@ namespace bss {
           for(khint_t i = 0; i < n_buckets; ++i)
           {
             if(!__ac_iseither(flags, i))
+            {
               new(n + i) T(std::move(src[i]));
+              src[i].~T();
+            }
           }
         }
 
-- 
2.43.0


From 23d79c7f1bcef09020ab028a2710f1cae581b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:36 +0000
Subject: [PATCH 020/194] fix: TRBtree::GetNear on an empty tree and after a
 value with duplicates

---
 include/bss-util/TRBtree.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 2578cfa..2a87a83 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -526,10 +526,15 @@ namespace bss {
         }
       }
 
+      if(parent == pNIL) // The tree is empty
+        return 0;
       if(before)
         return (res < 0 && parent->prev) ? parent->prev : parent;
-      else
-        return (res > 0 && parent->next) ? parent->next : parent;
+
+      TRB_Node<T>* next = parent;
+      if(res > 0) // Any duplicates of parent come directly after it, so we have to skip them
+        do { next = next->next; } while(next && next->color == -1);
+      return next ? next : parent;
     }
 
     inline int DEBUGVERIFY() { return TRB_Node<T>::DEBUGVERIFY(_root, NIL); }
-- 
2.43.0


From 0687d02a3303723c6481e02b4db7d6c06fac1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 021/194] fix: moving a TRBtree must give the moved-from tree
 its own sentinel and allocator

---
 include/bss-util/TRBtree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 2a87a83..5c9036b 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -398,12 +398,12 @@ namespace bss {
   public:
     BSS_FORCEINLINE static char CompNode(const TRB_Node<T>& l, const TRB_Node<T>& r) { return CFunc(l.value, r.value); }
 
-    inline TRBtree(TRBtree&& mov) : Alloc(std::move(mov)), _first(mov._first), _last(mov._last), _root(mov._root), NIL(mov.NIL)
+    inline TRBtree(TRBtree&& mov) : Alloc(mov), _first(mov._first), _last(mov._last), _root(mov._root), NIL(mov.NIL)
     {
       mov._first = 0;
       mov._last = 0;
       mov.NIL = Alloc::allocate(1);
-      new (NIL) TRB_Node<T>(0);
+      new (mov.NIL) TRB_Node<T>(0);
       mov.NIL->left = mov.NIL;
       mov.NIL->right = mov.NIL;
       mov._root = mov.NIL;
-- 
2.43.0


From f5aed4ac3b3aa567226ef1e73a26f3af5619b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 022/194] fix: AATree::Clear must leave an empty tree and
 Traverse must end at the sentinel

---
 include/bss-util/AATree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 8951010..298ca16 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -59,7 +59,7 @@ namespace bss {
 
       return 0;
     }
-    inline void Clear() { _clear(_root); }
+    inline void Clear() { _clear(_root); _root = _sentinel; }
     // Gets the root, unless the tree is empty, in which case returns nullptr
     inline AANODE<T>* GetRoot() { return _root == _sentinel ? 0 : _root; }
     inline bool IsEmpty() { return _root == _sentinel; }
@@ -79,9 +79,10 @@ namespace bss {
     template<void(*FACTION)(T&)>
     inline void _traverse(AANODE<T>* n)
     {
-      _traverse(n->left);
+      if(n == _sentinel) return;
+      _traverse<FACTION>(n->left);
       FACTION(n->data);
-      _traverse(n->right);
+      _traverse<FACTION>(n->right);
     }
     inline void _skew(AANODE<T>*& n)
     {
-- 
2.43.0


From b6404092ad9d472611318d65fd53a6ff0c4c5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 023/194] fix: AATree::Remove must not look at the node an
 earlier removal ended on

---
 include/bss-util/AATree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 298ca16..1acb4cf 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -41,7 +41,7 @@ namespace bss {
       Alloc::deallocate(_sentinel, 1);
     }
     inline void Insert(const T& data) { _insert(_root, data); }
-    inline bool Remove(const T& data) { return _remove(_root, data); }
+    inline bool Remove(const T& data) { _deleted = _last = _sentinel; return _remove(_root, data); }
     // Gets the node that belongs to the data or returns nullptr if not found.
     inline AANODE<T>* Get(const T& data)
     {
-- 
2.43.0


From dc5a13a54dfdd1e486964a6e81a75e20e85b155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 024/194] fix: AATree must construct and destroy its nodes

---
 include/bss-util/AATree.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 1acb4cf..4b6fd81 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -110,9 +110,7 @@ namespace bss {
       if(n == _sentinel)
       {
         n = Alloc::allocate(1);
-        n->left = n->right = _sentinel;
-        n->data = data;
-        n->level = 1;
+        new(n) AANODE<T>{ 1, _sentinel, _sentinel, data };
         return;
       }
 
@@ -145,7 +143,8 @@ namespace bss {
         _deleted->data = n->data;
         _deleted = _sentinel;
         n = n->right;
-        Alloc::deallocate(_last);
+        _last->~AANODE<T>();
+        Alloc::deallocate(_last, 1);
         _last = _sentinel;
         b = true;
       }
-- 
2.43.0


From 039a7371078c139e70017bc64292c88cef3fdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 025/194] fix: BinaryHeap must copy length elements, not
 sizeof(T) times as many

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..55b97c6 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -43,7 +43,7 @@ namespace bss {
     inline BinaryHeap() : BASE(0) {}
     inline BinaryHeap(const T* src, CT length) : BASE(length)
     { 
-      _copy(_array, src, sizeof(T)*length);
+      BASE::_copy(_array, src, length);
       _length = length;
       Heapify(_array, _length);
     }
-- 
2.43.0


From 7e3844c1c7fa952495a84f08297542860e404856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 026/194] fix: BinaryHeap::Remove must keep the heap order for
 every index

---
 include/bss-util/BinaryHeap.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 55b97c6..16a9394 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -72,8 +72,14 @@ namespace bss {
     inline bool Remove(CT index)
     {
       if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation
-      if(_length > 1) //We can't percolate down if there's nothing in the array! 
-        PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      const CT last = _length - 1;
+      if(index < last) //We don't have to percolate anything if we are removing the last item
+      {
+        if(index > 0 && CFunc(_array[last], _array[CBH_PARENT(index)]) > 0) // The last item can belong to another subtree, in which case it can be bigger than our parent
+          PercolateUp(_array, last, index, _array[last], this);
+        else
+          PercolateDown(_array, last, index, _array[last], this);
+      }
       BASE::RemoveLast();
       return true;
     }
-- 
2.43.0


From bf563eafe04fa801750d9c9e20816e1b789fafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 027/194] fix: BinaryHeap::Clear must destroy the elements

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 16a9394..de0e2c9 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -61,7 +61,7 @@ namespace bss {
     }
     inline bool Empty() { return !_length; }
     inline CT Length() { return _length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     // Inserts a value
     inline void Insert(const T& val) { _insert(val); }
     inline void Insert(T&& val) { _insert(std::move(val)); }
-- 
2.43.0


From 87cd8c2d0e818e0f5d4ad871df212966df75a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 028/194] fix: RandomQueue must destroy the elements it removes

---
 include/bss-util/RandomQueue.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 200e692..6220ff2 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -35,9 +35,14 @@ namespace bss {
       return r;
     }
     BSS_FORCEINLINE T Pop() { return Pop(bss_getdefaultengine()); }
-    inline void Remove(CT index) { _array[index] = std::move(_array[--_length]); }
+    inline void Remove(CT index)
+    {
+      if(index + 1 < _length)
+        _array[index] = std::move(_array[_length - 1]);
+      BASE::RemoveLast();
+    }
     inline bool Empty() const { return !_length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     BSS_FORCEINLINE void SetLength(CT length) { BASE::SetLength(length); }
     inline CT Length() const { return _length; }
     inline const T* begin() const { return _array; }
-- 
2.43.0


From c47edf8c1116327ca18bbe7f65fcd9e3076e8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 029/194] fix: moving a PriorityHeap must move its key table

---
 include/bss-util/PriorityQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 7dc3039..3c53466 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -65,7 +65,7 @@ namespace bss {
 
   public:
     PriorityHeap(const PriorityHeap& copy) : BASE(copy), _freelist(copy._freelist) { _subarray = copy._subarray; }
-    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { _subarray = std::move(mov._subarray); }
+    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     explicit PriorityHeap(typename Alloc::policy_type* policy) : BASE(policy), _freelist((CT_)-1) {}
     PriorityHeap() : _freelist((CT_)-1) {}
@@ -93,6 +93,7 @@ namespace bss {
     { 
       BASE::operator=(std::move(mov)); 
       _freelist = mov._freelist; 
+      mov._freelist = (CT_)-1;
       return *this; 
     }
 
-- 
2.43.0


From e43629095739b5f98e372ee218ac28ad78917bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 030/194] fix: PriorityHeap must recycle the keys of removed
 elements

---
 include/bss-util/PriorityQueue.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 3c53466..f2d055f 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -73,14 +73,20 @@ namespace bss {
     BSS_FORCEINLINE CT_ Push(const D& value) { CT_ k = _getNext(); BASE::Insert(PAIR(k, value)); return k; }
     BSS_FORCEINLINE CT_ Push(D&& value) { CT_ k = _getNext(); BASE::Insert(PAIR(k, std::move(value))); return k; }
     BSS_FORCEINLINE const D& Peek() { return BASE::Peek().second; }
-    BSS_FORCEINLINE void Discard() { BASE::Remove(0); }
-    BSS_FORCEINLINE D Pop() { return BASE::Pop().second; }
+    BSS_FORCEINLINE void Discard() { if(!BASE::Empty()) Remove(BASE::Peek().first); }
+    BSS_FORCEINLINE D Pop() { PAIR r = BASE::Pop(); _free(r.first); return std::move(r.second); }
     BSS_FORCEINLINE bool Empty() { return BASE::Empty(); }
     BSS_FORCEINLINE const D& Get(CT_ key) { return BASE::Get(_subarray[key]).second; }
-    BSS_FORCEINLINE bool Remove(CT_ key) { return BASE::Remove(_subarray[key]); }
+    BSS_FORCEINLINE bool Remove(CT_ key)
+    {
+      if(!BASE::Remove(_subarray[key]))
+        return false;
+      _free(key);
+      return true;
+    }
     BSS_FORCEINLINE bool Set(CT_ key, const D& value) { return BASE::Set(_subarray[key], PAIR(key, value)); }
     BSS_FORCEINLINE bool Set(CT_ key, D&& value) { return BASE::Set(_subarray[key], PAIR(key, std::move(value))); }
-    BSS_FORCEINLINE void Clear() { BASE::Clear(); }
+    BSS_FORCEINLINE void Clear() { BASE::Clear(); _freelist = (CT_)-1; _initFreeList(0); }
     inline CT_ Length() { return BASE::_length; }
 
     inline PriorityHeap& operator=(const PriorityHeap& copy) 
@@ -115,6 +121,11 @@ namespace bss {
       _freelist = _subarray[r];
       return r;
     }
+    void _free(CT_ key)
+    {
+      _subarray[key] = _freelist;
+      _freelist = key;
+    }
     void _initFreeList(CT_ start)
     {
       for(CT_ i = start; i < _subarray.Capacity(); ++i)
-- 
2.43.0


From 2aff7608a1bf3f05b59ead5f13f3e9b6a97e39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:34 +0000
Subject: [PATCH 031/194] fix: LinkedList::Clear must not erase its allocator

---
 include/bss-util/LinkedList.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 66d854b..3b41564 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -79,6 +79,7 @@ namespace bss {
       inline LList_LAST(LList_LAST<T, L>&& mov) : _last(mov._last), _root(mov._root) { mov._root = 0; mov._last = 0; }
       inline void _add(LLNode<T>* node) { if(!_root) { node->next = node->prev = 0; _last = _root = node; } else _last = LLAddAfter<LLNode<T>>(node, _last); }
       inline void _remove(LLNode<T>* node) { LLRemove<LLNode<T>>(node, _root, _last); }
+      inline void _zerolist() { _last = _root = 0; }
       inline LList_LAST<T, L>& operator =(LList_LAST<T, L>&& mov) { _last = mov._last; mov._last = 0; _root = mov._root; mov._root = 0; return *this; }
 
       LLNode<T>* _root;
@@ -103,6 +104,7 @@ namespace bss {
       inline LList_LAST() : _root(0) {}
       inline LList_LAST(LList_LAST<T, false>&& mov) : _root(mov._root) { mov._root = 0; }
       inline void _remove(LLNode<T>* node) { LLRemove<LLNode<T>>(node, _root); }
+      inline void _zerolist() { _root = 0; }
       inline void _add(LLNode<T>* node) { LLAdd<LLNode<T>>(node, _root); }
       inline LList_LAST<T, false>& operator =(LList_LAST<T, false>&& mov) { _root = mov._root; mov._root = 0; return *this; }
 
@@ -188,7 +190,8 @@ namespace bss {
         hold = nexthold;
       }
 
-      bssFill(*this, 0);
+      internal::LList_LAST<T, useLast>::_zerolist();
+      internal::LList_SIZE<useSize>::_zerosize();
     }
 
     inline LLNode<T>* Front() const { return _root; }
-- 
2.43.0


From 3ef79fffbf8f4529098335427825068b5bd8fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:34 +0000
Subject: [PATCH 032/194] fix: LinkedList must construct and destroy its items

---
 include/bss-util/LinkedList.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 3b41564..3182fdb 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -140,7 +140,7 @@ namespace bss {
     inline LLNode<T>* Add(T item)
     {
       LLNode<T>* node = Alloc::allocate(1);
-      node->item = item;
+      new(&node->item) T(item);
       _add(node);
       _incsize(); //increment size by one
       return node;
@@ -233,13 +233,13 @@ namespace bss {
     inline LLNode<T>* _createNode(T _item, LLNode<T>* _prev = 0, LLNode<T>* _next = 0)
     {
       LLNode<T>* retval = Alloc::allocate(1);
-      retval->item = _item;
+      new(&retval->item) T(_item);
       retval->prev = _prev;
       retval->next = _next;
       return retval;
     }
 
-    inline void _deleteNode(LLNode<T>* target) { Alloc::deallocate(target, 1); }
+    inline void _deleteNode(LLNode<T>* target) { target->item.~T(); Alloc::deallocate(target, 1); }
   };
 }
 
-- 
2.43.0


From bc726835b88e1711c695cdfa2e3e6858f6264bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:34 +0000
Subject: [PATCH 033/194] fix: LinkedList::Item on an empty list

---
 include/bss-util/LinkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 3182fdb..8c86175 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -63,6 +63,7 @@ namespace bss {
       inline LLNode<T>* Item(T item, LLNode<T>* from = 0, bool backwards = false) const
       { //if target is 0 we start from the root
         if(!from) from = _root;
+        if(!from) return 0; // the list is empty
         LLNode<T>* cur = from;
         LLNode<T>* rootflip = backwards ? _last : _root;
         while(cur->item != item)
@@ -91,6 +92,7 @@ namespace bss {
       inline LLNode<T>* Item(T item, LLNode<T>* from = 0) const
       { //if target is 0 we start from the root
         if(!from) from = _root;
+        if(!from) return 0; // the list is empty
         LLNode<T>* cur = from;
         while(cur->item != item)
         {
-- 
2.43.0


From 3f4644e461b16077155d8f2f7f93b40f2a865e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:34 +0000
Subject: [PATCH 034/194] fix: a moved-from LinkedArray must be empty

---
 include/bss-util/LinkedArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LinkedArray.h b/include/bss-util/LinkedArray.h
index 3d8865b..5face86 100644
--- a/include/bss-util/LinkedArray.h
+++ b/include/bss-util/LinkedArray.h
@@ -29,7 +29,7 @@ namespace bss {
 
     inline LinkedArray() : _ref(1), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline LinkedArray(const LinkedArray& copy) : _ref(copy._ref), _length(copy._length), _start(copy._start), _end(copy._end), _freelist(copy._freelist) {}
-    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._ref = 1; mov._length = 0; mov._start = mov._end = -1 = mov._freelist = -1; }
+    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LinkedArray(CT_ size, typename Alloc::policy_type* policy) : _ref(size, policy), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline explicit LinkedArray(CT_ size) : _ref(size), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
@@ -78,7 +78,7 @@ namespace bss {
     //inline LinkedArray& operator +=(const LinkedArray& right);
     //inline LinkedArray operator +(const LinkedArray& right) const { LinkedArray retval(*this); retval+=right; return retval; }
     inline LinkedArray& operator =(const LinkedArray& right) { _ref = right._ref; _length = right._length; _start = right._start; _end = right._end; _freelist = right._freelist; return *this; }
-    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; return *this; }
+    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; return *this; }
     BSS_FORCEINLINE T& GetItem(CT_ index) { return _ref[index].val; }
     BSS_FORCEINLINE const T& GetItem(CT_ index) const { return _ref[index].val; }
     BSS_FORCEINLINE T* GetItemPtr(CT_ index) { return &_ref[index].val; }
-- 
2.43.0


From 6c7b0743e2e1b6b76125c11ab0f9844762703d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:31 +0000
Subject: [PATCH 035/194] fix: Trie must not count repeated words as children

---
 include/bss-util/Trie.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 049c7bd..2fd4b1d 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -144,8 +144,11 @@ namespace bss {
       {
         _checkSize(r + 1);
         _array[r + 1].word = str[0].first; 
-        ++str;
-        --len; 
+        do // Skip repetitions of the same word
+        {
+          ++str;
+          --len;
+        } while(len > 0 && !str[0].second[level]);
       }
 
       char l = 0;
-- 
2.43.0


From 1adf123714bc0beec57badf6e23589d14f0b41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:31 +0000
Subject: [PATCH 036/194] fix: Trie must search characters in the order it
 sorts them

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 2fd4b1d..f817894 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -105,7 +105,7 @@ namespace bss {
     inline T operator[](const char* word) const { return Get(word); }
     inline Trie& operator=(const Trie& copy) { BASE::operator=(copy); _length = copy._length; return *this; }
     inline Trie& operator=(Trie&& mov) { BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
-    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE(t.chr, c); }
+    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE((unsigned char)t.chr, (unsigned char)c); } // must be the same order the words are sorted in
 
   protected:
     void _construct(T num, const char* const* initstr)
-- 
2.43.0


From 5486f3d5441b2790e18790cadf4fc4b04a199d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:31 +0000
Subject: [PATCH 037/194] fix: the capacity of a Trie must not overflow when it
 is doubled

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index f817894..b5b155b 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -132,7 +132,7 @@ namespace bss {
         _array[i].chr = 0;
       }
     }
-    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity(_capacity << 1); _fill(s, _capacity); } }
+    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity((s > (std::numeric_limits<T>::max() >> 1)) ? std::numeric_limits<T>::max() : (T)(s << 1)); _fill(s, _capacity); } }
     T _init(T len, PAIR const* str, T cnt, T level)
     {
       T r = cnt - 1;
-- 
2.43.0


From 80ffb1cad14e15eb02f270d57cefddf02a316f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:31 +0000
Subject: [PATCH 038/194] fix: copying a DisjointSet must copy all of it

---
 include/bss-util/DisjointSet.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index ed2930d..8895bf8 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -22,7 +22,7 @@ namespace bss {
     // Construct a disjoint set with num initial sets
     inline DisjointSet(const DisjointSet& copy) : ARRAY(copy.Capacity(), copy), _numsets(copy._numsets) 
     { 
-      memcpy(_array, copy._array, _capacity); 
+      memcpy(_array, copy._array, _capacity * sizeof(Ty)); 
     }
     inline DisjointSet(DisjointSet&& mov) : ARRAY(std::move(mov)), _numsets(mov._numsets) { mov._numsets = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
@@ -178,8 +178,10 @@ namespace bss {
 
     inline DisjointSet& operator=(const DisjointSet& copy) 
     {
-      SetCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(T));
+      if(this == &copy)
+        return *this;
+      ARRAY::_setCapacityDiscard(copy._capacity);
+      memcpy(_array, copy._array, _capacity * sizeof(Ty));
       _numsets = copy._numsets;
       return *this;
     }
@@ -187,6 +189,7 @@ namespace bss {
     {
       ARRAY::operator=(std::move(mov)); 
       _numsets = mov._numsets;
+      mov._numsets = 0;
       return *this;
     }
 
-- 
2.43.0


From 2e06875f51ff0ae20a6f686b987bbd3ed2d14396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:31 +0000
Subject: [PATCH 039/194] fix: DisjointSet::Union of a set with itself must not
 make it its own parent

---
 include/bss-util/DisjointSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index 8895bf8..43114d4 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -39,7 +39,7 @@ namespace bss {
     // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names.
     inline bool Union(T set1, T set2)
     {
-      if(_invalidIndex(set1) || _invalidIndex(set2))
+      if(set1 == set2 || _invalidIndex(set1) || _invalidIndex(set2))
         return false;
 
       Ty w1 = _array[set1];
-- 
2.43.0


From b679ae9f3c1957ba8469244fdafa4a03958a245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:31 +0000
Subject: [PATCH 040/194] fix: DisjointSet::AddSets did not compile and did not
 count the new sets

---
 include/bss-util/DisjointSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index 43114d4..c18126f 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -100,10 +100,11 @@ namespace bss {
     inline void AddSets(T n)
     {
       T i = _capacity;
-      SetCapacity(_capacity + n);
+      ARRAY::_setCapacity(_capacity + n);
 
       for(; i < _capacity; ++i)
         _array[i] = -1;
+      _numsets += n;
     }
     // Resets the disjoint set
     inline void Reset()
-- 
2.43.0


From e8d639d02f647985113695a38a404c32a34c188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:59 +0000
Subject: [PATCH 041/194] fix: copying a DisjointSet did not compile

---
 include/bss-util/DisjointSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index c18126f..3b65f0a 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -20,7 +20,7 @@ namespace bss {
 
   public:
     // Construct a disjoint set with num initial sets
-    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy.Capacity(), copy), _numsets(copy._numsets) 
+    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy._capacity, copy), _numsets(copy._numsets) 
     { 
       memcpy(_array, copy._array, _capacity * sizeof(Ty)); 
     }
-- 
2.43.0


From a3d407f21b049cecb5e0ac2b5db4e5bf44fab8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:21 +0000
Subject: [PATCH 042/194] fix: Trie must accept the empty word

---
 include/bss-util/Trie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index b5b155b..5537d38 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -142,8 +142,8 @@ namespace bss {
 
       if(!c) // The only place we'll recieve the end of the word is in our starting position due to alphabetical order
       {
-        _checkSize(r + 1);
-        _array[r + 1].word = str[0].first; 
+        _checkSize(cnt); // r + 1 would be promoted to an int, and r is -1 at the root
+        _array[cnt].word = str[0].first; 
         do // Skip repetitions of the same word
         {
           ++str;
-- 
2.43.0


From 190918d19694b317f4981ed0df7a45fba89803fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:15 +0000
Subject: [PATCH 043/194] fix: Graph::ToMatrix must number the vertices like
 the matrix

---
 include/bss-util/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 163c736..1f3c96f 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -141,7 +141,7 @@ namespace bss {
 
       for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i))
       {
-        _setVertex(nodes, i, _nodes[i]);
+        _setVertex(nodes, hash[i], _nodes[i]);
 
         for(cur = _nodes[i].to; cur != 0; cur = cur->next)
           _getData(matrix[(hash[i] * len) + hash[cur->to]], *cur);
-- 
2.43.0


From eb9f10b0bb47482873ed6848bbd4c913c8eaf364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:15 +0000
Subject: [PATCH 044/194] fix: move assignment of a Graph must release the
 edges it had

---
 include/bss-util/Graph.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 1f3c96f..8ce68b4 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -78,7 +78,7 @@ namespace bss {
     // Build a matrix out of only a list of nodes
     inline Graph(CT n, const V* nodes) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(nodes + i); }
     inline explicit Graph(CT n) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(); }
-    inline ~Graph() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
+    inline ~Graph() { _removeEdges(); }
     inline CT NumNodes() const { return _nodes.Length(); }
     inline CT NumEdges() const { return _nedges; }
     inline CT Capacity() const { return _nodes.Capacity(); }
@@ -153,6 +153,9 @@ namespace bss {
     inline Node<E, V, CT>& operator[](CT index) { return _nodes[index]; }
     inline Graph& operator=(Graph&& mov) 
     { 
+      if(this == &mov)
+        return *this;
+      _removeEdges();
       Alloc::operator=(std::move(mov));
       _nodes = std::move(mov._nodes); 
       _nedges = mov._nedges; 
@@ -166,6 +169,7 @@ namespace bss {
     typedef Edge<E, CT> EDGE_;
 
   protected:
+    inline void _removeEdges() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
     template<typename D, bool(*ISEDGE)(const D*)>
     void _construct(CT n, const D* M, const V* nodes)
     {
-- 
2.43.0


From f4cd6fd2eeb0e5b84b9d8c9d864fd550350599f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:15 +0000
Subject: [PATCH 045/194] fix: BreadthFirstGraph must visit and enqueue every
 vertex once

---
 include/bss-util/Graph.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 8ce68b4..93ed4f6 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -427,7 +427,7 @@ namespace bss {
     size_t l = 0;
     for(E* edge = n[root].to; edge != 0; edge = edge->next)
     {
-      if(edge->to != root)
+      if(set.Union(root, edge->to)) // Fails if this vertex is the root or is already in the queue
         queue[l++] = edge->to;
     }
 
@@ -436,11 +436,10 @@ namespace bss {
       if(FACTION(queue[i]))
         return;
 
-      set.Union(root, queue[i]);
 
       for(E* edge = n[queue[i]].to; edge != 0; edge = edge->next)
       {
-        if(set.Find(edge->to) != root) //Enqueue the children if they aren't already in the set.
+        if(set.Union(root, edge->to)) //Enqueue the children if they aren't already in the set.
           queue[l++] = edge->to; // Doesn't need to be circular because we can only enqueue n-1 anyway.
       }
     }
-- 
2.43.0


From 08c2f70aa92bec291e222417bf5e050f5154cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:48 +0000
Subject: [PATCH 046/194] fix: MaxFlow_PushRelabel must terminate and find a
 maximum flow on every network

---
 include/bss-util/Graph.h | 43 ++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 93ed4f6..3d3acbd 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -217,17 +217,18 @@ namespace bss {
     bssFillN<PAIR>(v, (len - 2), -1);
     PEDGE edge;
     auto& nodes = graph.GetNodes();
+    auto firstback = [](PEDGE e, CT n) -> PEDGE { while(e && e->from == n) e = e->alt.next; return e; }; // skips edges that connect a vertex to itself
 
     height[s] = len;
     excess[s] = (INT_MAX >> 1); //ensures we can't blow stuff up while sending flow backwards
 
-    CT root;
+    CT root = (CT)-1;
     CT* plast = &root;
     CT k = 0; // Build a list of all vertices except s and t
 
     for(CT i = nodes.Front(); i != (CT)-1; nodes.Next(i))
     {
-      seen[k] = nodes[i].to;
+      seen[i] = nodes[i].to;
 
       if(i != s && i != t)
       {
@@ -243,7 +244,7 @@ namespace bss {
     for(edge = nodes[s].to; edge != 0; edge = edge->next)
     {
       edge->data.flow = edge->data.capacity;
-      excess[edge->to] = edge->data.capacity;
+      excess[edge->to] += edge->data.capacity;
     }
 
     int send;
@@ -260,34 +261,21 @@ namespace bss {
       {
         if(!seen[k]) //If seen is null, we tried all our neighbors so relabel
         {
-          send = INT_MAX;
+          send = INT_MAX; // The new height is determined by the lowest neighbor we could push to, forwards or backwards
 
           for(edge = nodes[k].to; edge != 0; edge = edge->next)
-          { // First we try to send it forward
-            if(edge->data.capacity - edge->data.flow > 0)
-            {
-              if(height[edge->to] < send) send = height[edge->to];
-              height[k] = send + 1; // we have to do this in here because if there is no valid relabel, the height can't change.
-            }
+          {
+            if(edge->data.capacity - edge->data.flow > 0 && height[edge->to] < send)
+              send = height[edge->to];
           }
-
-          if(send == INT_MAX) // If this is true, our forward relabel failed, so that means we need to try to push things backwards
+          for(edge = firstback(nodes[k].from, k); edge != 0; edge = firstback(edge->alt.next, k))
           {
-            for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
-            {
-              if(edge->data.flow > 0)
-              { // Negate the flow and set capacity to 0 because we're going backwards
-                if(height[edge->from] < send)
-                  send = height[edge->from];
-
-                height[k] = send + 1;
-              }
-            }
-            seen[k] = nodes[k].from;
+            if(edge->data.flow > 0 && height[edge->from] < send)
+              send = height[edge->from];
           }
-          else
-            seen[k] = nodes[k].to;
 
+          height[k] = send + 1;
+          seen[k] = nodes[k].to ? nodes[k].to : firstback(nodes[k].from, k);
           continue;
         }
         if(excess[k] > 0)
@@ -305,7 +293,10 @@ namespace bss {
             excess[k] -= send;
           }
         }
-        seen[k] = (seen[k]->from == k) ? seen[k]->next : seen[k]->alt.next;
+        if(seen[k]->from != k)
+          seen[k] = firstback(seen[k]->alt.next, k);
+        else
+          seen[k] = seen[k]->next ? seen[k]->next : firstback(nodes[k].from, k); // Once we tried all the edges going forward, try to push things backwards
       }
 
       if(lh != height[k]) // If the height changed...
-- 
2.43.0


From 860d9654367382d240e800369c6945f83f5a170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:25 +0000
Subject: [PATCH 047/194] fix: KDTree rebalancing must move every item that
 crosses a boundary, not only those crossing the last

---
 include/bss-util/KDTree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 91be8af..186ecee 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -240,9 +240,9 @@ namespace bss {
         itemr = FRECT(item);
 
         if(itemr[0] < r[0]) i = 0; // Check for a violation. We don't bother checking to see if there are multiple violations, because 
-        if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
-        if(itemr[2] > r[2]) i = 2;
-        if(itemr[3] > r[3]) i = 3;
+        else if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
+        else if(itemr[2] > r[2]) i = 2;
+        else if(itemr[3] > r[3]) i = 3;
         else continue;
 
         node->total[0] -= itemr[0] + itemr[2]; // Remove image from us
-- 
2.43.0


From d6a37f20a802c7836db32238549d164a334db5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:10 +0000
Subject: [PATCH 048/194] fix: KDTree rebalancing must keep the tighter
 boundary of an ancestor

---
 include/bss-util/KDTree.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 186ecee..ea72a98 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -210,19 +210,26 @@ namespace bss {
       if(node->left)
       {
         node->num -= node->left->num;
-        rect[axis + 2] = node->div;
-        parents[axis + 2] = node;
+        if(!(r[axis + 2] < node->div)) // a boundary further up may be tighter than ours
+        {
+          rect[axis + 2] = node->div;
+          parents[axis + 2] = node;
+        }
         _rebalance(node->left, rect, parents, node->total);
         node->num += node->left->num;
         _checkDestroy(node->left);
         rect[axis + 2] = r[axis + 2]; // Reset so we don't mess up node below
+        parents[axis + 2] = p[axis + 2];
       }
 
       if(node->right)
       {
         node->num -= node->right->num;
-        rect[axis] = node->div;
-        parents[axis] = node;
+        if(!(r[axis] > node->div))
+        {
+          rect[axis] = node->div;
+          parents[axis] = node;
+        }
         _rebalance(node->right, rect, parents, node->total);
         node->num += node->right->num;
         _checkDestroy(node->right);
-- 
2.43.0


From 78e7bfd571c8f4b7914b91f8c04256296d58f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:09 +0000
Subject: [PATCH 049/194] fix: aligned_realloc must pass aligned_alloc a
 multiple of the alignment

---
 include/bss-util/Alloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Alloc.h b/include/bss-util/Alloc.h
index 5fec64f..eac3f25 100644
--- a/include/bss-util/Alloc.h
+++ b/include/bss-util/Alloc.h
@@ -17,7 +17,7 @@ namespace bss {
 #ifdef BSS_PLATFORM_WIN32
     return _aligned_realloc(p, size, align);
 #else
-    void* n = aligned_alloc(align, size);
+    void* n = aligned_alloc(align, ((size + align - 1) / align) * align); // the size must be a multiple of the alignment
     if(p)
     {
       size_t old = malloc_usable_size(p);
-- 
2.43.0


From 286a3c203ef008f10f401703e9c6bcdd879e612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:54 +0000
Subject: [PATCH 050/194] fix: UTF conversions must not read past a source
 given with its length

---
 bss-util/ConvertUTF.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/ConvertUTF.c b/bss-util/ConvertUTF.c
index 0c758ce..058c076 100644
--- a/bss-util/ConvertUTF.c
+++ b/bss-util/ConvertUTF.c
@@ -118,7 +118,7 @@ BSS_DLLEXPORT size_t UTF32toUTF16(const char32_t*BSS_RESTRICT input, ptrdiff_t s
   UTF16* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     buflen += 1 + (*input > UNI_MAX_BMP);
     ++input;
@@ -255,7 +255,7 @@ BSS_DLLEXPORT size_t UTF32toUTF8(const char32_t*BSS_RESTRICT input, ptrdiff_t sr
   UTF8* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     if(*input < (UTF32)0x80)
       buflen += 1;
@@ -400,7 +400,7 @@ BSS_DLLEXPORT size_t UTF8toUTF32(const char*BSS_RESTRICT input, ptrdiff_t srclen
   UTF32* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char*)source) < srclen)
+  while((input - (const char*)source) < srclen && *input)
   {
     buflen += (((*input) & 0b11000000) != 0b10000000);
     ++input;
-- 
2.43.0


From 3a0bec165fba4e3872dec42ffb570cb1aef8d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:54 +0000
Subject: [PATCH 051/194] fix: assigning a ref_ptr must not destroy the object
 it is assigned

---
 include/bss-util/RefCounter.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..b1275c8 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -63,21 +63,22 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
-      if(_p != 0) 
-        _p->Drop();
-
-      _p = right._p;
-      right._p = 0; 
+      T* old = _p;
+      T* p = right._p;
+      right._p = 0; // if right is *this, this is overwritten below
+      _p = p;
+      if(old != 0 && &right != this)
+        old->Drop(); // only drop the old object last, it may own right or be what we were assigned
       return *this; 
     }
     inline ref_ptr& operator=(T* right)
     { 
-      if(_p != 0) 
-        _p->Drop();
-
+      T* old = _p;
       _p = right; 
       if(_p != 0) 
         _p->Grab(); 
+      if(old != 0) // only drop the old object last, it may be what we were assigned or own it
+        old->Drop();
 
       return *this; 
     }
-- 
2.43.0


From 98b0e20fc5a2518187dc291d03c17a559c20d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:53 +0000
Subject: [PATCH 052/194] fix: assigning an OwnerPtr must neither take
 ownership it was not given nor delete what it keeps

---
 include/bss-util/SmartPtr.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..b9c8f4e 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -47,6 +47,8 @@ namespace bss {
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(this == &right)
+        return *this;
       _disown();
       _p = right._p;
       _owner = false;
@@ -61,9 +63,11 @@ namespace bss {
     }
     inline OwnerPtr& operator=(OwnerPtr&& right)
     { 
+      if(this == &right)
+        return *this;
       _disown(); 
       _p = right._p; 
-      _owner = true; 
+      _owner = right._owner; // right may not own what it points to
       right._owner = false;
       return *this; 
     }
-- 
2.43.0


From 07970cf125c3b7bc73309991c45f25b5de6c8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:14 +0000
Subject: [PATCH 053/194] fix: assigning an empty Variant to an empty Variant
 must be allowed

---
 include/bss-util/Variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 2a59cd3..41be6ba 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -216,7 +216,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -229,7 +229,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<U, Tx...>(std::move(v));
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
-- 
2.43.0


From c96d862628f0d35e25524f4224e52d9a194c99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:24 +0000
Subject: [PATCH 054/194] fix: a Variant must align its storage for every
 alternative

---
 include/bss-util/Variant.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 41be6ba..1aeae84 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -38,11 +38,10 @@ namespace bss {
     template<typename A, typename... Ax>
     struct max_alignof {
       static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A);
-      typedef std::conditional<(max_alignof<Ax...>::value > alignof(A)), A, typename max_alignof<Ax...>::type> type;
     };
 
     template<typename A>
-    struct max_alignof<A> { static constexpr size_t value = alignof(A); typedef A type; };
+    struct max_alignof<A> { static constexpr size_t value = alignof(A); };
 
     template<typename X, typename... Ts> struct getpos;
 
@@ -262,11 +261,7 @@ namespace bss {
     }
 
     int _tag;
-    union
-    {
-      char _store[max_sizeof<Arg, Args...>::value]; // actual storage
-      typename max_alignof<Arg, Args...>::type _align; // simply ensures we have the correct alignment for the type with the largest alignment
-    };
+    alignas(max_alignof<Arg, Args...>::value) char _store[max_sizeof<Arg, Args...>::value]; // actual storage, aligned for the type with the largest alignment
   };
 }
 
-- 
2.43.0


From 6dce91e74612ef9619764f7808a037248fe1aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:24 +0000
Subject: [PATCH 055/194] fix: Str must keep the last character of a source
 given with its length

---
 include/bss-util/Str.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index a235ec3..0512e4e 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -291,7 +291,9 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      if(r > 0 && !_internalPtr()[r - 1])
+        --r; // disregard the null terminator, if the source had one
+      BASE::resize(r); // resize to actual number of characters instead of simply the maximum
     }
     BSS_FORCEINLINE void _convStr2(const OTHER_C2* src, ptrdiff_t len)
     {
@@ -304,7 +306,9 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      if(r > 0 && !_internalPtr()[r - 1])
+        --r; // disregard the null terminator, if the source had one
+      BASE::resize(r); // resize to actual number of characters instead of simply the maximum
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-- 
2.43.0


From 059c681e2f0453578a851d4ef802d49d5a2135ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:24 +0000
Subject: [PATCH 056/194] fix: Str::Trim must not strip trailing characters
 outside of ASCII

---
 include/bss-util/Str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index 0512e4e..64fff7b 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -312,7 +312,7 @@ namespace bss {
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && *inter < 33; --inter); *(++inter) = 0; return str; }
+    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && inter[-1] >= 0 && inter[-1] < 33; --inter); *inter = 0; return str; }
 
   };
 #pragma warning(pop)
-- 
2.43.0


From 7c55f5a2a215733b4c30dfc1b32028a9d577eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:38 +0000
Subject: [PATCH 057/194] fix: StringTable must not use what a short stream did
 not deliver

---
 include/bss-util/StringTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 6ca7859..6d3252d 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -34,7 +34,10 @@ namespace bss {
 
       _strings.SetCapacity(bytes / sizeof(T));
       stream->read((char*)(T*)_strings, _strings.Capacity() * sizeof(T));
-      _strings[(stream->gcount() / sizeof(T)) - 1] = '\0'; //make sure the end is a null terminator
+      _strings.SetCapacity((CT_)(stream->gcount() / sizeof(T))); // the stream may have had less than what was asked for
+      if(!_strings.Capacity())
+        return;
+      _strings[_strings.Capacity() - 1] = '\0'; //make sure the end is a null terminator
 
       _indices.SetCapacity(strccount<T>(_strings, 0, _strings.Capacity()));
       bssFillN<CT_>(_indices, _indices.Capacity(), 0);
-- 
2.43.0


From 042bc2b130db0b016d901a4ea4c67dc3de2325e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:38 +0000
Subject: [PATCH 058/194] fix: StringTable::AppendString on an empty table

---
 include/bss-util/StringTable.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 6d3252d..ca55cd3 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -64,12 +64,11 @@ namespace bss {
     inline const T* GetString(CT_ index) const { assert(index < _indices.Capacity()); return _strings + _indices[index]; }
     inline void AppendString(const char* s)
     {
-      CT_ last = internal::STR_CT<T>::SLEN(_strings + _indices[_indices.Capacity() - 1]) + 1 + _indices[_indices.Capacity() - 1];
+      CT_ last = _strings.Capacity();
       CT_ sz = internal::STR_CT<T>::SLEN(s) + 1;
 
       _indices.SetCapacity(_indices.Capacity() + 1);
       _indices[_indices.Capacity() - 1] = last; // Add another indice and set its value appropriately
-      last = _strings.Capacity();
       _strings.SetCapacity(_strings.Capacity() + sz); // Allocate more space in string buffer
       memcpy(_strings + last, s, sz); // Copy over new string (including null terminator)
     };
-- 
2.43.0


From 1885a6f56df3c2bbf6b2320ab5d3848a19c90f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:52 +0000
Subject: [PATCH 059/194] fix: counting null characters must not stop when the
 first character is one

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2fda1b3..1c85ee0 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -146,7 +146,7 @@ namespace bss {
   {
     static_assert(std::is_integral<T>::value, "T must be integral");
     size_t ret = 0;
-    for(size_t i = 0; (i < length) && ((*string) != 0); ++i)
+    for(size_t i = 0; i < length; ++i)
       if(string[i] == c) ++ret;
     return ret;
   }
-- 
2.43.0


From e8649bf732139b0efb1ad374f2755f79787182c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 060/194] fix: an empty JSONValue must be written as null

---
 include/bss-util/JSON.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 1cb213b..445ccaf 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -425,6 +425,11 @@ namespace bss {
     case JSONValue::Type<JSONValue::JSONObject>::value:
       Serializer<JSONEngine>::template ActionBind<JSONValue::JSONObject>::Serialize(e, obj.get<JSONValue::JSONObject>(), id);
       break;
+    default:
+      JSONEngine::WriteJSONComma(s, e.engine.pretty);
+      JSONEngine::WriteJSONId(id, s, e.engine.pretty);
+      s << "null";
+      break;
     }
   }
   template<typename T>
-- 
2.43.0


From d57ef1b064ab2024e39a890772c0c607bd889db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 061/194] fix: a JSON number with an exponent is not an integer

---
 include/bss-util/JSON.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 445ccaf..f683466 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -272,9 +272,8 @@ namespace bss {
     {
       Str buf;
       ParseJSONBase<Str>(e, buf, s);
-      const char* dot = strchr(buf.c_str(), '.');
 
-      if(dot)
+      if(buf.find_first_of(".eE") != Str::npos)
         target = (double)strtod(buf.c_str(), 0);
       else
         target = (int64_t)strtoll(buf.c_str(), 0, 10);
-- 
2.43.0


From 97c7c198a63368998157f8fc1e08f5a1cc2792ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 062/194] fix: whitespace after a JSON literal is not part of
 it

---
 include/bss-util/JSON.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index f683466..f04ffae 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -227,6 +227,7 @@ namespace bss {
       target += c;
       while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != ']' && s.peek() != -1)
         target += s.get();
+      target.erase(target.find_last_not_of(" \t\n\v\f\r") + 1); // whitespace after the value is not part of it
       return;
     }
 
-- 
2.43.0


From d0ff0d037aec8774c1a17eb4c092454f2600850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 063/194] fix: numbers written as JSON must read back as the
 same number

---
 include/bss-util/JSON.h       |  8 +++++---
 include/bss-util/Serializer.h | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index f04ffae..21e8c71 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -330,15 +330,17 @@ namespace bss {
     if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}')
       return;
 
+    typename std::conditional<sizeof(T) == 1, int, T>::type o = obj; // Prevent the stream from reading a number as a character
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
-      s >> obj; // grab whatever we can
+      s >> o; // grab whatever we can
       while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
       s.get(); // eat the " character
     }
     else
-      s >> obj;
+      s >> o;
+    obj = (T)o;
   }
 
   template<class T>
@@ -467,7 +469,7 @@ namespace bss {
   {
     WriteJSONComma(*e.out, e.engine.pretty);
     WriteJSONId(id, *e.out, e.engine.pretty);
-    (*e.out) << obj;
+    internal::serializer::WriteNumber(*e.out, obj);
   }
 
   template<typename T>
diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 98098f8..333b623 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -9,6 +9,9 @@
 #include <array>
 #include <vector>
 #include <type_traits>
+#include <limits>
+#include <stdio.h>
+#include <stdlib.h>
 #include "Trie.h"
 #include "Variant.h"
 #include "BitField.h"
@@ -61,6 +64,34 @@ namespace bss {
         };
       };
 
+      // Writes a number so that reading it back gives the same value, using no more digits than necessary. Characters are written as numbers.
+      template<class T>
+      inline void WriteNumber(std::ostream& s, T v)
+      {
+        if constexpr(std::is_floating_point_v<T>)
+        {
+          char buf[64];
+          T r;
+          for(int i = std::numeric_limits<T>::digits10; i <= std::numeric_limits<T>::max_digits10; ++i)
+          {
+            snprintf(buf, sizeof(buf), "%.*Lg", i, (long double)v);
+            if constexpr(std::is_same_v<T, float>)
+              r = strtof(buf, 0);
+            else if constexpr(std::is_same_v<T, double>)
+              r = strtod(buf, 0);
+            else
+              r = strtold(buf, 0);
+            if(r == v)
+              break;
+          }
+          s << buf;
+        }
+        else if constexpr(sizeof(T) == 1)
+          s << (int)v;
+        else
+          s << v;
+      }
+
       template<class, class = void> struct is_serializer_array : std::false_type {};
       template<class T> struct is_serializer_array<T, std::void_t<typename T::SerializerArray>> : std::bool_constant<!std::is_void_v<typename T::SerializerArray>> {};
 
-- 
2.43.0


From 046ec06bd94380764435adb60096d9826a6f0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 064/194] fix: a number given as a JSON string must not swallow
 the character after it

---
 include/bss-util/JSON.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 21e8c71..4f29f79 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -335,8 +335,7 @@ namespace bss {
     {
       s.get();
       s >> o; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string and the " character
     }
     else
       s >> o;
-- 
2.43.0


From 02bf321ab18645aea482dc7fc8dd9aa3c23b055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 065/194] fix: skipping an unknown JSON value must skip all of
 it

---
 include/bss-util/JSON.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 4f29f79..607d7c2 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -101,6 +101,27 @@ namespace bss {
         break;
       }
     }
+    // Skips what is left of a value, including nested values and strings, up to a comma or the end of what contains it
+    static inline void ParseJSONSkip(std::istream& s, char end)
+    {
+      size_t depth = 0;
+      while(!!s && s.peek() != -1 && (depth > 0 || (s.peek() != ',' && s.peek() != end)))
+      {
+        switch(s.get())
+        {
+        case '{':
+        case '[': ++depth; break;
+        case '}':
+        case ']': depth -= depth > 0; break;
+        case '"':
+          while(!!s && s.peek() != -1 && s.peek() != '"')
+            if(s.get() == '\\')
+              s.get();
+          s.get();
+          break;
+        }
+      }
+    }
     template<typename F>
     static inline void ParseJSONObject(Serializer<JSONEngine>& e, F f);
 
@@ -192,8 +213,7 @@ namespace bss {
       ParseJSONEatWhitespace(s);
       f(e, buf.c_str());
 
-      while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) // eat everything up to a , or } character
-        s.get();
+      ParseJSONSkip(s, '}'); // eat everything up to a , or } character
       if(!!s && s.peek() == ',') // Only eat comma if it's there.
         s.get();
 
@@ -314,8 +334,7 @@ namespace bss {
     while(!!s && s.peek() != ']' && s.peek() != -1)
     {
       Add(e, obj, n);
-      while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) // eat everything up to a , or ] character
-        s.get();
+      ParseJSONSkip(s, ']'); // eat everything up to a , or ] character
       if(!!s && s.peek() == ',' && s.peek() != -1) // Only eat comma if it's there.
         s.get();
       ParseJSONEatWhitespace(s);
-- 
2.43.0


From adf19081a64a6b9320ecf8d39d3fbe1f4046453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 066/194] fix: JSON keys and control characters must be escaped

---
 include/bss-util/JSON.h | 55 ++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 607d7c2..6a0f339 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -143,10 +143,43 @@ namespace bss {
           WriteJSONTabs(s, pretty);
         }
 
-        s << '"' << id << '"' << ": ";
+        WriteJSONString(id, strlen(id), s);
+        s << ": ";
       }
     }
 
+    static inline void WriteJSONString(const char* str, size_t length, std::ostream& s)
+    {
+      s << '"';
+
+      for(size_t i = 0; i < length; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '/': s << "\\/"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default:
+          if((unsigned char)str[i] < 0x20) // JSON does not allow any other control characters either
+          {
+            char buf[8];
+            snprintf(buf, sizeof(buf), "\\u%04x", (unsigned int)str[i]);
+            s << buf;
+          }
+          else
+            s << str[i];
+          break;
+        }
+      }
+
+      s << '"';
+    }
+
     static inline void WriteJSONComma(std::ostream& s, size_t& pretty)
     {
       if(pretty & JSONEngine::PRETTYFLAG)
@@ -400,25 +433,7 @@ namespace bss {
   {
     JSONEngine::WriteJSONComma(s, e.engine.pretty);
     JSONEngine::WriteJSONId(id, s, e.engine.pretty);
-    s << '"';
-
-    for(size_t i = 0; i < obj.size(); ++i)
-    {
-      switch(obj[i])
-      {
-      case '"': s << "\\\""; break;
-      case '\\': s << "\\\\"; break;
-      case '/': s << "\\/"; break;
-      case '\b': s << "\\b"; break;
-      case '\f': s << "\\f"; break;
-      case '\n': s << "\\n"; break;
-      case '\r': s << "\\r"; break;
-      case '\t': s << "\\t"; break;
-      default: s << obj[i]; break;
-      }
-    }
-
-    s << '"';
+    JSONEngine::WriteJSONString(obj.data(), obj.size(), s);
   }
 
   template<>
-- 
2.43.0


From 3abb62159dbd3e8ab74e5b196fc5e8dd3954e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 067/194] fix: JSON must decode surrogate pairs and the last
 code point

---
 include/bss-util/JSON.h     | 39 ++++++++++++++++++++++++++++++-------
 include/bss-util/bss_util.h |  2 +-
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 6a0f339..26d2e70 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -91,15 +91,40 @@ namespace bss {
       case 'r': str += '\r'; break;
       case 't': str += '\t'; break;
       case 'u':
-        char buf[5];
-
-        for(int i = 0; i < 4; ++i)
-          buf[i] = src.get();
-
-        buf[4] = 0;
-        OutputUnicode(str, strtoul(buf, 0, 16));
+      {
+        int c = ParseJSONHex(src);
+        if(c >= 0xD800 && c < 0xDC00 && src.peek() == '\\') // this may be the first half of a surrogate pair
+        {
+          src.get();
+          if(src.peek() != 'u')
+            src.unget();
+          else
+          {
+            src.get();
+            int low = ParseJSONHex(src);
+            if(low >= 0xDC00 && low < 0xE000)
+              c = 0x10000 + ((c - 0xD800) << 10) + (low - 0xDC00);
+            else
+            {
+              OutputUnicode(str, c);
+              c = low;
+            }
+          }
+        }
+        OutputUnicode(str, c);
         break;
       }
+      }
+    }
+    static inline int ParseJSONHex(std::istream& src)
+    {
+      char buf[5];
+
+      for(int i = 0; i < 4; ++i)
+        buf[i] = src.get();
+
+      buf[4] = 0;
+      return (int)strtoul(buf, 0, 16);
     }
     // Skips what is left of a value, including nested values and strings, up to a comma or the end of what contains it
     static inline void ParseJSONSkip(std::istream& s, char end)
diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 1c85ee0..91e88e7 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -331,7 +331,7 @@ namespace bss {
     if(c < 0x0080) s += c;
     else if(c < 0x0800) { s += (0xC0 | c >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     else if(c < 0x10000) { s += (0xE0 | c >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
-    else if(c < 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
+    else if(c <= 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     // Otherwise this is an illegal codepoint so just ignore it
   }
 
-- 
2.43.0


From 5b2ff441ce8e156b85baa46432fded97eab2a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:57 +0000
Subject: [PATCH 068/194] fix: XML attribute values must be escaped when
 written and decoded when read

---
 bss-util/XML.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 9b74a09..ae572fb 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -291,7 +291,19 @@ void XMLNode::_parseAttribute(Str& buf)
     if(_match(ss, v.Name, "*="))
     {
       v.Name = v.Name.Trim();
-      if(!_match(ss, v.String, "\"*\"")) // If we can't get a valid string just eat everything until the next space.
+      Str quoted;
+      if(_match(ss, quoted, "\"*\""))
+      {
+        std::istringstream qs(quoted);
+        while(qs.peek() != -1 && qs)
+        {
+          if(qs.peek() == '&')
+            _parseEntity(qs, v.String);
+          else
+            v.String += qs.get();
+        }
+      }
+      else // If we can't get a valid string just eat everything until the next space.
       {
         while(ss.peek() != -1 && ss && !isspace(ss.peek())) 
           v.String += ss.get();
@@ -359,22 +371,15 @@ void XMLNode::_writeString(std::ostream& stream, const char* s, bool attribute)
 {
   while(*s)
   {
-    if(!attribute)
+    switch(*s)
     {
-      switch(*s)
-      {
-      case '<': stream << "&lt;"; break;
-      case '>': stream << "&gt;"; break;
-      case '&': stream << "&amp;"; break;
-      case '\'': stream << "&apos;"; break;
-      case '"': stream << "&quot;"; break;
-      default: stream.put(*s); break;
-      }
+    case '<': stream << "&lt;"; break;
+    case '>': stream << "&gt;"; break;
+    case '&': stream << "&amp;"; break;
+    case '\'': stream << "&apos;"; break;
+    case '"': stream << "&quot;"; break;
+    default: stream.put(*s); break;
     }
-    else if(*s == '"')
-      stream << "&quot;";
-    else
-      stream.put(*s);
 
     ++s;
   }
-- 
2.43.0


From 9f3053002bca43b95c29b960ede72059aa805f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:57 +0000
Subject: [PATCH 069/194] fix: copying an XMLNode must copy its children and
 replace the old ones

---
 bss-util/XML.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index ae572fb..6a74685 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -55,11 +55,12 @@ void XMLFile::Write(std::ostream& stream, bool pretty) const
     _nodes[i]->_write(stream, pretty, 0);
 }
 
-XMLNode::XMLNode(const XMLNode& copy) : _nodes(copy._nodes), _nodehash(copy._nodehash), _attributes(copy._attributes), _attrhash(copy._attrhash),
-  _value(copy._value), _name(copy._name)
+XMLNode::XMLNode(const XMLNode& copy) : _attributes(copy._attributes), _attrhash(copy._attrhash), _value(copy._value), _name(copy._name)
 {
   next = 0;
   prev = 0;
+  for(size_t i = 0; i < copy._nodes.Length(); ++i)
+    AddNode(*copy._nodes[i].get());
 }
 XMLNode::XMLNode(XMLNode&& mov) : _nodes(std::move(mov._nodes)), _nodehash(std::move(mov._nodehash)), _attributes(std::move(mov._attributes)),
   _attrhash(std::move(mov._attrhash)), _value(std::move(mov._value)), _name(std::move(mov._name))
@@ -75,6 +76,10 @@ XMLNode::XMLNode(std::istream& stream) { Str buf; _parse(stream, buf); next = 0;
 
 XMLNode& XMLNode::operator=(const XMLNode& copy)
 {
+  if(this == &copy)
+    return *this;
+  _nodes.Clear();
+  _nodehash.Clear();
   _attributes = copy._attributes;
   _attrhash = copy._attrhash;
   _value = copy._value;
-- 
2.43.0


From e21b93355550f208f83ff69b4a75d858b7693e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:57 +0000
Subject: [PATCH 070/194] fix: removing an XML node or attribute must leave the
 others reachable

---
 bss-util/XML.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 6a74685..09e7174 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -107,32 +107,40 @@ bool XMLNode::RemoveNode(size_t index)
 {
   if(index >= _nodes.Length()) 
     return false;
-  khiter_t iter = _nodehash.Iterator(_nodes[index]->_name);
-  if(_nodes[index]->next)
+  XMLNode* node = _nodes[index].get();
+  khiter_t iter = _nodehash.Iterator(node->_name);
+  if(_nodehash.ExistsIter(iter) && _nodehash.GetValue(iter) == index)
   {
-    for(size_t i = 0; i < _nodes.Length(); ++i)
+    if(node->next) // The next node of this name takes over
     {
-      if(_nodes[i].get() == _nodes[index]->next)
-      {
-        _nodes[i]->prev = 0;
-        if(_nodehash.ExistsIter(iter))
+      for(size_t i = 0; i < _nodes.Length(); ++i)
+        if(_nodes[i].get() == node->next)
           _nodehash.SetValue(iter, i);
-      }
     }
+    else
+      _nodehash.RemoveIter(iter);
   }
-  else if(_nodehash.ExistsIter(iter))
-    _nodehash.RemoveIter(iter);
+  if(node->next)
+    node->next->prev = node->prev;
+  if(node->prev)
+    node->prev->next = node->next;
 
   _nodes.Remove(index);
+  for(khiter_t i = 0; i < _nodehash.Capacity(); ++i) // Everything behind the removed node has moved down
+    if(_nodehash.ExistsIter(i) && _nodehash.GetValue(i) > index)
+      _nodehash.SetValue(i, _nodehash.GetValue(i) - 1);
   return true;
 }
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
 bool XMLNode::RemoveAttribute(size_t index)
 {
-  if(index >= _nodes.Length()) 
+  if(index >= _attributes.Length()) 
     return false;
-  _attrhash.Remove(_nodes[index]->_name);
-  _nodes.Remove(index);
+  _attrhash.Remove(_attributes[index].Name);
+  _attributes.Remove(index);
+  for(khiter_t i = 0; i < _attrhash.Capacity(); ++i) // Everything behind the removed attribute has moved down
+    if(_attrhash.ExistsIter(i) && _attrhash.GetValue(i) > index)
+      _attrhash.SetValue(i, _attrhash.GetValue(i) - 1);
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
-- 
2.43.0


From 076e4aa881d607614242b371fa3ea561b4d48abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:14 +0000
Subject: [PATCH 071/194] fix: an XMLNode that has attributes must be copyable

---
 include/bss-util/XML.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 2dcaf69..3371f9a 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -107,7 +107,7 @@ namespace bss {
 
     DynArray<std::unique_ptr<XMLNode>, size_t, ARRAY_MOVE> _nodes;
     Hash<Str, size_t, ARRAY_SAFE> _nodehash;
-    DynArray<XMLValue, size_t, ARRAY_MOVE> _attributes;
+    DynArray<XMLValue, size_t, ARRAY_SAFE> _attributes; // copied along with the node
     Hash<Str, size_t, ARRAY_SAFE> _attrhash;
     XMLValue _value;
     Str _name;
-- 
2.43.0


From 5caedcd84493bd17ee20c41a6f758074d8ed1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:14 +0000
Subject: [PATCH 072/194] fix: numbers written as XML must read back as the
 same number

---
 bss-util/XML.cpp       | 2 +-
 include/bss-util/XML.h | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 09e7174..b4fe35f 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -144,7 +144,7 @@ bool XMLNode::RemoveAttribute(size_t index)
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
-void XMLNode::SetValue(double value) { _value.Float = value; _value.Integer = (int64_t)value; _value.String = std::to_string(value); }
+void XMLNode::SetValue(double value) { _value.Float = value; _value.Integer = (int64_t)value; std::ostringstream ss; internal::serializer::WriteNumber(ss, value); _value.String = ss.str(); }
 void XMLNode::SetValue(int64_t value) { _value.Integer = value; _value.Float = (double)value; _value.String = std::to_string(value); }
 void XMLNode::SetValue(const char* value) { _value.String = value; _evalValue(_value); }
 void XMLNode::Clear()
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 3371f9a..040f3f7 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -195,10 +195,7 @@ namespace bss {
       XMLValue* v = id ? e.engine.cur->AddAttribute(id) : &e.engine.cur->AddNode(e.engine.arrayID)->GetValue(); // We don't need to update e.engine.cur here because there's nothing else to serialize
       std::ostringstream ss(std::ios_base::out);
 
-      if constexpr(std::is_floating_point<T>::value)
-        ss << static_cast<double>(t);
-      else
-        ss << static_cast<int64_t>(t);
+      internal::serializer::WriteNumber(ss, t);
       v->String = ss.str();
     }
     static void SerializeBool(Serializer<XMLEngine>& e, bool t, const char* id)
-- 
2.43.0


From 49aef9edb055384cb654611003f9599e71c10116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 073/194] fix: INIsection::EditEntry must be usable outside of
 the library

---
 include/bss-util/INIsection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/INIsection.h b/include/bss-util/INIsection.h
index dcfa8cd..571c30b 100644
--- a/include/bss-util/INIsection.h
+++ b/include/bss-util/INIsection.h
@@ -50,7 +50,7 @@ namespace bss {
     // Gets the specified key node for iteration with the given index. Returns null on failure.
     _NODE* GetEntryNode(const char* key, size_t instance = 0) const;
     // Changes the specified entry data with the given index, if data is nullptr the entry is deleted. if instance is -1 the entry is inserted.
-    inline char EditEntry(const char* key, const char* data, size_t instance = 0);
+    char EditEntry(const char* key, const char* data, size_t instance = 0);
     // Gets the root node of the section linked list
     inline const _NODE* Front() const { return _root; }
     // Gets the last node of the section linked list
-- 
2.43.0


From 81d6f862f445af1db7576796de93748e5d8c1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 074/194] fix: the INI parser must not parse the last line of a
 file again

---
 bss-util/INIParser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 9689fd4..a39c123 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -153,9 +153,8 @@ char bssParseLine(INIParser* parse)
   char* sec;
   parse->newsection = 0;
 
-  while(!feof(parse->file))
+  while(fgets(parse->buf, MAXLINELENGTH, parse->file))
   {
-    fgets(parse->buf, MAXLINELENGTH, parse->file);
     switch(_nextkeychar((const char**)&tc, parse->buf))
     {
     //case -1: //Garbage line
-- 
2.43.0


From eea54f9e7b101eaea09672195c35eb4ccbf259de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 075/194] fix: the INI parser must keep non-ASCII characters
 and stay inside of an empty string

---
 bss-util/INIParser.c    | 14 +++++++-------
 bss-util/INIstorage.cpp |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index a39c123..950cc92 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -6,7 +6,7 @@
 #include <malloc.h>
 #include <string.h>
 
-const char VALIDASCII = 33; //technically this works for unicode too
+const unsigned char VALIDASCII = 33; //technically this works for unicode too
 
 //int _minfunc(int a, int b)
 //{
@@ -60,8 +60,8 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && *inter < 33; --inter);
-  *(++inter) = '\0';
+  for(; inter > str && (unsigned char)inter[-1] < 33; --inter);
+  *inter = '\0';
   return str;
 }
 
@@ -93,7 +93,7 @@ char* _validatesection(char* start)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -102,7 +102,7 @@ char* _validatesection(char* start)
 char _validatekey(const char* start, const char* end)
 {
   for(; start < end; ++start)
-    if(*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
+    if((unsigned char)*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
   return 0;
 }
 
@@ -204,7 +204,7 @@ const char* _svalidatesection(const char* start, const char* end)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -217,7 +217,7 @@ const char* _svalidatevalue(const char* start, const char* end)
 
 const char* _trimrstralt(const char* end, const char* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (unsigned char)*end < 33; --end);
   return end;
 }
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7a6649a..c265dce 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -24,7 +24,7 @@ const T* ltrimstr(const T* str)
 template<typename T>
 const T* rtrimstr(const T* end, const T* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (unsigned char)*end < 33; --end);
   return end;
 }
 
-- 
2.43.0


From 3637b1204a462094e1579fe363e2a990f3c0a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 076/194] fix: an INI section or key must not be found by a
 prefix of its name

---
 bss-util/INIParser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 950cc92..27aebbb 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -228,7 +228,7 @@ int comparevalues(const char* start, const char* end, const char* comp)
   end = _trimrstralt(end - 1, start);
   a = (end - start) + 1;
   b = strlen(comp);
-  return STRNICMP(start, comp, bssmin(a, b));
+  return (a != b) ? 1 : STRNICMP(start, comp, a);
 }
 INICHUNK bssFindINISection(const void* data, size_t length, const char* section, size_t instance)
 {
-- 
2.43.0


From 6cb959eb914b33a4042005ce91ff171a215116c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 077/194] fix: an INI section must not end at a line that does
 not start another one

---
 bss-util/INIParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 27aebbb..1fb834f 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -247,12 +247,12 @@ INICHUNK bssFindINISection(const void* data, size_t length, const char* section,
     if(!line) line = end; //if that returned nothing we're on the last line
     if(_snextkeychar(&tc, cur, line) == 1)
     {
-      if(retval.start != 0) //if this is true we already found the section and now we're just looking for the next valid one
+      sec = _svalidatesection(tc, line); //if the validation function returns nullptr its garbage
+      if(retval.start != 0 && sec != 0 && sec != (tc + 1)) //if this is true we already found the section and now we're just looking for the next valid one
       {
         retval.end = --cur;
         break;
       }
-      sec = _svalidatesection(tc, line); //if the validation function returns nullptr its garbage
       if(sec != 0 && sec != (tc + 1) && comparevalues(tc + 1, sec, section) == 0 && (++curinstance) == instance)
       {
         retval.start = tc; //this is safe because we already verified that there is at least one valid character in this string. Ok, it still isn't safe, but it won't explode.
-- 
2.43.0


From 8c85b2e2af9de90de59a4b064100799ef253e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 078/194] fix: copying an INIstorage or INIsection must copy
 every instance and leave the source alone

---
 bss-util/INIsection.cpp | 22 +++++++++++-----------
 bss-util/INIstorage.cpp | 19 ++++++++-----------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index 3fd23a8..a7cfe2c 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -58,18 +58,18 @@ void INIsection::_copy(const INIsection& copy)
     else
       _last=LLAddAfter(p,_last);
 
-    if(t->instances.Capacity()!=0) {
-      _entries.Insert(p->val.GetKey(),p);
-      p->instances.SetCapacity(c=t->instances.Capacity());
-      last=t;
-      --c;
-    } else if(c>0) {
-      assert(last!=0);
-      last->instances[last->instances.Capacity()-(c--)-1]=p; //This never goes negative because c>0 and is therefore at least 1
-    } else
-      _entries.Insert(p->val.GetKey(),p);
+    if(c > 0)
+      last->instances[last->instances.Capacity() - (c--)] = p; // The other instances directly follow the first one
+    else
+    {
+      _entries.Insert(p->val.GetKey(), p);
+      c = t->instances.Capacity();
+      if(c > 0)
+        p->instances.SetCapacity(c);
+      last = p;
+    }
 
-    t=t->next;
+    t = t->next;
   }
 }
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index c265dce..274d50d 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -360,25 +360,22 @@ void INIstorage::_copy(const INIstorage& copy)
     _NODE* p = _alloc.allocate(1);
     bssFill(*p, 0);
     new (&p->val) INIsection(t->val);
+    p->val._parent = this;
     if(!_root)
       _root = _last = p;
     else
       _last = LLAddAfter(p, _last);
 
-    if(t->instances.Capacity() != 0)
+    if(c > 0)
+      last->instances[last->instances.Capacity() - (c--)] = p; // The other instances directly follow the first one
+    else
     {
       _sections.Insert(p->val.GetName(), p);
-      p->instances.SetCapacity(c = t->instances.Capacity());
-      last = t;
-      --c;
-    }
-    else if(c > 0)
-    {
-      assert(last != 0);
-      last->instances[last->instances.Capacity() - (c--) - 1] = p; //This never goes negative because c>0 and is therefore at least 1
+      c = t->instances.Capacity();
+      if(c > 0)
+        p->instances.SetCapacity(c);
+      last = p;
     }
-    else
-      _sections.Insert(p->val.GetName(), p);
 
     t = t->next;
   }
-- 
2.43.0


From 2a2cb9114916b0ad080d8ede05bbbf992f6fd33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 079/194] fix: moving an INIstorage must keep what was moved,
 release what was there and update the sections

---
 bss-util/INIsection.cpp | 1 +
 bss-util/INIstorage.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index a7cfe2c..347d462 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -111,6 +111,7 @@ INIsection& INIsection::operator=(const INIsection& right)
 INIsection& INIsection::operator=(INIsection&& mov)
 {
   if(&mov == this) return *this;
+  _destroy();
   _name=std::move(mov._name);
   _index=mov._index;
   _parent=mov._parent;
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 274d50d..b2e59c9 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -58,6 +58,8 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
   mov._ini = 0;
   mov._root = 0;
   mov._last = 0;
+  for(_NODE* t = _root; t != 0; t = t->next)
+    t->val._parent = this;
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
@@ -400,6 +402,7 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   _path = std::move(mov._path);
   _filename = mov._filename;
   if(_ini != 0) delete _ini;
+  _destroy();
   _ini = mov._ini;
   _root = mov._root;
   _last = mov._last;
@@ -407,8 +410,9 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   mov._root = 0;
   mov._last = 0;
   _logger = mov._logger;
-  _destroy();
   _sections = std::move(mov._sections);
+  for(_NODE* t = _root; t != 0; t = t->next)
+    t->val._parent = this;
   return *this;
 }
 
-- 
2.43.0


From 1efd4ae42a2ba18e99ecdc8390718f57e252791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 080/194] fix: removing the first instance of an INI section or
 entry must not leave a dangling key

---
 bss-util/INIstorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index b2e59c9..929147f 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -182,8 +182,10 @@ bool INIstorage::RemoveSection(const char* name, size_t instance)
     if(!instance && secnode->instances.Capacity() > 0)
     {
       instance = 1;
+      _sections.RemoveIter(iter); // the key belongs to the value that gets replaced
       secnode->val = std::move(secnode->next->val);
       secnode->val._index = 0;
+      _sections.Insert(secnode->val.GetName(), secnode);
       secnode = secnode->next;
     }
 
@@ -257,7 +259,9 @@ char INIstorage::EditEntry(const char* section, const char* key, const char* nva
     if(!keyinstance && entnode->instances.Capacity() > 0)
     {
       keyinstance = 1;
+      psec->_entries.RemoveIter(iter); // the key belongs to the value that gets replaced
       entnode->val = std::move(entnode->next->val);
+      psec->_entries.Insert(entnode->val.GetKey(), entnode);
       entnode = entnode->next;
     }
 
-- 
2.43.0


From 231d0a2a23cc88672545d57bdebf6ce2d220b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 081/194] fix: an INIstorage without a file must be usable

---
 bss-util/INIstorage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 929147f..0a85c05 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -32,13 +32,13 @@ void INIstorage::_openINI()
 {
   Str targetpath = _path;
   targetpath += _filename;
+  _ini = new Str();
   FILE* f;
   FOPEN(f, targetpath, "a+b"); //this will create the file if it doesn't already exist
   if(!f) return;
   fseek(f, 0, SEEK_END);
   size_t size = (size_t)ftell(f);
   fseek(f, 0, SEEK_SET);
-  _ini = new Str();
   _ini->resize(size);
   size = fread(_ini->UnsafeString(), sizeof(char), size, f); //reads in the entire file
   _ini->UnsafeString()[size] = '\0';
@@ -63,6 +63,7 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
+  if(!file) return;
   FILE* f;
   FOPEN(f, file, ("rt"));
   if(f)
-- 
2.43.0


From e3351efd498038533bbf99933092c41af5c566c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 082/194] fix: a UBJSON object must not move its keys bitwise
 when it grows

---
 include/bss-util/UBJSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3c87855..7ba44eb 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -42,7 +42,7 @@ namespace bss {
       TYPE_COUNT = '#',
     };
     typedef DynArray<UBJSONTuple, size_t, ARRAY_CONSTRUCT> UBJSONArray;
-    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_CONSTRUCT> UBJSONObject;
+    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_SAFE> UBJSONObject; // Str cannot be moved in memory
 
     UBJSONTuple(const UBJSONTuple& copy);
     UBJSONTuple(UBJSONTuple&& mov);
-- 
2.43.0


From 8fafb8a09b1132da3e2ac648424196536e2f4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 083/194] fix: malformed UBJSON must not destroy what was never
 constructed nor allocate whatever it claims to need

---
 include/bss-util/UBJSON.h | 48 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 7ba44eb..1c602b5 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -93,6 +93,20 @@ namespace bss {
       return v;
     }
 
+    // Reads up to length bytes without trusting length, which might be much larger than what there is to read
+    inline static void ReadString(std::istream& s, std::string& out, int64_t length)
+    {
+      out.clear();
+      while(length > 0 && !!s)
+      {
+        size_t pos = out.size();
+        out.resize(pos + (size_t)bssmin(length, (int64_t)MAX_RESERVE));
+        s.read(&out[pos], out.size() - pos);
+        out.resize(pos + (size_t)s.gcount());
+        length -= s.gcount();
+      }
+    }
+
     template<typename FnAdd, typename FnInsert, typename FnBulk>
     inline void Parse(std::istream& s, TYPE ty, FnAdd add, FnInsert insert, FnBulk bulkadd)
     {
@@ -115,8 +129,10 @@ namespace bss {
         break;
       case TYPE_ARRAY:
       {
+        Type = TYPE_NONE; // if this throws, there is no array to destroy yet
         int64_t count = ParseTypeCount(s, ty);
-        new (&Array) UBJSONArray(std::is_null_pointer_v<FnAdd> ? bssmax(count, 1) : 0);
+        new (&Array) UBJSONArray(std::is_null_pointer_v<FnAdd> ? bssclamp(count, 1, (int64_t)MAX_RESERVE) : 0);
+        Type = TYPE_ARRAY;
 
         if constexpr(!std::is_null_pointer_v<FnBulk>)
           if(count >= 0 && (ty == TYPE_CHAR || ty == TYPE_UINT8 || ty == TYPE_INT8) && bulkadd(ty, count))
@@ -141,24 +157,23 @@ namespace bss {
       }
       case TYPE_OBJECT:
       {
+        Type = TYPE_NONE; // if this throws, there is no object to destroy yet
         int64_t count = ParseTypeCount(s, ty);
-        new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssmax(count, 1) : 0);
-        Str buf;
+        new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssclamp(count, 1, (int64_t)MAX_RESERVE) : 0);
+        Type = TYPE_OBJECT;
+        std::string buf;
         while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_OBJECT_END))
         {
-          int64_t length = ParseLength(s);
-          buf.reserve(length + 1);
-          s.read(buf.UnsafeString(), length);
-          buf.UnsafeString()[length] = 0;
+          ReadString(s, buf, ParseLength(s));
 
           if constexpr(std::is_null_pointer_v<FnInsert>)
           {
             Object.AddConstruct();
-            Object.Back().first.assign(buf.data(), length);
+            Object.Back().first.assign(buf.data(), buf.size());
             Object.Back().second.Parse(s, ty);
           }
           else
-            insert(ty, buf.data(), length);
+            insert(ty, buf.c_str(), buf.size());
 
           --count;
         }
@@ -176,15 +191,15 @@ namespace bss {
       case TYPE_DOUBLE: Double = ParseInteger<double>(s); break;
       case TYPE_BIGNUM:
       case TYPE_STRING:
-        Length = ParseLength(s);
-        String = new char[(size_t)Length + 1];
-
-        if(Length > 0)
-          s.read(String, Length);
-
-        String[Length] = 0;
+      {
+        std::string buf;
+        ReadString(s, buf, ParseLength(s));
+        Length = buf.size();
+        String = new char[buf.size() + 1];
+        memcpy(String, buf.c_str(), buf.size() + 1);
         break;
       }
+      }
     }
 
     template<class T>
@@ -233,6 +248,7 @@ namespace bss {
         WriteString(s, id, strlen(id), TYPE_STRING);
     }
 
+    static const size_t MAX_RESERVE = 4096; // Never allocate more than this at once because of a length read from a stream
     TYPE Type;
     int64_t Length;
     union
-- 
2.43.0


From dcd1f63cb59e1d5bac9ea8c01b541e77ef910241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 084/194] fix: a UBJSON array of values without payload must
 keep its elements at the end of the stream

---
 include/bss-util/UBJSON.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 1c602b5..6e55b84 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -138,7 +138,8 @@ namespace bss {
           if(count >= 0 && (ty == TYPE_CHAR || ty == TYPE_UINT8 || ty == TYPE_INT8) && bulkadd(ty, count))
             break;
 
-        while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_ARRAY_END))
+        const bool empty = ty == TYPE_NULL || ty == TYPE_TRUE || ty == TYPE_FALSE; // These take no space, so there might be nothing to read
+        while(!!s && ((empty && count > 0) || s.peek() != -1) && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_ARRAY_END))
         {
           if constexpr(std::is_null_pointer_v<FnAdd>)
           {
-- 
2.43.0


From 3f987d4a1fe133fb09189666b8ed50c8621a3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 085/194] fix: UBJSON must be able to write integers above the
 64 bit signed range

---
 include/bss-util/UBJSON.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 6e55b84..cccb219 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -54,7 +54,7 @@ namespace bss {
       {
         if constexpr(std::is_same_v<T, float>)
           Type = TYPE_FLOAT;
-        else if constexpr(std::is_same_v<T, double>)
+        else if constexpr(std::is_floating_point_v<T>)
           Type = TYPE_DOUBLE;
         else
           Type = GetIntType(n);
@@ -69,8 +69,15 @@ namespace bss {
       case TYPE_INT32: Int32 = (int32_t)n; break;
       case TYPE_INT64: Int64 = (int64_t)n; break;
       case TYPE_FLOAT: Float = (float)n; break;
-      case TYPE_BIGNUM:
       case TYPE_DOUBLE: Double = (double)n; break;
+      case TYPE_BIGNUM:
+      {
+        std::string buf = std::to_string(n);
+        Length = buf.size();
+        String = new char[buf.size() + 1];
+        memcpy(String, buf.c_str(), buf.size() + 1);
+        break;
+      }
       default: assert(false); break;
       }
     }
@@ -367,7 +374,12 @@ namespace bss {
       case UBJSONTuple::TYPE_INT64: obj = (T)tuple.Int64; break;
       case UBJSONTuple::TYPE_FLOAT: obj = (T)tuple.Float; break;
       case UBJSONTuple::TYPE_DOUBLE: obj = (T)tuple.Double; break;
-      case UBJSONTuple::TYPE_BIGNUM: break;// we can't deal with bignum
+      case UBJSONTuple::TYPE_BIGNUM: // we can only deal with a bignum that fits
+        if constexpr(std::is_floating_point_v<T>)
+          obj = (T)strtod(tuple.String, 0);
+        else
+          obj = (tuple.String[0] == '-') ? (T)strtoll(tuple.String, 0, 10) : (T)strtoull(tuple.String, 0, 10);
+        break;
       default: assert(false); break;
       }
     }
-- 
2.43.0


From e696188728826c64afaa7c2835ba97668e2b32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 086/194] fix: UBJSON must write arrays of unsigned integers,
 enums and arrays with the right element type

---
 include/bss-util/UBJSON.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index cccb219..c7e4c72 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -275,7 +275,29 @@ namespace bss {
   };
 
   namespace internal {
-    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT; };
+    template<class T> struct IsUBJSONArray : internal::serializer::is_serializer_array<T> {};
+    template<class T, size_t I> struct IsUBJSONArray<T[I]> : std::true_type {};
+    template<class T, size_t I> struct IsUBJSONArray<std::array<T, I>> : std::true_type {};
+    template<class T, class A> struct IsUBJSONArray<std::vector<T, A>> : std::true_type {};
+    template<class... Args> struct IsUBJSONArray<std::tuple<Args...>> : std::true_type {};
+
+    template<class T>
+    constexpr UBJSONTuple::TYPE GetUBJSONType()
+    {
+      if constexpr(std::is_enum_v<T>)
+        return GetUBJSONType<std::underlying_type_t<T>>();
+      else if constexpr(std::is_floating_point_v<T>)
+        return UBJSONTuple::TYPE_DOUBLE;
+      else if constexpr(std::is_integral_v<T>) // The smallest type that can hold every value, if there is one
+        return sizeof(T) == 1 ? (std::is_signed_v<T> ? UBJSONTuple::TYPE_INT8 : UBJSONTuple::TYPE_UINT8) :
+          (sizeof(T) == 2 && std::is_signed_v<T>) ? UBJSONTuple::TYPE_INT16 :
+          (sizeof(T) == 2 || (sizeof(T) == 4 && std::is_signed_v<T>)) ? UBJSONTuple::TYPE_INT32 :
+          (sizeof(T) == 4 || std::is_signed_v<T>) ? UBJSONTuple::TYPE_INT64 : UBJSONTuple::TYPE_NONE;
+      else
+        return IsUBJSONArray<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT;
+    }
+
+    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = GetUBJSONType<T>(); };
     template<> struct WriteUBJSONType<uint8_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_UINT8; };
     template<> struct WriteUBJSONType<char> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_INT8; };
     template<> struct WriteUBJSONType<bool> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
-- 
2.43.0


From 3589046ed47498229d733e62a66a041113c8f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 087/194] fix: an array of bytes in UBJSON must be readable
 into any array of numbers

---
 include/bss-util/Serializer.h | 4 +++-
 include/bss-util/UBJSON.h     | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 333b623..9fda1d0 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -181,7 +181,7 @@ namespace bss {
         static inline bool Read(Serializer<Engine>& e, std::vector<T, Alloc>& obj, int64_t count)
         {
           obj.resize(count);
-          return e.BulkRead(std::begin(obj), std::end(obj), count);
+          return e.BulkRead(obj.data(), obj.data() + obj.size(), count);
         }
         static inline void Parse(Serializer<Engine>& e, std::vector<T, Alloc>& obj, const char* id)
         {
@@ -416,6 +416,8 @@ namespace bss {
 
         auto& ref = *begin;
         in->read(reinterpret_cast<char*>(&ref), bssmin(count, end - begin) * sizeof(Element));
+        if(count > end - begin)
+          in->ignore((count - (end - begin)) * sizeof(Element));
         return true;
       }
       else
diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index c7e4c72..5d3ef29 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -374,7 +374,12 @@ namespace bss {
         Add(e, obj, num);
       },
         nullptr,
-        [&](UBJSONTuple::TYPE, int64_t count)->bool { return Read(e, obj, count); });
+        [&](UBJSONTuple::TYPE, int64_t count)->bool
+      {
+        if constexpr(std::is_integral_v<E> && sizeof(E) == 1 && !std::is_same_v<E, bool>) // Only elements that look the same can be copied
+          return Read(e, obj, count);
+        return false;
+      });
       assert(tuple.Type == UBJSONTuple::TYPE_ARRAY);
     }
     template<typename T>
-- 
2.43.0


From 38e8a0107afef16924ea4a7baa412c315aada300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 088/194] fix: unknown members and surplus elements in UBJSON
 must be skipped

---
 include/bss-util/UBJSON.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 5d3ef29..a83ad26 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -314,13 +314,14 @@ namespace bss {
   class UBJSONEngine
   {
   public:
-    UBJSONEngine() : type(UBJSONTuple::TYPE_NONE) {}
+    UBJSONEngine() : type(UBJSONTuple::TYPE_NONE), parsed(false) {}
     static constexpr bool Ordered() { return false; }
     static void Begin(Serializer<UBJSONEngine>& e) {}
     static void End(Serializer<UBJSONEngine>& e) {}
     template<typename T>
     static void Parse(Serializer<UBJSONEngine>& e, T& obj, const char* id)
     {
+      e.engine.parsed = true;
       if constexpr(std::is_base_of<std::string, T>::value)
       {
         UBJSONTuple tuple;
@@ -358,8 +359,11 @@ namespace bss {
         [&](UBJSONTuple::TYPE ty, const char* id, size_t len)
       {
         internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
+        e.engine.parsed = false;
         f(e, id);
+        Skip(e);
       }, nullptr);
+      e.engine.parsed = true;
       assert(tuple.Type == UBJSONTuple::TYPE_OBJECT);
     }
     template<typename T, typename E, void(*Add)(Serializer<UBJSONEngine>& e, T& obj, int& n), bool(*Read)(Serializer<UBJSONEngine>& e, T& obj, int64_t count)>
@@ -371,7 +375,9 @@ namespace bss {
         [&](UBJSONTuple::TYPE ty)
       {
         internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
+        e.engine.parsed = false;
         Add(e, obj, num);
+        Skip(e);
       },
         nullptr,
         [&](UBJSONTuple::TYPE, int64_t count)->bool
@@ -380,11 +386,13 @@ namespace bss {
           return Read(e, obj, count);
         return false;
       });
+      e.engine.parsed = true;
       assert(tuple.Type == UBJSONTuple::TYPE_ARRAY);
     }
     template<typename T>
     static void ParseNumber(Serializer<UBJSONEngine>& e, T& obj, const char* id)
     {
+      e.engine.parsed = true;
       UBJSONTuple tuple;
       tuple.Parse(*e.in, e.engine.type);
 
@@ -412,6 +420,7 @@ namespace bss {
     }
     static void ParseBool(Serializer<UBJSONEngine>& e, bool& obj, const char* id)
     {
+      e.engine.parsed = true;
       UBJSONTuple tuple;
       tuple.Parse(*e.in, e.engine.type);
 
@@ -519,7 +528,18 @@ namespace bss {
         e.out->put(t ? UBJSONTuple::TYPE_TRUE : UBJSONTuple::TYPE_FALSE);
     }
 
+    // Skips a value if nobody was interested in it
+    static void Skip(Serializer<UBJSONEngine>& e)
+    {
+      if(!e.engine.parsed)
+      {
+        UBJSONTuple tuple;
+        tuple.Parse(*e.in, e.engine.type);
+      }
+    }
+
     UBJSONTuple::TYPE type;
+    bool parsed; // Set by every parsing function
   };
 }
 
-- 
2.43.0


From cbf7ddfa5245d71432ed63ccf842184bde46593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 089/194] fix: a UBJSON string or character must be read
 completely

---
 include/bss-util/UBJSON.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index a83ad26..4cb451b 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -329,7 +329,7 @@ namespace bss {
         switch(tuple.Type) // we will shove just about anything we possibly can into a string
         {
         case UBJSONTuple::TYPE_NULL: break;
-        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1);
+        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1); break;
         case UBJSONTuple::TYPE_INT8: obj = std::to_string((int)tuple.Int8); break;
         case UBJSONTuple::TYPE_UINT8: obj = std::to_string(tuple.UInt8); break;
         case UBJSONTuple::TYPE_INT16: obj = std::to_string(tuple.Int16); break;
@@ -339,7 +339,7 @@ namespace bss {
         case UBJSONTuple::TYPE_DOUBLE: obj = std::to_string(tuple.Double); break;
         case UBJSONTuple::TYPE_BIGNUM:
         case UBJSONTuple::TYPE_STRING:
-          obj = tuple.String;
+          obj.assign(tuple.String, (size_t)tuple.Length);
           break;
         }
       }
-- 
2.43.0


From 70e714f8941e79f1e8701f261f88373fb67ffeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:59 +0000
Subject: [PATCH 090/194] fix: BitLimit must pick a type wide enough for 24,
 40, 48 and 56 bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 91e88e7..041f01f 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -71,7 +71,7 @@ namespace bss {
   template<uint8_t BITS>
   struct BitLimit
   {
-    static constexpr uint16_t BYTES = ((T_CHARGETMSB(BITS) >> 3) << (0 + ((BITS % 8) > 0))) + (BITS < 8);
+    static constexpr uint16_t BYTES = ((T_CHARGETMSB(BITS) >> 3) << (0 + ((BITS & (BITS - 1)) > 0))) + (BITS < 8);
     typedef typename std::conditional<sizeof(char) == BYTES, char,  //rounds the type up if necessary.
       typename std::conditional<sizeof(short) == BYTES, short,
       typename std::conditional<sizeof(int) == BYTES, int,
-- 
2.43.0


From 3a4afafc9e486cfa73cf8115c47d7ffd5e0a4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:26 +0000
Subject: [PATCH 091/194] fix: BitCount must count the bits of signed types

---
 include/bss-util/bss_util.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 041f01f..28f47fa 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -720,10 +720,11 @@ namespace bss {
 
   // Counts the number of bits in v (up to 128-bit types) using the parallel method detailed here: http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetParallel
   template<typename Tx>
-  inline uint8_t BitCount(Tx v) noexcept
+  inline uint8_t BitCount(Tx x) noexcept
   {
-    typedef typename make_integral<Tx>::type T;
-    static_assert(std::is_integral<T>::value, "T must be integral");
+    static_assert(std::is_integral<typename make_integral<Tx>::type>::value, "T must be integral");
+    typedef typename std::make_unsigned<typename make_integral<Tx>::type>::type T; // The masks and shifts below only work on unsigned types
+    T v = (T)x;
     v = v - ((v >> 1) & (T)~(T)0 / 3);                           // temp
     v = (v & (T)~(T)0 / 15 * 3) + ((v >> 2) & (T)~(T)0 / 15 * 3);      // temp
     v = (v + (v >> 4)) & (T)~(T)0 / 255 * 15;                      // temp
-- 
2.43.0


From 40be0f1cf3d8ed4427925ffd45524990bd58e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:26 +0000
Subject: [PATCH 092/194] fix: bssGetBit must reach the upper half of 64-bit
 words

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 28f47fa..5630750 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -108,7 +108,7 @@ namespace bss {
   BSS_FORCEINLINE T bssSetBit(T word, T bit, bool v) noexcept { return (((word) & (~(bit))) | ((T)(-(typename std::make_signed<T>::type)v) & (bit))); }
 
   template<class T>
-  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (1 << (index % (sizeof(T) << 3)))) != 0; }
+  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & ((T)1 << (index % (sizeof(T) << 3)))) != 0; }
 
   // Replaces one character with another in a string
   template<typename T>
-- 
2.43.0


From 5c16d1de3fd236bb4b0533e0fe4f35e3e384a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:26 +0000
Subject: [PATCH 093/194] fix: bssLog2 of a 64-bit integer must look at all of
 its bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 5630750..f1e72e5 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -871,7 +871,7 @@ namespace bss {
     unsigned long r;
     _BitScanReverse64(&r, v);
 #elif defined(BSS_COMPILER_GCC) && defined(BSS_64BIT)
-    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clz(v));
+    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clzll(v));
 #else
     const uint64_t b[] = { 0x2, 0xC, 0xF0, 0xFF00, 0xFFFF0000, 0xFFFFFFFF00000000 };
     const uint32_t S[] = { 1, 2, 4, 8, 16, 32 };
-- 
2.43.0


From bf3566cbf73b066d0195bdca02e930f242059fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:26 +0000
Subject: [PATCH 094/194] fix: hash64_fnv1a must not truncate its state to 32
 bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index f1e72e5..a1fe480 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -1012,7 +1012,7 @@ namespace bss {
   }
 
   inline constexpr uint64_t hash64_fnv1a(const char* const str, const uint64_t value = 0xcbf29ce484222325) noexcept {
-    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL));
+    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL);
   }
 
   // template helper is_specialization_of, which can check if T is a specialization of any type that takes a variadic number of arguments (variant, tuple, etc.)
-- 
2.43.0


From cad4854491f983f9761a1cf37978e983958c5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:26 +0000
Subject: [PATCH 095/194] fix: bssVariance must divide by the number of values,
 not by the value

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index a1fe480..5634039 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -693,7 +693,7 @@ namespace bss {
     static_assert(std::is_integral<CT_>::value, "CT_ must be integral");
     static_assert(std::is_floating_point<T>::value, "T must be float, double, or long double");
     T delta = nvalue - avg;
-    avg += delta / (T)nvalue;
+    avg += delta / (T)nextnum;
     curvariance += delta*(nvalue - avg);
   }
 
-- 
2.43.0


From 18737c6bb176042d6b36a5cef012c40a75c545e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:55 +0000
Subject: [PATCH 096/194] fix: bit ranges wider than 31 bits need 64-bit
 arithmetic

---
 include/bss-util/defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/defines.h b/include/bss-util/defines.h
index cb8dd98..e2effc7 100644
--- a/include/bss-util/defines.h
+++ b/include/bss-util/defines.h
@@ -46,7 +46,7 @@
 #define T_GETBIT(type, bit) ((type)(((type)1)<<(((type)bit)%(sizeof(type)<<3)))) // Gets a bitmask using its 0-based index.
 //#define T_GETBITRANGE(type, low, high) ((type)((((2<<((high)-(low)))-1)<<(low))|(((2<<((high)-(low)))-1)>>(-(low)))|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3)))))
 // Gets a bitmask for a range of bits. This range can be negative to start from the left end instead of the right.
-#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((2<<((high)-(low)))-1),low)|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
+#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((2ULL<<((high)-(low)))-1),low)|(((2ULL<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
 #define MAKEVERSIONINT(major,minor,revision) ((major) + ((minor)<<8) + ((revision)<<16)) // Packs version information into a 32-bit integer
 // This calculates the most significant bit in an 8-bit integer (CHAR) at compile time. It's really just a basterdized version of
 // i |= i >> 1; i |= i >> 2; i |= i >> 4; i -= i >> 1; so that it happens during compile time.
-- 
2.43.0


From 622bf0bd34d85b7614aaa395cd88cc845726e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:09 +0000
Subject: [PATCH 097/194] fix: the integer square root of large 64-bit numbers
 must not overflow an int

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 5634039..7067814 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -646,7 +646,7 @@ namespace bss {
       if(n >= t)
       {
         n -= t;
-        root |= 2 << (i);
+        root |= ((T)2) << (i);
       }
     }
     return root >> 1;
-- 
2.43.0


From e9c648b42bd4ce750582fab3b62bcb362c065354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:34 +0000
Subject: [PATCH 098/194] fix: converting a Fixed to another format must shift
 in the right direction

---
 include/bss-util/FixedPt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/FixedPt.h b/include/bss-util/FixedPt.h
index b487c14..3c7a8a9 100644
--- a/include/bss-util/FixedPt.h
+++ b/include/bss-util/FixedPt.h
@@ -62,7 +62,7 @@ namespace bss {
   public:
     inline constexpr Fixed(const Fixed& copy) : _bits(copy._bits) {}
     template<uint8_t B, typename U, bool S>
-    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, B - D>(copy.Bits())) {}
+    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, D - B>(copy.Bits())) {}
     inline constexpr explicit Fixed(const T v) : _bits(v << D) {}
     inline constexpr Fixed(BITS bits) : _bits(bits.bits) {}
     inline explicit Fixed(const float f) : _bits(FixedPtConv<T, D, float>(f)) {}
@@ -75,7 +75,7 @@ namespace bss {
 
     inline Fixed& operator=(const Fixed& right) { _bits = right._bits; return *this; }
     template<uint8_t B, typename U, bool S>
-    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, B - D>(right.Bits()); return *this; }
+    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, D - B>(right.Bits()); return *this; }
 
     inline Fixed<(sizeof(T) << 3) - D, T, SATURATE> Reciprocal() const
     { 
-- 
2.43.0


From 372eba1bf6cc903f67d5e344601d696f0e87d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:16 +0000
Subject: [PATCH 099/194] fix: copying an AliasTable must copy all of its
 probabilities

---
 include/bss-util/AliasTable.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index a8a088a..2be1b09 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -15,8 +15,9 @@ namespace bss {
     AliasTable(const AliasTable& copy) : _alias(new UINT[copy._count]), _prob(new F[copy._count]), _count(copy._count),
       _dist(copy._dist), _fdist(copy._fdist)
     {
-      memcpy(_alias, copy._alias, sizeof(UINT)*copy._count);
-      memcpy(_prob, copy._prob, sizeof(UINT)*copy._count);
+      if(!_count) return;
+      memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
     }
     AliasTable(AliasTable&& mov) : _prob(std::move(mov._prob)), _alias(std::move(mov._alias)),
       _dist(std::move(mov._dist)), _fdist(std::move(mov._fdist)), _count(mov._count)
@@ -101,19 +102,20 @@ namespace bss {
     template<typename ENGINE>
     BSS_FORCEINLINE UINT operator()(ENGINE& e) const { return Get<ENGINE>(e); }
     BSS_FORCEINLINE UINT operator()(void) const { return Get(); }
-    inline F* GetProbabilities() const { return _prob; }
-    inline UINT* GetAliases() const { return _alias; }
+    inline F* GetProbabilities() const { return _prob.get(); }
+    inline UINT* GetAliases() const { return _alias.get(); }
     inline UINT GetCount() const { return _count; }
 
     inline AliasTable& operator=(const AliasTable& copy)
     {
+      if(&copy == this) return *this;
       _count = copy._count;
       _dist = copy._dist;
       _fdist = copy._fdist;
       _alias.reset(new UINT[copy._count]);
       _prob.reset(new F[copy._count]);
       memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
-      memcpy(_prob.get(), copy._prob.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
       return *this;
     }
     inline AliasTable& operator=(AliasTable&& mov)
-- 
2.43.0


From 734698d2f542383691be4543c6d0b576aa2beee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:44 +0000
Subject: [PATCH 100/194] fix: Base64Decode must not read outside of its table
 on illegal characters

---
 include/bss-util/algo.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index ecafb3f..5fe4150 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -679,19 +679,20 @@ namespace bss {
     uint8_t map[78] = { 62,0,0,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,
     0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,63,0,
     26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51 };
+    auto at = [&map](char ch) -> uint8_t { size_t k = (size_t)(ch - '-'); return k < sizeof(map) ? map[k] : 0; }; // Illegal characters count as 0
     size_t s = cnt & (~0b11);
 
     for(; i < s; i += 4)
     {
-      out[c++] = (map[src[i + 0] - '-'] << 2) | (map[src[i + 1] - '-'] >> 4);
-      out[c++] = (map[src[i + 1] - '-'] << 4) | (map[src[i + 2] - '-'] >> 2);
-      out[c++] = (map[src[i + 2] - '-'] << 6) | (map[src[i + 3] - '-']);
+      out[c++] = (at(src[i + 0]) << 2) | (at(src[i + 1]) >> 4);
+      out[c++] = (at(src[i + 1]) << 4) | (at(src[i + 2]) >> 2);
+      out[c++] = (at(src[i + 2]) << 6) | (at(src[i + 3]));
     }
 
     if(++i < cnt) // we do ++i here even though i was already valid because the first character requires TWO source characters, not 1.
-      out[c++] = (map[src[i - 1] - '-'] << 2) | (map[src[i] - '-'] >> 4); 
+      out[c++] = (at(src[i - 1]) << 2) | (at(src[i]) >> 4); 
     if(++i < cnt)
-      out[c++] = (map[src[i - 1] - '-'] << 4) | (map[src[i] - '-'] >> 2);
+      out[c++] = (at(src[i - 1]) << 4) | (at(src[i]) >> 2);
     return c;
   }
 }
-- 
2.43.0


From 73eecd7365c3848191470db8750f893114f88c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:44 +0000
Subject: [PATCH 101/194] fix: strrtrim must remove all whitespace, only
 whitespace, and stay inside of an empty string

---
 include/bss-util/bss_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 7067814..9433219 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -209,8 +209,8 @@ namespace bss {
     static_assert(std::is_integral<T>::value, "T must be integral");
     T* inter = str + strlen(str);
 
-    for(; inter > str && *inter < 33; --inter);
-    *(++inter) = '\0';
+    for(; inter > str && inter[-1] > 0 && inter[-1] < 33; --inter);
+    *inter = '\0';
     return str;
   }
 
-- 
2.43.0


From e0c627707ef1f127ea369b0abaa7045468c1a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:44 +0000
Subject: [PATCH 102/194] fix: strcpyx0 must terminate a truncated string

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 9433219..af69bdc 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -127,7 +127,7 @@ namespace bss {
 
 #ifndef BSS_COMPILER_MSC
   template<int SZ>
-  BSS_FORCEINLINE char* strcpyx0(char(&dst)[SZ], const char* src) { return strncpy(dst, src, SZ - 1); }
+  BSS_FORCEINLINE char* strcpyx0(char(&dst)[SZ], const char* src) { dst[SZ - 1] = 0; return strncpy(dst, src, SZ - 1); }
 #endif
 
   // Counts number of occurences of character c in string, up to the null terminator
-- 
2.43.0


From 1eac070568c1fa83ff0937b1f5ff97eddeed227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:44 +0000
Subject: [PATCH 103/194] fix: bssLoadFile must return the number of elements,
 not of bytes

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index af69bdc..977f6a5 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -758,7 +758,7 @@ namespace bss {
     WFOPEN(f, file, "rb");
     if(!f) return std::pair<std::unique_ptr<T[]>, size_t>(nullptr, 0);
     fseek(f, 0, SEEK_END);
-    size_t ln = ftell(f);
+    size_t ln = ftell(f) / sizeof(T);
     fseek(f, 0, SEEK_SET);
     std::unique_ptr<T[]> a(new T[ln + !!nullterminate]);
     fread(a.get(), sizeof(T), ln, f);
-- 
2.43.0


From c8bba4e296b77069aa594a0c29bb0cfd4a6f2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:44 +0000
Subject: [PATCH 104/194] fix: BreadthFirstTree needs a queue that holds the
 widest level of a full tree

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 5fe4150..c157805 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -305,7 +305,7 @@ namespace bss {
       return;
     }
 
-    n = (n / 2) + 1;
+    n = (n / 2) + 3; // Room for the widest level, the node being visited and the slot past the end
     VARARRAY(T*, queue, n);
     queue[0] = root;
     size_t l = 1;
-- 
2.43.0


From 1c02f2146afea426744614d72bba28ebb4be00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:44 +0000
Subject: [PATCH 105/194] fix: a random engine seeded with zero must not get
 stuck at zero

---
 include/bss-util/XorshiftEngine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/XorshiftEngine.h b/include/bss-util/XorshiftEngine.h
index d1460eb..c22efdf 100644
--- a/include/bss-util/XorshiftEngine.h
+++ b/include/bss-util/XorshiftEngine.h
@@ -33,6 +33,7 @@ namespace bss {
   // Generates a seed for xorshift1024star from a 64-bit value
   inline void GenXor1024Seed(uint64_t x, uint64_t(&seed)[17])
   {
+    if(!x) x = 1; // A state that is all zeroes would only ever produce zeroes
     xorshift64star(x);
     for(uint8_t i = 0; i < 16; ++i)
       seed[i] = xorshift64star(x);
-- 
2.43.0


From 14a9600feed379df488f5ecb089e4824d0cac7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:20 +0000
Subject: [PATCH 106/194] fix: a character above 127 must be accepted when it
 is put back into a StreamBufArray

---
 include/bss-util/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d37b299..d4948e1 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -93,7 +93,7 @@ namespace bss {
     inline virtual int_type underflow() override { return (_cur == _end) ? traits_type::eof() : traits_type::to_int_type(*_cur); }
     inline virtual int_type pbackfail(int_type ch) override
     {
-      if(_cur == _begin || (ch != traits_type::eof() && ch != _cur[-1]))
+      if(_cur == _begin || (ch != traits_type::eof() && ch != traits_type::to_int_type(_cur[-1])))
         return traits_type::eof();
       return traits_type::to_int_type(*--_cur);
     }
-- 
2.43.0


From 2f66529fa26cb7626c786b0d70cb5c9c1a05c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:20 +0000
Subject: [PATCH 107/194] fix: seeking outside of a memory stream must fail
 instead of leaving the memory

---
 include/bss-util/stream.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d4948e1..484dde1 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -114,17 +114,19 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        _cur += off;
+        off += _cur - _begin;
         break;
       case std::ios_base::end:
-        _cur = _end + off;
+        off += _end - _begin;
         break;
       case std::ios_base::beg:
-        _cur = _begin + off;
         break;
       }
 
-      return _cur - _begin;
+      if(off < 0 || off > _end - _begin)
+        return pos_type(off_type(-1));
+      _cur = _begin + off;
+      return pos_type(off);
     }
 
     const char* _begin;
@@ -155,17 +157,19 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        setg(eback(), gptr() + off, egptr());
+        off += gptr() - eback();
         break;
       case std::ios_base::end:
-        setg(eback(), egptr() + off, egptr());
+        off += egptr() - eback();
         break;
       case std::ios_base::beg:
-        setg(eback(), eback() + off, egptr());
         break;
       }
 
-      return gptr() - eback();
+      if(off < 0 || off > egptr() - eback())
+        return pos_type(off_type(-1));
+      setg(eback(), eback() + off, egptr());
+      return pos_type(off);
     }
     inline virtual int_type underflow() override { return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
-- 
2.43.0


From 396511fe9ee03ff56dbbcf36ddc5b0ad3daa82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:20 +0000
Subject: [PATCH 108/194] fix: StreamBufDynArray must keep single characters,
 partial elements and its offsets when it grows

---
 include/bss-util/stream.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 484dde1..432d6d6 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -154,6 +154,7 @@ namespace bss {
     inline virtual pos_type seekpos(pos_type sp_, std::ios_base::openmode which_) override { return seekoff(off_type(sp_), std::ios_base::beg, which_); }
     inline virtual pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode which_) override
     {	// change position by offset, according to way and mode
+      _fixlength();
       switch(way)
       {
       case std::ios_base::cur:
@@ -171,9 +172,14 @@ namespace bss {
       setg(eback(), eback() + off, egptr());
       return pos_type(off);
     }
-    inline virtual int_type underflow() override { return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
+    inline virtual int_type underflow() override
+    {
+      _fixlength(); // sputc() writes into the buffer without telling us
+      return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr());
+    }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
     {
+      _fixlength();
       std::streamsize r = egptr() - gptr();
       if(r > n)
         r = n;
@@ -185,15 +191,26 @@ namespace bss {
 
     void _fixlength()
     {
-      _ref._length = (pptr() - eback()) / sizeof(T); // Only set length to the number of fully written indexes
+      _ref._length = (pptr() - reinterpret_cast<char*>(_ref.begin())) / sizeof(T); // Only set length to the number of fully written indexes
       setg(eback(), gptr(), reinterpret_cast<char*>(_ref.end())); // We cast back from end() because we might not have finished writing through all the bytes in T
     }
     void _expand(CType sz)
     {
-      ptrdiff_t goff = gptr() - eback();
+      char* begin = reinterpret_cast<char*>(_ref.begin());
+      ptrdiff_t boff = eback() - begin;
+      ptrdiff_t goff = gptr() - begin;
+      ptrdiff_t poff = pptr() - begin;
+      _ref._length = (poff + sizeof(T) - 1) / sizeof(T); // An element that is only partially written must survive too
       _ref.SetCapacity(std::max<CType>(fbnext(_ref._length), (sz / sizeof(T)) + _ref._length + 1));
-      setg(reinterpret_cast<char*>(_ref.begin()), reinterpret_cast<char*>(_ref.begin() + goff), reinterpret_cast<char*>(_ref.end()));
-      setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
+      _ref._length = poff / sizeof(T);
+      begin = reinterpret_cast<char*>(_ref.begin());
+      setg(begin + boff, begin + goff, reinterpret_cast<char*>(_ref.end()));
+      setp(begin + poff, reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
+    }
+    inline virtual int sync() override
+    {
+      _fixlength();
+      return 0;
     }
     inline virtual int_type overflow(int_type ch) override
     {
-- 
2.43.0


From d5c133fabd13281bca3b5bff63a4a9c7df7aebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:20 +0000
Subject: [PATCH 109/194] fix: stream buffers must report all characters read
 and written, also across a refill

---
 include/bss-util/stream.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 432d6d6..414d667 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -240,7 +240,7 @@ namespace bss {
       n -= r;
       s += r;
       if(n)
-        return xsputn(s, n);
+        return r + xsputn(s, n);
       return r;
     }
 
@@ -294,6 +294,8 @@ namespace bss {
       if(r > 0)
         MEMCPY(s, n, gptr(), r);
       setg(eback(), gptr() + r, egptr());
+      if(r > 0 && r < n)
+        return r + xsgetn(s + r, n - r);
       return r;
     }
     inline virtual int_type overflow(int_type ch) override
@@ -323,8 +325,8 @@ namespace bss {
       pbump(r);
       n -= r;
       s += r;
-      if(n)
-        return xsputn(s, n);
+      if(n && r > 0)
+        return r + xsputn(s, n);
       return r;
     }
     virtual void _onwrite() = 0; // should read input from _in when appropriate.
-- 
2.43.0


From 677a2a9acac7a6a941fc72b0ac21e48c6caf79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:40 +0000
Subject: [PATCH 110/194] fix: Logger::SetLevel must grow the list of levels
 instead of cutting it

---
 bss-util/Logger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 4b7e255..99d26ab 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -103,8 +103,11 @@ void Logger::SetNullFormat(const char* format)
 
 void Logger::SetLevel(uint8_t level, const char* str)
 {
-  if(_levels.Capacity() >= level)
-    _levels.SetCapacity(level + 1);
+  for(uint8_t i = _levels.Capacity(); i <= level; ++i)
+  {
+    _levels.SetCapacity(i + 1);
+    _levels[i] = "";
+  }
   _levels[level] = str;
 }
 void Logger::SetMaxLevel(uint8_t level)
-- 
2.43.0


From a2fd7be878724b24ec3b240e58915e5174023aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:40 +0000
Subject: [PATCH 111/194] fix: a stream assimilated twice by a Logger must get
 its own buffer back

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 99d26ab..0c370d5 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -46,7 +46,7 @@ Logger::Logger(const wchar_t* logfile, std::ostream* log) : _levels(6), _split(n
 Logger::~Logger()
 {
   ClearTargets();
-  for(size_t i = 0; i < _backup.size(); ++i) //restore stream buffer backups so we don't blow up someone else's stream when destroying ourselves
+  for(size_t i = _backup.size(); i-- > 0;) //restore stream buffer backups, newest first, so we don't blow up someone else's stream when destroying ourselves
     _backup[i].first.rdbuf(_backup[i].second);
   if(_split != 0) delete _split;
 }
-- 
2.43.0


From 128306973e3c4b35f245610e7ad879e78eb22480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:40 +0000
Subject: [PATCH 112/194] fix: move assignment of a Logger must release what it
 replaces and take over levels and formats

---
 bss-util/Logger.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 0c370d5..451c587 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -144,9 +144,20 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 }
 Logger& Logger::operator=(Logger&& right)
 {
+  if(this == &right)
+    return *this;
+  ClearTargets();
+  for(size_t i = _backup.size(); i-- > 0;)
+    _backup[i].first.rdbuf(_backup[i].second);
+  _backup.clear();
+  if(_split != 0) delete _split;
+  _levels = std::move(right._levels);
+  _maxlevel = right._maxlevel;
+  _format = right._format;
+  _nullformat = right._nullformat;
   _tz = GetTimeZoneMinutes();
   _files = std::move(right._files);
-  _backup = std::move(right._backup);
+  _backup.swap(right._backup); // A pair with a reference cannot be assigned
   _split = right._split;
   right._split = 0;
   _stream.rdbuf(_split);
-- 
2.43.0


From 36f20d9e84e173aa7ec96515756fbfc6f01462d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:40 +0000
Subject: [PATCH 113/194] fix: a log entry without a source must not disable
 the log

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 451c587..88aa7b5 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -198,7 +198,7 @@ void Logger::_header(std::ostream& o, int n, const char* source, const char* fil
 {
   switch(n)
   {
-  case 0: o << source; break;
+  case 0: if(source) o << source; break; // Writing a null pointer would disable the stream
   case 1: o << file; break;
   case 2: o << line; break;
   case 3: o << level; break;
-- 
2.43.0


From 643d66fade86f0bf3b9e233181f592b314234871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 114/194] fix: the newline after the start of a multi-line TOML
 string is one newline

---
 include/bss-util/TOML.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index c6d9f6b..7352b1a 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -87,7 +87,7 @@ namespace bss {
     {
       if(s.peek() == '\n')
         s.get();
-      if(s.peek() == '\r')
+      else if(s.peek() == '\r')
       {
         s.get();
         if(s.peek() == '\n')
-- 
2.43.0


From 58c02bc69fe97c7df0182a19166d92ff63f45074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 115/194] fix: the end of the text inside a multi-line TOML
 string must not become part of it

---
 include/bss-util/TOML.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 7352b1a..1e259f1 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -203,7 +203,7 @@ namespace bss {
         {
           s.get();
           ParseTOMLEatNewline(s);
-          while(!!s)
+          while(!!s && s.peek() != -1)
           {
             if(s.peek() == '"')
             {
@@ -237,7 +237,7 @@ namespace bss {
         {
           s.get();
           ParseTOMLEatNewline(s);
-          while(!!s)
+          while(!!s && s.peek() != -1)
           {
             char c = s.get();
             if(c == '\'' && s.peek() == '\'')
-- 
2.43.0


From 6a73da0d0a9232ab7734634f3be5ca1ac4eaf5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 116/194] fix: a line ending backslash in a TOML string eats
 all following whitespace, an unknown escape must not abort

---
 include/bss-util/TOML.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 1e259f1..73f1542 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -151,10 +151,10 @@ namespace bss {
         return;
       if constexpr(MULTILINE)
       {
-        if(s.peek() == '\n' || s.peek() == '\r')
+        if(isspace(s.peek())) // a backslash at the end of a line eats all whitespace up to the next character
         {
-          ParseTOMLEatNewline(s);
-          ParseTOMLEatWhitespace(s);
+          while(!!s && isspace(s.peek()))
+            s.get();
           return;
         }
       }
@@ -178,8 +178,9 @@ namespace bss {
         buf[8] = 0;
         OutputUnicode(out, strtoul(buf, 0, 16));
         break;
-      default:
-        assert(false);
+      default: // not a legal escape sequence, so only the character is left
+        s.unget();
+        out += s.get();
         break;
       }
     }
-- 
2.43.0


From 7ae9b5fa3288cda99b79eddca8e2d0e122190286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 117/194] fix: bare TOML strings must keep characters above 127
 at their end

---
 include/bss-util/TOML.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 73f1542..5f6a634 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -260,13 +260,8 @@ namespace bss {
     default: // This is a bare string, which cannot be multiline
     {
       while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != END && s.peek() != END2 && s.peek() != -1) buf += s.get();
-      const char* str = buf.data(); // strip whitespace from the end
-      const char* inter = str + buf.size();
-      if(str != inter)
-      {
-        for(; inter > str && *inter < 33; --inter);
-        buf.resize((inter - str) + 1);
-      }
+      while(!buf.empty() && (unsigned char)buf.back() < 33) // strip whitespace from the end
+        buf.pop_back();
     }
     break;
     }
-- 
2.43.0


From e94435dd2bbd5545862547cc7e957036f7a783e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 118/194] fix: reading a TOML number must skip whitespace, only
 eat its own string and not end the document if it isn't one

---
 include/bss-util/TOML.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 5f6a634..325df41 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -368,18 +368,22 @@ namespace bss {
   void TOMLEngine::ParseNumber(Serializer<TOMLEngine>& e, T& obj, const char* id)
   {
     std::istream& s = *e.in;
-    if(s.peek() == '\n' || s.peek() == '\r' || s.peek() == ',')
+    ParseTOMLEatWhitespace(s);
+    if(s.peek() == '\n' || s.peek() == '\r' || s.peek() == ',' || s.peek() == ']' || s.peek() == '}' || s.peek() == -1)
       return;
-    typename std::conditional<sizeof(T) <= 2, int, T>::type o; // Prevent the stream from trying to read a number as an actual character
+    typename std::conditional<sizeof(T) <= 2, int, T>::type o = obj; // Prevent the stream from trying to read a number as an actual character
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
       s >> o; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      s.clear(s.rdstate() & ~std::ios_base::failbit); // what isn't a number must not end the document
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string and the " character
     }
     else
+    {
       s >> o;
+      s.clear(s.rdstate() & ~std::ios_base::failbit);
+    }
     obj = o;
   };
 
-- 
2.43.0


From 707f3fc93b94254d9afd030e829e4ee9b61e3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 119/194] fix: a number too large for a TOML boolean must not
 end the document

---
 include/bss-util/TOML.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 325df41..d23741e 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -39,6 +39,7 @@ namespace bss {
       {
         uint64_t num;
         s >> num;
+        s.clear(s.rdstate() & ~std::ios_base::failbit);
         target = num != 0; // If it's numeric, record the value as false if 0 and true otherwise.
         return;
       }
-- 
2.43.0


From c907eb487cfb039215f3a22567ed420b2fb900ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 120/194] fix: numbers written as TOML must be read back as the
 same numbers

---
 include/bss-util/TOML.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index d23741e..79e5345 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -694,7 +694,7 @@ namespace bss {
       return;
     std::ostream& s = *e.out;
     WriteTOMLId(e, id, s);
-    s << (typename std::conditional<sizeof(T) <= 2, int, T>::type)obj; // Converts all smaller numbers to integers to avoid character insertion bullshit
+    internal::serializer::WriteNumber(s, obj);
     if(e.engine.state != STATE_INLINE_TABLE && id)
       s << std::endl;
   }
-- 
2.43.0


From 96bdc116c0a1a032eb43e67ec1417c15f10be0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 121/194] fix: a TOML date without an offset must keep its
 time, and a date may end the document

---
 include/bss-util/TOML.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 79e5345..9d694da 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -414,15 +414,17 @@ namespace bss {
     TOMLEngine::ParseTOMLEatWhitespace(s);
     tg.get(s, 0, s, err, &t, DATE, std::end(DATE) - 1);
 
-    if(err == std::ios_base::goodbit)
+    if(!(err & std::ios_base::failbit))
     {
+      std::chrono::seconds time(0);
       if(s.peek() == 'T')
       {
         s.get();
         tg.get(s, 0, s, err, &t, TIME, std::end(TIME) - 1);
 
-        if(err == std::ios_base::goodbit)
+        if(!(err & std::ios_base::failbit))
         {
+          time = std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec };
           char sign = s.peek();
 
           if(sign == '+' || sign == '-')
@@ -432,13 +434,11 @@ namespace bss {
             tg.get(s, 0, s, err, &tz, ZONE, std::end(ZONE) - 1);
             std::chrono::minutes offset(0);
 
-            if(err == std::ios_base::goodbit)
+            if(!(err & std::ios_base::failbit))
               offset = (sign == '+' ? 1 : -1) * (std::chrono::hours{ tz.tm_hour } +std::chrono::minutes{ tz.tm_min });
 
             target = std::chrono::system_clock::time_point{
-              days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } +
-              std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec } -
-              offset };
+              days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } + time - offset };
 
             return;
           }
@@ -447,7 +447,7 @@ namespace bss {
         }
       }
 
-      target = std::chrono::system_clock::time_point{ days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } };
+      target = std::chrono::system_clock::time_point{ days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } + time };
     }
   }
 #endif
-- 
2.43.0


From bd7b23fb53110573438a7f73b2a176f897ac723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 122/194] fix: unknown TOML members and tables must be skipped
 as a whole, a line without a key must not loop forever

---
 include/bss-util/TOML.h | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 9d694da..4c3210e 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -95,6 +95,9 @@ namespace bss {
           s.get();
       }
     }
+    // Skips what is left of a value, including nested values and strings, up to one of the end characters (or the end of the line, if LINE is true)
+    template<bool LINE, char END, char END2>
+    static void ParseTOMLSkip(std::istream& s);
     template<bool MULTILINE>
     static void ParseTOMLCharacter(std::string& out, std::istream& s);
     template<bool MULTILINE, char END, char END2>
@@ -268,6 +271,31 @@ namespace bss {
     }
   }
 
+  template<bool LINE, char END, char END2>
+  void TOMLEngine::ParseTOMLSkip(std::istream& s)
+  {
+    size_t depth = 0;
+    std::string buf;
+    while(!!s && s.peek() != -1)
+    {
+      int c = s.peek();
+      if(!depth && (c == END || c == END2 || (LINE && (c == '\n' || c == '\r'))))
+        break;
+      if(c == '"' || c == '\'')
+        ParseTOMLString<true, 0, 0>(buf, s);
+      else if(c == '#')
+        while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get();
+      else
+      {
+        if(c == '[' || c == '{')
+          ++depth;
+        else if((c == ']' || c == '}') && depth > 0)
+          --depth;
+        s.get();
+      }
+    }
+  }
+
   template<typename F>
   void TOMLEngine::ParseTOMLTable(Serializer<TOMLEngine>& e, std::istream& s, F && f)
   {
@@ -283,7 +311,7 @@ namespace bss {
         internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         f(e, buf.c_str()); // This will call FindParse by default, or a special function for TOMLValue types
       }
-      while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) s.get(); // Eat everything until the next comma or the end of the table
+      ParseTOMLSkip<true, ',', '}'>(s); // Eat everything until the next comma or the end of the table
       if(s.peek() == ',') s.get();
       ParseTOMLEatWhitespace(s);
     }
@@ -304,8 +332,8 @@ namespace bss {
         s.get();
         internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         f(e, buf.c_str()); // This will call ParseTOMLBase on the appropriate value.
-        while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get(); // Eat all remaining characters on this line that weren't parsed.
       }
+      ParseTOMLSkip<true, '\n', '\r'>(s); // Eat all remaining characters on this line that weren't parsed, and everything that belongs to a value nobody asked for.
       ParseTOMLEatAllspace(s);
     }
   }
@@ -328,13 +356,13 @@ namespace bss {
       ParseTOMLEatWhitespace(s);
       if(!!s && (s.peek() == ']' || s.peek() == '.'))
         f(e, buf.c_str());
-      while(!!s && s.peek() != '[' && s.peek() != -1) // eat lines until we find one that starts with [
+      if(!!s && s.peek() != '[' && s.peek() != -1) // If nobody asked for this table, eat everything until the next one
       {
         while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1)
           s.get();
-        ParseTOMLEatNewline(s);
+        auto skip = [](Serializer<TOMLEngine>&, const char*) {};
+        ParseTOMLPairs(e, s, skip);
       }
-      ParseTOMLEatAllspace(s);
     }
   }
 
-- 
2.43.0


From a2aae8bbc2fcc0e2013d22fc3223bc41194f9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 123/194] fix: a TOML array ends after its own closing bracket

---
 include/bss-util/TOML.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 4c3210e..c65d346 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -608,15 +608,17 @@ namespace bss {
     else // Otherwise it's a standard inline array
     {
       ParseTOMLEatWhitespace(s);
-      if(!s || s.get() != '[') return;
+      if(!s || s.peek() != '[') return;
+      s.get();
       ParseTOMLEatAllspace(s);
       while(!!s && s.peek() != ']' && s.peek() != -1)
       {
         Add(e, obj, n);
-        while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) s.get(); // eat everything up to a , or ] character
+        ParseTOMLSkip<false, ',', ']'>(s); // eat everything up to a , or ] character
         if(!!s && s.peek() == ',' && s.peek() != -1) s.get(); // Only eat comma if it's there.
         ParseTOMLEatAllspace(s);
       }
+      if(s.peek() == ']') s.get();
     }
   }
 
-- 
2.43.0


From d5a2a1057d35ada711ea38843c6cdfde3b63b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 124/194] fix: a TOML table inside an empty array must not be
 read into memory before the array

---
 include/bss-util/TOML.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index c65d346..65a01c4 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -98,6 +98,15 @@ namespace bss {
     // Skips what is left of a value, including nested values and strings, up to one of the end characters (or the end of the line, if LINE is true)
     template<bool LINE, char END, char END2>
     static void ParseTOMLSkip(std::istream& s);
+    // Gets the last element of an array, or a null pointer if there is none
+    template<typename E, typename T>
+    static auto ParseTOMLLast(T& obj, int) -> std::enable_if_t<std::is_convertible_v<decltype(std::addressof(*std::begin(obj))), E*>, E*>
+    {
+      auto end = std::end(obj);
+      return std::begin(obj) == end ? nullptr : std::addressof(*--end);
+    }
+    template<typename E, typename T>
+    static E* ParseTOMLLast(T& obj, ...) { return nullptr; }
     template<bool MULTILINE>
     static void ParseTOMLCharacter(std::string& out, std::istream& s);
     template<bool MULTILINE, char END, char END2>
@@ -600,8 +609,9 @@ namespace bss {
     std::istream& s = *e.in;
     if(e.engine.state > STATE_NORMAL && e.in->peek() == '.') // If this happens, we are attempting to access an array
     {
-      auto end = std::end(obj);
-      return Serializer<TOMLEngine>::ActionBind<E>::Parse(e, *--end, id);
+      if(E* last = ParseTOMLLast<E>(obj, 0))
+        Serializer<TOMLEngine>::ActionBind<E>::Parse(e, *last, id);
+      return;
     }
     if(e.engine.state == STATE_INLINE_TABLE) // If the state is 2 and not 0, this is a table array.
       Add(e, obj, n);
-- 
2.43.0


From bfd90159d43234739c42d8137e6c81ebb3a1c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 125/194] fix: malformed TOML table headers must not abort

---
 include/bss-util/TOML.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 65a01c4..53bc5d2 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -646,6 +646,7 @@ namespace bss {
         e.in->get();
         Str buf;
         ParseTOMLString<false, '.', ']'>(buf, *e.in);
+        ParseTOMLEatWhitespace(*e.in);
         f(e, buf.c_str());
       }
       else if(e.in->peek() == ']')
@@ -653,8 +654,6 @@ namespace bss {
         e.in->get();
         ParseTOMLPairs(e, *e.in, f);
       }
-      else
-        assert(false);
       break;
     case STATE_INLINE_TABLE:
       if(e.in->peek() == '.')
@@ -662,6 +661,7 @@ namespace bss {
         e.in->get();
         Str buf;
         ParseTOMLString<false, '.', ']'>(buf, *e.in);
+        ParseTOMLEatWhitespace(*e.in);
         f(e, buf.c_str());
       }
       else if(e.in->peek() == ']')
@@ -673,8 +673,6 @@ namespace bss {
 
         ParseTOMLPairs(e, *e.in, f);
       }
-      else
-        assert(false);
       break;
     case STATE_NORMAL:
       ParseTOMLEatWhitespace(*e.in);
-- 
2.43.0


From c43d31e7e02e7b537632e06afbc85ee0d25c3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 126/194] fix: TOMLValue must collect arrays of tables, and
 create or keep the tables a header names

---
 include/bss-util/TOML.h | 44 +++++++++++------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 53bc5d2..45182e7 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -493,7 +493,6 @@ namespace bss {
   template<>
   inline void ParseTOMLBase<TOMLValue>(Serializer<TOMLEngine>& e, TOMLValue& target, std::istream& s)
   {
-    auto test = e.in->peek();
     switch(e.engine.state)
     {
     case TOMLEngine::STATE_BEGIN:
@@ -501,41 +500,22 @@ namespace bss {
       Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
       return;
     case TOMLEngine::STATE_TABLE:
-      if(e.in->peek() == '.')
-      {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
-      }
-      else if(e.in->peek() == ']')
-      {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
-      }
-      else
-        assert(false);
-      return;
     case TOMLEngine::STATE_INLINE_TABLE:
-      if(e.in->peek() == '.')
-      {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
-      }
-      else if(e.in->peek() == ']')
+    {
+      TOMLValue* v = &target;
+      if(e.in->peek() == ']' && e.engine.state == TOMLEngine::STATE_INLINE_TABLE) // this adds a table to an array of tables
       {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
+        if(!v->is<TOMLValue::TOMLArray>())
+          *v = TOMLValue::TOMLArray();
+        v->get<TOMLValue::TOMLArray>().Add(TOMLValue(TOMLValue::TOMLTable()));
       }
-      else
-        assert(false);
+      if(v->is<TOMLValue::TOMLArray>() && v->get<TOMLValue::TOMLArray>().Length() > 0)
+        v = &v->get<TOMLValue::TOMLArray>().Back();
+      if(!v->is<TOMLValue::TOMLTable>())
+        *v = TOMLValue::TOMLTable();
+      Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, v->get<TOMLValue::TOMLTable>(), 0);
       return;
+    }
     case 0:
       break;
     }
-- 
2.43.0


From 5724e3a307f60598972efc6aed8171b8f1c3b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 127/194] fix: TOMLValue must read dates as dates and large
 integers exactly

---
 include/bss-util/TOML.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 45182e7..fbc9651 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -549,14 +549,32 @@ namespace bss {
     case '.':
     case '-':
     case '+':
-      target = 0.0;
-      TOMLEngine::ParseNumber<double>(e, target.get<double>(), 0);
-      double ipart;
+    {
+      std::string buf;
+      while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != '}' && s.peek() != '#' && s.peek() != -1 && !isspace(s.peek())) buf += s.get();
+      std::istringstream ss(buf);
 
-      if(modf(target.get<double>(), &ipart) == 0.0)
-        target = (int64_t)ipart;
+#ifdef BSS_COMPILER_HAS_TIME_GET
+      if(buf.size() >= 10 && buf[4] == '-' && buf[7] == '-')
+      {
+        target = std::chrono::system_clock::time_point();
+        ParseTOMLBase<std::chrono::system_clock::time_point>(e, target.get<std::chrono::system_clock::time_point>(), ss);
+        break;
+      }
+#endif
+      int64_t i = 0;
+      if(buf.find_first_of(".eE") == std::string::npos && (ss >> i)) // Not every integer is a double
+      {
+        target = i;
+        break;
+      }
 
+      double ipart;
+      target = strtod(buf.c_str(), 0);
+      if(modf(target.get<double>(), &ipart) == 0.0 && ipart >= -9223372036854775808.0 && ipart < 9223372036854775808.0)
+        target = (int64_t)ipart;
       break;
+    }
     case 't':
     case 'f':
       target = false;
-- 
2.43.0


From 3684f7f7d392b584fe1c82890f54db3f7a556c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 128/194] fix: an empty inline table written as TOML must be
 followed by a comma

---
 include/bss-util/TOML.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index fbc9651..8c7fa41 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -769,7 +769,10 @@ namespace bss {
     const_cast<T&>(obj).template Serialize<TOMLEngine>(e, id);
 
     if(e.engine.state == STATE_INLINE_TABLE)
+    {
       s << " }";
+      e.engine.first = false;
+    }
     else
       s << std::endl;
   }
-- 
2.43.0


From ace0ecd507ac1fa1ac371f4cbf985a216ffd80f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 129/194] fix: TOML keys that are not bare must be quoted when
 they are written

---
 include/bss-util/TOML.h | 64 +++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 8c7fa41..f964834 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -127,7 +127,40 @@ namespace bss {
         else
           s << ", ";
       }
-      if(id) s << id << " = ";
+      if(id)
+      {
+        WriteTOMLKey(id, s);
+        s << " = ";
+      }
+    }
+    static void WriteTOMLString(const char* str, size_t length, std::ostream& s)
+    {
+      s << '"';
+
+      for(size_t i = 0; i < length; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default: s << str[i]; break;
+        }
+      }
+
+      s << '"';
+    }
+    // Keys that aren't made of letters, digits, dashes and underscores must be quoted
+    static void WriteTOMLKey(const char* id, std::ostream& s)
+    {
+      if(id[0] != 0 && !id[strspn(id, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-")])
+        s << id;
+      else
+        WriteTOMLString(id, strlen(id), s);
     }
     template<typename T>
     static void WriteTOMLTables(Serializer<TOMLEngine>& e, const char* id, const T& obj, std::ostream& s);
@@ -742,7 +775,12 @@ namespace bss {
 
     if(e.engine.lastid.size())
       e.engine.lastid += '.';
-    e.engine.lastid += id;
+    if(id)
+    {
+      std::ostringstream key;
+      WriteTOMLKey(id, key);
+      e.engine.lastid += key.str();
+    }
     static_assert(internal::serializer::is_serializable<TOMLEngine, T>::value, "object missing Serialize<Engine>(Serializer<Engine>&, const char*) function!");
     const_cast<T&>(obj).template Serialize<TOMLEngine>(e, id);
     e.engine.lastid = last;
@@ -761,7 +799,8 @@ namespace bss {
       s << '[';
       if(e.engine.lastid.size())
         s << e.engine.lastid << '.';
-      s << id << ']' << std::endl;
+      WriteTOMLKey(id, s);
+      s << ']' << std::endl;
     }
 
     e.engine.first = true;
@@ -793,24 +832,7 @@ namespace bss {
         return;
 
       TOMLEngine::WriteTOMLId(e, id, s);
-      s << '"';
-
-      for(size_t i = 0; i < obj.size(); ++i)
-      {
-        switch(obj[i])
-        {
-        case '"': s << "\\\""; break;
-        case '\\': s << "\\\\"; break;
-        case '\b': s << "\\b"; break;
-        case '\f': s << "\\f"; break;
-        case '\n': s << "\\n"; break;
-        case '\r': s << "\\r"; break;
-        case '\t': s << "\\t"; break;
-        default: s << obj[i]; break;
-        }
-      }
-
-      s << '"';
+      WriteTOMLString(obj.data(), obj.size(), s);
       if(e.engine.state != STATE_INLINE_TABLE && id)
         s << std::endl;
     }
-- 
2.43.0


From a9dca4747d1614a0d55dbf21a14b1bdbde45ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 130/194] fix: a Serializer must be usable again after it has
 read or written TOML

---
 include/bss-util/TOML.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index f964834..ce17fb0 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -385,6 +385,7 @@ namespace bss {
   void TOMLEngine::ParseTOMLRoot(Serializer<TOMLEngine>& e, std::istream& s, F && f)
   {
     Str buf;
+    internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, e.engine.state);
     ParseTOMLPairs<F>(e, s, f); // First we parse any root-level key value pairs directly into our target object
     while(!!s && s.get() == '[') // Then, we start resolving tables
     {
@@ -858,11 +859,10 @@ namespace bss {
       }
       else if(!!e.engine.state)
       {
-        e.engine.state = STATE_NORMAL;
+        internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         TOMLEngine::WriteTOMLPairs(e, id, obj, s);
         e.engine.state = STATE_TABLE;
         TOMLEngine::WriteTOMLTables(e, id, obj, s);
-        e.engine.state = STATE_TABLE;
       }
     }
   }
-- 
2.43.0


From 3239211d98600b57232a438286dd6c692a644497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 131/194] fix: a warped timer step must be the same in
 milliseconds and in nanoseconds

---
 bss-util/HighPrecisionTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/HighPrecisionTimer.cpp b/bss-util/HighPrecisionTimer.cpp
index 75e1b84..b8605fb 100644
--- a/bss-util/HighPrecisionTimer.cpp
+++ b/bss-util/HighPrecisionTimer.cpp
@@ -48,7 +48,7 @@ double HighPrecisionTimer::Update(double timewarp)
   _nsDelta = ((newTime - _curTime) * 1000000000) / warpfreq;
 #else
   _delta = (newTime - _curTime) / (1000000 * timewarp);
-  _nsDelta = (uint64_t)((newTime - _curTime)*timewarp);
+  _nsDelta = (uint64_t)((newTime - _curTime) / timewarp);
 #endif
   _curTime = newTime;
   _nsTime += _nsDelta;
-- 
2.43.0


From cb6d7c58c42a21836cee9633961e784d23d257e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 132/194] fix: Scheduler::Update must stop when no event is
 left and let events add other events

---
 include/bss-util/Scheduler.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index 37914a7..ad8547f 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -33,14 +33,13 @@ namespace bss {
     {
       HighPrecisionTimer::Update();
 
-      while(BASE::Peek().first <= _time)
+      while(!BASE::Empty() && BASE::Peek().first <= _time)
       {
-        double r = BASE::Peek().second();
+        std::pair<double, F> event = BASE::Pop(); // The event may add other events, so it can't stay in the heap while it runs
+        double r = event.second();
 
-        if(r == 0.0)
-          BASE::Remove(0);
-        else
-          BASE::Set(0, std::pair<double, F>(r + _time, BASE::Peek().second)); // This is why we don't use the actual priority queue data structure
+        if(r > 0.0)
+          BASE::Insert(std::pair<double, F>(r + _time, std::move(event.second)));
       }
     }
   };
-- 
2.43.0


From f34d422401381146efba50e6f63e184d1068b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 133/194] fix: an animation interval must last as long as it
 says and intervals must end in order

---
 include/bss-util/Animation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index f2a50f1..e4b7ae2 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -242,7 +242,7 @@ namespace bss {
     }
 
   protected:
-    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.data, (dest->*FN)(v.value)); }
+    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.time + v.data, (dest->*FN)(v.value)); }
 
     void _clearQueue(T* dest)
     {
@@ -250,7 +250,7 @@ namespace bss {
         (dest->*REMOVE)(_queue.Pop().second);
     }
 
-    PriorityQueue<double, AUX, CompT<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
+    PriorityQueue<double, AUX, CompTInv<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
     size_t _cur;
   };
 
-- 
2.43.0


From 2c619060b24df629adf99d1a4ece4fd765c984d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 134/194] fix: Animation::Set must compile

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index e4b7ae2..f4ccbd1 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -504,7 +504,7 @@ namespace bss {
     inline void Set(const typename T::FRAME* src, size_t len)
     {
       static_assert(std::disjunction<std::is_same<T, Args>...>::value, "T is not in this Animation type!");
-      std::get<T>().Set(src, len);
+      std::get<T>(*this).Set(src, len);
       _calc = _calclength(std::index_sequence_for<Args...>{});
     }
 
-- 
2.43.0


From b3764ec5ccfcf74ae6a9e851da40e11b0d6df6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 135/194] fix: AniDataInterval built from frames must know
 where they end

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index f4ccbd1..8a8fe49 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -355,7 +355,7 @@ namespace bss {
     AniDataInterval() : _end(0.0) {}
     AniDataInterval(AniDataInterval&& mov) : BASE(std::move(mov)), _end(mov._end) { mov._end = 0.0f; }
     AniDataInterval(const AniDataInterval& copy) : BASE(copy), _end(copy._end) {}
-    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) {}
+    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) { _recalcLength(); }
     BSS_FORCEINLINE double End() const { return _end; }
     BSS_FORCEINLINE Slice<const FRAME> Frames() const { return _frames.GetSlice(); }
     BSS_FORCEINLINE size_t Add(const FRAME& frame)
-- 
2.43.0


From 7d729775e632fc3dc863dc7521cba4414e3cd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:44 +0000
Subject: [PATCH 136/194] fix: negating a Vector must compile and leave its
 operand alone

---
 include/bss-util/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 8e9bf5c..98d3870 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1091,7 +1091,7 @@ namespace bss {
   template<typename T, int N> inline Vector<T, N>& operator *=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] *= scalar; return l; }
   template<typename T, int N> inline Vector<T, N>& operator /=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] /= scalar; return l; }
 
-  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { for(int i = 0; i < N; ++i) l.v[i] = -l.v[i]; return l; }
+  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { Vector<T, N> n(l); for(int i = 0; i < N; ++i) n.v[i] = -l.v[i]; return n; }
 
   template<typename T, int N> inline bool operator !=(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = false; for(int i = 0; i < N; ++i) ret = ret || (l.v[i] != r.v[i]); return ret; }
   template<typename T, int N> inline bool operator ==(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = true; for(int i = 0; i < N; ++i) ret = ret && (l.v[i] == r.v[i]); return ret; }
-- 
2.43.0


From 5b7c2c458d7d26a0bca721bb7ff7b8e446724e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:44 +0000
Subject: [PATCH 137/194] fix: the transpose operators of Matrix must compile
 and return an NxM matrix

---
 include/bss-util/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 98d3870..d330203 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -812,7 +812,7 @@ namespace bss {
     inline constexpr Matrix() {}
     inline void Transpose(T(&out)[N][M]) const { Transpose(v, out); }
     inline void Transpose(Matrix& mat) const { Transpose(v, mat.v); }
-    [[nodiscard]] inline Matrix<T, M, N> Transpose() const { Matrix<T, M, N> m; Transpose(v, m.v); return m; }
+    [[nodiscard]] inline Matrix<T, N, M> Transpose() const { Matrix<T, N, M> m; Transpose(v, m.v); return m; }
 
     inline Matrix<T, M, N>& operator=(const Matrix<T, M, N>& r) { memcpy(v, r.v, sizeof(T)*M*N); return *this; }
     template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = v; U* cp = r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
@@ -1149,7 +1149,7 @@ namespace bss {
   template<typename T, int M, int N> inline bool operator !=(const Matrix<T, M, N>& l, const T scalar) { return !operator==(l, scalar); }
 
   template<typename T, int M, int N> inline Matrix<T, M, N> operator -(const Matrix<T, M, N>& l) { return l*((T)-1); }
-  template<typename T, int M, int N> inline Matrix<T, M, N> operator ~(const Matrix<T, M, N>& l) { Matrix<T, M, N> m; return l.Transpose(m.v); return m; }
+  template<typename T, int M, int N> inline Matrix<T, N, M> operator ~(const Matrix<T, M, N>& l) { Matrix<T, N, M> m; l.Transpose(m.v); return m; }
 
   template<typename T, int M, int N>
   inline const Vector<T, N> operator *(const Vector<T, M>& v, const Matrix<T, M, N>& m) // Does v * M and assumes v is a row vector
-- 
2.43.0


From 71835f6f307fb88c2c79b225209a9f33908995aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:44 +0000
Subject: [PATCH 138/194] fix: Vector *= Matrix must return the vector

---
 include/bss-util/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index d330203..95c1928 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1166,7 +1166,7 @@ namespace bss {
     return out;
   }
   template<typename T, int N>
-  inline Matrix<T, N, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
+  inline Vector<T, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
   {
     MatrixMultiply<T, 1, N, N>(l.v_row, r.v, l.v_row);
     return l;
-- 
2.43.0


From 165c5e894c85c866c7e63ce9e814a4708f43f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:44 +0000
Subject: [PATCH 139/194] fix: converting a Matrix to another element type must
 compile

---
 include/bss-util/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 95c1928..71453d6 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -806,7 +806,7 @@ namespace bss {
     static const int MIN = M < N ? M : N;
 
     template<typename U>
-    inline Matrix(const Matrix<U, M, N>& copy) { T* p = v; U* cp = copy.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; }
+    inline Matrix(const Matrix<U, M, N>& copy) { T* p = (T*)v; const U* cp = (const U*)copy.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; }
     inline Matrix(const std::initializer_list<T>& l) { assert(l.size() == (M*N)); T* p = (T*)v; int k = 0; for(const T* i = l.begin(); i != l.end() && k < M*N; ++i) p[k++] = *i; }
     inline explicit Matrix(const T(&m)[M][N]) { memcpy(v, m, sizeof(T)*M*N); }
     inline constexpr Matrix() {}
@@ -815,7 +815,7 @@ namespace bss {
     [[nodiscard]] inline Matrix<T, N, M> Transpose() const { Matrix<T, N, M> m; Transpose(v, m.v); return m; }
 
     inline Matrix<T, M, N>& operator=(const Matrix<T, M, N>& r) { memcpy(v, r.v, sizeof(T)*M*N); return *this; }
-    template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = v; U* cp = r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
+    template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = (T*)v; const U* cp = (const U*)r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
 
     BSS_FORCEINLINE static void Diagonal(const Vector<T, MIN>& d, Matrix& mat) { Diagonal(d.v, mat.v); }
     BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], Matrix& mat) { Diagonal(d.v, mat.v); }
-- 
2.43.0


From 8bac2469f8a54953139c790fee06616f20947f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:44 +0000
Subject: [PATCH 140/194] fix: Vector::Swizzle must compile

---
 include/bss-util/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 71453d6..e35d276 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -609,7 +609,7 @@ namespace bss {
     template<int... K> BSS_FORCEINLINE Vector<T, sizeof...(K)> Swizzle() const
     {
       static_assert(sizeof...(K) <= N, "Too many swizzles!");
-      return std::array<T, sizeof...(K)>{ v[K]... };
+      return Vector<T, sizeof...(K)>(std::array<T, sizeof...(K)>{ v[K]... });
     }
 
     typedef T SerializerArray;
-- 
2.43.0


From 4212b7974585258a240f600b38f9f7411b55be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:44 +0000
Subject: [PATCH 141/194] fix: Matrix::Diagonal from an array must compile

---
 include/bss-util/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index e35d276..3ff6441 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -818,7 +818,7 @@ namespace bss {
     template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = (T*)v; const U* cp = (const U*)r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
 
     BSS_FORCEINLINE static void Diagonal(const Vector<T, MIN>& d, Matrix& mat) { Diagonal(d.v, mat.v); }
-    BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], Matrix& mat) { Diagonal(d.v, mat.v); }
+    BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], Matrix& mat) { Diagonal(d, mat.v); }
     BSS_FORCEINLINE static void Diagonal(const Vector<T, MIN>& d, T(&out)[M][N]) { Diagonal(d.v, out); }
     BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], T(&out)[M][N])
     {
-- 
2.43.0


From 7f9c15cafcbadfa724c9d3c5b96bdce7dbb5aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:44 +0000
Subject: [PATCH 142/194] fix: FromQuaternion must produce the rotation matrix
 of the quaternion

---
 include/bss-util/vector.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 3ff6441..2ee9200 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -541,7 +541,7 @@ namespace bss {
     T yy = y*y, yz = y*z, yw = y*w;
     T zz = z*z, zw = z*w;
 
-    SetSubMatrix<T, 3, 3>::MM(out,
+    SetSubMatrix<T, N, N>::M3x3(out,
       1 - 2 * (yy + zz), 2 * (xy - zw), 2 * (xz + yw),
       2 * (xy + zw), 1 - 2 * (xx + zz), 2 * (yz - xw),
       2 * (xz - yw), 2 * (yz + xw), 1 - 2 * (xx + yy));
@@ -560,12 +560,17 @@ namespace bss {
     const sseVec n100(-1, 1, 1, 0);
     const sseVec n001(1, 1, -1, 0);
 
-    (y*yxw + z*zwx*n010).Set(out[0]);
-    (x*yxw + z*wzy*n001).Set(out[1]);
-    (x*zwx + y*wzy*n100).Set(out[2]);
+    const sseVec two(2.0f);
+
+    ((y*yxw + z*zwx*n010)*two).Set(out[0]);
+    ((x*yxw + z*wzy*n001)*two).Set(out[1]);
+    ((x*zwx + y*wzy*n100)*two).Set(out[2]);
     sseVec::ZeroVector().Set(out[3]);
     out[3][3] = 1;
     out[1][2] = -out[1][2];
+    out[0][0] = 1 - out[0][0];
+    out[1][1] = 1 - out[1][1];
+    out[2][2] = 1 - out[2][2];
 
     /*
     y y + z z
-- 
2.43.0


From 8fc2a1263fb4d237ebc758b6656df164bcfb6995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:07 +0000
Subject: [PATCH 143/194] fix: vector.h must include what its ordering
 operators use

---
 include/bss-util/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 2ee9200..bb6d884 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -6,6 +6,7 @@
 
 #include "bss_util.h"
 #include "sseVec.h"
+#include "compare.h"
 #include <initializer_list>
 #include <array>
 
-- 
2.43.0


From f9bbc8af9315a41f1b72ec927c761f37d3f4fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:30 +0000
Subject: [PATCH 144/194] fix: GenericBSpline must add up all four of its terms

---
 include/bss-util/vector.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index bb6d884..470026f 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1206,11 +1206,7 @@ namespace bss {
     float a[4] = { t*t*t, t*t, t, 1 };
     sseVec r = MatrixMultiply1x4<float>(a, m);
     r *= sseVec(p);
-    sseVec r2 = r;
-    sseVec::Shuffle<0xB1>(r2);
-    r += r2;
-    sseVec::Shuffle<0x1B>(r2);
-    return BSS_SSE_SS_F32(r + r2);
+    return r.Sum();
   }
 }
 
-- 
2.43.0


From fda64476c3ce3da05757409b0c3c0f9e2b03c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 145/194] fix: sseVec floor and ceil must handle values that do
 not fit in an int

---
 include/bss-util/sseVec.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/sseVec.h b/include/bss-util/sseVec.h
index 8c3aba1..a6bc7ca 100644
--- a/include/bss-util/sseVec.h
+++ b/include/bss-util/sseVec.h
@@ -452,6 +452,13 @@ BSS_FORCEINLINE BSS_SSE_M128d bss_mm_max_pd(BSS_SSE_M128d a, BSS_SSE_M128d b)
   return _mm_castsi128_pd(BSS_SSE_OR(c, d));
 }
 
+// Floats of 2^23 or more have no fractional part (and may not fit in an int), so they are returned as they are.
+BSS_FORCEINLINE BSS_SSE_M128 bss_mm_select_fraction_ps(BSS_SSE_M128 x, BSS_SSE_M128 rounded)
+{
+  __m128 small = _mm_cmplt_ps(_mm_andnot_ps(_mm_set_ps1(-0.0f), x), _mm_set_ps1(8388608.0f));
+  return _mm_or_ps(_mm_and_ps(small, rounded), _mm_andnot_ps(small, x));
+}
+
 BSS_FORCEINLINE BSS_SSE_M128 bss_mm_floor_ps(BSS_SSE_M128 x)
 {
   __m128i v0 = _mm_setzero_si128();
@@ -462,7 +469,7 @@ BSS_FORCEINLINE BSS_SSE_M128 bss_mm_floor_ps(BSS_SSE_M128 x)
   __m128 fi = _mm_cvtepi32_ps(i);
   __m128 igx = _mm_cmpgt_ps(fi, x);
   j = _mm_and_ps(igx, j);
-  return _mm_sub_ps(fi, j);
+  return bss_mm_select_fraction_ps(x, _mm_sub_ps(fi, j));
 }
 
 BSS_FORCEINLINE BSS_SSE_M128 bss_mm_ceil_ps(BSS_SSE_M128 x)
@@ -475,7 +482,7 @@ BSS_FORCEINLINE BSS_SSE_M128 bss_mm_ceil_ps(BSS_SSE_M128 x)
   __m128 fi = _mm_cvtepi32_ps(i);
   __m128 igx = _mm_cmplt_ps(fi, x);
   j = _mm_and_ps(igx, j);
-  return _mm_add_ps(fi, j);
+  return bss_mm_select_fraction_ps(x, _mm_add_ps(fi, j));
 }
 
 // SSE2 does not have any way to multiply all four 32bit integer components
-- 
2.43.0


From 66ae350f8236c4c1c19b38ceb35e67283175d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 146/194] fix: Triangle::ContainsPoint must compile and keep
 its dot products apart

---
 include/bss-util/Collision.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 655b9cc..e0932f2 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -460,7 +460,7 @@ namespace bss {
   /**************** Triangle ****************/
 
   template<typename T> //Uses the standard barycentric method to figure out point inclusion
-  inline bool TriangleContainsPoint(Vector<T, 2>(&p)[3], T X, T Y) 
+  inline bool TriangleContainsPoint(const Vector<T, 2>(&p)[3], T X, T Y) 
   {
     Vector<T, 2> v0(p[2]);
     Vector<T, 2> v1(p[1]);
@@ -470,16 +470,16 @@ namespace bss {
     v2 -= p[0];
 
     // Compute dot products
-    T dot00 = v0.DotProduct(v0);
-    T dot01 = v0.DotProduct(v1);
-    v0.x = v0.DotProduct(v2);
-    v0.y = v1.DotProduct(v1);
-    v1.x = v1.DotProduct(v2);
+    T dot00 = v0.Dot(v0);
+    T dot01 = v0.Dot(v1);
+    T dot02 = v0.Dot(v2);
+    T dot11 = v1.Dot(v1);
+    T dot12 = v1.Dot(v2);
 
     // Compute barycentric coordinates
-    v1.y = 1 / (dot00 * v0.y - dot01 * dot01);
-    v2.x = (v0.y * v0.x - dot01 * v1.x) * v1.y;
-    v2.y = (dot00 * v1.x - dot01 * v0.x) * v1.y;
+    T inv = 1 / (dot00 * dot11 - dot01 * dot01);
+    v2.x = (dot11 * dot02 - dot01 * dot12) * inv;
+    v2.y = (dot00 * dot12 - dot01 * dot02) * inv;
 
     // Check if point is in triangle
     return (v2.x > 0) && (v2.y > 0) && (v2.x + v2.y < 1);
-- 
2.43.0


From c1035370643f9c02782e582b86ba8a1ddfe04233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 147/194] fix: an Ellipse must be constructible from a Circle

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 6b28f9e..1155b17 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -404,7 +404,7 @@ namespace bss {
     template<class U>
     inline constexpr Ellipse(const Ellipse<U>& other) : pos(other.pos), axes(other.axes) {}
     template<class U>
-    inline explicit constexpr Ellipse(const Circle<U>& other) : pos(other.pos), axes(other.r) {}
+    inline explicit constexpr Ellipse(const Circle<U>& other) : pos(other.c), axes(other.r, other.r) {}
     inline constexpr Ellipse(T X, T Y, T A, T B) : pos(X, Y), axes(A, B) {}
     inline constexpr Ellipse(const V& Pos, T A, T B) : pos(Pos), axes(A, B) {}
     inline constexpr Ellipse(const V& Pos, const V& Axes) : pos(Pos), axes(Axes) {}
-- 
2.43.0


From d6cab051e9d8052a77cd56f8de84943b96077ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 148/194] fix: converting a Polygon to another element type
 must compile

---
 include/bss-util/Geometry.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 1155b17..8266f41 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -688,7 +688,7 @@ namespace bss {
     inline Polygon(Polygon<T>&& mov) : _verts(std::move(mov._verts)) {}
     inline Polygon() {}
     template<class U>
-    inline Polygon(const Polygon<U>& other) : _verts(other._verts.Capacity()) { for(size_t i = 0; i < other._verts.Capacity(); ++i) _verts[i] = other._verts[i]; }
+    inline Polygon(const Polygon<U>& other) : _verts(other.GetCount()) { for(size_t i = 0; i < other.GetCount(); ++i) _verts[i] = other[i]; }
     inline Polygon(const V* vertices, size_t num) : _verts(num) { if(_verts != 0) memcpy(_verts.begin(), vertices, _verts.Capacity() * sizeof(V)); }
     template <uint32_t num>
     inline Polygon(const V(&vertices)[num]) : _verts(num) { if(_verts != 0) memcpy(_verts.begin(), vertices, _verts.Capacity() * sizeof(V)); }
@@ -715,9 +715,9 @@ namespace bss {
     template<class U>
     inline Polygon<T>& operator =(const Polygon<U>& right)
     {
-      _verts.SetCapacityDiscard(right._verts.Capacity());
-      for(uint16_t i = 0; i < _verts.Capacity(); ++i)
-        _verts[i] = right._verts[i];
+      _verts.SetCapacityDiscard(right.GetCount());
+      for(size_t i = 0; i < _verts.Capacity(); ++i)
+        _verts[i] = right[i];
       return *this;
     }
     inline const V& operator[](size_t i) const { return _verts[i]; }
-- 
2.43.0


From 903480f3fc4a5d1b899ef50208dbee1c65881591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 149/194] fix: Circle::CircleCollide must use the y coordinate
 of the other centre

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 8266f41..86c7d16 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -66,7 +66,7 @@ namespace bss {
     BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { RadiusNearestPoint(r, X - x, Y - y, outX, outY); }
     BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleRadiusIntersect<T>(r, X - x, Y - y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
-    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.x - y); }
+    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.y - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-- 
2.43.0


From 10d21904c4ab0449b746d865ec8230856bf6bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 150/194] fix: the nearest point of a Circle or Ellipse must
 not be relative to its centre

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 86c7d16..6b4c509 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -62,8 +62,8 @@ namespace bss {
     BSS_FORCEINLINE bool ContainsCircle(const NSphere<T, 2>& s) const { return ContainsCircle(s.x, s.y, s.r); }
     BSS_FORCEINLINE bool ContainsCircle(const Vector<T, 2>& C, T R) const { return ContainsCircle(C.x, C.y, R); }
     BSS_FORCEINLINE bool ContainsCircle(T X, T Y, T R) const { if(r <= R) return false; return RadiusContainsPoint(r - R, X - x, Y - y); }
-    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { RadiusNearestPoint(r, p.x - x, p.y - y, outX, outY); }
-    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { RadiusNearestPoint(r, X - x, Y - y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { CircleNearestPoint(x, y, r, p.x, p.y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { CircleNearestPoint(x, y, r, X, Y, outX, outY); }
     BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleRadiusIntersect<T>(r, X - x, Y - y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
     BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.y - y); }
@@ -410,7 +410,7 @@ namespace bss {
     inline constexpr Ellipse(const V& Pos, const V& Axes) : pos(Pos), axes(Axes) {}
     inline T Area() const { return (T)(PI*a*b); }
     BSS_FORCEINLINE bool ContainsPoint(T X, T Y) const { return EllipseContainsPoint(x, y, a, b, X, Y); }
-    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { return EllipseNearestPoint(a, b, X - x, Y - y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { EllipseNearestPoint(a, b, X - x, Y - y, outX, outY); outX += x; outY += y; }
     BSS_FORCEINLINE bool RectCollide(T left, T top, T right, T bottom) const { return EllipseRectCollide(x, y, a, b, left, top, right, bottom); }
     BSS_FORCEINLINE bool RectCollide(const Rect<T>& r) const { return EllipseRectCollide(x, y, a, b, r.left, r.top, r.right, r.bottom); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return EllipseCircleCollide(x, y, a, b, X, Y, R); }
-- 
2.43.0


From ef139266d9c2fed2bd238740eb04fce09d4db8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 151/194] fix: the intersections of a circle must not be
 relative to its centre and must be counted

---
 include/bss-util/Collision.h |  8 +++++++-
 include/bss-util/Geometry.h  | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index e0932f2..a319231 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -64,7 +64,13 @@ namespace bss {
   template<class T>
   BSS_FORCEINLINE int CircleCircleIntersect(T X1, T Y1, T R1, T X2, T Y2, T R2, Vector<T, 2>(&out)[2])
   {
-    return CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    int n = CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    for(int i = 0; i < n; ++i)
+    {
+      out[i].x += X1;
+      out[i].y += Y1;
+    }
+    return n;
   }
   template<class T>
   inline bool RadiusContainsPoint(T r, T X, T Y)
diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 6b4c509..56ab400 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -64,15 +64,15 @@ namespace bss {
     BSS_FORCEINLINE bool ContainsCircle(T X, T Y, T R) const { if(r <= R) return false; return RadiusContainsPoint(r - R, X - x, Y - y); }
     BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { CircleNearestPoint(x, y, r, p.x, p.y, outX, outY); }
     BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { CircleNearestPoint(x, y, r, X, Y, outX, outY); }
-    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleRadiusIntersect<T>(r, X - x, Y - y, R, out); }
+    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleCircleIntersect<T>(x, y, r, X, Y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
     BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.y - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-    BSS_FORCEINLINE bool LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
+    BSS_FORCEINLINE int LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _absolute(LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE int RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _absolute(RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE int LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _absolute(LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
     BSS_FORCEINLINE bool RectCollide(T left, T top, T right, T bottom) const { return RectCircleCollide<T>(left, top, right, bottom, x, y, r); }
     BSS_FORCEINLINE bool EllipseCollide(T X, T Y, T A, T B) const { return EllipseCircleCollide(X, Y, A, B, x, y, r); }
 
@@ -96,6 +96,15 @@ namespace bss {
       };
       T v[3];
     };
+
+  protected:
+    // Moves n intersection points from a coordinate system centered on this circle to the one the circle is in
+    inline int _absolute(int n, Vector<T, 2>(&out)[2]) const
+    {
+      for(int i = 0; i < n; ++i)
+        out[i] += c;
+      return n;
+    }
   };
 
   // Traditional 3 dimensional sphere
-- 
2.43.0


From 550a625e1c58257e3b3802c202e186d99196c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 152/194] fix: intersecting concentric or touching circles must
 not produce garbage

---
 include/bss-util/Collision.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index a319231..3a967a4 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -43,12 +43,13 @@ namespace bss {
 
     if(dsq > maxr*maxr)
       return 0; // circles are disjoint
-    if(dsq < minr*minr)
-      return 0; // One circle is inside the other
+    if(dsq < minr*minr || dsq == 0)
+      return 0; // One circle is inside the other, or they are concentric
 
     T id = ((T)1) / bss::FastSqrt(dsq);
     T a = (r*r - (R*R) + dsq)*(id / 2);
-    T h = bss::FastSqrt(r*r - (a*a));
+    T hsq = r*r - (a*a);
+    T h = hsq > 0 ? bss::FastSqrt(hsq) : (T)0; // Rounding can make this slightly negative if the circles only touch
 
     T x2 = X*a*id;
     T y2 = Y*a*id;
-- 
2.43.0


From 7a016be24f4784a13b1e725d8f5ad27eedb1fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 153/194] fix: point to line distances must be distances

---
 include/bss-util/Collision.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 3a967a4..6f2370c 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -291,7 +291,7 @@ namespace bss {
     T tx = X2 - X1;
     T ty = Y2 - Y1;
     T det = (tx*(Y1 - pY)) - ((X1 - pX)*ty);
-    return (det*det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
+    return (T)fabs(det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
   }
   template<typename T>
   inline T LineSegmentPointDistanceSqr(T X1, T Y1, T X2, T Y2, T pX, T pY)
@@ -316,7 +316,7 @@ namespace bss {
   template<typename T>
   BSS_FORCEINLINE T LineSegmentPointDistance(T X1, T Y1, T X2, T Y2, T pX, T pY)
   {
-    return LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY);
+    return bss::FastSqrt<T>(LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY));
   }
   template<typename T>
   inline bool LineSegmentLineSegmentIntersect(T x1, T y1, T x2, T y2, T X1, T Y1, T X2, T Y2, Vector<T, 2>& retpoint)
-- 
2.43.0


From e499093d640f8a4bf0f465aa680a22ed79ed2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 154/194] fix: line intersections must not be mirrored or lost

---
 include/bss-util/Collision.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 6f2370c..35d89d3 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -327,10 +327,11 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
-    T u = r.Cross(q) / rCrossS;
+    q -= p;
+    T t = q.Cross(s) / rCrossS;
+    T u = q.Cross(r) / rCrossS;
     if(0 <= u && u <= 1 && 0 <= t && t <= 1)
     {
       retpoint = (p += (r *= t));
@@ -347,9 +348,9 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
+    T t = (q -= p).Cross(s) / rCrossS;
     retpoint = (p += (r *= t));
     return true;
   }
-- 
2.43.0


From 37585225ce1bf07da773c529e78da406a4928b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 155/194] fix: RectCircleCollide must not round the center of
 integer rectangles

---
 include/bss-util/Collision.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 35d89d3..f1f5aeb 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -392,18 +392,18 @@ namespace bss {
   template<typename T>
   inline bool RectCircleCollide(T left, T top, T right, T bottom, T X, T Y, T R)
   { //based on a solution from this thread: http://stackoverflow.com/questions/401847/circle-rectangle-collision-detection-intersection
-    T rwh = (right - left) / 2;
-    T rhh = (bottom - top) / 2;
-    T cx = abs(X - ((right + left) / 2));
-    T cy = abs(Y - ((bottom + top) / 2));
-
-    if(cx > (rwh + R) || cy > (rhh + R)) return false;
-    if(cx <= rwh || cy <= rhh) return true;
-
-    cx -= rwh;
-    cy -= rhh;
-    rwh = (cx*cx) + (cy*cy);
-    return rwh <= (R*R);
+    T rw = right - left; // Everything is doubled, so that integers are not rounded
+    T rh = bottom - top;
+    T cx = (T)std::abs((X * 2) - (right + left));
+    T cy = (T)std::abs((Y * 2) - (bottom + top));
+    R *= 2;
+
+    if(cx > (rw + R) || cy > (rh + R)) return false;
+    if(cx <= rw || cy <= rh) return true;
+
+    cx -= rw;
+    cy -= rh;
+    return (cx*cx) + (cy*cy) <= (R*R);
   }
 
   template<typename T>
-- 
2.43.0


From 2273ea60a2bc5762b77d53b4b1af723f441457eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 156/194] fix: RectLineCollide must find horizontal lines and
 miss vertical lines below the rectangle

---
 include/bss-util/Collision.h | 44 ++++++++----------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index f1f5aeb..0e0351f 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -409,42 +409,18 @@ namespace bss {
   template<typename T>
   inline bool RectLineCollide(T left, T top, T right, T bottom, T X1, T Y1, T X2, T Y2)
   {
-    T m = X2 - X1;
-    if(m == (T)0) //this is a special case
-    {
-      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 < bottom));
-    }
-    m = (Y2 - Y1) / m; //this is a precaution to prevent divide by zero
-                       //T m = (Y2-Y1) / (X2-X1);
-    T c = Y1 - (m*X1);
-    T ti, bi, tp, bp;
-
-    if(m > 0) // if the line is going up from right to left then the top intersect point is on the left
-    {
-      ti = (m*left + c);
-      bi = (m*right + c);
-    }
-    else // otherwise it's on the right
-    {
-      ti = (m*right + c);
-      bi = (m*left + c);
-    }
-
-    if(Y1 < Y2) // work out the top and bottom extents for the triangle
-    {
-      tp = Y1;
-      bp = Y2;
-    }
-    else
-    {
-      tp = Y2;
-      bp = Y1;
-    }
+    if((X1 < left && X2 < left) || (X1 > right && X2 > right) || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 > bottom))
+      return false;
 
-    ti = ti > tp ? ti : tp;
-    bi = bi < bp ? bi : bp;
+    // The bounding boxes overlap, so they collide unless all corners are on the same side of the line
+    T dx = X2 - X1;
+    T dy = Y2 - Y1;
+    T tl = dx*(top - Y1) - dy*(left - X1);
+    T tr = dx*(top - Y1) - dy*(right - X1);
+    T bl = dx*(bottom - Y1) - dy*(left - X1);
+    T br = dx*(bottom - Y1) - dy*(right - X1);
 
-    return (ti < bi) && (!((bi < top) || (ti > bottom)));
+    return !((tl < 0 && tr < 0 && bl < 0 && br < 0) || (tl > 0 && tr > 0 && bl > 0 && br > 0));
   }
 
   template<typename T>
-- 
2.43.0


From 7a4dab65dbc421330ea45c6d6d6275b9c6503816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 157/194] fix: assigning a line of another type must return the
 line

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 56ab400..5260aba 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -167,7 +167,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -199,7 +199,7 @@ namespace bss {
     BSS_FORCEINLINE LineN Rotate(T r, T x, T y) const { return LineN(p1.Rotate(r, x, y), p2.Rotate(r, x, y)); }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -235,7 +235,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
-- 
2.43.0


From b7fb6213744ea465fff5f42ede327ab1f2579971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 158/194] fix: PolygonCentroid must start from zero

---
 include/bss-util/Collision.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 0e0351f..98b4653 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -624,7 +624,7 @@ namespace bss {
   template<class T>
   inline Vector<T, 2> PolygonCentroid(const Vector<T, 2>* verts, size_t num)
   {
-    Vector<T, 2> c;
+    Vector<T, 2> c((T)0, (T)0);
 
     for(size_t i = 0, j = num - 1; i<num; j = i++) //for loop trick for iterating each edge taken from pnpoly
     {
-- 
2.43.0


From 51c979944bdcc09238f5e281e04a3c8362d1849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 159/194] fix: ConvexPolygonContainsPoint must compare the same
 side of every edge

---
 include/bss-util/Collision.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 98b4653..3bebc17 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -598,12 +598,13 @@ namespace bss {
     assert(PolygonIsConvex<T>(verts, num));
 
     //(y - y0)*(x1 - x0) - (x - x0)*(y1 - y0) where x,y is the point being tested and 0 and 1 are vertices on the polygon, returns negative if on the right, 0 if its on the line, and positive if its on the left
-    T last = ((point.y - verts[0].y)*(verts[num - 1].x - verts[0].x)) - ((point.x - verts[0].x)*(verts[num - 1].y - verts[0].y));
+    T last = 0;
     T cur;
-    for(size_t i = 1; i< num; ++i)
+    for(size_t i = 0, j = num - 1; i< num; j = i++)
     {
-      cur = ((point.y - verts[i - 1].y)*(verts[i].x - verts[i - 1].x)) - ((point.x - verts[i - 1].x)*(verts[i].y - verts[i - 1].y));
-      if(cur<0 && last>0 || cur>0 && last<0) return false;//This is written so that being on the line counts as an intersection.
+      cur = ((point.y - verts[j].y)*(verts[i].x - verts[j].x)) - ((point.x - verts[j].x)*(verts[i].y - verts[j].y));
+      if((cur<0 && last>0) || (cur>0 && last<0)) return false;//This is written so that being on the line counts as an intersection.
+      if(cur != 0) last = cur;
     }
 
     return true;
-- 
2.43.0


From a5e6855055dc0660a6a0fc70caa90a2f95b3f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:33 +0000
Subject: [PATCH 160/194] fix: concentric circle sectors must collide if their
 angles overlap across zero

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 5260aba..2b44363 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -560,7 +560,7 @@ namespace bss {
 
       // It is possible for coincidental circles to reach this point if they have a nonzero inner radius.
       if(fSmall(X) && fSmall(Y)) // If this true, both the angle range and radius range must intersect for the segments to intersect
-        return inner <= Outer && Inner <= outer && min <= (Min + Range) && Min <= (min + range);
+        return inner <= Outer && Inner <= outer && (bssFMod<T>(Min - min, (T)PI_DOUBLE) <= range || bssFMod<T>(min - Min, (T)PI_DOUBLE) <= Range);
 
       Vector<T, 2> out[2];
       if(_checkBothAngles(X, Y, CircleRadiusIntersect<T>(outer, X, Y, Outer, out), out, min, range, Min, Range))
-- 
2.43.0


From d39ad11c6d142ade42d799b996d936182363d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:06 +0000
Subject: [PATCH 161/194] fix: CircleSectorCollide must not swap the radii of
 the inner and outer arcs

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 2b44363..f5aa0c9 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -569,7 +569,7 @@ namespace bss {
       if(inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(inner, X, Y, Outer, out), out, min, range, Min, Range))
         return true; // inner <-> Outer intersection
 
-      if(Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(Inner, X, Y, outer, out), out, min, range, Min, Range))
+      if(Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(outer, X, Y, Inner, out), out, min, range, Min, Range))
         return true; // Inner <-> outer intersection
 
       if(inner > 0 && Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(inner, X, Y, Inner, out), out, min, range, Min, Range))
-- 
2.43.0


From 7adf9a543104e5f472ea32041d9a17a74e5b474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:15 +0000
Subject: [PATCH 162/194] fix: a line that ends inside a circle sector must
 intersect it wherever it enters

---
 include/bss-util/Geometry.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index f5aa0c9..27cf700 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -486,8 +486,9 @@ namespace bss {
     {
       if(num < 1)
         return false;
-      if(ContainsPoint(vertices[0].x, vertices[0].y))
-        return true;
+      for(size_t i = 0; i < num; ++i) // A line that enters exactly at a corner might only be noticed by where it ends
+        if(ContainsPoint(vertices[i].x, vertices[i].y))
+          return true;
       if(num < 2)
         return false;
       if(num < 3)
@@ -509,7 +510,7 @@ namespace bss {
       Y1 -= y;
       X2 -= x;
       Y2 -= y;
-      if(RadiusSectorContainsPoint(X1, Y1, inner, outer, min, range))
+      if(RadiusSectorContainsPoint(X1, Y1, inner, outer, min, range) || RadiusSectorContainsPoint(X2, Y2, inner, outer, min, range))
         return true;
       return _intersectLine(X1, Y1, X2, Y2);
     }
-- 
2.43.0


From d7e9e6b512e8e38d290c43941f01820a13ebcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 163/194] fix: ArraySort must insert what it parses into the
 object being read

---
 include/bss-util/ArraySort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/ArraySort.h b/include/bss-util/ArraySort.h
index 3fa9178..23c5513 100644
--- a/include/bss-util/ArraySort.h
+++ b/include/bss-util/ArraySort.h
@@ -118,7 +118,7 @@ namespace bss {
     {
       T x;
       Serializer<Engine>::template ActionBind<T>::Parse(e, x, 0);
-      Insert(x);
+      obj.Insert(x);
     }
     template<typename U>
     CT _insert(U && item)
-- 
2.43.0


From bfef5878c47504fc11a5606ffba2798a660cf967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 164/194] fix: parsing a Hash that is a set must compile

---
 include/bss-util/Hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 3a9f4fd..37c592a 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -396,7 +396,7 @@ namespace bss {
     static inline void _serializeAdd(Serializer<Engine>& e, Hash& obj, int& n)
     {
       Key key;
-      Serializer<Engine>::template ActionBind<Engine, Key>::Parse(e, key, 0);
+      Serializer<Engine>::template ActionBind<Key>::Parse(e, key, 0);
       obj.Insert(std::move(key));
     }
     BSS_FORCEINLINE bool _exists(khiter_t iterator) const { return !__ac_iseither(flags, iterator); }
-- 
2.43.0


From d7a7eed54838457536961a80f0da6eb966c6c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 165/194] fix: ArrayCircular must make room for what it parses
 and keep its order

---
 include/bss-util/ArrayCircular.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index e0ff6b1..07eecd7 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -183,7 +183,15 @@ namespace bss {
     {
       T x;
       Serializer<Engine>::template ActionBind<T>::Parse(e, x, 0);
-      Push(x);
+      if(obj._length == obj._capacity)
+        obj.SetCapacity(T_FBNEXT(obj._capacity));
+      if(!obj._length)
+        obj.Push(std::move(x));
+      else // The most recent item is written first, so each one that is read goes behind the last
+      {
+        new(obj._array + obj._modIndex(obj._length)) T(std::move(x));
+        ++obj._length;
+      }
     }
 
     template<typename U> // Note that _cur+1 can never be negative so we don't need to use bssMod
-- 
2.43.0


From 60406b5aac7bf3f211584c9184d3117394b588ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 166/194] fix: GaussianQuadrature must accept one to five
 points

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index c157805..d9ea7b8 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -573,7 +573,7 @@ namespace bss {
   inline T GaussianQuadrature(T a, T b, T(*f)(T, D...), D... args)
   {
     static_assert(N <= 5, "Too many points for Guassian Quadrature!");
-    static_assert(N < 1, "Too few points for Guassian Quadrature!");
+    static_assert(N >= 1, "Too few points for Guassian Quadrature!");
 
     static const T points[5][5] = {
       0, 0, 0, 0, 0,
-- 
2.43.0


From 94d7ea7039d1df96e2f0712f52c793cfd8f0a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 167/194] fix: GaussianQuadrature must not round the central
 weight of five points to zero

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index d9ea7b8..6dd96ff 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -588,7 +588,7 @@ namespace bss {
       1.0, 1.0, 0, 0, 0,
       8.0 / 9.0, 5.0 / 9.0, 5.0 / 9.0, 0, 0,
       (18 + sqrt(30)) / 36, (18 + sqrt(30)) / 36, (18 - sqrt(30)) / 36, (18 - sqrt(30)) / 36, 0,
-      128 / 225, (322 + 13 * sqrt(70)) / 900, (322 + 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900,
+      128.0 / 225.0, (322 + 13 * sqrt(70)) / 900, (322 + 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900,
     };
 
     T scale = (b - a) / 2.0;
-- 
2.43.0


From 76a811e039f173b654593952e0da7330ea7fc1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 168/194] fix: QuadraticFit must multiply its terms

---
 include/bss-util/algo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 6dd96ff..d5e0956 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -336,8 +336,8 @@ namespace bss {
     T x1_2 = x1*x1;
     T x2_2 = x2*x2;
     T x3_2 = x3*x3;
-    T A = ((y2 - y1)(x1 - x3) + (y3 - y1)(x2 - x1)) / ((x1 - x3)(x2_2 - x1_2) + (x2 - x1)(x3_2 - x1_2));
-    T B = ((y2 - y1) - A(x2_2 - x1_2)) / (x2 - x1);
+    T A = ((y2 - y1)*(x1 - x3) + (y3 - y1)*(x2 - x1)) / ((x1 - x3)*(x2_2 - x1_2) + (x2 - x1)*(x3_2 - x1_2));
+    T B = ((y2 - y1) - A*(x2_2 - x1_2)) / (x2 - x1);
     T C = y1 - A*x1_2 - B*x1;
     return A*t*t + B*t + C;
   }
-- 
2.43.0


From f50fbe4052a8abc7240fbfe732ca7724c54421c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 169/194] fix: BezierCurve must work for any type

---
 include/bss-util/algo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index d5e0956..29fec8e 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -287,8 +287,8 @@ namespace bss {
   template<typename T, typename D>
   inline T BezierCurve(D t, const T& p1, const T& p2, const T& p3, const T& p4)
   {
-    static constexpr float m[4][4] = { -1.0f, 3.0f, -3.0f, 1.0f, 3.0f, -6.0f, 3.0f, 0, -3.0f, 3, 0, 0, 1.0f, 0, 0, 0 };
-    const float p[4] = { p1, p2, p3, p4 };
+    static constexpr T m[4][4] = { -1, 3, -3, 1, 3, -6, 3, 0, -3, 3, 0, 0, 1, 0, 0, 0 };
+    const T p[4] = { p1, p2, p3, p4 };
     return StaticGenericSpline<T, D, m>(t, p);
   }
 
-- 
2.43.0


From 7480fcbb5d82da774c0040380a62a883091c7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:12 +0000
Subject: [PATCH 170/194] fix: Array must be constructible from a slice

---
 include/bss-util/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 7676111..31894e5 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -287,7 +287,7 @@ namespace bss {
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Array(CT capacity, typename Alloc::policy_type* policy) : BASE(capacity, policy) { BASE::_setLength(_array, 0, _capacity); }
     inline explicit Array(CT capacity = 0) : BASE(capacity) { BASE::_setLength(_array, 0, _capacity); }
-    inline explicit Array(const Slice<const T, CT>& slice) : BASE(slice.length) { BASE::_copy(_array, slice.begin, slice.length); }
+    inline explicit Array(const Slice<const T, CT>& slice) : BASE(slice.length) { BASE::_copy(_array, slice.start, slice.length); }
     inline ~Array() { BASE::_setLength(_array, _capacity, 0); }
     BSS_FORCEINLINE CT Add(const T& item) { _insert(item, _capacity); return _capacity - 1; }
     BSS_FORCEINLINE CT Add(T&& item) { _insert(std::move(item), _capacity); return _capacity - 1; }
-- 
2.43.0


From 2cf1b4763c86fe11eb2b81490207c3c7e7c98e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:12 +0000
Subject: [PATCH 171/194] fix: a DynArray must be assignable from an Array and
 keep its length

---
 include/bss-util/Array.h    | 2 ++
 include/bss-util/DynArray.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 31894e5..18991c5 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -272,6 +272,8 @@ namespace bss {
     typedef typename BASE::Ty Ty;
     using BASE::_array;
     using BASE::_capacity;
+    template<class U, typename C, ARRAY_TYPE AT, typename A>
+    friend class DynArray;
 
   public:
     inline Array(const Array& copy) : BASE(copy._capacity, copy) { BASE::_copy(_array, copy._array, _capacity); } // We have to declare this because otherwise its interpreted as deleted
diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 658191b..4657b04 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -95,7 +95,7 @@ namespace bss {
       _length = copy._capacity;
       return *this;
     }
-    inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
+    inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move((BASE&)mov)); _length = _capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
       if(this == &copy)
-- 
2.43.0


From 64cfe65f5e37e08c567607c279bf8c6c2cdec4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:12 +0000
Subject: [PATCH 172/194] fix: a slice of a slice must be the requested range,
 also of a const slice and counted from the end

---
 include/bss-util/Array.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 18991c5..27de53a 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -44,15 +44,13 @@ namespace bss {
       return r; 
     }
     inline const Slice operator()(CType begin) const { return operator()(begin, length); }
-    inline const Slice operator()(CType begin, CType end) const { return operator()(begin, length); }
+    inline const Slice operator()(CType begin, CType end) const { return Slice(*this)(begin, end); }
     inline Slice operator()(CType begin) { return operator()(begin, length); }
     inline Slice operator()(CType begin, CType end)
     {
-      assert(abs(begin) < length);
-      assert(end <= length);
-      begin = bssMod(begin, length);
-      if(end <= 0) end = length - end;
-      assert(end >= start);
+      if(begin < 0) begin = length + begin;
+      if(end <= 0) end = length + end;
+      assert(begin >= 0 && begin <= end && end <= length);
       return Slice(start + begin, end - begin);
     }
     inline bool operator!() const noexcept { return !start || !length; }
-- 
2.43.0


From 7570d71edcc78871ab42f31eb69ca40064413009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:41 +0000
Subject: [PATCH 173/194] fix: a profiling point must not share the node of
 another point that is nested

---
 include/bss-util/Profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Profiler.h b/include/bss-util/Profiler.h
index 875cad0..57025be 100644
--- a/include/bss-util/Profiler.h
+++ b/include/bss-util/Profiler.h
@@ -62,7 +62,7 @@ namespace bss {
     {
       PROF_TRIENODE** r = &_cur;
 
-      while(id > 0)
+      for(size_t i = 0; i < sizeof(ProfilerInt) * 2; ++i) // every path has the same length, so that a nested point can't share the node of a larger id
       {
         r = &(*r)->_children[id % 16];
         id = (id >> 4);
-- 
2.43.0


From 9346ae07387f6697f1541a6bd0c846c8881f7ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:41 +0000
Subject: [PATCH 174/194] fix: the profiler tree must indent points whose id
 ends in a zero digit like any other

---
 bss-util/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 45766ba..f9e9792 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -119,7 +119,7 @@ void Profiler::_treeOut(std::ostream& stream, PROF_TRIENODE* node, ProfilerInt i
     idlevel = 0;
   }
   for(ProfilerInt i = 0; i < 16; ++i)
-    _treeOut(stream, node->_children[i], id | (i << (4 * idlevel)), level + !id, idlevel + 1);
+    _treeOut(stream, node->_children[i], id | (i << (4 * idlevel)), level + !idlevel, idlevel + 1);
 }
 void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id, ProfilerInt idlevel)
 {
-- 
2.43.0


From 30ec679a537deb295f70492cbf15fa9b6219cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:41 +0000
Subject: [PATCH 175/194] fix: the profiler heat map must name inner points
 with ids above 15 correctly

---
 bss-util/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index f9e9792..c8876ef 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -132,7 +132,7 @@ void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id
     idlevel = 0;
 
     for(ProfilerInt i = 0; i < 16; ++i)
-      _heatOut(nheat, node->_children[i], id | (i << (4 * idlevel)), 0);
+      _heatOut(nheat, node->_children[i], id | (i << (4 * idlevel)), idlevel + 1);
 
     double t = 0.0; // Create the [code] node
     for(ProfilerInt i = 0; i < nheat._children.Length(); ++i)
-- 
2.43.0


From 4400143511c83a853578c2cdd6e79f6d4871aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:41 +0000
Subject: [PATCH 176/194] fix: the flat profiler output must list each time
 next to its own point

---
 bss-util/profiler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index c8876ef..6c34e09 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -87,9 +87,13 @@ void Profiler::WriteToStream(std::ostream& stream, uint8_t output)
     PROF_FLATOUT* avg = (PROF_FLATOUT*)calloc(_data.Capacity(), sizeof(PROF_FLATOUT));
     if(!avg) return;
     _flatOut(avg, _trie, 0, 0);
-    std::sort(avg + 1, avg + _data.Capacity(), [](const PROF_FLATOUT& l, const PROF_FLATOUT& r) -> bool { return l.avg > r.avg; });
-    for(ProfilerInt i = 1; i < _data.Capacity(); ++i)
+    Array<ProfilerInt, ProfilerInt> order(_data.Capacity()); // sort the ids, so that each point keeps its own time
+    for(ProfilerInt i = 0; i < _data.Capacity(); ++i)
+      order[i] = i;
+    std::sort(order.begin() + 1, order.end(), [avg](ProfilerInt l, ProfilerInt r) -> bool { return avg[l].avg > avg[r].avg; });
+    for(ProfilerInt k = 1; k < _data.Capacity(); ++k)
     {
+      ProfilerInt i = order[k];
       stream << '[' << _trimPath(_data[i]->file) << ':' << _data[i]->line << "] " << _data[i]->name << ": ";
       _timeFormat(stream, avg[i].avg, avg[i].var, avg[i].total);
       stream << std::endl;
-- 
2.43.0


From 447aa5e8232fba068dd061ad974f40814040a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:41 +0000
Subject: [PATCH 177/194] fix: the profiler must not print a pointer in place
 of the microsecond unit

---
 bss-util/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 6c34e09..af864ce 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -228,7 +228,7 @@ void Profiler::_timeFormat(std::ostream& stream, double avg, double variance, ui
   else if(avg >= 1000000000.0)
     stream << (avg / 1000000.0) << " ms";
   else if(avg >= 1000000.0)
-    stream << (avg / 1000.0) << L" \x039Cs";
+    stream << (avg / 1000.0) << " \xCE\x9Cs";
   else
     stream << avg << " ns";
 }
-- 
2.43.0


From 8e2e14dd9e8b5b6b0b8db8c4e03a6424c72566a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:41 +0000
Subject: [PATCH 178/194] fix: the profiler heat map must not divide by zero
 when no time was measured

---
 bss-util/profiler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index af864ce..c4a3eb3 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -173,9 +173,13 @@ void Profiler::_heatWrite(std::ostream& stream, PROF_HEATNODE& node, size_t leve
     double mag1 = pow(max, 1.0 / 4.0);
     double mag2 = pow(max, 2.0 / 4.0);
     double mag3 = pow(max, 3.0 / 4.0);
-    size_t num = fFastTruncate(std::min(node.avg / mag1, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag2, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    size_t num = 0;
+    if(max > 0.0) // if everything took no time at all there is nothing to scale to
+    {
+      num = fFastTruncate(std::min(node.avg / mag1, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag2, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    }
     char bar[BARLENGTH + 1] = {};
     bssFillN<char>(bar, BARLENGTH, ' ');
     for(size_t i = 0; i < num; ++i)
-- 
2.43.0


From 597063780a30d98dbaef2d58c1e0c97acfd085ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:52 +0000
Subject: [PATCH 179/194] fix: GetTimeZoneMinutes must return the offset of the
 local time zone in minutes

---
 bss-util/bss_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index bf41998..017401b 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -173,9 +173,9 @@ long GetTimeZoneMinutes()
   time_t rawtime;
   TIME64(&rawtime);
   tm stm;
-  if(GMTIMEFUNC(&rawtime, &stm) != 0)
+  if(localtime_r(&rawtime, &stm) == 0)
     return 0;
-  return stm.tm_gmtoff;
+  return stm.tm_gmtoff / 60; // tm_gmtoff is in seconds
 #endif
 }
 
-- 
2.43.0


From 982e0db643a85a358d2b7f393bf319322e82a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:52 +0000
Subject: [PATCH 180/194] fix: a log entry must be stamped with the local date
 that belongs to its local time

---
 bss-util/Logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 88aa7b5..3ac285f 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -119,14 +119,14 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 {
   time_t rawtime;
   TIME64(&rawtime);
+  rawtime += timez * 60; // The date changes with the time zone, too
   tm stm;
   tm* ptm = &stm;
   if(GMTIMEFUNC(&rawtime, ptm) != 0)
     return false;
 
-  long m = ptm->tm_hour * 60 + ptm->tm_min + 1440 + timez; //+1440 ensures this is never negative because % does not properly respond to negative numbers.
-  long h = ((m / 60) % 24);
-  m %= 60;
+  long m = ptm->tm_min;
+  long h = ptm->tm_hour;
 
   char logchar = log.fill();
   std::streamsize logwidth = log.width();
-- 
2.43.0


From ff86e433baa0660ba58266d879f5743e0ba65c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:48 +0000
Subject: [PATCH 181/194] fix: GetFontPath must return a null terminated path

---
 bss-util/bss_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index 017401b..389d3c7 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -493,7 +493,7 @@ std::unique_ptr<char[], bss::bssDLLDelete<char[]>> bss::GetFontPath(const char*
     FcChar8* file = NULL;
     if(FcPatternGetString(font, FC_FILE, 0, &file) == FcResultMatch)
     {
-      size_t len = strlen((char*)file);
+      size_t len = strlen((char*)file) + 1; // include the null terminator
       p.reset(new char[len]);
       memcpy(p.get(), file, len);
     }
-- 
2.43.0


From 187f2552de7f07e06bd0696155c1c84084c456a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:35 +0000
Subject: [PATCH 182/194] fix: assigning a BitStream must write out its own
 pending bits and take over those of the source

---
 include/bss-util/BitStream.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 721b333..a0eea2f 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -80,8 +80,27 @@ namespace bss {
     void Read(T& dest) { Read(&dest, std::conditional<std::is_same<T, bool>::value, std::integral_constant<int, 1>, std::integral_constant<int, (sizeof(T) << 3)>>::type::value); }
     void Flush() { if(_woffset) _flush(_base, _buf); }
 
-    BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
-    BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
+    BitStream& operator=(const BitStream& copy)
+    {
+      if(this != &copy)
+      {
+        if(_base) Flush();
+        _base = copy._base;
+        _roffset = copy._roffset;
+        _woffset = copy._woffset;
+        _buf = copy._buf;
+      }
+      return *this;
+    }
+    BitStream& operator=(BitStream&& mov)
+    {
+      if(this != &mov)
+      {
+        *this = (const BitStream&)mov;
+        mov._base = 0;
+      }
+      return *this;
+    }
     template<typename T>
     BitStream& operator<<(const T& v) { Write<T>(v); return *this; }
     template<typename T>
-- 
2.43.0


From af23ce6e135ac37152946896618811f30cfb169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 183/194] fix: move assigning a LocklessBlockPolicy must
 release the memory it owned

---
 include/bss-util/BlockAllocMT.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index 0259175..7ff7537 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -31,16 +31,7 @@ namespace bss {
       static_assert((sizeof(bss_PTag<void>) == (sizeof(void*) * 2)), "ABAPointer isn't twice the size of a pointer!");
       _allocChunk(init * sizeof(T));
     }
-    inline ~LocklessBlockPolicy()
-    {
-      Node* hold = _root;
-
-      while((_root = hold))
-      {
-        hold = _root->next;
-        free(_root);
-      }
-    }
+    inline ~LocklessBlockPolicy() { _destroy(); }
     inline T* allocate(size_t num, const T* p = 0, size_t old = 0) noexcept
     {
       assert(num == 1 && !p);
@@ -92,6 +83,9 @@ namespace bss {
 
     LocklessBlockPolicy& operator=(LocklessBlockPolicy&& mov) noexcept
     {
+      if(this == &mov)
+        return *this;
+      _destroy();
       _root = mov._root;
       _freelist.p = mov._freelist.p;
       _freelist.tag = mov._freelist.tag;
@@ -103,6 +97,16 @@ namespace bss {
     //size_t contention;
 
   protected:
+    inline void _destroy() noexcept
+    {
+      Node* hold = _root;
+
+      while((_root = hold))
+      {
+        hold = _root->next;
+        free(_root);
+      }
+    }
 #ifdef BSS_DEBUG
     inline bool _validPointer(const void* p) const
     {
-- 
2.43.0


From 9a283c82079357f2914d93f219eeb5327985e55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 184/194] fix: move assigning a GreedyAlloc must release the
 memory it owned

---
 include/bss-util/GreedyAlloc.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index f5bf9c9..6709bac 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -37,13 +37,7 @@ namespace bss {
     inline ~GreedyAlloc()
     {
       _lock.Lock();
-      Node* hold = _root.load(std::memory_order_relaxed);
-
-      while((_root = hold))
-      {
-        hold = hold->next;
-        ALIGNEDFREE(_root.load(std::memory_order_relaxed));
-      }
+      _destroy();
     }
     template<typename T>
     inline T* AllocT(size_t num) noexcept
@@ -124,6 +118,9 @@ namespace bss {
 
     GreedyAlloc& operator=(GreedyAlloc&& mov)
     {
+      if(this == &mov)
+        return *this;
+      _destroy();
       _root.store(mov._root.load(std::memory_order_relaxed), std::memory_order_relaxed);
       _curpos.store(mov._curpos.load(std::memory_order_relaxed), std::memory_order_relaxed);
       assert(_align == mov._align);
@@ -134,6 +131,16 @@ namespace bss {
     }
 
   protected:
+    inline void _destroy() noexcept
+    {
+      Node* hold = _root.load(std::memory_order_relaxed);
+
+      while((_root = hold))
+      {
+        hold = hold->next;
+        ALIGNEDFREE(_root.load(std::memory_order_relaxed));
+      }
+    }
     BSS_FORCEINLINE void _allocChunk(size_t nsize) noexcept
     {
       Node* retval = reinterpret_cast<Node*>(ALIGNEDALLOC(_alignsize + nsize, _align));
-- 
2.43.0


From 9839760cda0280a783139b37969aa750631625b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 185/194] fix: moving a CacheAlloc must take over its free
 lists, or blocks it handed out cannot be freed

---
 include/bss-util/CacheAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index d2f48d5..f23fdd3 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -15,7 +15,7 @@ namespace bss {
     CacheAlloc& operator=(const CacheAlloc& copy) = delete;
     
   public:
-    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign) {}
+    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign), _cache(std::move(mov._cache)) {}
     inline explicit CacheAlloc(size_t maxsize = 8192, size_t init = 64, size_t align = 1) : GreedyAlloc(init, align), _maxsize(maxsize), _debugalign(bssmax(align, sizeof(size_t))) {}
     inline ~CacheAlloc() {}
 
-- 
2.43.0


From e1a00c164a89037062de33a46c8287f4821ecaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:29 +0000
Subject: [PATCH 186/194] fix: shrinking a block of a CachePolicy must free the
 old block with its own size

---
 include/bss-util/CacheAlloc.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index f23fdd3..4e89d70 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -145,9 +145,7 @@ namespace bss {
       if(p)
       {
         assert(old > 0);
-        if(cnt < old)
-          old = cnt;
-        MEMCPY(n, cnt * sizeof(T), p, old * sizeof(T));
+        MEMCPY(n, cnt * sizeof(T), p, bssmin(cnt, old) * sizeof(T));
         CacheAlloc::Dealloc(p, old * sizeof(T));
       }
       return n;
-- 
2.43.0


From 067195d52617866667a0627600c858ed94102e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:17 +0000
Subject: [PATCH 187/194] fix: move assigning a MicroLockQueue must release its
 own elements

---
 include/bss-util/LocklessQueue.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index d2297e5..22685d2 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -156,15 +156,7 @@ namespace bss {
       _cflag.clear(std::memory_order_relaxed);
       _pflag.clear(std::memory_order_relaxed);
     }
-    inline ~MicroLockQueue()
-    {
-      while(QNODE* tmp = _div)
-      {
-        _div = _div->next;
-        tmp->~QNODE();
-        Alloc::deallocate(tmp, 1);
-      }
-    }
+    inline ~MicroLockQueue() { _destroy(); }
     BSS_FORCEINLINE void Push(const T& item) { _produce<const T&>(item); }
     BSS_FORCEINLINE void Push(T&& item) { _produce<T&&>(std::move(item)); }
     inline bool Pop(T& result)
@@ -196,6 +188,9 @@ namespace bss {
     }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
+      if(this == &mov)
+        return *this;
+      _destroy();
       Alloc::operator=(std::move(mov));
       _div = mov._div;
       _last = mov._last;
@@ -205,6 +200,15 @@ namespace bss {
       return *this;
     }
   protected:
+    inline void _destroy()
+    {
+      while(QNODE* tmp = _div)
+      {
+        _div = _div->next;
+        tmp->~QNODE();
+        Alloc::deallocate(tmp, 1);
+      }
+    }
     template<typename U>
     void _produce(U && item)
     {
-- 
2.43.0


From b777159121939f1ca8b549b8419b685d45c969fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 188/194] fix: CacheAlloc must not drop the free list of a size
 another thread added first

---
 include/bss-util/CacheAlloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index 4e89d70..8fbdb2c 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -40,7 +40,9 @@ namespace bss {
         if(!_cache.ExistsIter(i))
         {
           _cachelock.Upgrade();
-          i = _cache.Insert(sz, { 0, 0 });
+          i = _cache.Iterator(sz); // Another thread could have inserted this size (and freed blocks of it) before we got the lock
+          if(!_cache.ExistsIter(i))
+            i = _cache.Insert(sz, { 0, 0 });
           _cachelock.Downgrade();
         }
         assert(_cache.ExistsIter(i));
-- 
2.43.0


From 38fbd2d562b309c70926d61477f19fb28f58a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:39 +0000
Subject: [PATCH 189/194] fix: Explode must compile for strings of wide
 characters

---
 include/bss-util/Str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index 64fff7b..ccecac5 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -214,7 +214,7 @@ namespace bss {
       while(*text)
       {
         dest.push_back(text);
-        text += strlen(text) + 1;
+        text += STRCT::SLEN(text) + 1;
       }
     }
     template<typename I, typename F> // F = I(const T* s)
-- 
2.43.0


From d3265cc9ef38e712f6dab761d7d024d0b5e41e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:49 +0000
Subject: [PATCH 190/194] fix: UTF-32 strings must find and split at characters
 like the other strings

---
 include/bss-util/Str.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index ccecac5..b1d21c7 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -79,18 +79,25 @@ namespace bss {
       typedef char OTHER_C;
       typedef wchar_t OTHER_C2;
 
-      static BSS_FORCEINLINE const CHAR* SCHR(const CHAR* str, CHAR val) { while(*str && *str != val) ++str; return str; }
+      static BSS_FORCEINLINE const CHAR* SCHR(const CHAR* str, CHAR val) { while(*str && *str != val) ++str; return *str == val ? str : nullptr; } // like strchr
       static BSS_FORCEINLINE size_t SLEN(const CHAR* str) { const CHAR* i = str; while(*i) ++i; return (size_t)(i - str); }
       static BSS_FORCEINLINE CHAR* STOK(CHAR* str, const CHAR* delim, CHAR** context)
       {
         if(str)
           *context = str;
-        else
-          **context = *delim;
-        CHAR* r = str = *context;
-        while(*str && *str != *delim) ++str;
-        *str = 0;
+
+        str = *context;
+        while(*str && SCHR(delim, *str)) ++str; // like strtok, skip any delimiters at the start
+        CHAR* r = str;
+        while(*str && !SCHR(delim, *str)) ++str;
         *context = str;
+        if(str == r) // nothing left
+          return nullptr;
+        if(*str)
+        {
+          *str = 0;
+          ++*context;
+        }
         return r;
       }
       static BSS_FORCEINLINE size_t CONV(const OTHER_C* src, ptrdiff_t srclen, CHAR* dest, size_t len) { return UTF8toUTF32(src, srclen, dest, len); }
-- 
2.43.0


From 6ad50200dbcab256466e919f6954fc79cc4141e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:30 +0000
Subject: [PATCH 191/194] fix: appending to and dumping a StringTable must work
 for every character type

---
 include/bss-util/StringTable.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index ca55cd3..b3410ee 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -62,7 +62,7 @@ namespace bss {
     inline CT_ TotalWordCapacity() const { return _strings.Capacity(); }
     // Returns string with the corresponding index. Strings are returned null-terminated, but the index bound is not checked.
     inline const T* GetString(CT_ index) const { assert(index < _indices.Capacity()); return _strings + _indices[index]; }
-    inline void AppendString(const char* s)
+    inline void AppendString(const T* s)
     {
       CT_ last = _strings.Capacity();
       CT_ sz = internal::STR_CT<T>::SLEN(s) + 1;
@@ -70,12 +70,12 @@ namespace bss {
       _indices.SetCapacity(_indices.Capacity() + 1);
       _indices[_indices.Capacity() - 1] = last; // Add another indice and set its value appropriately
       _strings.SetCapacity(_strings.Capacity() + sz); // Allocate more space in string buffer
-      memcpy(_strings + last, s, sz); // Copy over new string (including null terminator)
+      memcpy(_strings + last, s, sz * sizeof(T)); // Copy over new string (including null terminator)
     };
     // Returns index array
     inline const CT_* GetIndices() const { return _indices; }
     // Dumps table to stream
-    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)_strings, _strings.Capacity() * sizeof(T)); }
+    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)(const T*)_strings, _strings.Capacity() * sizeof(T)); }
 
     inline const T* operator[](CT_ index) { return GetString(index); }
     inline StringTable& operator=(const StringTable& right)
@@ -104,7 +104,7 @@ namespace bss {
       return *this;
     }
     inline StringTable operator+(const StringTable& right) { StringTable retval(*this); return retval += right; }
-    inline StringTable& operator+=(const char* right) { AppendString(right); return *this; }
+    inline StringTable& operator+=(const T* right) { AppendString(right); return *this; }
 
   protected:
     void _construct(const T* const* strings, CT_ size)
-- 
2.43.0


From 05264ebe24424af23e09bef14a5e668eaf5e5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 192/194] fix: appending an Array to itself must not run past
 its memory

---
 include/bss-util/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 27de53a..f312989 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -363,8 +363,9 @@ namespace bss {
     BSS_FORCEINLINE Array& operator +=(const Array& add) noexcept
     {
       CT old = _capacity;
-      BASE::_setCapacity(_capacity + add._capacity, _capacity);
-      BASE::_copy(_array + old, add._array, add._capacity);
+      CT num = add._capacity; // add may be *this
+      BASE::_setCapacity(_capacity + num, _capacity);
+      BASE::_copy(_array + old, add._array, num);
       return *this;
     }
     BSS_FORCEINLINE Array operator +(const Array& add) const noexcept { Array r(*this); return (r += add); }
-- 
2.43.0


From 46c47024c0662e123f9b0345769debf25c21a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 193/194] fix: appending a LinkedList to itself must terminate

---
 include/bss-util/LinkedList.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 8c86175..22c7174 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -219,7 +219,11 @@ namespace bss {
     template<typename U, bool L, bool V>
     inline LinkedList& operator +=(const LinkedList<T, U, L, V>& right)
     {
-      for(LLNode<T>* cur = right._root; cur != 0; cur = cur->next)
+      LLNode<T>* last = right._root;
+      while(last != 0 && last->next != 0)
+        last = last->next;
+
+      for(LLNode<T>* cur = right._root; cur != 0; cur = (cur != last) ? cur->next : nullptr) // right may be *this, so don't walk into what was just added
         Add(cur->item);
 
       return *this;
-- 
2.43.0


From 2f1fd46ddf221a02fa94a3dd1e43d7dd0f49418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 194/194] fix: a maximum log level above 127 must not suppress
 everything

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 3ac285f..98cf9f2 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -112,7 +112,7 @@ void Logger::SetLevel(uint8_t level, const char* str)
 }
 void Logger::SetMaxLevel(uint8_t level)
 {
-  _maxlevel = level;
+  _maxlevel = (level > 127) ? 127 : level; // Levels are signed, so a larger value must not wrap around
 }
 
 bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
-- 
2.43.0


From 5861ad04be46aae04d1d45fb30741791a2e27b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 001/157] fix: MicroLockQueue::Pop must not inspect the head
 node outside the consumer lock

The unlocked pre-check reads _div->next of a node another consumer may already
have released and a producer recycled, so Pop could report an empty queue that
was never empty.
---
 include/bss-util/LocklessQueue.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 0e0a706..e08061b 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -168,8 +168,6 @@ namespace bss {
     BSS_FORCEINLINE void Push(T&& item) { _produce<T&&>(std::move(item)); }
     inline bool Pop(T& result)
     {
-      if(!_div->next) return false; // Remove some contending pressure
-
       while(_cflag.test_and_set(std::memory_order_acquire));
       QNODE* ref = _div;
       QNODE* n = _div->next;
-- 
2.43.0


From 8098ca1867820f74420bcd53ee416ebdf2087c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:39 +0000
Subject: [PATCH 002/157] fix: RingAlloc must not undo an over-limit
 reservation with fetch_sub

With three or more threads, another thread can reserve space behind an over-limit
reservation that is then subtracted again, so the same bytes are handed out twice.
Reserve with a compare-exchange loop that never exceeds the bucket.
---
 include/bss-util/RingAlloc.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/RingAlloc.h b/include/bss-util/RingAlloc.h
index ced0f33..e3b841e 100644
--- a/include/bss-util/RingAlloc.h
+++ b/include/bss-util/RingAlloc.h
@@ -17,7 +17,7 @@ namespace bss {
     {
       Bucket* next; // next free bucket
       size_t sz;
-      std::atomic<size_t> reserved; // How much was attempted to be used (includes allocations over the limit)
+      std::atomic<size_t> reserved; // How much is in use
       LLBase<Bucket> list; // position on permanent doubly linked list
       RWLock lock;
     };
@@ -60,12 +60,13 @@ namespace bss {
           continue;
         }
 
-        r = cur->reserved.fetch_add(n, std::memory_order_acq_rel);
-        rend = r + n;
+        r = cur->reserved.load(std::memory_order_acquire);
+        do // Only reserve space that actually exists. An optimistic add that is undone on failure could let others allocate past it and then hand out their space again.
+          rend = r + n;
+        while(rend <= cur->sz && !cur->reserved.compare_exchange_weak(r, rend, std::memory_order_acq_rel, std::memory_order_acquire));
 
         if(rend > cur->sz) // If we went over the limit, we'll have to grab another bucket
         {
-          cur->reserved.fetch_sub(n, std::memory_order_release);
           cur->lock.RUnlock();
 
           if(!r) // If r was zero, it's theoretically possible for this bucket to get orphaned, so we send it into the _checkRecycle function
-- 
2.43.0


From 8e45a37cb03c3659c8c24c509d7fee6046f70152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 003/157] fix: CacheAlloc must not replace the freelist of a
 size another thread just added

Two threads that first use a size concurrently both insert it; the second insert
reset the freelist and lost every block freed in between.
---
 include/bss-util/CacheAlloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index d2f48d5..b422736 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -40,7 +40,9 @@ namespace bss {
         if(!_cache.ExistsIter(i))
         {
           _cachelock.Upgrade();
-          i = _cache.Insert(sz, { 0, 0 });
+          i = _cache.Iterator(sz); // Another thread may have added this size while we waited, and its freelist must not be replaced
+          if(!_cache.ExistsIter(i))
+            i = _cache.Insert(sz, { 0, 0 });
           _cachelock.Downgrade();
         }
         assert(_cache.ExistsIter(i));
-- 
2.43.0


From 8f4290e063a215c41144004e27adb75e7a4dd4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:55 +0000
Subject: [PATCH 004/157] fix: 4-byte asmcas/asmcasr must operate on 4 bytes

long is 8 bytes on LP64, so the 32-bit compare-exchange compared and replaced the
neighbouring 4 bytes as well and asmcasr wrote 8 bytes into the 4-byte result.
---
 include/bss-util/lockless.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..e888c04 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -138,7 +138,7 @@ namespace bss {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 4> {
-      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
+      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 8> {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval) != 0; }
@@ -183,7 +183,7 @@ namespace bss {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(short*)&retval = __sync_val_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval); return *(int16_t*)&retval == *(int16_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 4> {
-      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long*)&retval = __sync_val_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
+      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(int32_t*)&retval = __sync_val_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 8> {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long long*)&retval = __sync_val_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval); return *(int64_t*)&retval == *(int64_t*)&oldval; }
-- 
2.43.0


From 05acb0c28dee08f8f9f4f0338df073d81c1f8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 005/157] fix: Thread::join(timeout) must normalise the
 absolute timeout

---
 include/bss-util/Thread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/Thread.h b/include/bss-util/Thread.h
index 1235749..35a08d5 100644
--- a/include/bss-util/Thread.h
+++ b/include/bss-util/Thread.h
@@ -93,6 +93,11 @@ namespace bss {
         {
           ts.tv_sec += mstimeout / 1000;
           ts.tv_nsec += (mstimeout % 1000) * 1000000;
+          if(ts.tv_nsec >= 1000000000) // tv_nsec must stay below one second or the wait is rejected or never times out
+          {
+            ++ts.tv_sec;
+            ts.tv_nsec -= 1000000000;
+          }
           if(pthread_timedjoin_np(native_handle(), (void**)&ret, &ts) != 0) // size_t is defined as being big enough to hold a pointer
             return (size_t)~0;
         }
-- 
2.43.0


From bc688df318eccbc72ca817e7eee2d51b61d985f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:28 +0000
Subject: [PATCH 006/157] fix: HighPrecisionTimer::Update(timewarp) must warp
 both deltas the same way

---
 bss-util/HighPrecisionTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/HighPrecisionTimer.cpp b/bss-util/HighPrecisionTimer.cpp
index 75e1b84..b8605fb 100644
--- a/bss-util/HighPrecisionTimer.cpp
+++ b/bss-util/HighPrecisionTimer.cpp
@@ -48,7 +48,7 @@ double HighPrecisionTimer::Update(double timewarp)
   _nsDelta = ((newTime - _curTime) * 1000000000) / warpfreq;
 #else
   _delta = (newTime - _curTime) / (1000000 * timewarp);
-  _nsDelta = (uint64_t)((newTime - _curTime)*timewarp);
+  _nsDelta = (uint64_t)((newTime - _curTime) / timewarp);
 #endif
   _curTime = newTime;
   _nsTime += _nsDelta;
-- 
2.43.0


From 327f01df3b9fb52ee89b28007dc21e6c2ecf4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:28 +0000
Subject: [PATCH 007/157] fix: Scheduler::Update must stop at an empty queue
 and survive events that add events

---
 include/bss-util/Scheduler.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index 37914a7..7da7f1e 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -33,14 +33,13 @@ namespace bss {
     {
       HighPrecisionTimer::Update();
 
-      while(BASE::Peek().first <= _time)
+      while(BASE::_length > 0 && BASE::Peek().first <= _time)
       {
-        double r = BASE::Peek().second();
+        std::pair<double, F> e = BASE::Pop(); // The event is taken out before it is called, because it may add other events
+        double r = e.second();
 
-        if(r == 0.0)
-          BASE::Remove(0);
-        else
-          BASE::Set(0, std::pair<double, F>(r + _time, BASE::Peek().second)); // This is why we don't use the actual priority queue data structure
+        if(r != 0.0)
+          BASE::Insert(std::pair<double, F>(r + _time, std::move(e.second)));
       }
     }
   };
-- 
2.43.0


From 2802c3b26f3542398d23615a3e6d86680e9e4c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:33 +0000
Subject: [PATCH 008/157] fix: HighPrecisionTimer must include unistd.h,
 without which it silently used the wall clock

---
 include/bss-util/HighPrecisionTimer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/HighPrecisionTimer.h b/include/bss-util/HighPrecisionTimer.h
index aaa4bcd..f98272d 100644
--- a/include/bss-util/HighPrecisionTimer.h
+++ b/include/bss-util/HighPrecisionTimer.h
@@ -8,6 +8,7 @@
 #include <stdint.h>
 #ifndef BSS_PLATFORM_WIN32
 #include <time.h>
+#include <unistd.h> // defines _POSIX_MONOTONIC_CLOCK and _POSIX_CPUTIME
 
 #ifdef _POSIX_MONOTONIC_CLOCK
 #ifdef CLOCK_MONOTONIC_RAW
-- 
2.43.0


From fbc945cb7b3d591e8e87aac34773fbe4895b291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:43 +0000
Subject: [PATCH 009/157] fix: INI parsing must not trim UTF-8 bytes as if they
 were whitespace

---
 bss-util/INIParser.c    | 10 +++++-----
 bss-util/INIstorage.cpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 9689fd4..ada86e3 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,7 +60,7 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && *inter < 33; --inter);
+  for(; inter > str && (unsigned char)*inter < 33; --inter);
   *(++inter) = '\0';
   return str;
 }
@@ -93,7 +93,7 @@ char* _validatesection(char* start)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -102,7 +102,7 @@ char* _validatesection(char* start)
 char _validatekey(const char* start, const char* end)
 {
   for(; start < end; ++start)
-    if(*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
+    if((unsigned char)*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
   return 0;
 }
 
@@ -205,7 +205,7 @@ const char* _svalidatesection(const char* start, const char* end)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -218,7 +218,7 @@ const char* _svalidatevalue(const char* start, const char* end)
 
 const char* _trimrstralt(const char* end, const char* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (unsigned char)*end < 33; --end);
   return end;
 }
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7a6649a..dd10593 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -24,7 +24,7 @@ const T* ltrimstr(const T* str)
 template<typename T>
 const T* rtrimstr(const T* end, const T* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (std::make_unsigned_t<T>)*end < 33; --end);
   return end;
 }
 
-- 
2.43.0


From 8a74a3fb64eb4cb678b9b5df3e30be4e2a10901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:43 +0000
Subject: [PATCH 010/157] fix: INI section and key lookup must compare whole
 names, not prefixes

---
 bss-util/INIParser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index ada86e3..448ff70 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -229,7 +229,7 @@ int comparevalues(const char* start, const char* end, const char* comp)
   end = _trimrstralt(end - 1, start);
   a = (end - start) + 1;
   b = strlen(comp);
-  return STRNICMP(start, comp, bssmin(a, b));
+  return a != b ? 1 : STRNICMP(start, comp, a);
 }
 INICHUNK bssFindINISection(const void* data, size_t length, const char* section, size_t instance)
 {
-- 
2.43.0


From fbbe4fa7f173eb62b879ed8bba873924e7f25dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:43 +0000
Subject: [PATCH 011/157] fix: bssParseLine must stop when nothing can be read

---
 bss-util/INIParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 448ff70..24a85d9 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -155,7 +155,8 @@ char bssParseLine(INIParser* parse)
 
   while(!feof(parse->file))
   {
-    fgets(parse->buf, MAXLINELENGTH, parse->file);
+    if(!fgets(parse->buf, MAXLINELENGTH, parse->file))
+      break; // nothing was read: end of file or read error
     switch(_nextkeychar((const char**)&tc, parse->buf))
     {
     //case -1: //Garbage line
-- 
2.43.0


From 3d87506a6abeeb0568ea8d06b3b4766d6fd90162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:43 +0000
Subject: [PATCH 012/157] fix: EndINIEdit must keep the edit if it could not be
 written

---
 bss-util/INIstorage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index dd10593..e6f6eab 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -292,8 +292,8 @@ void INIstorage::EndINIEdit(const char* overridepath)
   FILE* f;
   FOPEN(f, targetpath, ("wb"));
   if(!f) return; // IF the file fails, bail out and do not discard the edit.
-  fwrite(*_ini, sizeof(char), _ini->size(), f);
-  fclose(f);
+  bool written = fwrite(*_ini, sizeof(char), _ini->size(), f) == _ini->size();
+  if(fclose(f) != 0 || !written) return;
   DiscardINIEdit();
 }
 void INIstorage::DiscardINIEdit()
-- 
2.43.0


From 67a498014c8c4d955ba0203d426650380e40e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:43 +0000
Subject: [PATCH 013/157] fix: INI edits must fail cleanly if the file cannot
 be opened or read

---
 bss-util/INIstorage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index e6f6eab..b148a15 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -43,6 +43,8 @@ void INIstorage::_openINI()
   size = fread(_ini->UnsafeString(), sizeof(char), size, f); //reads in the entire file
   _ini->UnsafeString()[size] = '\0';
   _ini->RecalcSize();
+  if(ferror(f)) // Saving an edit of a file we could not read completely would destroy the rest of it
+    DiscardINIEdit();
   fclose(f);
 }
 
@@ -113,6 +115,7 @@ INIsection::_NODE* INIstorage::GetEntryNode(const char *section, const char* key
 INIsection& INIstorage::AddSection(const char* name)
 {
   if(!_ini) _openINI();
+  if(!_ini) return *_addSection(name); // The file is not accessible
   _ini->reserve(_ini->size() + strlen(name) + 4);
   char c;
   size_t i;
@@ -165,6 +168,7 @@ INIsection* INIstorage::_addSection(const char* name)
 bool INIstorage::RemoveSection(const char* name, size_t instance)
 {
   if(!_ini) _openINI();
+  if(!_ini) return false; // The file is not accessible
   INICHUNK chunk = bssFindINISection(*_ini, _ini->size(), name, instance);
   khiter_t iter = _sections.Iterator(name);
 
@@ -205,6 +209,7 @@ bool INIstorage::RemoveSection(const char* name, size_t instance)
 char INIstorage::EditEntry(const char* section, const char* key, const char* nvalue, size_t keyinstance, size_t secinstance)
 {
   if(!_ini) _openINI();
+  if(!_ini) return -8; // The file is not accessible
   if(secinstance == (size_t)~0)
     secinstance = AddSection(section)._index;
 
-- 
2.43.0


From fa490bee27614ea65fe20971fdd08b49a4fc4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:47 +0000
Subject: [PATCH 014/157] fix: copying an INIstorage must build its own
 instance lists, not overwrite those of the source

---
 bss-util/INIsection.cpp | 5 ++---
 bss-util/INIstorage.cpp | 6 +++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index 3fd23a8..66afa35 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -61,11 +61,10 @@ void INIsection::_copy(const INIsection& copy)
     if(t->instances.Capacity()!=0) {
       _entries.Insert(p->val.GetKey(),p);
       p->instances.SetCapacity(c=t->instances.Capacity());
-      last=t;
-      --c;
+      last=p;
     } else if(c>0) {
       assert(last!=0);
-      last->instances[last->instances.Capacity()-(c--)-1]=p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity()-(c--)]=p; //This never goes negative because c never exceeds the capacity
     } else
       _entries.Insert(p->val.GetKey(),p);
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index b148a15..d0d95b3 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -365,6 +365,7 @@ void INIstorage::_copy(const INIstorage& copy)
     _NODE* p = _alloc.allocate(1);
     bssFill(*p, 0);
     new (&p->val) INIsection(t->val);
+    p->val._parent = this;
     if(!_root)
       _root = _last = p;
     else
@@ -374,13 +375,12 @@ void INIstorage::_copy(const INIstorage& copy)
     {
       _sections.Insert(p->val.GetName(), p);
       p->instances.SetCapacity(c = t->instances.Capacity());
-      last = t;
-      --c;
+      last = p;
     }
     else if(c > 0)
     {
       assert(last != 0);
-      last->instances[last->instances.Capacity() - (c--) - 1] = p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity() - (c--)] = p; //This never goes negative because c never exceeds the capacity
     }
     else
       _sections.Insert(p->val.GetName(), p);
-- 
2.43.0


From f475f559b64129341089bdc00d612842b86ab16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:47 +0000
Subject: [PATCH 015/157] fix: INIstorage move assignment must destroy its old
 sections, not the new ones

---
 bss-util/INIstorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index d0d95b3..8817168 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -408,6 +408,7 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   _path = std::move(mov._path);
   _filename = mov._filename;
   if(_ini != 0) delete _ini;
+  _destroy();
   _ini = mov._ini;
   _root = mov._root;
   _last = mov._last;
@@ -415,7 +416,6 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   mov._root = 0;
   mov._last = 0;
   _logger = mov._logger;
-  _destroy();
   _sections = std::move(mov._sections);
   return *this;
 }
-- 
2.43.0


From 64a55acf38e07da94a72b97d708a1edc139777c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:47 +0000
Subject: [PATCH 016/157] fix: removing the first of several equal INI sections
 or keys must not leave a dangling hash key

---
 bss-util/INIstorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 8817168..a591a68 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -184,8 +184,10 @@ bool INIstorage::RemoveSection(const char* name, size_t instance)
     if(!instance && secnode->instances.Capacity() > 0)
     {
       instance = 1;
+      _sections.RemoveIter(iter); // The hash refers to the name inside the node, which is about to be replaced
       secnode->val = std::move(secnode->next->val);
       secnode->val._index = 0;
+      _sections.Insert(secnode->val.GetName(), secnode);
       secnode = secnode->next;
     }
 
@@ -260,7 +262,9 @@ char INIstorage::EditEntry(const char* section, const char* key, const char* nva
     if(!keyinstance && entnode->instances.Capacity() > 0)
     {
       keyinstance = 1;
+      psec->_entries.RemoveIter(iter); // The hash refers to the key inside the node, which is about to be replaced
       entnode->val = std::move(entnode->next->val);
+      psec->_entries.Insert(entnode->val.GetKey(), entnode);
       entnode = entnode->next;
     }
 
-- 
2.43.0


From 2a7d649b1c91eb1bafe93c46b2aa034dde3104c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:47 +0000
Subject: [PATCH 017/157] fix: INIsection move assignment must destroy its old
 entries

---
 bss-util/INIsection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index 66afa35..ddb63f0 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -113,6 +113,7 @@ INIsection& INIsection::operator=(INIsection&& mov)
   _name=std::move(mov._name);
   _index=mov._index;
   _parent=mov._parent;
+  _destroy();
   _entries=std::move(mov._entries);
   _root=mov._root;
   _last=mov._last;
-- 
2.43.0


From e466b95a7303035379b46aae3d5477de0b308a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:09 +0000
Subject: [PATCH 018/157] fix: INI parser must not write past the buffer of an
 empty key or value

---
 bss-util/INIParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 24a85d9..13a583a 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,8 +60,8 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && (unsigned char)*inter < 33; --inter);
-  *(++inter) = '\0';
+  for(; inter > str && (unsigned char)inter[-1] < 33; --inter);
+  *inter = '\0';
   return str;
 }
 
-- 
2.43.0


From 2e492f1f238a6946c589711a1dd8bfffc72b9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:35 +0000
Subject: [PATCH 019/157] fix: RingAlloc lost an empty bucket that was replaced
 as the current bucket

---
 include/bss-util/RingAlloc.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/RingAlloc.h b/include/bss-util/RingAlloc.h
index e3b841e..0bd7888 100644
--- a/include/bss-util/RingAlloc.h
+++ b/include/bss-util/RingAlloc.h
@@ -69,11 +69,10 @@ namespace bss {
         {
           cur->lock.RUnlock();
 
-          if(!r) // If r was zero, it's theoretically possible for this bucket to get orphaned, so we send it into the _checkRecycle function
-            _checkRecycle(cur); // Even if someone else acquires the lock before this runs, either the allocation will succeed or this check will
-
           if(_lock.AttemptUpgrade())
           {
+            if(cur->lock.AttemptStrictLock()) // If the bucket is already empty, nobody will ever free anything in it again, so we have to recycle it ourselves or it would be orphaned.
+              _recycle(cur); // Nobody else can hold a temporary read lock on it here, because they would need a read lock on _lock.
             _cur.store(_genBucket(n), std::memory_order_release);
             _lock.Downgrade();
           }
-- 
2.43.0


From cfac446fc4c255f0fd73b08ce7971b9ef5195c3f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 020/157] fix: GetTimeZoneMinutes always returned 0 on POSIX

---
 bss-util/bss_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index bf41998..0c16428 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -173,9 +173,9 @@ long GetTimeZoneMinutes()
   time_t rawtime;
   TIME64(&rawtime);
   tm stm;
-  if(GMTIMEFUNC(&rawtime, &stm) != 0)
+  if(localtime_r(&rawtime, &stm) == 0) // gmtime always has an offset of 0
     return 0;
-  return stm.tm_gmtoff;
+  return stm.tm_gmtoff / 60; // tm_gmtoff is in seconds
 #endif
 }
 
-- 
2.43.0


From c8348d7b1aa709ed69fd326851d5e3bce55a866c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 021/157] fix: Logger::SetLevel cut off the existing levels and
 wrote outside the array for new ones

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 4b7e255..a8fb634 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -103,7 +103,7 @@ void Logger::SetNullFormat(const char* format)
 
 void Logger::SetLevel(uint8_t level, const char* str)
 {
-  if(_levels.Capacity() >= level)
+  if(_levels.Capacity() <= level)
     _levels.SetCapacity(level + 1);
   _levels[level] = str;
 }
-- 
2.43.0


From 06734f6c8d5973daa664bbc41a4543b140615bea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 022/157] fix: assigning to a Logger leaked its buffer, left
 redirected streams dangling and dropped levels and formats

---
 bss-util/Logger.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index a8fb634..743a397 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -141,6 +141,18 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 }
 Logger& Logger::operator=(Logger&& right)
 {
+  if(this == &right)
+    return *this;
+
+  ClearTargets(); // Let go of everything we own first, the same way the destructor does
+  for(size_t i = 0; i < _backup.size(); ++i)
+    _backup[i].first.rdbuf(_backup[i].second);
+  if(_split != 0) delete _split;
+
+  _levels = std::move(right._levels);
+  _maxlevel = right._maxlevel;
+  _format = right._format;
+  _nullformat = right._nullformat;
   _tz = GetTimeZoneMinutes();
   _files = std::move(right._files);
   _backup = std::move(right._backup);
-- 
2.43.0


From 1b97eca666009e29b7bcc4ec75a3b45918d4e83c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 023/157] fix: a stream assimilated twice was left pointing
 into the destroyed Logger

---
 bss-util/Logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 743a397..2309915 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -46,7 +46,7 @@ Logger::Logger(const wchar_t* logfile, std::ostream* log) : _levels(6), _split(n
 Logger::~Logger()
 {
   ClearTargets();
-  for(size_t i = 0; i < _backup.size(); ++i) //restore stream buffer backups so we don't blow up someone else's stream when destroying ourselves
+  for(size_t i = _backup.size(); i-- > 0;) //restore stream buffer backups so we don't blow up someone else's stream when destroying ourselves
     _backup[i].first.rdbuf(_backup[i].second);
   if(_split != 0) delete _split;
 }
@@ -145,7 +145,7 @@ Logger& Logger::operator=(Logger&& right)
     return *this;
 
   ClearTargets(); // Let go of everything we own first, the same way the destructor does
-  for(size_t i = 0; i < _backup.size(); ++i)
+  for(size_t i = _backup.size(); i-- > 0;)
     _backup[i].first.rdbuf(_backup[i].second);
   if(_split != 0) delete _split;
 
-- 
2.43.0


From cf553a66bde35dc8f987f173c226cd5082721336 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:03:51 +0000
Subject: [PATCH 024/157] fix: log entries combined the local time with the UTC
 date

---
 bss-util/Logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 2309915..f3e74f2 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -116,14 +116,14 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 {
   time_t rawtime;
   TIME64(&rawtime);
+  rawtime += timez * 60; // Shift to local time up front so the date rolls over together with the time
   tm stm;
   tm* ptm = &stm;
   if(GMTIMEFUNC(&rawtime, ptm) != 0)
     return false;
 
-  long m = ptm->tm_hour * 60 + ptm->tm_min + 1440 + timez; //+1440 ensures this is never negative because % does not properly respond to negative numbers.
-  long h = ((m / 60) % 24);
-  m %= 60;
+  long m = ptm->tm_min;
+  long h = ptm->tm_hour;
 
   char logchar = log.fill();
   std::streamsize logwidth = log.width();
-- 
2.43.0


From 5c89db11004550352cea9dd9e010f7984515b0dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 025/157] fix: StreamBufFunction reported only the last chunk
 of a transfer

---
 include/bss-util/stream.h | 52 ++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d37b299..1baa1ab 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -265,15 +265,21 @@ namespace bss {
     }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
     {
-      if(gptr() == egptr())
-        _onread();
-      std::streamsize r = egptr() - gptr();
-      if(r > n)
-        r = n;
-      if(r > 0)
-        MEMCPY(s, n, gptr(), r);
-      setg(eback(), gptr() + r, egptr());
-      return r;
+      std::streamsize total = 0;
+      while(total < n) // A short count means the end of the stream, so keep going until there really is nothing left
+      {
+        if(gptr() == egptr())
+          _onread();
+        std::streamsize r = egptr() - gptr();
+        if(r > n - total)
+          r = n - total;
+        if(r <= 0)
+          break;
+        MEMCPY(s + total, n - total, gptr(), r);
+        setg(eback(), gptr() + r, egptr());
+        total += r;
+      }
+      return total;
     }
     inline virtual int_type overflow(int_type ch) override
     {
@@ -292,19 +298,21 @@ namespace bss {
     }
     inline virtual std::streamsize xsputn(const char* s, std::streamsize n) override
     {
-      if(pptr() == epptr())
-        _onwrite();
-      std::streamsize r = epptr() - pptr();
-      if(r > n)
-        r = n;
-      if(r > 0)
-        MEMCPY(pptr(), r, s, r);
-      pbump(r);
-      n -= r;
-      s += r;
-      if(n)
-        return xsputn(s, n);
-      return r;
+      std::streamsize total = 0;
+      while(total < n) // The caller treats anything less than n as an error, so we have to count all chunks
+      {
+        if(pptr() == epptr())
+          _onwrite();
+        std::streamsize r = epptr() - pptr();
+        if(r > n - total)
+          r = n - total;
+        if(r <= 0)
+          break;
+        MEMCPY(pptr(), r, s + total, r);
+        pbump(r);
+        total += r;
+      }
+      return total;
     }
     virtual void _onwrite() = 0; // should read input from _in when appropriate.
     virtual void _onread() = 0; // should write output to _out when appropriate.
-- 
2.43.0


From a8d0720e205351524a1cdcd13a5e27c4fd99b3bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 026/157] fix: StreamBufDynArray reported only the last chunk
 of a write, which put the stream in a failed state

---
 include/bss-util/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 1baa1ab..7afa0d7 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -219,7 +219,7 @@ namespace bss {
       n -= r;
       s += r;
       if(n)
-        return xsputn(s, n);
+        return r + xsputn(s, n);
       return r;
     }
 
-- 
2.43.0


From 1f9a0e76c027ef6d36f464324bebf13efd2f25cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:07:38 +0000
Subject: [PATCH 027/157] fix: StreamBufDynArray lost single characters and its
 read position when the array grew

---
 include/bss-util/stream.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 7afa0d7..83e1a1c 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -152,6 +152,7 @@ namespace bss {
     inline virtual pos_type seekpos(pos_type sp_, std::ios_base::openmode which_) override { return seekoff(off_type(sp_), std::ios_base::beg, which_); }
     inline virtual pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode which_) override
     {	// change position by offset, according to way and mode
+      _fixlength();
       switch(way)
       {
       case std::ios_base::cur:
@@ -167,9 +168,11 @@ namespace bss {
 
       return gptr() - eback();
     }
-    inline virtual int_type underflow() override { return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
+    inline virtual int sync() override { _fixlength(); return 0; }
+    inline virtual int_type underflow() override { _fixlength(); return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
     {
+      _fixlength();
       std::streamsize r = egptr() - gptr();
       if(r > n)
         r = n;
@@ -179,16 +182,18 @@ namespace bss {
       return r;
     }
 
-    void _fixlength()
+    void _fixlength() // Single characters are put directly into the buffer without telling us, so this has to be called whenever the length matters
     {
-      _ref._length = (pptr() - eback()) / sizeof(T); // Only set length to the number of fully written indexes
+      _ref._length = (pptr() - reinterpret_cast<char*>(_ref.begin())) / sizeof(T); // Only set length to the number of fully written indexes
       setg(eback(), gptr(), reinterpret_cast<char*>(_ref.end())); // We cast back from end() because we might not have finished writing through all the bytes in T
     }
     void _expand(CType sz)
     {
-      ptrdiff_t goff = gptr() - eback();
+      _fixlength();
+      ptrdiff_t eoff = eback() - reinterpret_cast<char*>(_ref.begin());
+      ptrdiff_t goff = gptr() - reinterpret_cast<char*>(_ref.begin());
       _ref.SetCapacity(std::max<CType>(fbnext(_ref._length), (sz / sizeof(T)) + _ref._length + 1));
-      setg(reinterpret_cast<char*>(_ref.begin()), reinterpret_cast<char*>(_ref.begin() + goff), reinterpret_cast<char*>(_ref.end()));
+      setg(reinterpret_cast<char*>(_ref.begin()) + eoff, reinterpret_cast<char*>(_ref.begin()) + goff, reinterpret_cast<char*>(_ref.end()));
       setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
     }
     inline virtual int_type overflow(int_type ch) override
-- 
2.43.0


From 0a33e737ec9e11be7992accf34db3a1fbeced7a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:08:20 +0000
Subject: [PATCH 028/157] fix: array stream buffers could be seeked outside of
 their array

---
 include/bss-util/stream.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 83e1a1c..cfeec55 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -114,16 +114,18 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        _cur += off;
+        off += _cur - _begin;
         break;
       case std::ios_base::end:
-        _cur = _end + off;
+        off += _end - _begin;
         break;
-      case std::ios_base::beg:
-        _cur = _begin + off;
+      default:
         break;
       }
 
+      if(off < 0 || off > _end - _begin) // Refuse to leave the array
+        return pos_type(off_type(-1));
+      _cur = _begin + off;
       return _cur - _begin;
     }
 
@@ -156,16 +158,18 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        setg(eback(), gptr() + off, egptr());
+        off += gptr() - eback();
         break;
       case std::ios_base::end:
-        setg(eback(), egptr() + off, egptr());
+        off += egptr() - eback();
         break;
-      case std::ios_base::beg:
-        setg(eback(), eback() + off, egptr());
+      default:
         break;
       }
 
+      if(off < 0 || off > egptr() - eback()) // Refuse to leave the array
+        return pos_type(off_type(-1));
+      setg(eback(), eback() + off, egptr());
       return gptr() - eback();
     }
     inline virtual int sync() override { _fixlength(); return 0; }
-- 
2.43.0


From 87d180845a5271255bd52371665d63c32b45c2f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:08:20 +0000
Subject: [PATCH 029/157] fix: StreamBufArray refused to put back bytes above
 127

---
 include/bss-util/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index cfeec55..5bb6ad2 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -93,7 +93,7 @@ namespace bss {
     inline virtual int_type underflow() override { return (_cur == _end) ? traits_type::eof() : traits_type::to_int_type(*_cur); }
     inline virtual int_type pbackfail(int_type ch) override
     {
-      if(_cur == _begin || (ch != traits_type::eof() && ch != _cur[-1]))
+      if(_cur == _begin || (ch != traits_type::eof() && ch != traits_type::to_int_type(_cur[-1])))
         return traits_type::eof();
       return traits_type::to_int_type(*--_cur);
     }
-- 
2.43.0


From dbdd1ed317d10df19504c7ecb170108979f3b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:52 +0000
Subject: [PATCH 030/157] fix: BitStream::Read mixed the old contents of the
 destination into the bits it read

---
 include/bss-util/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 0385f31..1356f9a 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -64,7 +64,7 @@ namespace bss {
       if(!i)
         return;
 
-      d[k] |= (_base->peek() >> _roffset);
+      d[k] = (_base->peek() >> _roffset); // Whatever was in the destination before must not leak into the result
 
       if((_roffset + i) >= 8) // We ran over our current character
       {
-- 
2.43.0


From 795f216eb6494a93af7f13c1c0fa413db0af9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 031/157] fix: BitStream wrote the last byte again after an
 explicit Flush

---
 include/bss-util/BitStream.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 1356f9a..8a4e1b3 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -78,7 +78,13 @@ namespace bss {
     }
     template<typename T>
     void Read(T& dest) { Read(&dest, std::conditional<std::is_same<T, bool>::value, std::integral_constant<int, 1>, std::integral_constant<int, (sizeof(T) << 3)>>::type::value); }
-    void Flush() { if(_woffset) _flush(_base, _buf); }
+    void Flush()
+    {
+      if(_woffset)
+        _flush(_base, _buf);
+      _woffset = 0; // The unfinished byte has been written, so it must not be written again
+      _buf = 0;
+    }
 
     BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
     BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
-- 
2.43.0


From e50cbe8a79aed8b80bf5af05820fc3e213e05804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 032/157] fix: BitStream::Read hit the end of the stream when
 it read exactly the last byte

---
 include/bss-util/BitStream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 8a4e1b3..c6e17ab 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -58,7 +58,9 @@ namespace bss {
       {
         d[k] = (_base->peek() >> _roffset);
         _base->get(*((char*)&b));
-        d[k++] |= (_base->peek() << (8 - _roffset));
+        if(_roffset) // Looking at the next character when we do not need it would hit the end of the stream too early
+          d[k] |= (_base->peek() << (8 - _roffset));
+        ++k;
       }
 
       if(!i)
-- 
2.43.0


From ad6fc7b613332b86dbede4d1102161bd3527b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 033/157] fix: move assignment of a BitStream dropped the
 unfinished byte of both streams

---
 include/bss-util/BitStream.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index c6e17ab..c159e5d 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -89,7 +89,19 @@ namespace bss {
     }
 
     BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
-    BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
+    BitStream& operator=(BitStream&& mov)
+    {
+      if(this == &mov)
+        return *this;
+      if(_base)
+        Flush();
+      _base = mov._base;
+      _roffset = mov._roffset;
+      _woffset = mov._woffset;
+      _buf = mov._buf;
+      mov._base = 0;
+      return *this;
+    }
     template<typename T>
     BitStream& operator<<(const T& v) { Write<T>(v); return *this; }
     template<typename T>
-- 
2.43.0


From 3eaa1d524c5ecaf990f7f119eb52351343b86807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:10 +0000
Subject: [PATCH 034/157] fix: deserializing a string from a stream that ended
 used an uninitialized length

---
 include/bss-util/BitStream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index c159e5d..1379b68 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -147,8 +147,10 @@ namespace bss {
   template<>
   void bssDeserialize<std::string>(std::string& d, std::istream& s)
   {
-    size_t len;
+    size_t len = 0;
     bssDeserialize(len, s);
+    if(!s) // Without a complete length there is nothing to read
+      len = 0;
     d.resize(len);
     s.read(d.data(), len);
   }
-- 
2.43.0


From 353d6f8711cc2954556d8301d739ee2734188cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:52 +0000
Subject: [PATCH 035/157] fix: JSON: write empty values as null instead of
 dropping them from arrays and objects

---
 include/bss-util/JSON.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 1cb213b..f05252d 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -425,6 +425,11 @@ namespace bss {
     case JSONValue::Type<JSONValue::JSONObject>::value:
       Serializer<JSONEngine>::template ActionBind<JSONValue::JSONObject>::Serialize(e, obj.get<JSONValue::JSONObject>(), id);
       break;
+    default: // An empty value is a null, it can't simply be left out
+      JSONEngine::WriteJSONComma(s, e.engine.pretty);
+      JSONEngine::WriteJSONId(id, s, e.engine.pretty);
+      s << "null";
+      break;
     }
   }
   template<typename T>
-- 
2.43.0


From f94ed45fe38bcd104a0c4e7ec4c6375b4b61ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:52 +0000
Subject: [PATCH 036/157] fix: JSON: numbers with an exponent or outside of the
 int64 range were cut off

---
 include/bss-util/JSON.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index f05252d..b974447 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -13,6 +13,7 @@
 #include <istream>
 #include <ostream>
 #include <utility>
+#include <cerrno>
 
 namespace bss {
   class JSONEngine
@@ -272,12 +273,13 @@ namespace bss {
     {
       Str buf;
       ParseJSONBase<Str>(e, buf, s);
-      const char* dot = strchr(buf.c_str(), '.');
+      errno = 0;
+      int64_t integer = strtoll(buf.c_str(), 0, 10);
 
-      if(dot)
+      if(strpbrk(buf.c_str(), ".eE") || errno == ERANGE) // An integer that doesn't fit is kept as a double
         target = (double)strtod(buf.c_str(), 0);
       else
-        target = (int64_t)strtoll(buf.c_str(), 0, 10);
+        target = integer;
     }
     break;
     default:
-- 
2.43.0


From ff54947ec613fa0847613207c28785d5974f7c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:52 +0000
Subject: [PATCH 037/157] fix: JSON: whitespace after true, false and null
 turned them into strings

---
 include/bss-util/JSON.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index b974447..4f7e272 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -228,6 +228,8 @@ namespace bss {
       target += c;
       while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != ']' && s.peek() != -1)
         target += s.get();
+      while(target.size() > 0 && isspace((unsigned char)target.back())) // whitespace after the value isn't part of it
+        target.pop_back();
       return;
     }
 
-- 
2.43.0


From 5b93c441f9da7a3be293d606e5eb0cdbae0eec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:11 +0000
Subject: [PATCH 038/157] fix: JSON: a number given as a string swallowed the
 separator and with it the next member

---
 include/bss-util/JSON.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 4f7e272..acd778b 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -338,8 +338,7 @@ namespace bss {
     {
       s.get();
       s >> obj; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string, including the " character
     }
     else
       s >> obj;
-- 
2.43.0


From de1d1eecfed6104c06766ba968826735dc762c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:42 +0000
Subject: [PATCH 039/157] fix: JSON: an unknown member or excess element with
 nested or quoted separators was taken for more members

---
 include/bss-util/JSON.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index acd778b..f5efdcc 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -102,6 +102,26 @@ namespace bss {
         break;
       }
     }
+    static inline void ParseJSONSkipValue(std::istream& s, int end) // eats whatever is left of a value, up to a , character or the given end character
+    {
+      size_t depth = 0;
+      for(int c = s.peek(); !!s && c != -1 && (depth > 0 || (c != ',' && c != end)); c = s.peek())
+      {
+        s.get();
+        if(c == '{' || c == '[')
+          ++depth;
+        else if((c == '}' || c == ']') && depth > 0)
+          --depth;
+        else if(c == '"')
+        {
+          while(!!s && (c = s.get()) != '"' && c != -1)
+          {
+            if(c == '\\')
+              s.get();
+          }
+        }
+      }
+    }
     template<typename F>
     static inline void ParseJSONObject(Serializer<JSONEngine>& e, F f);
 
@@ -193,8 +213,7 @@ namespace bss {
       ParseJSONEatWhitespace(s);
       f(e, buf.c_str());
 
-      while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) // eat everything up to a , or } character
-        s.get();
+      ParseJSONSkipValue(s, '}'); // eat everything up to a , or } character
       if(!!s && s.peek() == ',') // Only eat comma if it's there.
         s.get();
 
@@ -318,8 +337,7 @@ namespace bss {
     while(!!s && s.peek() != ']' && s.peek() != -1)
     {
       Add(e, obj, n);
-      while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) // eat everything up to a , or ] character
-        s.get();
+      ParseJSONSkipValue(s, ']'); // eat everything up to a , or ] character
       if(!!s && s.peek() == ',' && s.peek() != -1) // Only eat comma if it's there.
         s.get();
       ParseJSONEatWhitespace(s);
-- 
2.43.0


From a423d6e808de006b1a3a050120ecf2327f886085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:42 +0000
Subject: [PATCH 040/157] fix: JSON: member names were written without escaping

---
 include/bss-util/JSON.h | 46 +++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index f5efdcc..15ece58 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -133,6 +133,29 @@ namespace bss {
         s << '\t';
     }
 
+    static inline void WriteJSONString(const char* str, size_t length, std::ostream& s)
+    {
+      s << '"';
+
+      for(size_t i = 0; i < length; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '/': s << "\\/"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default: s << str[i]; break;
+        }
+      }
+
+      s << '"';
+    }
+
     static inline void WriteJSONId(const char* id, std::ostream& s, size_t pretty)
     {
       if(id)
@@ -143,7 +166,8 @@ namespace bss {
           WriteJSONTabs(s, pretty);
         }
 
-        s << '"' << id << '"' << ": ";
+        WriteJSONString(id, strlen(id), s);
+        s << ": ";
       }
     }
 
@@ -401,25 +425,7 @@ namespace bss {
   {
     JSONEngine::WriteJSONComma(s, e.engine.pretty);
     JSONEngine::WriteJSONId(id, s, e.engine.pretty);
-    s << '"';
-
-    for(size_t i = 0; i < obj.size(); ++i)
-    {
-      switch(obj[i])
-      {
-      case '"': s << "\\\""; break;
-      case '\\': s << "\\\\"; break;
-      case '/': s << "\\/"; break;
-      case '\b': s << "\\b"; break;
-      case '\f': s << "\\f"; break;
-      case '\n': s << "\\n"; break;
-      case '\r': s << "\\r"; break;
-      case '\t': s << "\\t"; break;
-      default: s << obj[i]; break;
-      }
-    }
-
-    s << '"';
+    JSONEngine::WriteJSONString(obj.data(), obj.size(), s);
   }
 
   template<>
-- 
2.43.0


From ae57d0279b4ba1f67fc4acd299a8c7305e034b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:42 +0000
Subject: [PATCH 041/157] fix: JSON: one byte integers were written and read as
 raw characters

---
 include/bss-util/JSON.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 15ece58..9b298c4 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -44,6 +44,18 @@ namespace bss {
     static void ParseArray(Serializer<JSONEngine>& e, T& obj, const char* id);
     template<typename T>
     static void ParseNumber(Serializer<JSONEngine>& e, T& obj, const char* id);
+    template<typename T>
+    static void ReadJSONNumber(std::istream& s, T& obj)
+    {
+      if constexpr(sizeof(T) == 1) // a one byte integer is a number, not a character
+      {
+        int num = obj;
+        s >> num;
+        obj = (T)num;
+      }
+      else
+        s >> obj;
+    }
     static void ParseBool(Serializer<JSONEngine>& e, bool& target, const char* id)
     {
       std::istream& s = *e.in;
@@ -379,11 +391,11 @@ namespace bss {
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
-      s >> obj; // grab whatever we can
+      ReadJSONNumber(s, obj); // grab whatever we can
       while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string, including the " character
     }
     else
-      s >> obj;
+      ReadJSONNumber(s, obj);
   }
 
   template<class T>
@@ -494,7 +506,10 @@ namespace bss {
   {
     WriteJSONComma(*e.out, e.engine.pretty);
     WriteJSONId(id, *e.out, e.engine.pretty);
-    (*e.out) << obj;
+    if constexpr(sizeof(T) == 1)
+      (*e.out) << int(obj); // a one byte integer is a number, not a character
+    else
+      (*e.out) << obj;
   }
 
   template<typename T>
-- 
2.43.0


From 021c38c124a178b6b3db6a22e5d20cea03569f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:12 +0000
Subject: [PATCH 042/157] fix: JSON: a document that ends early added
 characters that were never in it

---
 include/bss-util/JSON.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 9b298c4..d3d59f4 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -109,6 +109,9 @@ namespace bss {
         for(int i = 0; i < 4; ++i)
           buf[i] = src.get();
 
+        if(!src) // cut off in the middle of the escape
+          break;
+
         buf[4] = 0;
         OutputUnicode(str, strtoul(buf, 0, 16));
         break;
@@ -274,7 +277,7 @@ namespace bss {
   {
     target.clear();
 
-    if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}')
+    if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}' || s.peek() == -1)
       return;
 
     char c = s.get();
-- 
2.43.0


From e0f21d85ae2080d6f7e91cf60dd08ce5ba4d60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:54 +0000
Subject: [PATCH 043/157] fix: JSON: surrogate pair escapes were turned into
 two invalid characters

---
 include/bss-util/JSON.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index d3d59f4..898906e 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -113,7 +113,14 @@ namespace bss {
           break;
 
         buf[4] = 0;
-        OutputUnicode(str, strtoul(buf, 0, 16));
+        int code = (int)strtoul(buf, 0, 16);
+        size_t n = str.size();
+        if((code & 0xFC00) == 0xDC00 && n >= 3 && (str[n - 3] & 0xFF) == 0xED && (str[n - 2] & 0xF0) == 0xA0) // second half of a surrogate pair
+        {
+          code = 0x10000 + ((((str[n - 2] & 0x0F) << 6) | (str[n - 1] & 0x3F)) << 10) + (code & 0x3FF);
+          str.resize(n - 3);
+        }
+        OutputUnicode(str, code);
         break;
       }
     }
-- 
2.43.0


From 6dc53cb00ead70bf755a3e8a03970fbb81b1151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:18 +0000
Subject: [PATCH 044/157] fix: XML: attribute values with markup characters did
 not survive writing and reading

---
 bss-util/XML.cpp       | 41 +++++++++++++++++++++++------------------
 include/bss-util/XML.h |  2 +-
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 9b74a09..bc189ec 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -291,7 +291,19 @@ void XMLNode::_parseAttribute(Str& buf)
     if(_match(ss, v.Name, "*="))
     {
       v.Name = v.Name.Trim();
-      if(!_match(ss, v.String, "\"*\"")) // If we can't get a valid string just eat everything until the next space.
+      Str raw;
+      if(_match(ss, raw, "\"*\""))
+      {
+        std::istringstream rs(raw);
+        while(rs.peek() != -1 && rs)
+        {
+          if(rs.peek() == '&')
+            _parseEntity(rs, v.String);
+          else
+            v.String += rs.get();
+        }
+      }
+      else // If we can't get a valid string just eat everything until the next space.
       {
         while(ss.peek() != -1 && ss && !isspace(ss.peek())) 
           v.String += ss.get();
@@ -350,31 +362,24 @@ void XMLNode::_writeAttribute(std::ostream& stream) const
   for(size_t i = 0; i < _attributes.Length(); ++i)
   {
     stream << ' ' << _attributes[i].Name << "=\"";
-    _writeString(stream, _attributes[i].String, true);
+    _writeString(stream, _attributes[i].String);
     stream.put('"');
   }
 }
 
-void XMLNode::_writeString(std::ostream& stream, const char* s, bool attribute)
+void XMLNode::_writeString(std::ostream& stream, const char* s)
 {
   while(*s)
   {
-    if(!attribute)
+    switch(*s)
     {
-      switch(*s)
-      {
-      case '<': stream << "&lt;"; break;
-      case '>': stream << "&gt;"; break;
-      case '&': stream << "&amp;"; break;
-      case '\'': stream << "&apos;"; break;
-      case '"': stream << "&quot;"; break;
-      default: stream.put(*s); break;
-      }
+    case '<': stream << "&lt;"; break;
+    case '>': stream << "&gt;"; break;
+    case '&': stream << "&amp;"; break;
+    case '\'': stream << "&apos;"; break;
+    case '"': stream << "&quot;"; break;
+    default: stream.put(*s); break;
     }
-    else if(*s == '"')
-      stream << "&quot;";
-    else
-      stream.put(*s);
 
     ++s;
   }
@@ -399,7 +404,7 @@ void XMLNode::_write(std::ostream& stream, bool pretty, int depth) const
   }
 
   stream.put('>');
-  if(content) _writeString(stream, _value.String, false);
+  if(content) _writeString(stream, _value.String);
 
   for(size_t i = 0; i < _nodes.Length(); ++i)
     _nodes[i]->_write(stream, pretty, depth + 1);
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 2dcaf69..ab6136b 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -101,7 +101,7 @@ namespace bss {
     static bool _match(std::istream& stream, Str& out, const char* pattern, bool reset = false);
     static void _parseEntity(std::istream& stream, Str& target);
     static void _evalValue(XMLValue& val);
-    static void _writeString(std::ostream& stream, const char* s, bool attribute);
+    static void _writeString(std::ostream& stream, const char* s);
 
     friend class XMLFile;
 
-- 
2.43.0


From 3a461b9557a43e15bab4851a20aeb82814a6275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:32 +0000
Subject: [PATCH 045/157] fix: XML: a stream that fails inside of a tag added a
 character that was never in it

---
 bss-util/XML.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index bc189ec..243f898 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -265,7 +265,9 @@ void XMLNode::_parseInner(std::istream& stream, Str& buf)
         continue; // only continue if we successfully parsed SOMETHING. 
       } // Otherwise, the < was malformed, so we just add it as a character.
     }
-    _value.String += stream.get();
+    int c = stream.get();
+    if(c != -1) // The stream can fail while we were looking for the end of a tag
+      _value.String += c;
   }
   _evalValue(_value);
 }
@@ -332,7 +334,12 @@ void XMLNode::_parseEntity(std::istream& stream, Str& target)
   else if(_match(stream, buf, "&quot;")) target += '"';
   else if(_match(stream, buf, "&#x*;")) OutputUnicode(target, strtol(buf, &c, 16));
   else if(_match(stream, buf, "&#*;")) OutputUnicode(target, strtol(buf, &c, 10));
-  else target += stream.get();
+  else
+  {
+    int ch = stream.get();
+    if(ch != -1)
+      target += ch;
+  }
 }
 
 void XMLNode::_evalValue(XMLValue& val)
-- 
2.43.0


From 4d62f9a511a8202634613c63a108464e6756bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:45 +0000
Subject: [PATCH 046/157] fix: XML: floating point numbers were cut to six
 digits

---
 include/bss-util/XML.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index ab6136b..3373421 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -196,7 +196,10 @@ namespace bss {
       std::ostringstream ss(std::ios_base::out);
 
       if constexpr(std::is_floating_point<T>::value)
+      {
+        ss.precision(std::numeric_limits<T>::max_digits10); // enough digits to get the same value back
         ss << static_cast<double>(t);
+      }
       else
         ss << static_cast<int64_t>(t);
       v->String = ss.str();
-- 
2.43.0


From e2b57094692c5a3a9cfd23e834d22471c2fb964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:56 +0000
Subject: [PATCH 047/157] fix: trimming a string cut off trailing UTF-8
 characters

---
 include/bss-util/Str.h      | 2 +-
 include/bss-util/bss_util.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index a235ec3..84d8467 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -308,7 +308,7 @@ namespace bss {
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && *inter < 33; --inter); *(++inter) = 0; return str; }
+    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && static_cast<typename std::make_unsigned<T>::type>(*inter) < 33; --inter); *(++inter) = 0; return str; }
 
   };
 #pragma warning(pop)
diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2fda1b3..11d08b8 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -209,7 +209,7 @@ namespace bss {
     static_assert(std::is_integral<T>::value, "T must be integral");
     T* inter = str + strlen(str);
 
-    for(; inter > str && *inter < 33; --inter);
+    for(; inter > str && static_cast<std::make_unsigned_t<T>>(*inter) < 33; --inter);
     *(++inter) = '\0';
     return str;
   }
-- 
2.43.0


From 87ac73848745effa0c614057a3afcf6b0a873fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:35 +0000
Subject: [PATCH 048/157] fix: Animation::Set names the track it sets

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index f2a50f1..dea98b5 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -504,7 +504,7 @@ namespace bss {
     inline void Set(const typename T::FRAME* src, size_t len)
     {
       static_assert(std::disjunction<std::is_same<T, Args>...>::value, "T is not in this Animation type!");
-      std::get<T>().Set(src, len);
+      std::get<T>(*this).Set(src, len);
       _calc = _calclength(std::index_sequence_for<Args...>{});
     }
 
-- 
2.43.0


From 2121c3b34af4795a879fa2798d6d188c9456e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 049/157] fix: an animation interval ends when its length has
 passed since it began

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index dea98b5..79e885c 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -242,7 +242,7 @@ namespace bss {
     }
 
   protected:
-    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.data, (dest->*FN)(v.value)); }
+    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.time + v.data, (dest->*FN)(v.value)); }
 
     void _clearQueue(T* dest)
     {
-- 
2.43.0


From 555f99b54e76233becce6a000c08e4e93c18a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 050/157] fix: an animation ends the interval that ends first,
 not the one that ends last

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index 79e885c..f4ccbd1 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -250,7 +250,7 @@ namespace bss {
         (dest->*REMOVE)(_queue.Pop().second);
     }
 
-    PriorityQueue<double, AUX, CompT<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
+    PriorityQueue<double, AUX, CompTInv<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
     size_t _cur;
   };
 
-- 
2.43.0


From 9d03933bdec46b7a71abfedc3f6bf11e7a59ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 051/157] fix: AniDataInterval built from frames knows where it
 ends

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index f4ccbd1..8a8fe49 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -355,7 +355,7 @@ namespace bss {
     AniDataInterval() : _end(0.0) {}
     AniDataInterval(AniDataInterval&& mov) : BASE(std::move(mov)), _end(mov._end) { mov._end = 0.0f; }
     AniDataInterval(const AniDataInterval& copy) : BASE(copy), _end(copy._end) {}
-    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) {}
+    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) { _recalcLength(); }
     BSS_FORCEINLINE double End() const { return _end; }
     BSS_FORCEINLINE Slice<const FRAME> Frames() const { return _frames.GetSlice(); }
     BSS_FORCEINLINE size_t Add(const FRAME& frame)
-- 
2.43.0


From 5e098490fb9ba93a1a286b7f2f9d7e1083f6f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:07 +0000
Subject: [PATCH 052/157] fix: the profiler keeps zones apart whose ids share
 digits with a nested zone

---
 bss-util/profiler.cpp       | 4 ++--
 include/bss-util/Profiler.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 45766ba..c8876ef 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -119,7 +119,7 @@ void Profiler::_treeOut(std::ostream& stream, PROF_TRIENODE* node, ProfilerInt i
     idlevel = 0;
   }
   for(ProfilerInt i = 0; i < 16; ++i)
-    _treeOut(stream, node->_children[i], id | (i << (4 * idlevel)), level + !id, idlevel + 1);
+    _treeOut(stream, node->_children[i], id | (i << (4 * idlevel)), level + !idlevel, idlevel + 1);
 }
 void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id, ProfilerInt idlevel)
 {
@@ -132,7 +132,7 @@ void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id
     idlevel = 0;
 
     for(ProfilerInt i = 0; i < 16; ++i)
-      _heatOut(nheat, node->_children[i], id | (i << (4 * idlevel)), 0);
+      _heatOut(nheat, node->_children[i], id | (i << (4 * idlevel)), idlevel + 1);
 
     double t = 0.0; // Create the [code] node
     for(ProfilerInt i = 0; i < nheat._children.Length(); ++i)
diff --git a/include/bss-util/Profiler.h b/include/bss-util/Profiler.h
index 875cad0..68847ef 100644
--- a/include/bss-util/Profiler.h
+++ b/include/bss-util/Profiler.h
@@ -62,7 +62,7 @@ namespace bss {
     {
       PROF_TRIENODE** r = &_cur;
 
-      while(id > 0)
+      for(size_t i = 0; i < sizeof(ProfilerInt) * 2; ++i) // Every id takes the same number of steps, otherwise a longer id could be mistaken for one zone inside of another
       {
         r = &(*r)->_children[id % 16];
         id = (id >> 4);
-- 
2.43.0


From d5f4810c1b1c15db705a83a2385dd726028c82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:07 +0000
Subject: [PATCH 053/157] fix: the flat profile names the zone each time
 belongs to

---
 bss-util/profiler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index c8876ef..d5d0882 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -41,6 +41,7 @@ namespace bss {
       double avg;
       double var;
       uint64_t total;
+      Profiler::ProfilerInt id;
     };
   }
 }
@@ -87,10 +88,13 @@ void Profiler::WriteToStream(std::ostream& stream, uint8_t output)
     PROF_FLATOUT* avg = (PROF_FLATOUT*)calloc(_data.Capacity(), sizeof(PROF_FLATOUT));
     if(!avg) return;
     _flatOut(avg, _trie, 0, 0);
+    for(ProfilerInt i = 1; i < _data.Capacity(); ++i)
+      avg[i].id = i;
     std::sort(avg + 1, avg + _data.Capacity(), [](const PROF_FLATOUT& l, const PROF_FLATOUT& r) -> bool { return l.avg > r.avg; });
     for(ProfilerInt i = 1; i < _data.Capacity(); ++i)
     {
-      stream << '[' << _trimPath(_data[i]->file) << ':' << _data[i]->line << "] " << _data[i]->name << ": ";
+      const ProfilerData* data = _data[avg[i].id];
+      stream << '[' << _trimPath(data->file) << ':' << data->line << "] " << data->name << ": ";
       _timeFormat(stream, avg[i].avg, avg[i].var, avg[i].total);
       stream << std::endl;
     }
-- 
2.43.0


From 38f68fad8f2fe2c79264b63432675b4ed1496015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:07 +0000
Subject: [PATCH 054/157] fix: the profiler writes the unit of microseconds
 instead of a pointer

---
 bss-util/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index d5d0882..f0be95b 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -228,7 +228,7 @@ void Profiler::_timeFormat(std::ostream& stream, double avg, double variance, ui
   else if(avg >= 1000000000.0)
     stream << (avg / 1000000.0) << " ms";
   else if(avg >= 1000000.0)
-    stream << (avg / 1000.0) << L" \x039Cs";
+    stream << (avg / 1000.0) << " \xCE\x9Cs";
   else
     stream << avg << " ns";
 }
-- 
2.43.0


From 98bfe9f8ea128cf1f9b3e3e91470510933243d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:28 +0000
Subject: [PATCH 055/157] fix: the profiler's heat map ends if no time was
 measured

---
 bss-util/profiler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index f0be95b..372496f 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -173,9 +173,13 @@ void Profiler::_heatWrite(std::ostream& stream, PROF_HEATNODE& node, size_t leve
     double mag1 = pow(max, 1.0 / 4.0);
     double mag2 = pow(max, 2.0 / 4.0);
     double mag3 = pow(max, 3.0 / 4.0);
-    size_t num = fFastTruncate(std::min(node.avg / mag1, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag2, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    size_t num = 0;
+    if(max > 0.0) // If no time was measured at all there is nothing to compare with
+    {
+      num = fFastTruncate(std::min(node.avg / mag1, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag2, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    }
     char bar[BARLENGTH + 1] = {};
     bssFillN<char>(bar, BARLENGTH, ' ');
     for(size_t i = 0; i < num; ++i)
-- 
2.43.0


From 4e008c007c1cae76228f37b92305c27779275212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:54 +0000
Subject: [PATCH 056/157] fix: seeding a xorshift engine with 0 made it return
 0 forever

---
 include/bss-util/XorshiftEngine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/XorshiftEngine.h b/include/bss-util/XorshiftEngine.h
index d1460eb..17fe167 100644
--- a/include/bss-util/XorshiftEngine.h
+++ b/include/bss-util/XorshiftEngine.h
@@ -33,6 +33,7 @@ namespace bss {
   // Generates a seed for xorshift1024star from a 64-bit value
   inline void GenXor1024Seed(uint64_t x, uint64_t(&seed)[17])
   {
+    if(!x) x = UINT64_C(0x9E3779B97F4A7C15); // xorshift never leaves a state of 0, so a seed of 0 would only ever generate 0
     xorshift64star(x);
     for(uint8_t i = 0; i < 16; ++i)
       seed[i] = xorshift64star(x);
-- 
2.43.0


From f8efeefa2ba5e3166fd4fd3b1e069936793d6ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:54 +0000
Subject: [PATCH 057/157] fix: bssrand could return the excluded end of a
 floating point range

---
 include/bss-util/algo.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index ecafb3f..d16f548 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -121,7 +121,13 @@ namespace bss {
   template<typename T, typename ENGINE = XorshiftEngine<uint64_t>>
   inline T bssrand(T min, T max, ENGINE& e = bss_getdefaultengine())
   {
-    return min + static_cast<T>(bssGenCanonical<double, ENGINE>(e)*static_cast<double>(max - min));
+    T r = min + static_cast<T>(bssGenCanonical<double, ENGINE>(e)*static_cast<double>(max - min));
+    if constexpr(std::is_floating_point<T>::value)
+    {
+      if(r >= max) // rounding can reach the excluded end of the range
+        r = std::nextafter(max, min);
+    }
+    return r;
   }
   inline double bssRandReal(double min, double max) { return bssrand<double>(min, max); }
   inline int64_t bssRandInt(int64_t min, int64_t max) { return bssrand<int64_t>(min, max); }
-- 
2.43.0


From 684f73bd196a500ae2f5f8e2ef9e3ac060dfc984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:37 +0000
Subject: [PATCH 058/157] fix: RandomQueue never destroyed items that were
 removed, popped or cleared

---
 include/bss-util/RandomQueue.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 200e692..c9d4f5e 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -35,9 +35,14 @@ namespace bss {
       return r;
     }
     BSS_FORCEINLINE T Pop() { return Pop(bss_getdefaultengine()); }
-    inline void Remove(CT index) { _array[index] = std::move(_array[--_length]); }
+    inline void Remove(CT index)
+    {
+      if(index != _length - 1)
+        _array[index] = std::move(_array[_length - 1]);
+      BASE::RemoveLast(); // destroys the emptied item
+    }
     inline bool Empty() const { return !_length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     BSS_FORCEINLINE void SetLength(CT length) { BASE::SetLength(length); }
     inline CT Length() const { return _length; }
     inline const T* begin() const { return _array; }
-- 
2.43.0


From 57d03075236fe524d98accbcca3fdb6aec1e77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:28 +0000
Subject: [PATCH 059/157] fix: copying an AliasTable copied only part of the
 probabilities, or did not compile

---
 include/bss-util/AliasTable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index a8a088a..479ec22 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -15,8 +15,8 @@ namespace bss {
     AliasTable(const AliasTable& copy) : _alias(new UINT[copy._count]), _prob(new F[copy._count]), _count(copy._count),
       _dist(copy._dist), _fdist(copy._fdist)
     {
-      memcpy(_alias, copy._alias, sizeof(UINT)*copy._count);
-      memcpy(_prob, copy._prob, sizeof(UINT)*copy._count);
+      memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
     }
     AliasTable(AliasTable&& mov) : _prob(std::move(mov._prob)), _alias(std::move(mov._alias)),
       _dist(std::move(mov._dist)), _fdist(std::move(mov._fdist)), _count(mov._count)
@@ -113,7 +113,7 @@ namespace bss {
       _alias.reset(new UINT[copy._count]);
       _prob.reset(new F[copy._count]);
       memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
-      memcpy(_prob.get(), copy._prob.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
       return *this;
     }
     inline AliasTable& operator=(AliasTable&& mov)
-- 
2.43.0


From 2346f2e3ee3adf80182c798bdc314515442047ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:36 +0000
Subject: [PATCH 060/157] fix: PoissonDiskSample looked at the wrong grid cells
 for doubles and never ended

---
 include/bss-util/RandomQueue.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index c9d4f5e..eece6ca 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -83,6 +83,7 @@ namespace bss {
     size_t gh = ((size_t)ceil(h / cell)) + 4;
     VARARRAY(GRID, grid, (gw*gh));    //grid height
     uint64_t* ig = reinterpret_cast<uint64_t*>((GRID*)grid);
+    static constexpr size_t STEP = sizeof(GRID) / sizeof(uint64_t); // a point made of doubles takes up two integers
     bssFillN<GRID>(grid, gw*gh, 0xFF);
     assert(!(~ig[0]));
 
@@ -114,20 +115,20 @@ namespace bss {
           center = internal::_PDS_imageToGrid<T>(pt, cell, gw, rect); // If another point is in the neighborhood, abort this point.
           edge = center - gw - gw;
           assert(edge > 0);
-#define POISSONSAMPLE_CHECK(edge) if((~ig[edge])!=0 && DistSqr(grid[edge][0],grid[edge][1],pt[0],pt[1])<mindistsq) continue
+#define POISSONSAMPLE_CHECK(edge) if((~ig[(edge) * STEP])!=0 && DistSqr(grid[edge][0],grid[edge][1],pt[0],pt[1])<mindistsq) continue
           POISSONSAMPLE_CHECK(edge - 1);
           POISSONSAMPLE_CHECK(edge);
           POISSONSAMPLE_CHECK(edge + 1);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(~(ig[(edge - 1) * STEP] & ig[edge * STEP] & ig[(edge + 1) * STEP])) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(~(ig[(edge - 1) * STEP] & ig[edge * STEP] & ig[(edge + 1) * STEP])) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(~(ig[(edge - 1) * STEP] & ig[edge * STEP] & ig[(edge + 1) * STEP])) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-- 
2.43.0


From 5d13aeff7dfbe9c9c4a90150054eeeef892cf5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:22 +0000
Subject: [PATCH 061/157] fix: copying an XML node with attributes or children

---
 bss-util/XML.cpp       | 8 ++++++--
 include/bss-util/XML.h | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 243f898..f03c546 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -55,11 +55,12 @@ void XMLFile::Write(std::ostream& stream, bool pretty) const
     _nodes[i]->_write(stream, pretty, 0);
 }
 
-XMLNode::XMLNode(const XMLNode& copy) : _nodes(copy._nodes), _nodehash(copy._nodehash), _attributes(copy._attributes), _attrhash(copy._attrhash),
-  _value(copy._value), _name(copy._name)
+XMLNode::XMLNode(const XMLNode& copy) : _attributes(copy._attributes), _attrhash(copy._attrhash), _value(copy._value), _name(copy._name)
 {
   next = 0;
   prev = 0;
+  for(size_t i = 0; i < copy._nodes.Length(); ++i)
+    AddNode(*copy._nodes[i].get());
 }
 XMLNode::XMLNode(XMLNode&& mov) : _nodes(std::move(mov._nodes)), _nodehash(std::move(mov._nodehash)), _attributes(std::move(mov._attributes)),
   _attrhash(std::move(mov._attrhash)), _value(std::move(mov._value)), _name(std::move(mov._name))
@@ -75,10 +76,13 @@ XMLNode::XMLNode(std::istream& stream) { Str buf; _parse(stream, buf); next = 0;
 
 XMLNode& XMLNode::operator=(const XMLNode& copy)
 {
+  if(&copy == this) return *this;
   _attributes = copy._attributes;
   _attrhash = copy._attrhash;
   _value = copy._value;
   _name = copy._name;
+  _nodes.Clear();
+  _nodehash.Clear();
   for(size_t i = 0; i < copy._nodes.Length(); ++i)
     AddNode(*copy._nodes[i].get());
   return *this;
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 3373421..c6348f8 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -107,7 +107,7 @@ namespace bss {
 
     DynArray<std::unique_ptr<XMLNode>, size_t, ARRAY_MOVE> _nodes;
     Hash<Str, size_t, ARRAY_SAFE> _nodehash;
-    DynArray<XMLValue, size_t, ARRAY_MOVE> _attributes;
+    DynArray<XMLValue, size_t, ARRAY_SAFE> _attributes;
     Hash<Str, size_t, ARRAY_SAFE> _attrhash;
     XMLValue _value;
     Str _name;
-- 
2.43.0


From 6bf338f93ba834d118e5f0b7b024f92ca785fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:22 +0000
Subject: [PATCH 062/157] fix: removing an XML node or attribute removed the
 wrong one or left its name behind

---
 bss-util/XML.cpp       | 37 ++++++++++++++++++++++---------------
 include/bss-util/XML.h |  1 +
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index f03c546..31949d9 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -102,36 +102,43 @@ XMLNode* XMLNode::AddNode(const XMLNode& node) { return _addNode(std::unique_ptr
 XMLNode* XMLNode::AddNode(const char* name) { std::unique_ptr<XMLNode> node(new XMLNode()); node->_name = name; return _addNode(std::move(node)); }
 XMLValue* XMLNode::AddAttribute(const XMLValue& value) { return _addAttribute(XMLValue(value)); }
 XMLValue* XMLNode::AddAttribute(const char* name) { XMLValue v; v.Name = name; return _addAttribute(std::move(v)); }
+void XMLNode::_shiftIndices(Hash<Str, size_t, ARRAY_SAFE>& hash, size_t removed)
+{
+  for(khiter_t i = hash.Front(); i != hash.Back(); ++i)
+    if(hash.ExistsIter(i) && hash.GetValue(i) > removed)
+      hash.SetValue(i, hash.GetValue(i) - 1);
+}
 bool XMLNode::RemoveNode(size_t index)
 {
   if(index >= _nodes.Length()) 
     return false;
-  khiter_t iter = _nodehash.Iterator(_nodes[index]->_name);
-  if(_nodes[index]->next)
+  XMLNode* node = _nodes[index].get();
+  khiter_t iter = _nodehash.Iterator(node->_name);
+  bool first = _nodehash.ExistsIter(iter) && _nodehash.GetValue(iter) == index;
+
+  if(node->prev) node->prev->next = node->next;
+  if(node->next) node->next->prev = node->prev;
+  if(first && !node->next)
+    _nodehash.RemoveIter(iter);
+  else if(first)
   {
     for(size_t i = 0; i < _nodes.Length(); ++i)
-    {
-      if(_nodes[i].get() == _nodes[index]->next)
-      {
-        _nodes[i]->prev = 0;
-        if(_nodehash.ExistsIter(iter))
-          _nodehash.SetValue(iter, i);
-      }
-    }
+      if(_nodes[i].get() == node->next)
+        _nodehash.SetValue(iter, i);
   }
-  else if(_nodehash.ExistsIter(iter))
-    _nodehash.RemoveIter(iter);
 
   _nodes.Remove(index);
+  _shiftIndices(_nodehash, index);
   return true;
 }
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
 bool XMLNode::RemoveAttribute(size_t index)
 {
-  if(index >= _nodes.Length()) 
+  if(index >= _attributes.Length()) 
     return false;
-  _attrhash.Remove(_nodes[index]->_name);
-  _nodes.Remove(index);
+  _attrhash.Remove(_attributes[index].Name);
+  _attributes.Remove(index);
+  _shiftIndices(_attrhash, index);
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index c6348f8..a67d95d 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -101,6 +101,7 @@ namespace bss {
     static bool _match(std::istream& stream, Str& out, const char* pattern, bool reset = false);
     static void _parseEntity(std::istream& stream, Str& target);
     static void _evalValue(XMLValue& val);
+    static void _shiftIndices(Hash<Str, size_t, ARRAY_SAFE>& hash, size_t removed);
     static void _writeString(std::ostream& stream, const char* s);
 
     friend class XMLFile;
-- 
2.43.0


From 3e7ea3a7a902118b1b503cddd1c0a7e1f9bf4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:22 +0000
Subject: [PATCH 063/157] fix: a TOML array inside an array or table left its
 closing bracket behind

---
 include/bss-util/TOML.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index c6d9f6b..ed2176e 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -584,10 +584,12 @@ namespace bss {
       while(!!s && s.peek() != ']' && s.peek() != -1)
       {
         Add(e, obj, n);
+        ParseTOMLEatAllspace(s); // skips comments, which can contain a , or ]
         while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) s.get(); // eat everything up to a , or ] character
         if(!!s && s.peek() == ',' && s.peek() != -1) s.get(); // Only eat comma if it's there.
         ParseTOMLEatAllspace(s);
       }
+      if(!!s && s.peek() == ']') s.get(); // An array inside an array or a table must not leave its ] to the outer one
     }
   }
 
-- 
2.43.0


From e50690fbc1cdc4e8e9fd3c8dea4f6ab5c4e79963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 064/157] fix: a TOML date in UTC lost its time of day, and one
 at the end of the document its offset

---
 include/bss-util/TOML.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index ed2176e..8c8d981 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -413,14 +413,14 @@ namespace bss {
     TOMLEngine::ParseTOMLEatWhitespace(s);
     tg.get(s, 0, s, err, &t, DATE, std::end(DATE) - 1);
 
-    if(err == std::ios_base::goodbit)
+    if(!(err & std::ios_base::failbit))
     {
       if(s.peek() == 'T')
       {
         s.get();
         tg.get(s, 0, s, err, &t, TIME, std::end(TIME) - 1);
 
-        if(err == std::ios_base::goodbit)
+        if(!(err & std::ios_base::failbit))
         {
           char sign = s.peek();
 
@@ -431,7 +431,7 @@ namespace bss {
             tg.get(s, 0, s, err, &tz, ZONE, std::end(ZONE) - 1);
             std::chrono::minutes offset(0);
 
-            if(err == std::ios_base::goodbit)
+            if(!(err & std::ios_base::failbit))
               offset = (sign == '+' ? 1 : -1) * (std::chrono::hours{ tz.tm_hour } +std::chrono::minutes{ tz.tm_min });
 
             target = std::chrono::system_clock::time_point{
@@ -444,9 +444,13 @@ namespace bss {
           else if(sign == 'Z')
             s.get();
         }
+        else
+          t.tm_hour = t.tm_min = t.tm_sec = 0;
       }
 
-      target = std::chrono::system_clock::time_point{ days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } };
+      target = std::chrono::system_clock::time_point{
+        days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } +
+        std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec } };
     }
   }
 #endif
-- 
2.43.0


From 58cdb4731351191a504227ed84574d373d6fc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:39 +0000
Subject: [PATCH 065/157] fix: malformed TOML stopped the program with an
 assertion

---
 include/bss-util/TOML.h | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 8c8d981..fc0864b 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -178,8 +178,7 @@ namespace bss {
         buf[8] = 0;
         OutputUnicode(out, strtoul(buf, 0, 16));
         break;
-      default:
-        assert(false);
+      default: // unknown escape sequence
         break;
       }
     }
@@ -481,9 +480,7 @@ namespace bss {
         target = TOMLValue::TOMLTable();
         Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
       }
-      else
-        assert(false);
-      return;
+      return; // Otherwise the header is malformed
     case TOMLEngine::STATE_INLINE_TABLE:
       if(e.in->peek() == '.')
       {
@@ -499,9 +496,7 @@ namespace bss {
         target = TOMLValue::TOMLTable();
         Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
       }
-      else
-        assert(false);
-      return;
+      return; // Otherwise the header is malformed
     case 0:
       break;
     }
@@ -618,9 +613,7 @@ namespace bss {
         e.in->get();
         ParseTOMLPairs(e, *e.in, f);
       }
-      else
-        assert(false);
-      break;
+      break; // Otherwise the header is malformed
     case STATE_INLINE_TABLE:
       if(e.in->peek() == '.')
       {
@@ -638,9 +631,7 @@ namespace bss {
 
         ParseTOMLPairs(e, *e.in, f);
       }
-      else
-        assert(false);
-      break;
+      break; // Otherwise the header is malformed
     case STATE_NORMAL:
       ParseTOMLEatWhitespace(*e.in);
 
-- 
2.43.0


From da4a0ea57003407405d3b7643e05ef721f5a84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:39 +0000
Subject: [PATCH 066/157] fix: an unterminated multiline TOML string got a
 character that is not in the document

---
 include/bss-util/TOML.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index fc0864b..3eba9b6 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -202,7 +202,7 @@ namespace bss {
         {
           s.get();
           ParseTOMLEatNewline(s);
-          while(!!s)
+          while(!!s && s.peek() != -1)
           {
             if(s.peek() == '"')
             {
@@ -236,7 +236,7 @@ namespace bss {
         {
           s.get();
           ParseTOMLEatNewline(s);
-          while(!!s)
+          while(!!s && s.peek() != -1)
           {
             char c = s.get();
             if(c == '\'' && s.peek() == '\'')
-- 
2.43.0


From 87566e5738f8d57a2b10a7d562b477e9a836784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:39 +0000
Subject: [PATCH 067/157] fix: a TOML line whose key is followed by no = could
 be parsed forever

---
 include/bss-util/TOML.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 3eba9b6..931f0a7 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -306,8 +306,8 @@ namespace bss {
         s.get();
         internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         f(e, buf.c_str()); // This will call ParseTOMLBase on the appropriate value.
-        while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get(); // Eat all remaining characters on this line that weren't parsed.
       }
+      while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get(); // Eat all remaining characters on this line that weren't parsed.
       ParseTOMLEatAllspace(s);
     }
   }
-- 
2.43.0


From 92fbdb64895e698668a59fe496ec252b971797e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:39 +0000
Subject: [PATCH 068/157] fix: a quoted number in TOML was not seen after a
 blank, and consumed the character after its closing quote

---
 include/bss-util/TOML.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 931f0a7..360e4fb 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -371,6 +371,7 @@ namespace bss {
   void TOMLEngine::ParseNumber(Serializer<TOMLEngine>& e, T& obj, const char* id)
   {
     std::istream& s = *e.in;
+    ParseTOMLEatWhitespace(s);
     if(s.peek() == '\n' || s.peek() == '\r' || s.peek() == ',')
       return;
     typename std::conditional<sizeof(T) <= 2, int, T>::type o; // Prevent the stream from trying to read a number as an actual character
@@ -378,8 +379,7 @@ namespace bss {
     {
       s.get();
       s >> o; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string and the " character
     }
     else
       s >> o;
-- 
2.43.0


From 2308ec85c8a007553a89def8bcae8bd727307a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:31 +0000
Subject: [PATCH 069/157] fix: a TOML header that names an element of an empty
 array or a tuple wrote outside of it

---
 include/bss-util/Serializer.h | 4 +++-
 include/bss-util/TOML.h       | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 98098f8..320735d 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -16,7 +16,9 @@
 
 namespace std {
   template<class... X> // Override std::end for tuples so retrieving the last element of the fake tuple "array" is syntactically valid
-  constexpr auto end(std::tuple<X...>& c) -> decltype(&std::get<sizeof...(X)-1>(c)) { return &std::get<sizeof...(X)-1>(c); }
+  constexpr auto end(std::tuple<X...>& c) -> decltype(&std::get<sizeof...(X)-1>(c)) { return &std::get<sizeof...(X)-1>(c) + 1; }
+  template<class... X>
+  constexpr auto begin(std::tuple<X...>& c) -> decltype(&std::get<sizeof...(X)-1>(c)) { return &std::get<sizeof...(X)-1>(c); } // Only the last element can be accessed as a range
 }
 
 namespace bss {
diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 360e4fb..cea91bc 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -571,6 +571,8 @@ namespace bss {
     if(e.engine.state > STATE_NORMAL && e.in->peek() == '.') // If this happens, we are attempting to access an array
     {
       auto end = std::end(obj);
+      if(std::begin(obj) == end) // there is no element to access, so the header is malformed
+        return;
       return Serializer<TOMLEngine>::ActionBind<E>::Parse(e, *--end, id);
     }
     if(e.engine.state == STATE_INLINE_TABLE) // If the state is 2 and not 0, this is a table array.
-- 
2.43.0


From 0ae198dc3cc5b75ece2e3fad74c4e97a9421bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:59 +0000
Subject: [PATCH 070/157] fix: TOMLValue dropped nested tables and all but the
 last table of an array

---
 include/bss-util/TOML.h | 43 ++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index cea91bc..6bafe4b 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -466,37 +466,24 @@ namespace bss {
       Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
       return;
     case TOMLEngine::STATE_TABLE:
-      if(e.in->peek() == '.')
-      {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
-      }
-      else if(e.in->peek() == ']')
-      {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
-      }
-      return; // Otherwise the header is malformed
     case TOMLEngine::STATE_INLINE_TABLE:
-      if(e.in->peek() == '.')
-      {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
-      }
-      else if(e.in->peek() == ']')
+    {
+      TOMLValue* v = &target;
+      if(test != '.' && test != ']') // Otherwise the header is malformed
+        return;
+      if(e.engine.state == TOMLEngine::STATE_INLINE_TABLE && test == ']') // This header appends a table to an array of tables
       {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
+        if(!v->is<TOMLValue::TOMLArray>())
+          *v = TOMLValue::TOMLArray();
+        v->get<TOMLValue::TOMLArray>().Add(TOMLValue(TOMLValue::TOMLTable()));
       }
-      return; // Otherwise the header is malformed
+      if(v->is<TOMLValue::TOMLArray>() && v->get<TOMLValue::TOMLArray>().Length() > 0) // An array of tables is represented by its last table
+        v = &v->get<TOMLValue::TOMLArray>().Back();
+      if(!v->is<TOMLValue::TOMLTable>())
+        *v = TOMLValue::TOMLTable();
+      Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, v->get<TOMLValue::TOMLTable>(), 0);
+      return;
+    }
     case 0:
       break;
     }
-- 
2.43.0


From 711ac610d7b7e44bd774033a31fa3a536cc2c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:59 +0000
Subject: [PATCH 071/157] fix: TOMLValue turned numbers outside of the range of
 int64_t into garbage

---
 include/bss-util/TOML.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 6bafe4b..446202a 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -521,7 +521,7 @@ namespace bss {
       TOMLEngine::ParseNumber<double>(e, target.get<double>(), 0);
       double ipart;
 
-      if(modf(target.get<double>(), &ipart) == 0.0)
+      if(modf(target.get<double>(), &ipart) == 0.0 && ipart >= -9223372036854775808.0 && ipart < 9223372036854775808.0)
         target = (int64_t)ipart;
 
       break;
-- 
2.43.0


From 74ac3fe78fa1dc011aa313e0da11d68ef212d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:22 +0000
Subject: [PATCH 072/157] fix: AVLTree::Traverse did not compile, because it
 forced a recursive function inline

---
 include/bss-util/AVLTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index e432b1a..d2652a3 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -165,7 +165,7 @@ namespace bss {
 
   protected:
     template<typename F>
-    BSS_FORCEINLINE static void _traverse(F lambda, Node* node)
+    inline static void _traverse(F& lambda, Node* node)
     {
       if(!node)
         return;
-- 
2.43.0


From 6b6928208f4b12b173b7da634a8298f26722fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:53 +0000
Subject: [PATCH 073/157] fix: TRBtree::GetNear gave the sentinel of an empty
 tree

---
 include/bss-util/TRBtree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 2578cfa..6aac5be 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -526,6 +526,8 @@ namespace bss {
         }
       }
 
+      if(parent == pNIL) // the tree is empty
+        return 0;
       if(before)
         return (res < 0 && parent->prev) ? parent->prev : parent;
       else
-- 
2.43.0


From 6e5e017688ac68e1910fb07858d03599d579c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:53 +0000
Subject: [PATCH 074/157] fix: moving a TRBtree reset the sentinel of the new
 tree and left the one of the old tree uninitialized

---
 include/bss-util/TRBtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 6aac5be..17a03b2 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -403,7 +403,7 @@ namespace bss {
       mov._first = 0;
       mov._last = 0;
       mov.NIL = Alloc::allocate(1);
-      new (NIL) TRB_Node<T>(0);
+      new (mov.NIL) TRB_Node<T>(0);
       mov.NIL->left = mov.NIL;
       mov.NIL->right = mov.NIL;
       mov._root = mov.NIL;
-- 
2.43.0


From 666ba7019d843658c39cb6ebd6b02a517d4eee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:13 +0000
Subject: [PATCH 075/157] fix: a container with an allocation policy crashed
 when it was used or destroyed after being moved from

---
 include/bss-util/Alloc.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/Alloc.h b/include/bss-util/Alloc.h
index 5fec64f..3a17697 100644
--- a/include/bss-util/Alloc.h
+++ b/include/bss-util/Alloc.h
@@ -118,7 +118,7 @@ namespace bss {
     template<class U> using rebind = PolymorphicAllocator<U, Policy>;
     PolymorphicAllocator() noexcept : _policy(DefaultPolicy()) {}
     PolymorphicAllocator(const PolymorphicAllocator&) = default;
-    PolymorphicAllocator(PolymorphicAllocator&& mov) : _policy(mov._policy) { mov._policy = 0; }
+    PolymorphicAllocator(PolymorphicAllocator&& mov) : _policy(mov._policy) {} // mov keeps its policy, because a container that was moved from still uses it
     template <class U> constexpr PolymorphicAllocator(const PolymorphicAllocator<U, Policy>& copy) noexcept : _policy(copy._policy) {}
     explicit PolymorphicAllocator(policy_type* p) noexcept : _policy(p) {}
     inline T* allocate(size_t cnt, T* p = nullptr, size_t old = 0) noexcept { return _policy->allocate(cnt, p, old); }
@@ -128,7 +128,6 @@ namespace bss {
     PolymorphicAllocator& operator=(PolymorphicAllocator&& mov) 
     {
       _policy = mov._policy; 
-      mov._policy = 0;
       return *this;
     }
 
-- 
2.43.0


From f2a4baa81fcbb92686a51fff7563ce69bfd3853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:11 +0000
Subject: [PATCH 076/157] fix: an AATree kept using its freed nodes after Clear

---
 include/bss-util/AATree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 8951010..632fe09 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -59,7 +59,7 @@ namespace bss {
 
       return 0;
     }
-    inline void Clear() { _clear(_root); }
+    inline void Clear() { _clear(_root); _root = _sentinel; }
     // Gets the root, unless the tree is empty, in which case returns nullptr
     inline AANODE<T>* GetRoot() { return _root == _sentinel ? 0 : _root; }
     inline bool IsEmpty() { return _root == _sentinel; }
-- 
2.43.0


From cbec441417d51c21496daf308acbaa2153e4d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:11 +0000
Subject: [PATCH 077/157] fix: AATree::Remove compared with a stale or
 uninitialized node

---
 include/bss-util/AATree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 632fe09..5748d0d 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -41,7 +41,7 @@ namespace bss {
       Alloc::deallocate(_sentinel, 1);
     }
     inline void Insert(const T& data) { _insert(_root, data); }
-    inline bool Remove(const T& data) { return _remove(_root, data); }
+    inline bool Remove(const T& data) { _deleted = _last = _sentinel; return _remove(_root, data); }
     // Gets the node that belongs to the data or returns nullptr if not found.
     inline AANODE<T>* Get(const T& data)
     {
-- 
2.43.0


From b5d9924afc45b9a840811270272e6d6cc100874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:11 +0000
Subject: [PATCH 078/157] fix: AATree::Traverse did not compile and did not
 stop at the leaves

---
 include/bss-util/AATree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 5748d0d..1acb4cf 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -79,9 +79,10 @@ namespace bss {
     template<void(*FACTION)(T&)>
     inline void _traverse(AANODE<T>* n)
     {
-      _traverse(n->left);
+      if(n == _sentinel) return;
+      _traverse<FACTION>(n->left);
       FACTION(n->data);
-      _traverse(n->right);
+      _traverse<FACTION>(n->right);
     }
     inline void _skew(AANODE<T>*& n)
     {
-- 
2.43.0


From d0c440d6340262e8bf08215d50708fa2501388e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:11 +0000
Subject: [PATCH 079/157] fix: AATree never constructed its items and did not
 destroy a removed one

---
 include/bss-util/AATree.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 1acb4cf..4b6fd81 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -110,9 +110,7 @@ namespace bss {
       if(n == _sentinel)
       {
         n = Alloc::allocate(1);
-        n->left = n->right = _sentinel;
-        n->data = data;
-        n->level = 1;
+        new(n) AANODE<T>{ 1, _sentinel, _sentinel, data };
         return;
       }
 
@@ -145,7 +143,8 @@ namespace bss {
         _deleted->data = n->data;
         _deleted = _sentinel;
         n = n->right;
-        Alloc::deallocate(_last);
+        _last->~AANODE<T>();
+        Alloc::deallocate(_last, 1);
         _last = _sentinel;
         b = true;
       }
-- 
2.43.0


From d885009124aa140ec5e906f892a292a807ac345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:11 +0000
Subject: [PATCH 080/157] fix: clearing a LinkedList forgot its allocation
 policy

---
 include/bss-util/LinkedList.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 66d854b..5d266a1 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -188,7 +188,10 @@ namespace bss {
         hold = nexthold;
       }
 
-      bssFill(*this, 0);
+      _root = 0;
+      if constexpr(useLast)
+        internal::LList_LAST<T, useLast>::_last = 0;
+      internal::LList_SIZE<useSize>::_zerosize();
     }
 
     inline LLNode<T>* Front() const { return _root; }
-- 
2.43.0


From 1dc162a8cbaa3fbeb514f2a51ae04a31846bb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:39 +0000
Subject: [PATCH 081/157] fix: Hash never destroyed the objects it moved while
 it was resized

---
 include/bss-util/Hash.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index f1bb146..6314dde 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -485,7 +485,12 @@ namespace bss {
             [[maybe_unused]] FakeData val;
             khint_t new_mask;
             new_mask = new_n_buckets - 1;
-            if constexpr(IsMap)val = std::move(vals[j]);
+            keys[j].~Key();
+            if constexpr(IsMap)
+            {
+              val = std::move(vals[j]);
+              vals[j].~Data();
+            }
             __ac_set_isdel_true(flags, j);
             while(1)
             { /* kick-out process; sort of like in Cuckoo hashing */
@@ -622,7 +627,10 @@ namespace bss {
           for(khint_t i = 0; i < n_buckets; ++i)
           {
             if(!__ac_iseither(flags, i))
+            {
               new(n + i) T(std::move(src[i]));
+              src[i].~T();
+            }
           }
         }
 
-- 
2.43.0


From 47540042e40b7ce8272c6d7eb94e1b376f377be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:21 +0000
Subject: [PATCH 082/157] fix: a Hash forgot its allocation policy when an
 empty one was assigned to it or it was moved from

---
 include/bss-util/Hash.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 6314dde..cf2acc4 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -172,7 +172,7 @@ namespace bss {
     Hash(Hash&& mov) : Alloc(std::move(mov))
     {
       memcpy(this, &mov, sizeof(Hash));
-      bssFill(mov, 0);
+      mov._reset();
     }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     Hash(khint_t nbuckets, typename Alloc::policy_type* policy) : Alloc(policy), n_buckets(0), flags(0), keys(0), vals(0), size(0), n_occupied(0), upper_bound(0)
@@ -309,7 +309,7 @@ namespace bss {
       if(!copy.n_buckets)
       {
         _freeall();
-        bssFill(*this, 0);
+        _reset();
         return *this;
       }
       _docopy(copy);
@@ -322,7 +322,7 @@ namespace bss {
       _freeall();
       Alloc::operator=(std::move(mov));
       memcpy(this, &mov, sizeof(Hash));
-      bssFill(mov);
+      mov._reset();
       return *this;
     }
 
@@ -398,6 +398,13 @@ namespace bss {
       obj.Insert(std::move(key));
     }
     BSS_FORCEINLINE bool _exists(khiter_t iterator) const { return !__ac_iseither(flags, iterator); }
+    inline void _reset() // Forgets everything except the allocator
+    {
+      n_buckets = size = n_occupied = upper_bound = 0;
+      flags = 0;
+      keys = 0;
+      vals = 0;
+    }
     inline void _freeall()
     {
       if(flags) Alloc::deallocate((char*)flags, n_buckets);
-- 
2.43.0


From f54069d369fa6ca0bddf90ca02ec5c6b78665fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:21 +0000
Subject: [PATCH 083/157] fix: assigning a Hash to itself emptied it

---
 include/bss-util/Hash.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index cf2acc4..624cd1a 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -305,6 +305,8 @@ namespace bss {
 
     Hash& operator=(const Hash& copy)
     {
+      if(&copy == this)
+        return *this;
       Clear();
       if(!copy.n_buckets)
       {
@@ -318,6 +320,8 @@ namespace bss {
 
     Hash& operator=(Hash&& mov)
     {
+      if(&mov == this)
+        return *this;
       Clear();
       _freeall();
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From 2056df1b8c37a7bd2cf476da6796cd709d3f0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:43 +0000
Subject: [PATCH 084/157] fix: TRBtree::GetNear gave a duplicate of the node
 before the key instead of the one after it

---
 include/bss-util/TRBtree.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 17a03b2..9109f54 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -531,7 +531,12 @@ namespace bss {
       if(before)
         return (res < 0 && parent->prev) ? parent->prev : parent;
       else
-        return (res > 0 && parent->next) ? parent->next : parent;
+      {
+        cur = parent;
+        if(res > 0) // the nodes after parent can be duplicates of it, which are not after x either
+          do cur = cur->next; while(cur && cur->color == -1);
+        return cur ? cur : parent;
+      }
     }
 
     inline int DEBUGVERIFY() { return TRB_Node<T>::DEBUGVERIFY(_root, NIL); }
-- 
2.43.0


From 5913ea36b6e51101f74e9265a7681e18fadb56c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:42 +0000
Subject: [PATCH 085/157] fix: rebalancing a KDTree left items in a subtree
 they do not fit in, where queries missed them

---
 include/bss-util/KDTree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 91be8af..186ecee 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -240,9 +240,9 @@ namespace bss {
         itemr = FRECT(item);
 
         if(itemr[0] < r[0]) i = 0; // Check for a violation. We don't bother checking to see if there are multiple violations, because 
-        if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
-        if(itemr[2] > r[2]) i = 2;
-        if(itemr[3] > r[3]) i = 3;
+        else if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
+        else if(itemr[2] > r[2]) i = 2;
+        else if(itemr[3] > r[3]) i = 3;
         else continue;
 
         node->total[0] -= itemr[0] + itemr[2]; // Remove image from us
-- 
2.43.0


From 4743366ab605fef9ead4f2d28348dc7916a3f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:13 +0000
Subject: [PATCH 086/157] fix: copying or moving a Stack did not compile

---
 include/bss-util/Stack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Stack.h b/include/bss-util/Stack.h
index 9d853d6..8b8a822 100644
--- a/include/bss-util/Stack.h
+++ b/include/bss-util/Stack.h
@@ -12,8 +12,8 @@ namespace bss {
   class BSS_COMPILER_DLLEXPORT Stack
   {
   public:
-    inline Stack(const Stack& copy) : _array(copy) {}
-    inline Stack(Stack&& mov) : _array(std::move(mov)) {}
+    inline Stack(const Stack& copy) : _array(copy._array) {}
+    inline Stack(Stack&& mov) : _array(std::move(mov._array)) {}
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Stack(CType init, typename Alloc::policy_type* policy) : _array(init, policy) {}
     inline explicit Stack(CType init = 0) : _array(init) {}
-- 
2.43.0


From ef5348a4bf7c20a8842e5bfdd5e97704876fce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:21 +0000
Subject: [PATCH 087/157] fix: CompactArray::GetSlice did not compile

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 868f7ff..bdcabf5 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -117,7 +117,7 @@ namespace bss {
     BSS_FORCEINLINE const T* end() const noexcept { return begin() + Length(); }
     BSS_FORCEINLINE T* begin() noexcept { return (_length&COMPACTFLAG) ? _internal : _array; }
     BSS_FORCEINLINE T* end() noexcept { return begin() + Length(); }
-    BSS_FORCEINLINE Slice<T, CT> GetSlice() const noexcept { return Slice<T, CT>(begin(), Length()); }
+    BSS_FORCEINLINE Slice<T, CT> GetSlice() const noexcept { return Slice<T, CT>(const_cast<T*>(begin()), Length()); }
     BSS_FORCEINLINE operator T*() { return begin(); }
     BSS_FORCEINLINE operator const T*() const { return begin(); }
     inline CompactArray& operator=(const CompactArray& copy)
-- 
2.43.0


From e112e13316bf4f30364afc7eb3951f40243678b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:41 +0000
Subject: [PATCH 088/157] fix: moving a LinkedArray did not compile

---
 include/bss-util/LinkedArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LinkedArray.h b/include/bss-util/LinkedArray.h
index 3d8865b..5face86 100644
--- a/include/bss-util/LinkedArray.h
+++ b/include/bss-util/LinkedArray.h
@@ -29,7 +29,7 @@ namespace bss {
 
     inline LinkedArray() : _ref(1), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline LinkedArray(const LinkedArray& copy) : _ref(copy._ref), _length(copy._length), _start(copy._start), _end(copy._end), _freelist(copy._freelist) {}
-    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._ref = 1; mov._length = 0; mov._start = mov._end = -1 = mov._freelist = -1; }
+    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LinkedArray(CT_ size, typename Alloc::policy_type* policy) : _ref(size, policy), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline explicit LinkedArray(CT_ size) : _ref(size), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
@@ -78,7 +78,7 @@ namespace bss {
     //inline LinkedArray& operator +=(const LinkedArray& right);
     //inline LinkedArray operator +(const LinkedArray& right) const { LinkedArray retval(*this); retval+=right; return retval; }
     inline LinkedArray& operator =(const LinkedArray& right) { _ref = right._ref; _length = right._length; _start = right._start; _end = right._end; _freelist = right._freelist; return *this; }
-    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; return *this; }
+    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; return *this; }
     BSS_FORCEINLINE T& GetItem(CT_ index) { return _ref[index].val; }
     BSS_FORCEINLINE const T& GetItem(CT_ index) const { return _ref[index].val; }
     BSS_FORCEINLINE T* GetItemPtr(CT_ index) { return &_ref[index].val; }
-- 
2.43.0


From 49cf2469d4092305b5299ef4113041012091b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:11 +0000
Subject: [PATCH 089/157] fix: shrinking a block of a CachePolicy put it among
 the free blocks of its new size

---
 include/bss-util/CacheAlloc.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index b422736..5601037 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -147,9 +147,7 @@ namespace bss {
       if(p)
       {
         assert(old > 0);
-        if(cnt < old)
-          old = cnt;
-        MEMCPY(n, cnt * sizeof(T), p, old * sizeof(T));
+        MEMCPY(n, cnt * sizeof(T), p, ((cnt < old) ? cnt : old) * sizeof(T));
         CacheAlloc::Dealloc(p, old * sizeof(T));
       }
       return n;
-- 
2.43.0


From df8ccf0467a00f4e531ba79197ffa0f8e90ae08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:11 +0000
Subject: [PATCH 090/157] fix: CompactArray::SetCapacity cut off items when it
 was given less than their number

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index bdcabf5..6216c7f 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -85,7 +85,7 @@ namespace bss {
     }
     inline void SetCapacity(CT capacity)
     {
-      if(capacity > I)
+      if(capacity > Capacity())
       {
         capacity = T_FBNEXT(capacity);
 
-- 
2.43.0


From f1a00f066ecfd6dcb4dc14c2db1a59b24a30a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:03 +0000
Subject: [PATCH 091/157] fix: AddConstruct of a bit array wrote a byte behind
 its storage

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..8c926e5 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -191,7 +191,7 @@ namespace bss {
     }
     inline ~DynArray() {}
     BSS_FORCEINLINE CT Add(bool item) { _checkSize(); GetBit(_length++) = item; return _length - 1; }
-    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); _array[_length] = false; return _length++; }
+    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); GetBit(_length++) = false; return _length - 1; }
     inline void Remove(CT index)
     {
       assert(index < _length);
-- 
2.43.0


From 7575294cc2858cb74c1bcc682d34d5449cfe2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:03 +0000
Subject: [PATCH 092/157] fix: Front and Back of a constant bit array gave
 whole bytes

---
 include/bss-util/DynArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 8c926e5..47da72c 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -238,8 +238,8 @@ namespace bss {
     }
     BSS_FORCEINLINE CT Length() const { return _length; }
     BSS_FORCEINLINE CT Capacity() const { return _capacity*DIV_AMT; }
-    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return _array[0]; }
-    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return _array[_length - 1]; }
+    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return operator[](0); }
+    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return operator[](_length - 1); }
     BSS_FORCEINLINE BITREF Front() { assert(_length > 0); return GetBit(0); }
     BSS_FORCEINLINE BITREF Back() { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
-- 
2.43.0


From 2d283e378a2fb15bd383cb1c3ea9b4541b5b833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:03 +0000
Subject: [PATCH 093/157] fix: SetCapacity of a bit array called itself with
 the number of bytes

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 47da72c..489e038 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -213,7 +213,7 @@ namespace bss {
       for(CT i = _length; i < length; ++i) GetBit(i) = false;
       _length = length;
     }
-    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) SetCapacity(capacity); }
+    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) BASE::_setCapacity(capacity, _capacity); }
     inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }
     CT CountBits(CT bitindex, CT length) const
     {
-- 
2.43.0


From 59d1a35300f6e3ed94df255d29f344c0c3765e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:03 +0000
Subject: [PATCH 094/157] fix: assigning a bit array read behind the storage of
 a smaller one

---
 include/bss-util/DynArray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 489e038..771b9c2 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -256,7 +256,8 @@ namespace bss {
     {
       if(copy._length > (_capacity*DIV_AMT))
         BASE::_setCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(STORE));
+      if(copy._length && this != &copy)
+        memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));
       _length = copy._length;
       return *this;
     }
-- 
2.43.0


From 583ada4469ed2c6d5169ad6d1accfc0432e4cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:03 +0000
Subject: [PATCH 095/157] fix: inserting into a bit array carried the wrong
 bits over

---
 include/bss-util/DynArray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 771b9c2..d9a7829 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -318,12 +318,12 @@ namespace bss {
       STORE mask = (STORE)(~0) << off;
       STORE store = _array[ind];
       _array[ind] = ((_array[ind] & mask) << 1) | (_array[ind] & (~mask));
-      STORE test = _array[ind];
 
       for(CT i = ind + 1; i < len; ++i)
       {
-        _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
-        store = _array[i];
+        STORE cur = _array[i];
+        _array[i] = (store >> MOD_AMT) | ((cur << 1) & (STORE)(~1));
+        store = cur;
       }
     }
 
-- 
2.43.0


From fa597cd2662c0618ee24c475d7c0960743e297b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:03 +0000
Subject: [PATCH 096/157] fix: assigning a DynArray to itself destroyed its
 items

---
 include/bss-util/DynArray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index d9a7829..0a4e579 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -98,6 +98,8 @@ namespace bss {
     inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _length, 0);
       if(copy._length > _capacity)
         BASE::_setCapacityDiscard(copy._capacity);
-- 
2.43.0


From 40dd25bc39b1f7113ebbcefb75acef1a20b371ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:04 +0000
Subject: [PATCH 097/157] fix: assigning an Array to itself destroyed its items

---
 include/bss-util/Array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 261411f..7676111 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -342,6 +342,8 @@ namespace bss {
 
     BSS_FORCEINLINE Array& operator=(const Array& copy) noexcept
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::_setCapacityDiscard(copy._capacity);
       BASE::_copy(_array, copy._array, _capacity);
-- 
2.43.0


From 42adfd2151876c855aca61af8eafd9dc80eec362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:04 +0000
Subject: [PATCH 098/157] fix: assigning an ArrayCircular to itself emptied it

---
 include/bss-util/ArrayCircular.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 3f7fa0d..e0ff6b1 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -100,6 +100,8 @@ namespace bss {
     BSS_FORCEINLINE const T& operator[](CT index) const { return _array[_modIndex(index)]; }
     inline ArrayCircular& operator=(const ArrayCircular& right)
     {
+      if(this == &right)
+        return *this;
       Clear();
       BASE::_setCapacityDiscard(right._capacity);
       _cur = right._cur;
-- 
2.43.0


From 395fb9484b159b13e3f36d46bde5d768ee3653ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:31 +0000
Subject: [PATCH 099/157] fix: clearing a BinaryHeap never destroyed its items

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..125c25b 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -61,7 +61,7 @@ namespace bss {
     }
     inline bool Empty() { return !_length; }
     inline CT Length() { return _length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     // Inserts a value
     inline void Insert(const T& val) { _insert(val); }
     inline void Insert(T&& val) { _insert(std::move(val)); }
-- 
2.43.0


From eb878fed6dc0bf43d159de82620b604f61f57232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:31 +0000
Subject: [PATCH 100/157] fix: discarding an item of a Queue never destroyed it

---
 include/bss-util/Queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Queue.h b/include/bss-util/Queue.h
index af98476..6e4a88e 100644
--- a/include/bss-util/Queue.h
+++ b/include/bss-util/Queue.h
@@ -30,7 +30,7 @@ namespace bss {
     // Peeks at the value at the top of the queue but does not remove it. If there is no value, this is an illegal call.
     BSS_FORCEINLINE T& Peek() { assert(_length != 0); return BASE::Back(); }
     BSS_FORCEINLINE const T& Peek() const { assert(_length != 0); return BASE::Back(); }
-    BSS_FORCEINLINE void Discard() { --_length; }
+    BSS_FORCEINLINE void Discard() { BASE::PopBack(); }
     // Returns true if there are no values in the queue (indicating that Pop() and Peek() cannot be called)
     BSS_FORCEINLINE bool Empty() { return !_length; }
     BSS_FORCEINLINE void Clear() { BASE::Clear(); }
-- 
2.43.0


From df607eb50afacb6e79aa0090951c19bbb0572e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:57 +0000
Subject: [PATCH 101/157] fix: removing an item of a BinaryHeap broke its order
 if the last item was larger than the parent of the removed one, and failed
 for the last item

---
 include/bss-util/BinaryHeap.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 125c25b..ce9f865 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -72,8 +72,13 @@ namespace bss {
     inline bool Remove(CT index)
     {
       if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation
-      if(_length > 1) //We can't percolate down if there's nothing in the array! 
-        PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      if(index < _length - 1) //We can't percolate if the last item is the one that is removed
+      {
+        if(index > 0 && CFunc(_array[_length - 1], _array[CBH_PARENT(index)]) > 0) //The last item can be from another subtree, in which case it might have to go up
+          PercolateUp(_array, _length - 1, index, _array[_length - 1], this);
+        else
+          PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      }
       BASE::RemoveLast();
       return true;
     }
-- 
2.43.0


From b54652fac099b06ec56f3d4ae02a487459c8b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:09 +0000
Subject: [PATCH 102/157] fix: moving a PriorityHeap lost the positions of all
 keys

---
 include/bss-util/PriorityQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 7dc3039..3c53466 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -65,7 +65,7 @@ namespace bss {
 
   public:
     PriorityHeap(const PriorityHeap& copy) : BASE(copy), _freelist(copy._freelist) { _subarray = copy._subarray; }
-    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { _subarray = std::move(mov._subarray); }
+    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     explicit PriorityHeap(typename Alloc::policy_type* policy) : BASE(policy), _freelist((CT_)-1) {}
     PriorityHeap() : _freelist((CT_)-1) {}
@@ -93,6 +93,7 @@ namespace bss {
     { 
       BASE::operator=(std::move(mov)); 
       _freelist = mov._freelist; 
+      mov._freelist = (CT_)-1;
       return *this; 
     }
 
-- 
2.43.0


From b71eaf0dc0ebc179fff252bf6c32a5580ac91fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:09 +0000
Subject: [PATCH 103/157] fix: a PriorityHeap never reused the keys of items
 that were removed, and grew forever

---
 include/bss-util/PriorityQueue.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 3c53466..eacd1c8 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -73,14 +73,14 @@ namespace bss {
     BSS_FORCEINLINE CT_ Push(const D& value) { CT_ k = _getNext(); BASE::Insert(PAIR(k, value)); return k; }
     BSS_FORCEINLINE CT_ Push(D&& value) { CT_ k = _getNext(); BASE::Insert(PAIR(k, std::move(value))); return k; }
     BSS_FORCEINLINE const D& Peek() { return BASE::Peek().second; }
-    BSS_FORCEINLINE void Discard() { BASE::Remove(0); }
-    BSS_FORCEINLINE D Pop() { return BASE::Pop().second; }
+    BSS_FORCEINLINE void Discard() { CT_ k = BASE::Peek().first; BASE::Remove(0); _freeKey(k); }
+    inline D Pop() { PAIR r(BASE::Pop()); _freeKey(r.first); return std::move(r.second); }
     BSS_FORCEINLINE bool Empty() { return BASE::Empty(); }
     BSS_FORCEINLINE const D& Get(CT_ key) { return BASE::Get(_subarray[key]).second; }
-    BSS_FORCEINLINE bool Remove(CT_ key) { return BASE::Remove(_subarray[key]); }
+    BSS_FORCEINLINE bool Remove(CT_ key) { if(!BASE::Remove(_subarray[key])) return false; _freeKey(key); return true; }
     BSS_FORCEINLINE bool Set(CT_ key, const D& value) { return BASE::Set(_subarray[key], PAIR(key, value)); }
     BSS_FORCEINLINE bool Set(CT_ key, D&& value) { return BASE::Set(_subarray[key], PAIR(key, std::move(value))); }
-    BSS_FORCEINLINE void Clear() { BASE::Clear(); }
+    inline void Clear() { BASE::Clear(); _freelist = (CT_)-1; _initFreeList(0); }
     inline CT_ Length() { return BASE::_length; }
 
     inline PriorityHeap& operator=(const PriorityHeap& copy) 
@@ -115,6 +115,11 @@ namespace bss {
       _freelist = _subarray[r];
       return r;
     }
+    inline void _freeKey(CT_ key)
+    {
+      _subarray[key] = _freelist;
+      _freelist = key;
+    }
     void _initFreeList(CT_ start)
     {
       for(CT_ i = start; i < _subarray.Capacity(); ++i)
-- 
2.43.0


From 84da206848a41830d8a8604e969d2c930bd37520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:25 +0000
Subject: [PATCH 104/157] fix: rebalancing a KDTree kept items on the wrong
 side of a parent if a divider line below it was beyond the one of the parent

---
 include/bss-util/KDTree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 186ecee..2060519 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -210,7 +210,8 @@ namespace bss {
       if(node->left)
       {
         node->num -= node->left->num;
-        rect[axis + 2] = node->div;
+        if(node->div < r[axis + 2]) // The bound of a parent can be tighter, because its divider line was already reset
+          rect[axis + 2] = node->div;
         parents[axis + 2] = node;
         _rebalance(node->left, rect, parents, node->total);
         node->num += node->left->num;
@@ -221,7 +222,8 @@ namespace bss {
       if(node->right)
       {
         node->num -= node->right->num;
-        rect[axis] = node->div;
+        if(node->div > r[axis])
+          rect[axis] = node->div;
         parents[axis] = node;
         _rebalance(node->right, rect, parents, node->total);
         node->num += node->right->num;
-- 
2.43.0


From aead4db09e418881583f7e758ce2d954e9d75eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:05 +0000
Subject: [PATCH 105/157] fix: ArbitraryArray::Add wrote past the end if the
 capacity was not a multiple of the element size

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 0a4e579..463849a 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -357,7 +357,7 @@ namespace bss {
     template<typename T>
     inline CT Add(const T& item)
     {
-      if((_length*_element) >= _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
+      if(((_length + 1)*_element) > _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
       memcpy(_array + (_length*_element), &item, std::min<CT>(sizeof(T), _element));
       return _length++;
     }
-- 
2.43.0


From 84511f784344091b72d271027e54bb3196c7f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:05 +0000
Subject: [PATCH 106/157] fix: assigning an ArbitraryArray to itself lost its
 contents

---
 include/bss-util/DynArray.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 463849a..28431f5 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -432,6 +432,9 @@ namespace bss {
     inline void* operator[](CT index) { return Get(index); }
     inline ArbitraryArray& operator=(const ArbitraryArray& copy) 
     { 
+      if(this == &copy)
+        return *this;
+
       BASE::_setCapacityDiscard(copy._capacity);
       memcpy(_array, copy._array, _capacity);
       _length = copy._length; 
-- 
2.43.0


From 9380b4535cdc3e8682db6dce9da3ccf0f5ac0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:05 +0000
Subject: [PATCH 107/157] fix: the typed accessors of ArbitraryArray could not
 be instantiated for anything but bytes

---
 include/bss-util/DynArray.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 28431f5..4461f80 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -415,15 +415,15 @@ namespace bss {
     inline void SetLength(CT length) { _length = length; length *= _element; if(length > _capacity) BASE::_setCapacity(length); }
     inline CT Length() const { return _length; }
     // These are templatized accessors, but we don't do an assertion on if the size of T is the same as _element, because there are many cases where this isn't actually true.
-    template<typename T> inline const T& Front() const { assert(_length > 0); return _array[0]; }
-    template<typename T> inline const T& Back() const { assert(_length > 0); return _array[(_length - 1)*_element]; }
-    template<typename T> inline T& Front() { assert(_length > 0); return _array[0]; }
-    template<typename T> inline T& Back() { assert(_length > 0); return _array[(_length - 1)*_element]; }
-    template<typename T> inline const T* begin() const { return _array; }
-    template<typename T> inline const T* end() const { return _array + (_length*_element); }
-    template<typename T> inline T* begin() { return _array; }
-    template<typename T> inline T* end() { return _array + (_length*_element); }
-    template<typename T> inline const T& Get(CT index) const { return *(T*)Get(index); }
+    template<typename T> inline const T& Front() const { assert(_length > 0); return *(const T*)_array; }
+    template<typename T> inline const T& Back() const { assert(_length > 0); return *(const T*)(_array + (_length - 1)*_element); }
+    template<typename T> inline T& Front() { assert(_length > 0); return *(T*)_array; }
+    template<typename T> inline T& Back() { assert(_length > 0); return *(T*)(_array + (_length - 1)*_element); }
+    template<typename T> inline const T* begin() const { return (const T*)_array; }
+    template<typename T> inline const T* end() const { return (const T*)(_array + (_length*_element)); }
+    template<typename T> inline T* begin() { return (T*)_array; }
+    template<typename T> inline T* end() { return (T*)(_array + (_length*_element)); }
+    template<typename T> inline const T& Get(CT index) const { return *(const T*)Get(index); }
     template<typename T> inline T& Get(CT index) { return *(T*)Get(index); }
     BSS_FORCEINLINE const void* Get(CT index) const { assert(index < _length); return (_array + (index*_element)); }
     BSS_FORCEINLINE void* Get(CT index) { assert(index < _length); return (_array + (index*_element)); }
-- 
2.43.0


From 9c57e36bdb2836ab51ae0a41dfd30e700767b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:05 +0000
Subject: [PATCH 108/157] fix: a BinaryHeap could not be constructed from an
 array of values

---
 include/bss-util/BinaryHeap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index ce9f865..b9fbad2 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -43,14 +43,14 @@ namespace bss {
     inline BinaryHeap() : BASE(0) {}
     inline BinaryHeap(const T* src, CT length) : BASE(length)
     { 
-      _copy(_array, src, sizeof(T)*length);
+      BASE::_copy(_array, src, length);
       _length = length;
       Heapify(_array, _length);
     }
     template<CT I>
     inline explicit BinaryHeap(const T(&src)[I]) : BinaryHeap(src, I) {}
     template<CT I>
-    inline explicit BinaryHeap(const std::array<T, I>& src) : BinaryHeap(src, I) {}
+    inline explicit BinaryHeap(const std::array<T, I>& src) : BinaryHeap(src.data(), I) {}
     inline ~BinaryHeap() {}
     inline const T& Peek() { return _array[0]; }
     inline const T& Get(CT index) { assert(index < _length); return _array[index]; }
-- 
2.43.0


From 85fe770c509de7475835c64c77d3a04e119786a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:45 +0000
Subject: [PATCH 109/157] fix: a CompactArray made from a short list wrote
 through an uninitialised pointer

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 6216c7f..d32acbd 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -46,7 +46,7 @@ namespace bss {
       CT len = Length();
 
       for(auto i = list.begin(); i != end && j < len; ++i)
-        new(_array + (j++)) T(*i);
+        new(begin() + (j++)) T(*i);
     }
     inline ~CompactArray() 
     { 
-- 
2.43.0


From 8a183a7b7fcab1a604705ab6e8dc2d3132020ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:45 +0000
Subject: [PATCH 110/157] fix: an Array could not be constructed from a slice

---
 include/bss-util/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 7676111..31894e5 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -287,7 +287,7 @@ namespace bss {
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Array(CT capacity, typename Alloc::policy_type* policy) : BASE(capacity, policy) { BASE::_setLength(_array, 0, _capacity); }
     inline explicit Array(CT capacity = 0) : BASE(capacity) { BASE::_setLength(_array, 0, _capacity); }
-    inline explicit Array(const Slice<const T, CT>& slice) : BASE(slice.length) { BASE::_copy(_array, slice.begin, slice.length); }
+    inline explicit Array(const Slice<const T, CT>& slice) : BASE(slice.length) { BASE::_copy(_array, slice.start, slice.length); }
     inline ~Array() { BASE::_setLength(_array, _capacity, 0); }
     BSS_FORCEINLINE CT Add(const T& item) { _insert(item, _capacity); return _capacity - 1; }
     BSS_FORCEINLINE CT Add(T&& item) { _insert(std::move(item), _capacity); return _capacity - 1; }
-- 
2.43.0


From b0324cf2624eae72deac7a1e674f5e21fd51ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:36 +0000
Subject: [PATCH 111/157] fix: a StringTable loaded from a stream that ended
 early took strings from uninitialised memory, and wrote outside of it if
 nothing arrived

---
 include/bss-util/StringTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 6ca7859..69816c3 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -34,7 +34,10 @@ namespace bss {
 
       _strings.SetCapacity(bytes / sizeof(T));
       stream->read((char*)(T*)_strings, _strings.Capacity() * sizeof(T));
-      _strings[(stream->gcount() / sizeof(T)) - 1] = '\0'; //make sure the end is a null terminator
+      _strings.SetCapacity((CT_)(stream->gcount() / sizeof(T))); //only keep what the stream actually delivered
+      if(_strings.Empty())
+        return;
+      _strings[_strings.Capacity() - 1] = '\0'; //make sure the end is a null terminator
 
       _indices.SetCapacity(strccount<T>(_strings, 0, _strings.Capacity()));
       bssFillN<CT_>(_indices, _indices.Capacity(), 0);
-- 
2.43.0


From 34741b31a977039ba29fa353bc2add0f5332b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:36 +0000
Subject: [PATCH 112/157] fix: a StringTable loaded from a stream had no
 strings if the first one was empty

---
 include/bss-util/StringTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 69816c3..2eb74ec 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -39,7 +39,10 @@ namespace bss {
         return;
       _strings[_strings.Capacity() - 1] = '\0'; //make sure the end is a null terminator
 
-      _indices.SetCapacity(strccount<T>(_strings, 0, _strings.Capacity()));
+      CT_ count = 0;
+      for(CT_ i = 0; i < _strings.Capacity(); ++i)
+        count += !_strings[i];
+      _indices.SetCapacity(count);
       bssFillN<CT_>(_indices, _indices.Capacity(), 0);
 
       CT_ j = 1;
-- 
2.43.0


From cb6d3256812a4c6a7667b98199d7649280ee1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:36 +0000
Subject: [PATCH 113/157] fix: appending a string to an empty StringTable read
 outside of it

---
 include/bss-util/StringTable.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 2eb74ec..484a0f8 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -67,12 +67,11 @@ namespace bss {
     inline const T* GetString(CT_ index) const { assert(index < _indices.Capacity()); return _strings + _indices[index]; }
     inline void AppendString(const char* s)
     {
-      CT_ last = internal::STR_CT<T>::SLEN(_strings + _indices[_indices.Capacity() - 1]) + 1 + _indices[_indices.Capacity() - 1];
+      CT_ last = _strings.Capacity(); // The new string starts after the terminator of the last one
       CT_ sz = internal::STR_CT<T>::SLEN(s) + 1;
 
       _indices.SetCapacity(_indices.Capacity() + 1);
       _indices[_indices.Capacity() - 1] = last; // Add another indice and set its value appropriately
-      last = _strings.Capacity();
       _strings.SetCapacity(_strings.Capacity() + sz); // Allocate more space in string buffer
       memcpy(_strings + last, s, sz); // Copy over new string (including null terminator)
     };
-- 
2.43.0


From 0983b24e7a442f94c7816825ea32f0405aabad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:36 +0000
Subject: [PATCH 114/157] fix: bssLoadFile gave uninitialised memory if the
 file could not be read, and the size in bytes instead of elements

---
 include/bss-util/bss_util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 11d08b8..f472d19 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -757,11 +757,13 @@ namespace bss {
     WFOPEN(f, file, "rb");
     if(!f) return std::pair<std::unique_ptr<T[]>, size_t>(nullptr, 0);
     fseek(f, 0, SEEK_END);
-    size_t ln = ftell(f);
+    size_t ln = (size_t)ftell(f) / sizeof(T);
     fseek(f, 0, SEEK_SET);
     std::unique_ptr<T[]> a(new T[ln + !!nullterminate]);
-    fread(a.get(), sizeof(T), ln, f);
+    ln = fread(a.get(), sizeof(T), ln, f); // only count what actually arrived
+    bool failed = ferror(f) != 0;
     fclose(f);
+    if(failed) return std::pair<std::unique_ptr<T[]>, size_t>(nullptr, 0);
     if constexpr(nullterminate)
       a[ln] = 0;
     return std::pair<std::unique_ptr<T[]>, size_t>(std::move(a), ln + !!nullterminate);
-- 
2.43.0


From 69442667fac37c5fd5f11ce95c350c545d099b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:15 +0000
Subject: [PATCH 115/157] fix: a StringTable of wide characters could not be
 dumped to a stream

---
 include/bss-util/StringTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 484a0f8..6c3a53b 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -78,7 +78,7 @@ namespace bss {
     // Returns index array
     inline const CT_* GetIndices() const { return _indices; }
     // Dumps table to stream
-    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)_strings, _strings.Capacity() * sizeof(T)); }
+    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)(const T*)_strings, _strings.Capacity() * sizeof(T)); }
 
     inline const T* operator[](CT_ index) { return GetString(index); }
     inline StringTable& operator=(const StringTable& right)
-- 
2.43.0


From b4e2303a33bb3124e0127c6e031070e1e27b535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:09 +0000
Subject: [PATCH 116/157] fix: adding an Array to itself wrote past its end

---
 include/bss-util/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 31894e5..9391fce 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -363,8 +363,9 @@ namespace bss {
     BSS_FORCEINLINE Array& operator +=(const Array& add) noexcept
     {
       CT old = _capacity;
-      BASE::_setCapacity(_capacity + add._capacity, _capacity);
-      BASE::_copy(_array + old, add._array, add._capacity);
+      CT count = add._capacity; // add can be this array
+      BASE::_setCapacity(old + count, old);
+      BASE::_copy(_array + old, add._array, count);
       return *this;
     }
     BSS_FORCEINLINE Array operator +(const Array& add) const noexcept { Array r(*this); return (r += add); }
-- 
2.43.0


From 1dc734795956fba15b4682f59694435bbca2ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 117/157] fix: a UBJSON object without a count lost its keys
 when it grew, because strings can't be moved with memcpy

---
 include/bss-util/UBJSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3c87855..0cacb11 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -42,7 +42,7 @@ namespace bss {
       TYPE_COUNT = '#',
     };
     typedef DynArray<UBJSONTuple, size_t, ARRAY_CONSTRUCT> UBJSONArray;
-    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_CONSTRUCT> UBJSONObject;
+    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_SAFE> UBJSONObject;
 
     UBJSONTuple(const UBJSONTuple& copy);
     UBJSONTuple(UBJSONTuple&& mov);
-- 
2.43.0


From 9c46048bb7d7ea719c10e1089cba133689ae5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 118/157] fix: UBJSON values that were cut off by the end of
 the stream were filled with uninitialised memory

---
 include/bss-util/UBJSON.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 0cacb11..d86a430 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -86,7 +86,8 @@ namespace bss {
     inline static T ParseInteger(std::istream& s)
     {
       T v;
-      s.read((char*)&v, sizeof(T));
+      if(!s.read((char*)&v, sizeof(T)))
+        throw std::runtime_error("Unexpected end of stream while parsing a number.");
 #ifdef BSS_ENDIAN_LITTLE
       FlipEndian<T>(&v);
 #endif
@@ -148,7 +149,8 @@ namespace bss {
         {
           int64_t length = ParseLength(s);
           buf.reserve(length + 1);
-          s.read(buf.UnsafeString(), length);
+          if(!s.read(buf.UnsafeString(), length))
+            throw std::runtime_error("Unexpected end of stream while parsing a key.");
           buf.UnsafeString()[length] = 0;
 
           if constexpr(std::is_null_pointer_v<FnInsert>)
@@ -179,8 +181,9 @@ namespace bss {
         Length = ParseLength(s);
         String = new char[(size_t)Length + 1];
 
-        if(Length > 0)
-          s.read(String, Length);
+        String[0] = 0;
+        if(Length > 0 && !s.read(String, Length))
+          throw std::runtime_error("Unexpected end of stream while parsing a string.");
 
         String[Length] = 0;
         break;
-- 
2.43.0


From 0e53f00c64f6d06808b0f0f1ab55bd750c1eefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 119/157] fix: a UBJSON array or object whose count could not
 be read was destroyed without having been constructed

---
 include/bss-util/UBJSON.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index d86a430..ce2a747 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -116,8 +116,10 @@ namespace bss {
         break;
       case TYPE_ARRAY:
       {
+        Type = TYPE_NONE; // If this throws there is no array to destroy yet
         int64_t count = ParseTypeCount(s, ty);
         new (&Array) UBJSONArray(std::is_null_pointer_v<FnAdd> ? bssmax(count, 1) : 0);
+        Type = TYPE_ARRAY;
 
         if constexpr(!std::is_null_pointer_v<FnBulk>)
           if(count >= 0 && (ty == TYPE_CHAR || ty == TYPE_UINT8 || ty == TYPE_INT8) && bulkadd(ty, count))
@@ -142,8 +144,10 @@ namespace bss {
       }
       case TYPE_OBJECT:
       {
+        Type = TYPE_NONE; // If this throws there is no object to destroy yet
         int64_t count = ParseTypeCount(s, ty);
         new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssmax(count, 1) : 0);
+        Type = TYPE_OBJECT;
         Str buf;
         while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_OBJECT_END))
         {
-- 
2.43.0


From 9ba7a1cf0d2fff6cb529ba070f55451c49180f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 120/157] fix: UBJSON arrays of values that have no bytes lost
 elements at the end of a stream, and no-ops before an end marker were errors

---
 include/bss-util/UBJSON.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index ce2a747..49c545a 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -94,6 +94,14 @@ namespace bss {
       return v;
     }
 
+    // Skips no-ops in a container that is ended by a marker
+    inline static int PeekValue(std::istream& s)
+    {
+      while(s.peek() == TYPE_NO_OP)
+        s.get();
+      return s.peek();
+    }
+
     template<typename FnAdd, typename FnInsert, typename FnBulk>
     inline void Parse(std::istream& s, TYPE ty, FnAdd add, FnInsert insert, FnBulk bulkadd)
     {
@@ -125,7 +133,7 @@ namespace bss {
           if(count >= 0 && (ty == TYPE_CHAR || ty == TYPE_UINT8 || ty == TYPE_INT8) && bulkadd(ty, count))
             break;
 
-        while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_ARRAY_END))
+        while(!!s && (count > 0 || (count < 0 && PeekValue(s) != -1 && s.peek() != TYPE_ARRAY_END)))
         {
           if constexpr(std::is_null_pointer_v<FnAdd>)
           {
@@ -149,7 +157,7 @@ namespace bss {
         new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssmax(count, 1) : 0);
         Type = TYPE_OBJECT;
         Str buf;
-        while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_OBJECT_END))
+        while(!!s && (count > 0 || (count < 0 && PeekValue(s) != -1 && s.peek() != TYPE_OBJECT_END)))
         {
           int64_t length = ParseLength(s);
           buf.reserve(length + 1);
-- 
2.43.0


From 263b92686e09b0e8f827a0840152515c19d54374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 121/157] fix: UBJSON characters were read as numbers, and
 strings were cut at an embedded zero

---
 include/bss-util/UBJSON.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 49c545a..3a43207 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -297,7 +297,7 @@ namespace bss {
         switch(tuple.Type) // we will shove just about anything we possibly can into a string
         {
         case UBJSONTuple::TYPE_NULL: break;
-        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1);
+        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1); break;
         case UBJSONTuple::TYPE_INT8: obj = std::to_string((int)tuple.Int8); break;
         case UBJSONTuple::TYPE_UINT8: obj = std::to_string(tuple.UInt8); break;
         case UBJSONTuple::TYPE_INT16: obj = std::to_string(tuple.Int16); break;
@@ -307,7 +307,7 @@ namespace bss {
         case UBJSONTuple::TYPE_DOUBLE: obj = std::to_string(tuple.Double); break;
         case UBJSONTuple::TYPE_BIGNUM:
         case UBJSONTuple::TYPE_STRING:
-          obj = tuple.String;
+          obj.assign(tuple.String, (size_t)tuple.Length);
           break;
         }
       }
-- 
2.43.0


From 8201a142798d0248e372733988bcf089992a2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:47 +0000
Subject: [PATCH 122/157] fix: reading UBJSON with a member or an array element
 that has no place to go misread everything after it

---
 include/bss-util/UBJSON.h | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3a43207..ab518b8 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -283,7 +283,7 @@ namespace bss {
   class UBJSONEngine
   {
   public:
-    UBJSONEngine() : type(UBJSONTuple::TYPE_NONE) {}
+    UBJSONEngine() : type(UBJSONTuple::TYPE_NONE), consumed(false) {}
     static constexpr bool Ordered() { return false; }
     static void Begin(Serializer<UBJSONEngine>& e) {}
     static void End(Serializer<UBJSONEngine>& e) {}
@@ -293,6 +293,7 @@ namespace bss {
       if constexpr(std::is_base_of<std::string, T>::value)
       {
         UBJSONTuple tuple;
+        e.engine.consumed = true;
         tuple.Parse(*e.in, e.engine.type);
         switch(tuple.Type) // we will shove just about anything we possibly can into a string
         {
@@ -312,7 +313,10 @@ namespace bss {
         }
       }
       else if constexpr(std::is_same<T, UBJSONTuple>::value)
+      {
+        e.engine.consumed = true;
         obj.Parse(*e.in, e.engine.type);
+      }
       else
       {
         static_assert(internal::serializer::is_serializable<UBJSONEngine, T>::value, "object missing Serialize<Engine>(Serializer<Engine>&, const char*) function!");
@@ -323,11 +327,11 @@ namespace bss {
     static void ParseMany(Serializer<UBJSONEngine>& e, F && f)
     {
       UBJSONTuple tuple;
+      e.engine.consumed = true;
       tuple.Parse(*e.in, e.engine.type, nullptr,
         [&](UBJSONTuple::TYPE ty, const char* id, size_t len)
       {
-        internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
-        f(e, id);
+        _consume(e, ty, [&]() { f(e, id); });
       }, nullptr);
       assert(tuple.Type == UBJSONTuple::TYPE_OBJECT);
     }
@@ -336,11 +340,11 @@ namespace bss {
     {
       int num = 0;
       UBJSONTuple tuple;
+      e.engine.consumed = true;
       tuple.Parse(*e.in, e.engine.type,
         [&](UBJSONTuple::TYPE ty)
       {
-        internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
-        Add(e, obj, num);
+        _consume(e, ty, [&]() { Add(e, obj, num); });
       },
         nullptr,
         [&](UBJSONTuple::TYPE, int64_t count)->bool { return Read(e, obj, count); });
@@ -350,6 +354,7 @@ namespace bss {
     static void ParseNumber(Serializer<UBJSONEngine>& e, T& obj, const char* id)
     {
       UBJSONTuple tuple;
+      e.engine.consumed = true;
       tuple.Parse(*e.in, e.engine.type);
 
       switch(tuple.Type) // as long as it's any arithmetic type, attempt to shove it into our target, casting if necessary.
@@ -372,6 +377,7 @@ namespace bss {
     static void ParseBool(Serializer<UBJSONEngine>& e, bool& obj, const char* id)
     {
       UBJSONTuple tuple;
+      e.engine.consumed = true;
       tuple.Parse(*e.in, e.engine.type);
 
       switch(tuple.Type)
@@ -479,6 +485,23 @@ namespace bss {
     }
 
     UBJSONTuple::TYPE type;
+    bool consumed; // Set once the value that comes next in the stream has been read
+
+  protected:
+    // Calls a function that should read the next value, and skips this value if nothing wanted it
+    template<typename F>
+    static void _consume(Serializer<UBJSONEngine>& e, UBJSONTuple::TYPE ty, F && f)
+    {
+      internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
+      e.engine.consumed = false;
+      f();
+      if(!e.engine.consumed)
+      {
+        UBJSONTuple skip;
+        skip.Parse(*e.in, ty);
+      }
+      e.engine.consumed = true;
+    }
   };
 }
 
-- 
2.43.0


From ede450a1ab45206c0f9e633fe4e495c914a008c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:47 +0000
Subject: [PATCH 123/157] fix: UBJSON arrays of bits, unsigned integers or
 standard containers were written as objects, which could not be read back

---
 include/bss-util/UBJSON.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index ab518b8..4903195 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -265,8 +265,11 @@ namespace bss {
     };
   };
 
+  class UBJSONEngine;
+
   namespace internal {
-    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT; };
+    // Elements of any other type (bit references, unsigned integers that don't fit, nested standard containers) have to write their own type
+    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : (internal::serializer::is_serializable<UBJSONEngine, T>::value ? UBJSONTuple::TYPE_OBJECT : UBJSONTuple::TYPE_NONE); };
     template<> struct WriteUBJSONType<uint8_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_UINT8; };
     template<> struct WriteUBJSONType<char> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_INT8; };
     template<> struct WriteUBJSONType<bool> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
-- 
2.43.0


From 7f58c58ed9bf4c3302a9d312a9f98806b185af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:47 +0000
Subject: [PATCH 124/157] fix: writing an unsigned integer that needs a UBJSON
 bignum dereferenced a number as a pointer

---
 include/bss-util/UBJSON.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 4903195..6e7d1de 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -69,8 +69,15 @@ namespace bss {
       case TYPE_INT32: Int32 = (int32_t)n; break;
       case TYPE_INT64: Int64 = (int64_t)n; break;
       case TYPE_FLOAT: Float = (float)n; break;
-      case TYPE_BIGNUM:
       case TYPE_DOUBLE: Double = (double)n; break;
+      case TYPE_BIGNUM: // A bignum is stored as a string of decimal digits
+      {
+        std::string digits = std::to_string(n);
+        Length = digits.size();
+        String = new char[(size_t)Length + 1];
+        MEMCPY(String, (size_t)Length + 1, digits.c_str(), (size_t)Length + 1);
+        break;
+      }
       default: assert(false); break;
       }
     }
@@ -373,7 +380,12 @@ namespace bss {
       case UBJSONTuple::TYPE_INT64: obj = (T)tuple.Int64; break;
       case UBJSONTuple::TYPE_FLOAT: obj = (T)tuple.Float; break;
       case UBJSONTuple::TYPE_DOUBLE: obj = (T)tuple.Double; break;
-      case UBJSONTuple::TYPE_BIGNUM: break;// we can't deal with bignum
+      case UBJSONTuple::TYPE_BIGNUM:  // the only bignums that fit into our target are those of unsigned integers and floating point numbers
+        if constexpr(std::is_unsigned<T>::value)
+          obj = (T)strtoull(tuple.String, nullptr, 10);
+        else if constexpr(std::is_floating_point<T>::value)
+          obj = (T)strtod(tuple.String, nullptr);
+        break;
       default: assert(false); break;
       }
     }
-- 
2.43.0


From 6329d65b999d9f6ef50078e82d09b0f1faaff460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:47 +0000
Subject: [PATCH 125/157] fix: reading a UBJSON array of bytes into wider
 numbers copied the bytes, and wrote to bits as if they were bytes

---
 include/bss-util/UBJSON.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 6e7d1de..6deac59 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -357,7 +357,13 @@ namespace bss {
         _consume(e, ty, [&]() { Add(e, obj, num); });
       },
         nullptr,
-        [&](UBJSONTuple::TYPE, int64_t count)->bool { return Read(e, obj, count); });
+        [&](UBJSONTuple::TYPE, int64_t count)->bool // The array has elements of a single byte, so it can only be copied to such elements
+      {
+        if constexpr(std::is_integral<E>::value && !std::is_same<E, bool>::value && sizeof(E) == 1)
+          return Read(e, obj, count);
+        else
+          return false;
+      });
       assert(tuple.Type == UBJSONTuple::TYPE_ARRAY);
     }
     template<typename T>
-- 
2.43.0


From d4e668dca73f1be0887185c0b954d39ef97d62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:47 +0000
Subject: [PATCH 126/157] fix: reading a vector of bytes with UBJSON put zeros
 before its elements

---
 include/bss-util/Serializer.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 320735d..7a6644d 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -151,8 +151,13 @@ namespace bss {
         }
         static inline bool Read(Serializer<Engine>& e, std::vector<T, Alloc>& obj, int64_t count)
         {
-          obj.resize(count);
-          return e.BulkRead(std::begin(obj), std::end(obj), count);
+          if constexpr(!std::is_trivially_constructible_v<T> || std::is_same_v<T, bool>)
+            return false;
+          else
+          {
+            obj.resize(count);
+            return e.BulkRead(obj.data(), obj.data() + obj.size(), count);
+          }
         }
         static inline void Parse(Serializer<Engine>& e, std::vector<T, Alloc>& obj, const char* id)
         {
-- 
2.43.0


From 9a4f51979add91ca4edc6b26f58895ce644e62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:47 +0000
Subject: [PATCH 127/157] fix: reading a UBJSON array of bytes into a shorter
 array misread everything after it

---
 include/bss-util/Serializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 7a6644d..237eafc 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -369,7 +369,7 @@ namespace bss {
     static inline void FixedAdd(Serializer<Engine>& e, T& obj, int& n) { if(n < (std::end(obj) - std::begin(obj))) Serializer<Engine>::template ActionBind<remove_cvref_t<decltype(obj[0])>>::Parse(e, obj[n++], 0); }
 
     template<class T>
-    static inline bool FixedRead(Serializer<Engine>& e, T& obj, int64_t count) { return e.BulkRead(std::begin(obj), std::end(obj), count); }
+    static inline bool FixedRead(Serializer<Engine>& e, T& obj, int64_t count) { return count <= (std::end(obj) - std::begin(obj)) && e.BulkRead(std::begin(obj), std::end(obj), count); }
 
     template<class T>
     static inline bool DisabledRead(Serializer<Engine>& e, T& obj, int64_t count) { return false; }
-- 
2.43.0


From caeafdb57ed6c43aed08e289bcef519ac243351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:13 +0000
Subject: [PATCH 128/157] fix: parsing into a UBJSONTuple that already had a
 value leaked it

---
 include/bss-util/UBJSON.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 6deac59..077b3d3 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -112,6 +112,8 @@ namespace bss {
     template<typename FnAdd, typename FnInsert, typename FnBulk>
     inline void Parse(std::istream& s, TYPE ty, FnAdd add, FnInsert insert, FnBulk bulkadd)
     {
+      this->~UBJSONTuple(); // Get rid of any value this already has
+      new (this) UBJSONTuple();
       Type = (TYPE)ty;
       if(Type == TYPE_NONE)
       {
-- 
2.43.0


From 36e71aa3cc27dbdc980c0bbf2045c9c912e15158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 129/157] fix: a Variant whose type was read but not its value
 held a value that had never been constructed

---
 include/bss-util/Serializer.h | 12 ++++++------
 include/bss-util/Variant.h    |  5 +++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 237eafc..dfe2241 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -195,25 +195,25 @@ namespace bss {
       template<typename... Args>
       struct ActionVariantRef
       {
-        ActionVariantRef(Variant<Args...>& ref) : _ref(ref) {}
+        ActionVariantRef(Variant<Args...>& ref, int& tag) : _ref(ref), _tag(tag) {}
 
         Variant<Args...>& _ref;
+        int& _tag;
       };
 
       template<class Engine, typename... Args>
       struct Action<Engine, ActionVariantRef<Args...>>
       {
         template<typename A, typename... Ax>
-        static inline void _parse(Serializer<Engine>& e, Variant<Args...>& obj, const char* id)
+        static inline void _parse(Serializer<Engine>& e, Variant<Args...>& obj, int tag, const char* id)
         {
-          if(obj.template is<A>())
+          if(tag == Variant<Args...>::template type<A>())
           {
-            new (&obj) Variant<Args...>(); // Set _Tag to -1
             obj.template typeset<A>(); // Properly construct type
             Action<Engine, A>::Parse(e, obj.template get<A>(), id);
           }
           else if constexpr(sizeof...(Ax) > 0)
-            _parse<Ax...>(e, obj, id);
+            _parse<Ax...>(e, obj, tag, id);
         }
         template<typename A, typename... Ax>
         static inline void _serialize(Serializer<Engine>& e, const Variant<Args...>& obj, const char* id)
@@ -228,7 +228,7 @@ namespace bss {
 
         static inline void Parse(Serializer<Engine>& e, ActionVariantRef<Args...>& obj, const char* id)
         {
-          _parse<Args...>(e, obj._ref, id);
+          _parse<Args...>(e, obj._ref, obj._tag, id);
         }
         static inline void Serialize(Serializer<Engine>& e, const ActionVariantRef<Args...>& obj, const char* id)
         {
diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 2a59cd3..be4f96b 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -114,8 +114,9 @@ namespace bss {
     template<typename Engine>
     void Serialize(Serializer<Engine>& e, const char*)
     {
-      internal::serializer::ActionVariantRef<Arg, Args...> ref(*this);
-      e.template EvaluateType<Variant>(std::pair<const char*, int&>("t", _tag), std::pair<const char*, internal::serializer::ActionVariantRef<Arg, Args...>&>("o", ref));
+      int tag = _tag; // The type only changes once there is a value of it
+      internal::serializer::ActionVariantRef<Arg, Args...> ref(*this, tag);
+      e.template EvaluateType<Variant>(std::pair<const char*, int&>("t", tag), std::pair<const char*, internal::serializer::ActionVariantRef<Arg, Args...>&>("o", ref));
     }
 
   protected:
-- 
2.43.0


From 7e098a5e5fee2f0626938a5401cc5a0c9469f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:42 +0000
Subject: [PATCH 130/157] fix: a UBJSON stream that ended after a no-op gave a
 value that is none

---
 include/bss-util/UBJSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 077b3d3..5221cd5 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -119,7 +119,7 @@ namespace bss {
       {
         do
           Type = (TYPE)s.get();
-        while(Type == TYPE_NO_OP && !!s && s.peek() != -1);
+        while(Type == TYPE_NO_OP);
       }
 
       switch(Type)
-- 
2.43.0


From 456dfaa5283ecb12c936fa1d29b081ad6e37d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 131/157] fix: assigning an empty Variant to an empty one
 failed

---
 include/bss-util/Variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index be4f96b..69d4c71 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -217,7 +217,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(false);
+          assert(_tag == -1); // both are empty
       }
     }
     template<class U, typename T, typename... Tx>
@@ -230,7 +230,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<U, Tx...>(std::move(v));
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
-- 
2.43.0


From f15668de2fae1813657cf2ae1faaa04bb4bd903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 132/157] fix: the value of a Variant was not aligned for its
 type

---
 include/bss-util/Variant.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 69d4c71..374f44c 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -38,11 +38,10 @@ namespace bss {
     template<typename A, typename... Ax>
     struct max_alignof {
       static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A);
-      typedef std::conditional<(max_alignof<Ax...>::value > alignof(A)), A, typename max_alignof<Ax...>::type> type;
     };
 
     template<typename A>
-    struct max_alignof<A> { static constexpr size_t value = alignof(A); typedef A type; };
+    struct max_alignof<A> { static constexpr size_t value = alignof(A); };
 
     template<typename X, typename... Ts> struct getpos;
 
@@ -263,11 +262,7 @@ namespace bss {
     }
 
     int _tag;
-    union
-    {
-      char _store[max_sizeof<Arg, Args...>::value]; // actual storage
-      typename max_alignof<Arg, Args...>::type _align; // simply ensures we have the correct alignment for the type with the largest alignment
-    };
+    alignas(max_alignof<Arg, Args...>::value) char _store[max_sizeof<Arg, Args...>::value]; // actual storage, aligned for the type with the largest alignment
   };
 }
 
-- 
2.43.0


From b7cec195f3d993ac97ec336ec2cf75e81a6265d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:11 +0000
Subject: [PATCH 133/157] fix: assigning to a ref_ptr dropped the old object
 before it used the new one, which could be the same or a part of it

---
 include/bss-util/RefCounter.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..c876ed1 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -63,21 +63,24 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
-      if(_p != 0) 
-        _p->Drop();
+      if(this == &right)
+        return *this;
 
+      T* old = _p;
       _p = right._p;
       right._p = 0; 
+      if(old != 0) // This is last because right could be a part of the old object
+        old->Drop();
       return *this; 
     }
     inline ref_ptr& operator=(T* right)
     { 
-      if(_p != 0) 
-        _p->Drop();
-
+      T* old = _p;
       _p = right; 
       if(_p != 0) 
         _p->Grab(); 
+      if(old != 0) // This is last because the old object could be the new one, or hold the only other reference to it
+        old->Drop();
 
       return *this; 
     }
-- 
2.43.0


From 74f6eec063397b83a9759e89265458e421985123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:11 +0000
Subject: [PATCH 134/157] fix: moving an OwnerPtr made the target an owner even
 if the source was not, and destroyed the source if it was part of the old
 object

---
 include/bss-util/SmartPtr.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..138f22c 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -42,11 +42,13 @@ namespace bss {
     { 
       _disown();
       _p = right._p; 
-      _owner = true;
+      _owner = right._p != 0;
       return *this; 
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(this == &right)
+        return *this;
       _disown();
       _p = right._p;
       _owner = false;
@@ -61,10 +63,13 @@ namespace bss {
     }
     inline OwnerPtr& operator=(OwnerPtr&& right)
     { 
-      _disown(); 
-      _p = right._p; 
-      _owner = true; 
-      right._owner = false;
+      if(this != &right)
+      {
+        OwnerPtr old(std::move(*this)); // Destroyed last, because right could be a part of the old object
+        _p = right._p; 
+        _owner = right._owner;
+        right._owner = false;
+      }
       return *this; 
     }
 
-- 
2.43.0


From d7feadb08b188229d2f192bc58bc8d344c311e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:11 +0000
Subject: [PATCH 135/157] fix: a Variant destroyed a value that was never
 constructed if copying it threw an exception

---
 include/bss-util/Variant.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 374f44c..446c0d1 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -99,8 +99,8 @@ namespace bss {
     {
       static_assert(getpos<T, Arg, Args...>::value != -1, "Type does not exist in Variant");
       _destruct();
-      _tag = getpos<T, Arg, Args...>::value;
       new(_store) T();
+      _tag = getpos<T, Arg, Args...>::value;
     }
     inline int tag() const { return _tag; }
 
@@ -125,14 +125,14 @@ namespace bss {
       typedef remove_cvref_t<U> T;
       if constexpr(std::is_same<T, Variant>::value)
       {
-        _tag = v._tag;
         _constructU<U, Arg, Args...>(std::forward<U>(v));
+        _tag = v._tag;
       }
       else
       {
         static_assert(getpos<T, Arg, Args...>::value != -1, "Type does not exist in Variant");
-        _tag = getpos<T, Arg, Args...>::value;
         new(_store) T(std::forward<U>(v));
+        _tag = getpos<T, Arg, Args...>::value;
       }
     }
 
@@ -147,8 +147,8 @@ namespace bss {
         else
         {
           _destruct();
-          _tag = v._tag;
           _constructU<U, Arg, Args...>(std::forward<U>(v));
+          _tag = v._tag;
         }
       }
       else
@@ -165,7 +165,7 @@ namespace bss {
       }
     }
 
-    inline void _destruct() { _destroy<Arg, Args...>(); }
+    inline void _destruct() { _destroy<Arg, Args...>(); _tag = -1; } // It stays empty if there is an exception before there is a new value
     template<typename T, typename... Tx>
     inline void _destroy()
     {
@@ -183,27 +183,27 @@ namespace bss {
     template<class U, typename T, typename... Tx>
     inline void _constructU(const typename std::remove_reference<U>::type& v)
     {
-      if(_tag == getpos<T, Arg, Args...>::value)
+      if(v._tag == getpos<T, Arg, Args...>::value)
         new(_store) T(*reinterpret_cast<const T*>(v._store));
       else
       {
         if constexpr(sizeof...(Tx) > 0)
           _constructU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(_tag == -1);
+          assert(v._tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
     inline void _constructU(typename std::remove_reference<U>::type&& v)
     {
-      if(_tag == getpos<T, Arg, Args...>::value)
+      if(v._tag == getpos<T, Arg, Args...>::value)
         new(_store) T((T&&)(*reinterpret_cast<T*>(v._store)));
       else
       {
         if constexpr(sizeof...(Tx) > 0)
           _constructU<U, Tx...>(std::move(v));
         else
-          assert(_tag == -1);
+          assert(v._tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
-- 
2.43.0


From cb2b80a96f4132f1bc4c6723fba54f524a70f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:10 +0000
Subject: [PATCH 136/157] fix: a DisjointSet could not be copied

---
 include/bss-util/DisjointSet.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index ed2930d..e0533bf 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -20,9 +20,9 @@ namespace bss {
 
   public:
     // Construct a disjoint set with num initial sets
-    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy.Capacity(), copy), _numsets(copy._numsets) 
+    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy._capacity, copy), _numsets(copy._numsets) 
     { 
-      memcpy(_array, copy._array, _capacity); 
+      ARRAY::_copy(_array, copy._array, _capacity);
     }
     inline DisjointSet(DisjointSet&& mov) : ARRAY(std::move(mov)), _numsets(mov._numsets) { mov._numsets = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
@@ -178,8 +178,10 @@ namespace bss {
 
     inline DisjointSet& operator=(const DisjointSet& copy) 
     {
-      SetCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(T));
+      if(this == &copy)
+        return *this;
+      ARRAY::_setCapacityDiscard(copy._capacity);
+      ARRAY::_copy(_array, copy._array, _capacity);
       _numsets = copy._numsets;
       return *this;
     }
-- 
2.43.0


From 475047368a9af307267d87b37928e5fe396d643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:10 +0000
Subject: [PATCH 137/157] fix: sets could not be added to a DisjointSet

---
 include/bss-util/DisjointSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index e0533bf..3d63baa 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -100,7 +100,8 @@ namespace bss {
     inline void AddSets(T n)
     {
       T i = _capacity;
-      SetCapacity(_capacity + n);
+      ARRAY::_setCapacity(_capacity + n);
+      _numsets += n;
 
       for(; i < _capacity; ++i)
         _array[i] = -1;
-- 
2.43.0


From 4ab8e2e66962f0bef45863f99d6097b5c8f4d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:10 +0000
Subject: [PATCH 138/157] fix: uniting a set of a DisjointSet with itself made
 it an endless loop

---
 include/bss-util/DisjointSet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index 3d63baa..87f86af 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -36,10 +36,10 @@ namespace bss {
       _capacity = num;
       Reset();
     }
-    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names.
+    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names, or are the same set.
     inline bool Union(T set1, T set2)
     {
-      if(_invalidIndex(set1) || _invalidIndex(set2))
+      if(set1 == set2 || _invalidIndex(set1) || _invalidIndex(set2))
         return false;
 
       Ty w1 = _array[set1];
-- 
2.43.0


From 43af7a3e110305c413cdcf1554ad81df5f1ec7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 139/157] fix: a Trie with more nodes than half the range of
 its index type wrote outside of its memory

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 049c7bd..e7bb3f0 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -132,7 +132,7 @@ namespace bss {
         _array[i].chr = 0;
       }
     }
-    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity(_capacity << 1); _fill(s, _capacity); } }
+    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity((_capacity > (std::numeric_limits<T>::max() >> 1)) ? std::numeric_limits<T>::max() : (T)(_capacity << 1)); _fill(s, _capacity); } }
     T _init(T len, PAIR const* str, T cnt, T level)
     {
       T r = cnt - 1;
-- 
2.43.0


From ceb068a365446be03c252708de65d64ab926b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 140/157] fix: a Trie did not find words with characters
 outside of ASCII

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index e7bb3f0..a67c075 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -105,7 +105,7 @@ namespace bss {
     inline T operator[](const char* word) const { return Get(word); }
     inline Trie& operator=(const Trie& copy) { BASE::operator=(copy); _length = copy._length; return *this; }
     inline Trie& operator=(Trie&& mov) { BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
-    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE(t.chr, c); }
+    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE((uint8_t)t.chr, (uint8_t)c); } // The words are sorted by unsigned characters
 
   protected:
     void _construct(T num, const char* const* initstr)
-- 
2.43.0


From 2fc9edae91ea71ffa4e3a43df0d1b7e7d276dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:33 +0000
Subject: [PATCH 141/157] fix: a Trie with an empty word wrote outside of its
 memory

---
 include/bss-util/Trie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index a67c075..b4aabcf 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -142,8 +142,8 @@ namespace bss {
 
       if(!c) // The only place we'll recieve the end of the word is in our starting position due to alphabetical order
       {
-        _checkSize(r + 1);
-        _array[r + 1].word = str[0].first; 
+        _checkSize(cnt);
+        _array[cnt].word = str[0].first; 
         ++str;
         --len; 
       }
-- 
2.43.0


From 0f7b4e257a29d8a2d21af574a9efd17830ff55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:59 +0000
Subject: [PATCH 142/157] fix: BreadthFirstGraph visited a node once for each
 edge to it, and wrote past the end of its queue

---
 include/bss-util/Graph.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 163c736..5cfc686 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -423,7 +423,7 @@ namespace bss {
     size_t l = 0;
     for(E* edge = n[root].to; edge != 0; edge = edge->next)
     {
-      if(edge->to != root)
+      if(set.Union(root, edge->to)) // This fails if there was an edge to the same node before
         queue[l++] = edge->to;
     }
 
@@ -432,11 +432,9 @@ namespace bss {
       if(FACTION(queue[i]))
         return;
 
-      set.Union(root, queue[i]);
-
       for(E* edge = n[queue[i]].to; edge != 0; edge = edge->next)
       {
-        if(set.Find(edge->to) != root) //Enqueue the children if they aren't already in the set.
+        if(set.Union(root, edge->to)) // Enqueue the children if they aren't already in the set.
           queue[l++] = edge->to; // Doesn't need to be circular because we can only enqueue n-1 anyway.
       }
     }
-- 
2.43.0


From eee453267a0622df6e72b78bd434e9cfbadc3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:59 +0000
Subject: [PATCH 143/157] fix: Graph::ToMatrix wrote the nodes outside of the
 array if one had been removed

---
 include/bss-util/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 5cfc686..2b4d26e 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -141,7 +141,7 @@ namespace bss {
 
       for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i))
       {
-        _setVertex(nodes, i, _nodes[i]);
+        _setVertex(nodes, hash[i], _nodes[i]);
 
         for(cur = _nodes[i].to; cur != 0; cur = cur->next)
           _getData(matrix[(hash[i] * len) + hash[cur->to]], *cur);
-- 
2.43.0


From 8496c7ce8a78e9f1d63e1cb5c3209dd531cec5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 144/157] fix: queues, trees and graphs of different threads
 shared the free list of their default allocator without synchronisation

---
 include/bss-util/AATree.h        | 2 +-
 include/bss-util/AVLTree.h       | 4 ++--
 include/bss-util/Graph.h         | 4 ++--
 include/bss-util/KDTree.h        | 4 ++--
 include/bss-util/LocklessQueue.h | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 4b6fd81..055bce6 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -18,7 +18,7 @@ namespace bss {
   };
 
   // An AA tree, similar to a left leaning red-black tree, except not completely stupid.
-  template<typename T, char(*CFunc)(const T&, const T&) = CompT<T>, typename Alloc = PolymorphicAllocator<AANODE<T>, BlockPolicy>>
+  template<typename T, char(*CFunc)(const T&, const T&) = CompT<T>, typename Alloc = PolymorphicAllocator<AANODE<T>, LocklessBlockPolicy>>
   class AATree : Alloc
   {
   public:
diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index d2652a3..6819fe8 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -5,7 +5,7 @@
 #define __AVLTREE_H__BSS__
 
 #include "compare.h"
-#include "BlockAlloc.h"
+#include "BlockAllocMT.h"
 
 namespace bss {
   template<class KeyData> // If data is non-void, KeyData is std::pair<Key,Data>, otherwise it's just Key
@@ -79,7 +79,7 @@ namespace bss {
   }
 
   // AVL Tree implementation
-  template<class Key, class Data, char(*CFunc)(const Key&, const Key&) = CompT<Key>, typename Alloc = PolymorphicAllocator<typename internal::AVLTreeDataField<Key, Data>::Node, BlockPolicy>>
+  template<class Key, class Data, char(*CFunc)(const Key&, const Key&) = CompT<Key>, typename Alloc = PolymorphicAllocator<typename internal::AVLTreeDataField<Key, Data>::Node, LocklessBlockPolicy>>
   class BSS_COMPILER_DLLEXPORT AVLTree : protected Alloc, public internal::AVLTreeDataField<Key, Data>
   {
     AVLTree(const AVLTree& copy) = delete;
diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 2b4d26e..4ed4648 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -5,7 +5,7 @@
 #define __BSS_GRAPH_H__
 
 #include "LinkedArray.h"
-#include "BlockAlloc.h"
+#include "BlockAllocMT.h"
 #include "DisjointSet.h"
 #include "LLBase.h"
 #include <limits.h>
@@ -54,7 +54,7 @@ namespace bss {
   }
 
   // Represents a graph using an adjacency list. Converts to and from an adjacency matrix representation.
-  template<typename E, typename V, typename CT = uint16_t, typename Alloc = PolymorphicAllocator<Edge<E, CT>, BlockPolicy>, typename NODEALLOC = StandardAllocator<internal::LINKEDNODE<Node<E, V, CT>, CT>>, ARRAY_TYPE ArrayType = ARRAY_SIMPLE>
+  template<typename E, typename V, typename CT = uint16_t, typename Alloc = PolymorphicAllocator<Edge<E, CT>, LocklessBlockPolicy>, typename NODEALLOC = StandardAllocator<internal::LINKEDNODE<Node<E, V, CT>, CT>>, ARRAY_TYPE ArrayType = ARRAY_SIMPLE>
   class Graph : public Alloc, protected internal::__Graph__InternalEdge<E>, protected internal::__Graph__InternalVertex<V, CT>
   {
     static BSS_FORCEINLINE bool _baseCheck(const char* b) { return (*b) != 0; }
diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 2060519..3d13268 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -5,7 +5,7 @@
 #define __KD_TREE_H__BSS__
 
 #include "compare.h"
-#include "BlockAlloc.h"
+#include "BlockAllocMT.h"
 #include "LLBase.h"
 #include <float.h> // for FLT_MAX on linux
 
@@ -30,7 +30,7 @@ namespace bss {
   };
 
   // KD-tree storing arbitrary rectangles. Requires a function turning T into a float[4] reference, LLBASE<T> list, and an action.
-  template<typename T, const float* (*FRECT)(T*), LLBase<T>& (*FLIST)(T*), KDNode<T>*& (*FNODE)(T*), typename Alloc = PolymorphicAllocator<KDNode<T>, BlockPolicy>>
+  template<typename T, const float* (*FRECT)(T*), LLBase<T>& (*FLIST)(T*), KDNode<T>*& (*FNODE)(T*), typename Alloc = PolymorphicAllocator<KDNode<T>, LocklessBlockPolicy>>
   class KDTree : protected Alloc
   {
     inline KDTree(const KDTree&) = delete;
diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index e08061b..35f9ca8 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -41,7 +41,7 @@ namespace bss {
   }
 
   // Single-producer single-consumer lockless queue implemented in such a way that it can use a normal single-threaded allocator
-  template<typename T, typename LENGTH = void, typename Alloc = PolymorphicAllocator<internal::LQ_QNode<T>, BlockPolicy>>
+  template<typename T, typename LENGTH = void, typename Alloc = PolymorphicAllocator<internal::LQ_QNode<T>, LocklessBlockPolicy>>
   class LocklessQueue : public internal::LocklessQueue_Length<LENGTH>, public Alloc
   {
     typedef internal::LQ_QNode<T> QNODE;
-- 
2.43.0


From b10d8c5b7fb78527c59b069eb5a0af7e6b77945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 145/157] fix: moving a Graph into another one never gave the
 edges of the other one back

---
 include/bss-util/Graph.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 4ed4648..85fa43f 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -78,7 +78,7 @@ namespace bss {
     // Build a matrix out of only a list of nodes
     inline Graph(CT n, const V* nodes) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(nodes + i); }
     inline explicit Graph(CT n) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(); }
-    inline ~Graph() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
+    inline ~Graph() { _removeEdges(); }
     inline CT NumNodes() const { return _nodes.Length(); }
     inline CT NumEdges() const { return _nedges; }
     inline CT Capacity() const { return _nodes.Capacity(); }
@@ -153,6 +153,9 @@ namespace bss {
     inline Node<E, V, CT>& operator[](CT index) { return _nodes[index]; }
     inline Graph& operator=(Graph&& mov) 
     { 
+      if(this == &mov)
+        return *this;
+      _removeEdges();
       Alloc::operator=(std::move(mov));
       _nodes = std::move(mov._nodes); 
       _nedges = mov._nedges; 
@@ -166,6 +169,7 @@ namespace bss {
     typedef Edge<E, CT> EDGE_;
 
   protected:
+    inline void _removeEdges() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
     template<typename D, bool(*ISEDGE)(const D*)>
     void _construct(CT n, const D* M, const V* nodes)
     {
-- 
2.43.0


From bb4c94b6481f9d86567013cb7ea705415645b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:27 +0000
Subject: [PATCH 146/157] fix: MaxFlow_PushRelabel did not find the maximum
 flow, mixed up vertices, and read outside of its memory for graphs of two
 nodes

---
 include/bss-util/Graph.h | 55 ++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 85fa43f..fffcdd2 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -210,10 +210,12 @@ namespace bss {
     VARARRAY(int, excess, cap);
     VARARRAY(CT, height, cap);
     VARARRAY(PEDGE, seen, cap);
+    VARARRAY(bool, backward, cap); // true if seen is one of the edges to a vertex instead of one from it
     VARARRAY(PAIR, v, (len - 2)); //integer based singly-linked list.
     bssFillN<int>(excess, cap);
     bssFillN<CT>(height, cap);
     bssFillN<PEDGE>(seen, cap);
+    bssFillN<bool>(backward, cap);
     bssFillN<PAIR>(v, (len - 2), -1);
     PEDGE edge;
     auto& nodes = graph.GetNodes();
@@ -221,13 +223,13 @@ namespace bss {
     height[s] = len;
     excess[s] = (INT_MAX >> 1); //ensures we can't blow stuff up while sending flow backwards
 
-    CT root;
+    CT root = (CT)-1;
     CT* plast = &root;
     CT k = 0; // Build a list of all vertices except s and t
 
     for(CT i = nodes.Front(); i != (CT)-1; nodes.Next(i))
     {
-      seen[k] = nodes[i].to;
+      seen[i] = nodes[i].to;
 
       if(i != s && i != t)
       {
@@ -243,7 +245,7 @@ namespace bss {
     for(edge = nodes[s].to; edge != 0; edge = edge->next)
     {
       edge->data.flow = edge->data.capacity;
-      excess[edge->to] = edge->data.capacity;
+      excess[edge->to] += edge->data.capacity;
     }
 
     int send;
@@ -263,49 +265,42 @@ namespace bss {
           send = INT_MAX;
 
           for(edge = nodes[k].to; edge != 0; edge = edge->next)
-          { // First we try to send it forward
-            if(edge->data.capacity - edge->data.flow > 0)
-            {
-              if(height[edge->to] < send) send = height[edge->to];
-              height[k] = send + 1; // we have to do this in here because if there is no valid relabel, the height can't change.
-            }
-          }
-
-          if(send == INT_MAX) // If this is true, our forward relabel failed, so that means we need to try to push things backwards
           {
-            for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
-            {
-              if(edge->data.flow > 0)
-              { // Negate the flow and set capacity to 0 because we're going backwards
-                if(height[edge->from] < send)
-                  send = height[edge->from];
-
-                height[k] = send + 1;
-              }
-            }
-            seen[k] = nodes[k].from;
+            if(edge->data.capacity - edge->data.flow > 0 && height[edge->to] < send)
+              send = height[edge->to];
           }
-          else
-            seen[k] = nodes[k].to;
-
+          for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
+          { // Flow can also be pushed backwards
+            if(edge->data.flow > 0 && height[edge->from] < send)
+              send = height[edge->from];
+          }
+          assert(send != INT_MAX); // The excess came from somewhere, so it can at least be pushed back
+          height[k] = (CT)(send + 1);
+          backward[k] = !nodes[k].to;
+          seen[k] = backward[k] ? nodes[k].from : nodes[k].to;
           continue;
         }
         if(excess[k] > 0)
         {// If possible, do a push. We must check whether our current edge is backwards or not
-          send = (seen[k]->from == k) ? seen[k]->data.capacity - seen[k]->data.flow : seen[k]->data.flow;
-          target = (seen[k]->from == k) ? seen[k]->to : seen[k]->from;
+          send = !backward[k] ? seen[k]->data.capacity - seen[k]->data.flow : seen[k]->data.flow;
+          target = !backward[k] ? seen[k]->to : seen[k]->from;
 
           if(height[k] > height[target] && send > 0)
           { // If possible, do a push
             if(excess[k] < send)
               send = excess[k]; // send an amount equal to min(excess, capacity - flow)
 
-            seen[k]->data.flow += (seen[k]->from == k) ? send : -send; // Negate if the edge is backwards
+            seen[k]->data.flow += !backward[k] ? send : -send; // Negate if the edge is backwards
             excess[target] += send;
             excess[k] -= send;
           }
         }
-        seen[k] = (seen[k]->from == k) ? seen[k]->next : seen[k]->alt.next;
+        seen[k] = !backward[k] ? seen[k]->next : seen[k]->alt.next;
+        if(!seen[k] && !backward[k]) // After all edges from this vertex, try to push back through the edges to it
+        {
+          backward[k] = true;
+          seen[k] = nodes[k].from;
+        }
       }
 
       if(lh != height[k]) // If the height changed...
-- 
2.43.0


From ff14a9058e327357afcae526099faa80fc2ed426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 147/157] fix: moving a CacheAlloc left its lists of free
 blocks behind, so blocks could not be returned to the new one

---
 include/bss-util/CacheAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index 5601037..0d8850e 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -15,7 +15,7 @@ namespace bss {
     CacheAlloc& operator=(const CacheAlloc& copy) = delete;
     
   public:
-    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign) {}
+    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign), _cache(std::move(mov._cache)) {}
     inline explicit CacheAlloc(size_t maxsize = 8192, size_t init = 64, size_t align = 1) : GreedyAlloc(init, align), _maxsize(maxsize), _debugalign(bssmax(align, sizeof(size_t))) {}
     inline ~CacheAlloc() {}
 
-- 
2.43.0


From e208096d44617b5c6f8fa526af316049ae55ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:22 +0000
Subject: [PATCH 148/157] fix: assigning a GreedyAlloc or CacheAlloc never gave
 the memory of the old one back

---
 include/bss-util/CacheAlloc.h  | 2 ++
 include/bss-util/GreedyAlloc.h | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index 0d8850e..7713349 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -107,6 +107,8 @@ namespace bss {
 
     CacheAlloc& operator=(CacheAlloc&& mov) noexcept
     {
+      if(this == &mov)
+        return *this;
       GreedyAlloc::operator=(std::move(mov));
       _cache = std::move(mov._cache);
       assert(_maxsize == mov._maxsize);
diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index f5bf9c9..e855a0a 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -124,6 +124,15 @@ namespace bss {
 
     GreedyAlloc& operator=(GreedyAlloc&& mov)
     {
+      if(this == &mov)
+        return *this;
+      for(Node* hold = _root.load(std::memory_order_relaxed); hold != 0;)
+      {
+        Node* next = hold->next;
+        ALIGNEDFREE(hold);
+        hold = next;
+      }
+
       _root.store(mov._root.load(std::memory_order_relaxed), std::memory_order_relaxed);
       _curpos.store(mov._curpos.load(std::memory_order_relaxed), std::memory_order_relaxed);
       assert(_align == mov._align);
-- 
2.43.0


From 8a3c7097fca35f12b772c999f308f35b80ac6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:22 +0000
Subject: [PATCH 149/157] fix: assigning a LocklessBlockPolicy never gave the
 memory of the old one back

---
 include/bss-util/BlockAllocMT.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index 0259175..89c26d4 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -92,6 +92,15 @@ namespace bss {
 
     LocklessBlockPolicy& operator=(LocklessBlockPolicy&& mov) noexcept
     {
+      if(this == &mov)
+        return *this;
+      for(Node* hold = _root; hold != 0;)
+      {
+        Node* next = hold->next;
+        free(hold);
+        hold = next;
+      }
+
       _root = mov._root;
       _freelist.p = mov._freelist.p;
       _freelist.tag = mov._freelist.tag;
-- 
2.43.0


From 76defbab689a3f27f7ea82f6aab6636e1f3dbac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:22 +0000
Subject: [PATCH 150/157] fix: assigning a RingAlloc to itself made it unusable

---
 include/bss-util/RingAlloc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/RingAlloc.h b/include/bss-util/RingAlloc.h
index 0bd7888..ba9e1e3 100644
--- a/include/bss-util/RingAlloc.h
+++ b/include/bss-util/RingAlloc.h
@@ -119,6 +119,8 @@ namespace bss {
 
     RingAllocVoid& operator=(RingAllocVoid&& mov) noexcept
     {
+      if(this == &mov)
+        return *this;
       _clear();
       _gc = mov._gc;
       _lastsize = mov._lastsize;
-- 
2.43.0


From bee4a5a3657ce193ec1a188c97dd1a8b2d0956eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:39 +0000
Subject: [PATCH 151/157] fix: a BlockAlloc that was moved or had no memory for
 its first chunk dereferenced a null pointer

---
 include/bss-util/BlockAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BlockAlloc.h b/include/bss-util/BlockAlloc.h
index 0e47a16..6a44e42 100644
--- a/include/bss-util/BlockAlloc.h
+++ b/include/bss-util/BlockAlloc.h
@@ -53,7 +53,7 @@ namespace bss {
 #endif
       if(!_freelist)
       {
-        _allocChunk(fbnext(_root->size / _sz)*_sz);
+        _allocChunk(fbnext(!_root ? 0 : _root->size / _sz)*_sz); // There is no root if this was moved or the first allocation failed
         assert(_freelist != 0);
         if(!_freelist)
           return nullptr;
-- 
2.43.0


From 67dc485a2ea7d5aafd3c0f01465dabe081596c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:39 +0000
Subject: [PATCH 152/157] fix: aligned_realloc wrote to a null pointer and lost
 the old memory if there was no memory

---
 include/bss-util/Alloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Alloc.h b/include/bss-util/Alloc.h
index 3a17697..6f62d6c 100644
--- a/include/bss-util/Alloc.h
+++ b/include/bss-util/Alloc.h
@@ -18,7 +18,7 @@ namespace bss {
     return _aligned_realloc(p, size, align);
 #else
     void* n = aligned_alloc(align, size);
-    if(p)
+    if(p && n) // If there is no memory, p stays as it was
     {
       size_t old = malloc_usable_size(p);
       memcpy(n, p, bssmin(old, size));
-- 
2.43.0


From ca1cdcc66ae502f488c0283defb89f23d3e349ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:59 +0000
Subject: [PATCH 153/157] fix: a LocklessQueue could not be moved

---
 include/bss-util/LocklessQueue.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 35f9ca8..ae8c0fb 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -49,7 +49,7 @@ namespace bss {
     LocklessQueue& operator=(const LocklessQueue&) = delete;
 
   public:
-    LocklessQueue(LocklessQueue&& mov) : Alloc(std::move(mov)), internal::LocklessQueue_Length<LENGTH>(std::move(mov)), _div(mov._div), _last(mov._last), _first(mov._first) { mov._div = mov._last = mov._first = 0; }
+    LocklessQueue(LocklessQueue&& mov) : Alloc(std::move(mov)), internal::LocklessQueue_Length<LENGTH>(std::move(mov)), _first(mov._first), _div(mov._div.load(std::memory_order_relaxed)), _last(mov._last.load(std::memory_order_relaxed)) { mov._div = mov._last = mov._first = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LocklessQueue(typename Alloc::policy_type* policy) : Alloc(policy)
     {
@@ -91,9 +91,17 @@ namespace bss {
 
     inline LocklessQueue& operator=(LocklessQueue&& mov)
     {
+      if(this == &mov)
+        return *this;
+      while(QNODE* tmp = _first)
+      {
+        _first = _first->next;
+        tmp->~QNODE();
+        Alloc::deallocate(tmp, 1);
+      }
       Alloc::operator=(std::move(mov));
-      _div = mov._div;
-      _last = mov._last;
+      _div = mov._div.load(std::memory_order_relaxed);
+      _last = mov._last.load(std::memory_order_relaxed);
       _first = mov._first;
       mov._div = mov._last = mov._first = 0;
       internal::LocklessQueue_Length<LENGTH>::operator=(std::move(mov));
-- 
2.43.0


From da86b6acf4c07e81c845f14946622d2a66165329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:10 +0000
Subject: [PATCH 154/157] fix: assigning a MicroLockQueue never destroyed the
 items of the old one

---
 include/bss-util/LocklessQueue.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index ae8c0fb..6b03d4a 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -197,6 +197,14 @@ namespace bss {
     inline bool Peek() { return _div->next != 0; }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
+      if(this == &mov)
+        return *this;
+      while(QNODE* tmp = _div)
+      {
+        _div = _div->next;
+        tmp->~QNODE();
+        Alloc::deallocate(tmp, 1);
+      }
       Alloc::operator=(std::move(mov));
       _div = mov._div;
       _last = mov._last;
-- 
2.43.0


From 4f2c75578f0444d4ef86fef1a5994dfdaf307039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:15 +0000
Subject: [PATCH 155/157] fix: assigning an AliasTable to itself lost its
 probabilities

---
 include/bss-util/AliasTable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index 479ec22..e0d6623 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -107,6 +107,8 @@ namespace bss {
 
     inline AliasTable& operator=(const AliasTable& copy)
     {
+      if(this == &copy)
+        return *this;
       _count = copy._count;
       _dist = copy._dist;
       _fdist = copy._fdist;
-- 
2.43.0


From ed53d4cec63962ac15c8f9b9b8d6426d1752ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:58 +0000
Subject: [PATCH 156/157] fix: every RingAlloc::Clear asked for a larger bucket
 until memory ran out

---
 include/bss-util/RingAlloc.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/RingAlloc.h b/include/bss-util/RingAlloc.h
index ba9e1e3..d6de5c3 100644
--- a/include/bss-util/RingAlloc.h
+++ b/include/bss-util/RingAlloc.h
@@ -113,7 +113,7 @@ namespace bss {
     {
       _clear();
       _lock.Lock();
-      _cur.store(_genBucket(_lastsize), std::memory_order_release);
+      _cur.store(_newBucket(_lastsize), std::memory_order_release); // Not _genBucket, which grows _lastsize, or clearing over and over would ask for ever larger buckets
       _lock.Unlock();
     }
 
@@ -152,6 +152,17 @@ namespace bss {
       _cur.store(0, std::memory_order_release);
       _lock.Unlock();
     }
+    Bucket* _newBucket(size_t sz) noexcept
+    {
+      Bucket* hold = (Bucket*)calloc(1, sizeof(Bucket) + sz);
+      new (&hold->lock) RWLock();
+      hold->sz = sz;
+      AltLLAdd<Bucket, &_getBucket>(hold, _list);
+#ifdef BSS_DEBUG
+      memset(hold + 1, 0xfc, hold->sz);
+#endif
+      return hold;
+    }
     // It is crucial that only allocation sizes are passed into this, or the ring allocator will simply keep allocating larger and larger buckets forever
     Bucket* _genBucket(size_t num) noexcept
     {
@@ -185,13 +196,7 @@ namespace bss {
       if(!hold) // If hold is nullptr we need a new bucket
       {
         _lastsize = T_FBNEXT(_lastsize);
-        hold = (Bucket*)calloc(1, sizeof(Bucket) + _lastsize);
-        new (&hold->lock) RWLock();
-        hold->sz = _lastsize;
-        AltLLAdd<Bucket, &_getBucket>(hold, _list);
-#ifdef BSS_DEBUG
-        memset(hold + 1, 0xfc, hold->sz);
-#endif
+        hold = _newBucket(_lastsize);
       }
       else
       {
-- 
2.43.0


From fcfb3064a9e4bdb89a9c26a6d43fb712858c6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:53 +0000
Subject: [PATCH 157/157] fix: an XML value of true was false as a boolean

---
 bss-util/XML.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 31949d9..6d249ea 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -366,6 +366,8 @@ void XMLNode::_evalValue(XMLValue& val)
       val.Integer = (int64_t)strtoull(val.String, &c, 16);
     else if(val.String.length() > 1 && val.String[0] == '0' && val.String[1] == 'b')
       val.Integer = (int64_t)strtoull(val.String, &c, 2);
+    else if(!STRICMP(val.String.c_str(), "true"))
+      val.Integer = 1;
     else
       val.Integer = (int64_t)strtoull(val.String, &c, 10);
 
-- 
2.43.0


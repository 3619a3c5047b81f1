From e02c9814a41c14dea01eeab71fc1a243ad4e8739 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 01/21] fix: count with size_t in strdup, memcpy, strcat and
 strncat

A 32-bit counter never reaches a length of 4 GiB or more, so these
functions looped forever overwriting the first 4 GiB.
---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..719b751 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2218,7 +2218,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2253,7 +2253,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2386,7 +2386,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2417,7 +2417,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0


From 6acaea2006fc9c65b1c39eeae9baa3eaab0a8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 02/21] fix: strncpy and strncat test overlap against the text
 they really read

strncpy accepted a destination at the source's terminator, where it then
reads its own output and never sees the end of the string; strncat
refused a disjoint call whose source is cut off by the size right before
the destination's end.
---
 src/duma.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 719b751..2ff502a 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2347,11 +2347,13 @@ char *_duma_strcpy(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncpy(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  size_t i, srclen;
+  size_t i, srclen, srcsize;
 
   srclen = _duma_strnlen(src, size);
+  /* characters read from src: the terminator, too, when it is in range */
+  srcsize = (srclen < size) ? srclen + 1 : size;
 
-  if (size > 0 && ((src < dest && dest < src + srclen) ||
+  if (size > 0 && ((src < dest && dest < src + srcsize) ||
                    (dest < src && src < dest + size))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncpy(%a, %a, %d): memory regions overlap at %s(%i).",
@@ -2418,7 +2420,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
   size_t i;
-  size_t destlen, srclen;
+  size_t destlen, srclen, srcsize;
 
   /* do nothing, when size not > 0 */
   if (size <= 0)
@@ -2427,9 +2429,11 @@ char *_duma_strncat(char *dest, const char *src,
   /* calculate number of characters to copy from src to dest */
   destlen = strlen(dest);
   srclen = _duma_strnlen(src, size);
+  /* characters read from src: the terminator, too, when it is in range */
+  srcsize = (srclen < size) ? srclen + 1 : size;
 
   /* CHECK: Verify memory regions do not overlap */
-  if (src < (dest + destlen) && (dest + destlen) < (src + srclen + 1)) {
+  if (src < (dest + destlen) && (dest + destlen) < (src + srcsize)) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncat(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0


From 75e7fc2b401e50499688372499a39d72a1551ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 03/21] fix: refuse sizes that wrap when the guard page is
 added

---
 src/duma.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 2ff502a..cc2dd5a 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1431,6 +1431,15 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 
     if (alignment > DUMA_PAGE_SIZE)
       internalSize += alignment - DUMA_PAGE_SIZE;
+
+    /* the size including guard page and alignment must be representable */
+    if (userSize > (size_t)-1 - 2 * DUMA_PAGE_SIZE ||
+        alignment > (size_t)-1 - 2 * DUMA_PAGE_SIZE - userSize) {
+      if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+        DUMA_Abort("Allocating %d byte(s) failed: size too large",
+                   (DUMA_SIZE)userSize);
+      return (void *)userAddr;
+    }
   } /* end if ( userSize ) */
 
   /*
-- 
2.43.0


From 4b2c6e2d2642cb902530a4324e15eda51cfa4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 04/21] fix: calloc refuses a product that overflows

---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index cc2dd5a..bbf30e4 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2041,6 +2041,12 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
+  /* a product that is not representable can not be allocated */
+  if (elsize && nelem > (size_t)-1 / elsize) {
+    nelem = (size_t)-1;
+    elsize = 1;
+  }
+
   return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From ee855e409b282666cc90b94537211c891ed150d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 05/21] fix: Page_Create no longer truncates the size to int

---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From aeb3b1eebf24a93cb4d3bf6cb75144f4b09dfdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 06/21] fix: with protection below allow access up to the end
 of the block's region only

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index bbf30e4..985c2db 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1669,7 +1669,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
       /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      Page_AllowAccess((char *)userAddr, endAddr - userAddr);
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From 740421fd393121b769cd4c416606eb67d7b5f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 07/21] fix: test all bits of the alignment for being a power
 of 2

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 985c2db..f480801 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1408,7 +1408,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       alignment = (size_t)a; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment != (alignment & -alignment)) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
-- 
2.43.0


From 8a2717685c260dcc66993ac3968a3826e7137cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 08/21] fix: read DUMA_MALLOC_0_STRATEGY and
 DUMA_NEW_0_STRATEGY under their documented names

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index f480801..c13e7c6 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -825,7 +825,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for malloc(0).
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -834,7 +835,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for C++ operator new with size zero.
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_NEW_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From 475d135b8daae381b88d08d92d4e66430ccd622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 09/21] fix: honour DUMA_MALLOC_FAILEXIT also when freed memory
 is not protected

---
 src/duma.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index c13e7c6..8b93018 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1580,11 +1580,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
             chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
 
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-- 
2.43.0


From f1764fc995cde479ff340535e6196cc9acddd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 10/21] fix: account for reclaimed memory also when less than
 requested was reclaimed

---
 duma_hlp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..d68a8e0 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -89,6 +89,9 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  /* less than requested, but account for what has been freed */
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
   return 0;
 }
 
-- 
2.43.0


From cd5267c40fa23f350e94548cffc01d6c79c17f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 11/21] fix: malloc_usable_size takes the lock

---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 8b93018..47d9553 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2215,6 +2215,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
   if (!(slot = slotForUserAddress(ptr))) {
@@ -2225,6 +2228,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
   return size;
 }
 
-- 
2.43.0


From 4447f816821a013e4e2da5527d69b20bd0c67b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 12/21] fix: DUMA_delFrame reads the table's address and size
 under the lock

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 47d9553..adfb408 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2558,8 +2558,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2569,6 +2569,8 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
-- 
2.43.0


From 0eb96f24324a5fc8d4bed4effc7eeb94a7fbfe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 13/21] fix: duma_check and malloc_usable_size accept exactly
 live blocks and the shared zero-size address

---
 src/duma.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index adfb408..453610c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1940,7 +1940,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 void duma_check(void *address) {
   struct _DUMA_Slot *slot;
 
-  if (0 == address)
+  if (0 == address || _duma_g.null_addr == address)
     return;
 
   IF__DUMA_INIT_DONE
@@ -1983,7 +1983,9 @@ void duma_check(void *address) {
     else
 #endif
       DUMA_Abort("check(%a): memory already freed.", (DUMA_ADDR)address);
-  }
+  } else if (DUMAST_IN_USE != slot->state || EFA_INT_ALLOC == slot->allocator)
+    DUMA_Abort("check(%a): address not from DUMA or already freed.",
+               (DUMA_ADDR)address);
 
   /* CHECK INTEGRITY OF NO MANS LAND */
   _duma_check_slack(slot);
@@ -2220,7 +2222,8 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(ptr))) {
+  if (!(slot = slotForUserAddress(ptr)) || DUMAST_IN_USE != slot->state ||
+      EFA_INT_ALLOC == slot->allocator) {
     DUMA_Abort("malloc_usable_size(%a): address not from malloc.",
       (DUMA_ADDR)ptr);
   }
-- 
2.43.0


From ee7c518c6c2d6c31d04299fbcd39f143374607b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 14/21] fix: realloc diagnoses addresses that are no live block
 before it allocates or copies

---
 src/duma.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 453610c..b837b4a 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2147,21 +2147,30 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                      EFA_REALLOC DUMA_PARAMS_FL);
     ptr = NULL;
   } else {
-    ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
-                         0 /*=protectAllocList*/, EFA_REALLOC,
-                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
+    size_t oldSize = 0;
 
-    DUMA_ASSERT(oldBuffer);
-    if (ptr) {
+    /* the shared address of zero-size blocks has no slot and no content */
+    if (_duma_g.null_addr != oldBuffer) {
       struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
 
-      if (slot == 0)
+      /* nothing but a live block may be reallocated */
+      if (slot == 0 || DUMAST_IN_USE != slot->state ||
+          EFA_INT_ALLOC == slot->allocator)
         DUMA_Abort("realloc(%a, %d): address not from malloc().",
                    (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
 
-      if (newSize > slot->userSize) {
-        memcpy(ptr, oldBuffer, slot->userSize);
-        memset((char *)ptr + slot->userSize, 0, newSize - slot->userSize);
+      oldSize = slot->userSize;
+    }
+
+    ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
+                         0 /*=protectAllocList*/, EFA_REALLOC,
+                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
+
+    DUMA_ASSERT(oldBuffer);
+    if (ptr) {
+      if (newSize > oldSize) {
+        memcpy(ptr, oldBuffer, oldSize);
+        memset((char *)ptr + oldSize, 0, newSize - oldSize);
       } else // if (newSize > 0) // (newSize <= 0) already in other case
         memcpy(ptr, oldBuffer, newSize);
 
-- 
2.43.0


From 1ab9b050459bf22fc87ee72e1ade2fd6a9c2fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 15/21] fix: deleting NULL before the first allocation is a
 no-op

---
 src/duma.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index b837b4a..56aaf78 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1750,6 +1750,9 @@ void _duma_deallocate(void *address, int protectAllocList,
   struct _DUMA_Slot *slot;
   long internalSizekB;
 
+  if (0 == address)
+    return;
+
   if (0 == _duma_g.allocList) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
@@ -1760,7 +1763,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 #endif
   }
 
-  if (0 == address || _duma_g.null_addr == address)
+  if (_duma_g.null_addr == address)
     return;
 
   if (protectAllocList) {
-- 
2.43.0


From f3be0932f1221d02a0d93f22188f5d72b7a620d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 16/21] fix: DUMA_SKIPCOUNT_INIT is a count, not a flag

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 56aaf78..c25970f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -946,7 +946,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-    _duma_s.SKIPCOUNT_INIT = (atoi(string) != 0);
+    _duma_s.SKIPCOUNT_INIT = atoi(string);
 
   /* Get Value for DUMA_CHECK_FREQ */
   if ((string = DUMA_GETENV("DUMA_CHECK_FREQ")) != 0) {
-- 
2.43.0


From 64fdea3c185583cb78791775931e6203471c7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 17/21] fix: print LONG_MIN correctly

---
 src/print.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/print.c b/src/print.c
index 7ef5425..0827f2e 100644
--- a/src/print.c
+++ b/src/print.c
@@ -211,9 +211,10 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
         long n = va_arg(args, long);
         if (n < 0) {
           buffer[len++] = '-';
-          n = -n;
-        }
-        len += sprintLong(&buffer[len], n, 10);
+          /* -LONG_MIN does not fit into a long */
+          len += sprintAddr(&buffer[len], (DUMA_ADDR)0 - (DUMA_ADDR)n, 10);
+        } else
+          len += sprintLong(&buffer[len], n, 10);
         break;
       }
       case 's': /* string */
-- 
2.43.0


From 09135f94760b5c2540485f12472066780c86f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 18/21] fix: formatting of diagnostics stays inside its buffer

---
 src/print.c | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/print.c b/src/print.c
index 0827f2e..1c23a50 100644
--- a/src/print.c
+++ b/src/print.c
@@ -90,7 +90,8 @@ typedef LPVOID caddr_t;
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
 static int sprintLong(char *dest, long number, long base);
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
+static int DUMA_vsprintf(char *buffer, size_t size, const char *pattern,
+                         va_list args);
 
 /*
  * NUMBER_BUFFER_SIZE is the longest character string that could be needed
@@ -164,8 +165,12 @@ static int sprintLong(char *dest, long value, long base) {
  *   %l = long
  *   %s = string teminated with '\0'
  *   %c = char
+ *
+ * writes not more than size bytes, including the terminating '\0'; output
+ * that does not fit is cut off
  */
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
+static int DUMA_vsprintf(char *buffer, size_t size, const char *pattern,
+                         va_list args) {
   char c;
   static const char bad_pattern[] =
       "\nDUMA: Bad pattern specifier %%%c in DUMA_Print().\n";
@@ -174,7 +179,8 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
   DUMA_ADDR n;
 
   c = *s++;
-  while (c) {
+  /* a number needs up to NUMBER_BUFFER_SIZE + 1 characters, one for the end */
+  while (c && len + NUMBER_BUFFER_SIZE + 2 < size) {
     if (c == '%') {
       c = *s++;
       switch (c) {
@@ -220,17 +226,12 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
       case 's': /* string */
       {
         const char *string;
-        size_t length;
 
         string = va_arg(args, char *);
-        if (string) {
-          length = strlen(string);
-          strcpy(&buffer[len], string);
-        } else {
-          length = 4; /* = strlen("NULL") */
-          strcpy(&buffer[len], "NULL");
-        }
-        len += length;
+        if (!string)
+          string = "NULL";
+        while (*string && (size_t)len + 1 < size)
+          buffer[len++] = *string++;
         break;
       }
       case 'c': /* char */
@@ -264,7 +265,7 @@ void DUMA_Abort(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Aborting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - 1 - lena, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
   va_end(args);
@@ -291,12 +292,12 @@ void DUMA_Abort(const char *pattern, ...) {
  * void DUMA_Print(const char * pattern, ...)
  */
 void DUMA_Print(const char *pattern, ...) {
-  char buffer[STRING_BUFFER_SIZE];
+  char buffer[STRING_BUFFER_SIZE + NUMBER_BUFFER_SIZE + 2];
   int len, fd;
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, sizeof(buffer), pattern, args);
   va_end(args);
 
 #ifdef WIN32
@@ -341,7 +342,7 @@ void DUMA_Exit(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Exiting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - 1 - lena, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
 #ifdef WIN32
@@ -363,7 +364,7 @@ void DUMA_sprintf(char *buffer, const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, (size_t)-1, pattern, args);
   va_end(args);
   if (len <= 0)
     buffer[0] = 0;
-- 
2.43.0


From 2aac48de1c07f2f0c31c63e970445060f8e359b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 19/21] fix: retrying a refused allocation asks for the same
 size again

With sizes of 2^63 bytes and more the number of chunks stayed at SIZE_MAX,
and the retry created a mapping of the negated size, which is small when the
size is close to SIZE_MAX.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index c25970f..b686a32 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1559,7 +1559,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 #ifndef SIZE_MAX
 #define SIZE_MAX ((size_t)(-1))
 #endif
-    size_t numChunks = SIZE_MAX;
+    size_t numChunks = 1;
     if (userSize > (SIZE_MAX) - (chunkSize - 1))
       fullSlot->internalAddress = 0;
     else {
-- 
2.43.0


From 705c366f55e09d9918b5f1133f9801ab5f7ee20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 20/21] fix: fail an allocation when the full table could not
 be enlarged

The system refusing memory for a larger table led to an 'internal error' abort,
or to a write through a null pointer when a free region had to be split,
although exit on failure was switched off.
---
 src/duma.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index b686a32..876e4dc 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1516,6 +1516,28 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
+  /*
+   * When the system refused the memory to enlarge the table there may be too
+   * few empty slots left: then this request fails as well.
+   */
+#if defined(WIN32)
+  if (!emptySlots[0]) {
+#else
+  if (fullSlot ? (fullSlot->internalSize > internalSize && !emptySlots[0])
+               : (!emptySlots[0] || !emptySlots[1])) {
+#endif
+    if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+      DUMA_Abort("Allocating %d byte(s) failed: no empty slot left",
+                 (DUMA_SIZE)userSize);
+    if (protectAllocList) {
+      Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
+
+      IF__DUMA_INIT_DONE
+      DUMA_RELEASE_SEMAPHORE(0);
+    }
+    return (void *)userAddr;
+  }
+
   if (!fullSlot) {
     /*
      * I get here if I haven't been able to find a free buffer
@@ -1540,14 +1562,6 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     chunkSizekB = (long)((chunkSize + 1023) >> 10);
 
     /* Use up one of the empty slots to make the full slot. */
-    if (!emptySlots[0])
-      DUMA_Abort("Internal error in allocator: No empty slot 0.\n");
-
-#if !defined(WIN32)
-    if (!emptySlots[1])
-      DUMA_Abort("Internal error in allocator: No empty slot 1.\n");
-#endif
-
     fullSlot = emptySlots[0];
     emptySlots[0] = emptySlots[1];
 
-- 
2.43.0


From 7cbaf5eca43090a3ddebb125611caa62e91a1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:46 +0000
Subject: [PATCH 21/21] fix: do not reclaim protected memory before the block
 table exists

When the first mapping of the block table failed, _duma_init called
reduceProtectedMemory(), which walks the table that could not be mapped,
and crashed on a null pointer. Nothing can be reclaimed at that point:
report the failure.
---
 src/duma.c | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 876e4dc..d5f2789 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1133,21 +1133,7 @@ void
    * be marked free.
    */
   slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-      size, 0 /*=exitonfail*/, 0 /*=printerror*/);
-  if (0 == _duma_g.allocList && 0L != _duma_s.PROTECT_FREE) {
-    int reduce_more;
-    do {
-      /* reduce as much protected memory as we need - or at least try so */
-      reduce_more = reduceProtectedMemory((size + 1023) >> 10);
-      /* simply try again */
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 0 /*=exitonfail*/, 0 /*= printerror*/);
-    } while (reduce_more && 0 == _duma_g.allocList);
-
-    if (0 == _duma_g.allocList)
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 1 /*=exitonfail*/, 1 /*= printerror*/);
-  }
+      size, 1 /*=exitonfail*/, 1 /*=printerror*/);
 
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
-- 
2.43.0


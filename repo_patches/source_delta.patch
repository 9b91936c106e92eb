From dcc0a68cfe368de158791568fc56dabc8bd7098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 01/19] fix: do not replace entries of the caller's argument
 array, copy everything Win64 passes by reference

ffi_call overwrote the caller's avalue[] entries with pointers into its own
(dead after return) stack frame for large structures.  Under the Win64
conventions structures of 3, 5, 6 and 7 bytes, long double and the wide
complex types are passed by reference too but were not copied, so the callee
could modify the caller's objects.
---
 src/x86/ffi64.c  | 18 ------------------
 src/x86/ffiw64.c | 24 ++++++++++++------------
 2 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..e805998 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -685,24 +685,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..42cca09 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,26 +121,24 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
-  size_t rsize;
+  char *argcopy;
+  size_t rsize, copysize;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+  /* Anything that does not fit an 8 byte slot is passed by reference.  Make
+     room for copies, so that we are passing by value.  */
+  copysize = 0;
   for (i = 0; i < nargs; i++)
     {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
+      size_t size = arg_types[i]->size;
+      if (size != 8 && size != 4 && size != 2 && size != 1)
+        copysize += FFI_ALIGN (size, 16);
     }
+  argcopy = alloca (copysize);
 
   flags = cif->flags;
   rsize = 0;
@@ -188,7 +186,9 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 	  stack[j] = *(UINT8 *)avalue[i];
 	  break;
 	default:
-	  stack[j] = (uintptr_t)avalue[i];
+	  memcpy (argcopy, avalue[i], cif->arg_types[i]->size);
+	  stack[j] = (uintptr_t)argcopy;
+	  argcopy += FFI_ALIGN (cif->arg_types[i]->size, 16);
 	  break;
 	}
     }
-- 
2.43.0


From c9b873df78b9424bf70b9ee93f164126d31f6de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 02/19] fix: structures holding a single long double are
 returned in st(0) on x86-64

---
 src/x86/ffi64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index e805998..b159086 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -473,7 +473,9 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	{
 	  _Bool sse0 = SSE_CLASS_P (classes[0]);
 
-	  if (rtype_size == 4 && sse0)
+	  if (classes[0] == X86_64_X87_CLASS)
+	    flags = UNIX64_RET_X87;
+	  else if (rtype_size == 4 && sse0)
 	    flags = UNIX64_RET_XMM32;
 	  else if (rtype_size == 8)
 	    flags = sse0 ? UNIX64_RET_XMM64 : UNIX64_RET_INT64;
-- 
2.43.0


From eae1bd342eaaacf3772ca923f2def1d8fe11f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 03/19] fix: pop long double results from the x87 stack when
 the result is discarded

---
 src/x86/ffi64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index b159086..9317961 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -576,11 +576,14 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   FFI_ASSERT (cif->abi == FFI_UNIX64);
 
   /* If the return value is a struct and we don't have a return value
-     address then we need to make one.  Otherwise we can ignore it.  */
+     address then we need to make one.  Likewise for values returned on the
+     x87 stack, which must be popped.  Otherwise we can ignore it.  */
   flags = cif->flags;
   if (rvalue == NULL)
     {
-      if (flags & UNIX64_FLAG_RET_IN_MEM)
+      int ret = flags & 0xff;
+      if ((flags & UNIX64_FLAG_RET_IN_MEM)
+	  || ret == UNIX64_RET_X87 || ret == UNIX64_RET_X87_2)
 	rvalue = alloca (cif->rtype->size);
       else
 	flags = UNIX64_RET_VOID;
-- 
2.43.0


From 8fe1f8598a6e22463ac999bdc915bb7ec115ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 04/19] fix: return long double through memory for both Win64
 flavours

Calling a function returning long double with FFI_EFI64/FFI_WIN64 aborted,
and a closure read the hidden result address as the first argument.
---
 src/x86/ffiw64.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 42cca09..9075e96 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -71,8 +71,7 @@ EFI64(ffi_prep_cif_machdep)(ffi_cif *cif)
       break;
     case FFI_TYPE_LONGDOUBLE:
       /* GCC returns long double values by reference, like a struct */
-      if (cif->abi == FFI_GNUW64)
-	flags = FFI_TYPE_STRUCT;
+      flags = FFI_TYPE_STRUCT;
       break;
     case FFI_TYPE_COMPLEX:
       flags = FFI_TYPE_STRUCT;
-- 
2.43.0


From 82d6845dea8af06f026aafc7add9c4bf5883f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 05/19] fix: pass the raw closure, not its code address, to the
 argument translation hub

With static trampolines the code address is not the closure, so invoking any
raw or Java raw closure from ffi_closure_alloc crashed.
---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From 85673ed06c21ef5efaad71349039fe460cd140a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 06/19] fix: keep refusing an aggregate with a malformed member
 on later attempts

---
 src/prep_cif.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..f7cec9d 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -54,7 +54,12 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
     {
       if (UNLIKELY(((*ptr)->size == 0)
 		    && (initialize_aggregate((*ptr), NULL) != FFI_OK)))
-	return FFI_BAD_TYPEDEF;
+	{
+	  /* Leave the type uninitialized, so that it is not mistaken for a
+	     valid one the next time.  */
+	  arg->size = 0;
+	  return FFI_BAD_TYPEDEF;
+	}
 
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
-- 
2.43.0


From e3d76310be0f658e626a96679061c08b4a8a779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 07/19] fix: align the temporary for a discarded Win64
 structure result

---
 src/x86/ffiw64.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 9075e96..895d53f 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,7 +121,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   int i, j, n, flags;
   UINT64 *stack;
   char *argcopy;
-  size_t rsize, copysize;
+  size_t copysize;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
@@ -140,22 +140,19 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   argcopy = alloca (copysize);
 
   flags = cif->flags;
-  rsize = 0;
 
   /* If we have no return value for a structure, we need to create one.
      Otherwise we can ignore the return type entirely.  */
   if (rvalue == NULL)
     {
       if (flags == FFI_TYPE_STRUCT)
-	rsize = cif->rtype->size;
+	rvalue = alloca (cif->rtype->size);
       else
 	flags = FFI_TYPE_VOID;
     }
 
-  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + rsize);
+  stack = alloca(cif->bytes + sizeof(struct win64_call_frame));
   frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
-  if (rsize)
-    rvalue = frame + 1;
 
   frame->fn = (uintptr_t)fn;
   frame->flags = flags;
-- 
2.43.0


From 809afd92c829ae263109b749b0f1c7da8dcf4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 08/19] fix: recover from a full or failing temporary file for
 dual mappings

When no space could be allocated in the first temporary file tried, it
was kept forever and no other place was ever tried; and after a failure
the file position stayed behind the truncated end, so that the space for
the next attempt was allocated elsewhere than where it was mapped.
---
 src/closures.c | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..520f1ac 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -817,6 +817,20 @@ allocate_space (int fd, off_t len)
   return 0;
 }
 
+/* Give back the space that a failed attempt to extend the temporary
+   exec file has taken.  The file position moves back too: the space is
+   allocated by writing, and the next attempt must write where it maps.  */
+static void
+truncate_exec_file (size_t size)
+{
+  if (lseek (execfd, size, SEEK_SET) == (off_t) -1
+      || ftruncate (execfd, size) != 0)
+    {
+      /* FIXME: Error logs can be added here.  Returning an error would
+	 not add anything, as this is part of handling one.  */
+    }
+}
+
 /* Map in a chunk of memory from the temporary exec file into separate
    locations in the virtual memory address space, one writable and one
    executable.  Returns the address of the writable portion, after
@@ -839,7 +853,17 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
   offset = execsize;
 
   if (allocate_space (execfd, length))
-    return MFAIL;
+    {
+      /* A place that has no room even for the first chunk is no place to
+	 stay with: try the next one.  */
+      if (!offset)
+	{
+	  close (execfd);
+	  goto retry_open;
+	}
+      truncate_exec_file (offset);
+      return MFAIL;
+    }
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
   flags |= MAP_SHARED;
@@ -853,13 +877,7 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 	  close (execfd);
 	  goto retry_open;
 	}
-      if (ftruncate (execfd, offset) != 0)
-      {
-        /* Fixme : Error logs can be added here. Returning an error for
-         * ftruncte() will not add any advantage as it is being
-         * validating in the error case. */
-      }
-
+      truncate_exec_file (offset);
       return MFAIL;
     }
   else if (!offset
@@ -871,12 +889,7 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
   if (start == MFAIL)
     {
       munmap (ptr, length);
-      if (ftruncate (execfd, offset) != 0)
-      {
-        /* Fixme : Error logs can be added here. Returning an error for
-         * ftruncte() will not add any advantage as it is being
-         * validating in the error case. */
-      }
+      truncate_exec_file (offset);
       return start;
     }
 
-- 
2.43.0


From 48476bfe328071eeb010167c281f34e5f5dc5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 09/19] fix: check that the file named in the maps file holds
 the trampolines

The path can name another file than the one mapped, for instance when the
library has been replaced since it was loaded ("(deleted)"), or when it
contains a space.  Whatever that file held at the offset was then
executed as trampoline code.
---
 src/tramp.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..9e8d4e6 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -201,6 +201,32 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * Check that the file that has been opened really holds the trampoline code
+ * table at the offset found.  The path shown in the maps file may have been
+ * unlinked or replaced since, or contain characters shown differently, and
+ * can then name another file.
+ */
+static int
+ffi_tramp_check_libffi (void)
+{
+  char buf[1024];
+  size_t done, want;
+  ssize_t count;
+
+  for (done = 0; done < tramp_globals.map_size; done += count)
+    {
+      want = tramp_globals.map_size - done;
+      if (want > sizeof (buf))
+	want = sizeof (buf);
+      count = pread (tramp_globals.fd, buf, want, tramp_globals.offset + done);
+      if (count <= 0
+	  || memcmp (buf, (char *) tramp_globals.text + done, count) != 0)
+	return 0;
+    }
+  return 1;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -244,7 +270,7 @@ ffi_tramp_get_libffi (void)
    * Allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_check_libffi () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0


From e8560356e027a98fc9b7bea16da881e19cf0687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 10/19] fix: release the writable view of a dual mapping before
 the executable one

If releasing the second one failed, dlmalloc kept the segment although its
executable view was gone, and closures allocated in it crashed.
---
 src/closures.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 520f1ac..6964f76 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -967,16 +967,18 @@ dlmunmap (void *start, size_t length)
      deallocated and checking that the file contents change.
      Yuck.  */
   msegmentptr seg = segment_holding (gm, start);
-  void *code;
+  void *code = seg ? add_segment_exec_offset (start, seg) : start;
+  int ret;
 
-  if (seg && (code = add_segment_exec_offset (start, seg)) != start)
-    {
-      int ret = munmap (code, length);
-      if (ret)
-	return ret;
-    }
+  /* Release the writable view first.  If that fails nothing has changed,
+     and if releasing the executable view fails after that, all that is
+     left is address space: in the other order, memory that dlmalloc
+     still considers its own would have lost its executable view.  */
+  ret = munmap (start, length);
+  if (ret == 0 && code != start)
+    munmap (code, length);
 
-  return munmap (start, length);
+  return ret;
 }
 
 #if FFI_CLOSURE_FREE_CODE
-- 
2.43.0


From 4a08d1869bb3e86131b686655bffee5a36a94212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 11/19] fix: hold dlmalloc's lock while looking up the segment
 of a closure

Other threads that allocate or free closures extend, move and release
segments meanwhile: ffi_closure_alloc and ffi_data_to_code_pointer could
return a code address computed from half of an update, or crash on a
segment record that had just been unmapped.
---
 src/closures.c | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 6964f76..40b58f2 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -981,6 +981,26 @@ dlmunmap (void *start, size_t length)
   return ret;
 }
 
+/* Return the executable address of memory in one of our segments, or NULL
+   if it is in none of them.  Other threads that allocate or free closures
+   add, move and release segments, so dlmalloc's lock is needed.  */
+static void *
+segment_exec_address (void *addr)
+{
+  msegmentptr seg;
+  void *code = NULL;
+
+  if (!PREACTION (gm))
+    {
+      seg = segment_holding (gm, addr);
+      if (seg)
+	code = add_segment_exec_offset (addr, seg);
+      POSTACTION (gm);
+    }
+
+  return code;
+}
+
 #if FFI_CLOSURE_FREE_CODE
 /* Return segment holding given code address.  */
 static msegmentptr
@@ -1014,9 +1034,7 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
-
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      *code = FFI_FN (segment_exec_address (ptr));
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1036,15 +1054,15 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *code = segment_exec_address (data);
   /* We expect closures to be allocated with ffi_closure_alloc(), in
-     which case seg will be non-NULL.  However, some users take on the
+     which case code will be non-NULL.  However, some users take on the
      burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
+  if (code)
     {
       if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
+        return code;
       return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
     }
   else
@@ -1059,10 +1077,14 @@ void
 ffi_closure_free (void *ptr)
 {
 #if FFI_CLOSURE_FREE_CODE
-  msegmentptr seg = segment_holding_code (gm, ptr);
+  if (!PREACTION (gm))
+    {
+      msegmentptr seg = segment_holding_code (gm, ptr);
 
-  if (seg)
-    ptr = sub_segment_exec_offset (ptr, seg);
+      if (seg)
+	ptr = sub_segment_exec_offset (ptr, seg);
+      POSTACTION (gm);
+    }
 #endif
   if (ffi_tramp_is_supported ())
     ffi_tramp_free (((ffi_closure *) ptr)->ftramp);
@@ -1073,8 +1095,7 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  return segment_exec_address (ptr) != NULL && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From 68361b44ba1e4036b51bfdaf28271755e2337576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 12/19] fix: publish dlmalloc's parameters only when all of
 them are set

A thread that used closures for the first time while another one was
initializing could see the page size set but the granularity still zero,
and its allocation failed.
---
 src/dlmalloc.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..db226ad 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2118,6 +2118,18 @@ struct malloc_params {
 
 static struct malloc_params mparams;
 
+/*
+  A nonzero page_size tells all threads that mparams and the lock of the
+  main malloc area are initialized, so it must become visible after them.
+*/
+#if defined(__GNUC__)
+#define LOAD_PAGE_SIZE()   __atomic_load_n(&mparams.page_size, __ATOMIC_ACQUIRE)
+#define STORE_PAGE_SIZE(s) __atomic_store_n(&mparams.page_size, (s), __ATOMIC_RELEASE)
+#else
+#define LOAD_PAGE_SIZE()   (*(volatile size_t *)&mparams.page_size)
+#define STORE_PAGE_SIZE(s) (*(volatile size_t *)&mparams.page_size = (s))
+#endif
+
 /* The global malloc_state used for all non-"mspace" calls */
 static struct malloc_state _gm_;
 #define gm                 (&_gm_)
@@ -2209,7 +2221,7 @@ static int has_segment_link(mstate m, msegmentptr ss) {
 #if USE_LOCKS
 
 /* Ensure locks are initialized */
-#define GLOBALLY_INITIALIZE() (mparams.page_size == 0 && init_mparams())
+#define GLOBALLY_INITIALIZE() (LOAD_PAGE_SIZE() == 0 && init_mparams())
 
 #define PREACTION(M)  ((GLOBALLY_INITIALIZE() || use_lock(M))? ACQUIRE_LOCK(&(M)->mutex) : 0)
 #define POSTACTION(M) { if (use_lock(M)) RELEASE_LOCK(&(M)->mutex); }
@@ -2517,8 +2529,8 @@ static size_t traverse_and_check(mstate m);
 
 /* Initialize mparams */
 static int init_mparams(void) {
-  if (mparams.page_size == 0) {
-    size_t s;
+  if (LOAD_PAGE_SIZE() == 0) {
+    size_t s, page_size;
 
     mparams.mmap_threshold = DEFAULT_MMAP_THRESHOLD;
     mparams.trim_threshold = DEFAULT_TRIM_THRESHOLD;
@@ -2560,19 +2572,19 @@ static int init_mparams(void) {
     RELEASE_MAGIC_INIT_LOCK();
 
 #if !defined(WIN32) && !defined(__OS2__)
-    mparams.page_size = malloc_getpagesize;
+    page_size = malloc_getpagesize;
     mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
-                           DEFAULT_GRANULARITY : mparams.page_size);
+                           DEFAULT_GRANULARITY : page_size);
 #elif defined (__OS2__)
  /* if low-memory is used, os2munmap() would break
     if it were anything other than 64k */
-    mparams.page_size = 4096u;
+    page_size = 4096u;
     mparams.granularity = 65536u;
 #else /* WIN32 */
     {
       SYSTEM_INFO system_info;
       GetSystemInfo(&system_info);
-      mparams.page_size = system_info.dwPageSize;
+      page_size = system_info.dwPageSize;
       mparams.granularity = system_info.dwAllocationGranularity;
     }
 #endif /* WIN32 */
@@ -2590,8 +2602,10 @@ static int init_mparams(void) {
         ((MALLOC_ALIGNMENT    & (MALLOC_ALIGNMENT-SIZE_T_ONE))    != 0) ||
         ((MCHUNK_SIZE         & (MCHUNK_SIZE-SIZE_T_ONE))         != 0) ||
         ((mparams.granularity & (mparams.granularity-SIZE_T_ONE)) != 0) ||
-        ((mparams.page_size   & (mparams.page_size-SIZE_T_ONE))   != 0))
+        ((page_size           & (page_size-SIZE_T_ONE))           != 0))
       ABORT;
+
+    STORE_PAGE_SIZE(page_size);
   }
   return 0;
 }
-- 
2.43.0


From 653212af4dd35481670e9fcb703a1bfc0a043664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 13/19] fix: give the Win64 convention's frames unwind tables
 on ELF systems

---
 src/x86/win64.S | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/x86/win64.S b/src/x86/win64.S
index 58ec6a1..444982d 100644
--- a/src/x86/win64.S
+++ b/src/x86/win64.S
@@ -6,7 +6,13 @@
 #include "asmnames.h"
 
 #if defined(HAVE_AS_CFI_PSEUDO_OP)
+# ifdef __ELF__
+	/* Exceptions pass through these functions where the Win64
+	   conventions are not the native ones, too.  */
+        .cfi_sections   .eh_frame, .debug_frame
+# else
         .cfi_sections   .debug_frame
+# endif
 #endif
 
 #ifdef X86_WIN64
-- 
2.43.0


From aaef54cd815a152ccc3d53166357a2c53e547ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 14/19] fix: i386: pass small complex arguments instead of
 aborting

A complex argument of at most four bytes (char or short parts) was taken
for an integer, which extend_basic_type answers with abort.
---
 src/x86/ffi.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 6862533..bffe861 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -348,7 +348,8 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
       size_t z = ty->size;
       int t = ty->type;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX)
         {
 	  ffi_arg val = extend_basic_type (valp, t);
 
@@ -495,7 +496,8 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       int t = ty->type;
       void *valp;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX)
 	{
 	  if (t != FFI_TYPE_FLOAT && narg_reg < pabi->nregs)
 	    valp = &frame->regs[pabi->regs[narg_reg++]];
@@ -798,7 +800,8 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
       size_t z = ty->size;
       int t = ty->type;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT && t != FFI_TYPE_FLOAT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX && t != FFI_TYPE_FLOAT)
 	{
 	  ffi_arg val = extend_basic_type (avalue, t);
 	  frame->regs[pabi->regs[narg_reg++]] = val;
-- 
2.43.0


From 7c6290147f2118e8960615b4baabf62071b21c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 15/19] fix: i386: pop exactly the stack arguments of thiscall
 and fastcall closures

Once a structure or 64-bit integer had closed the registers, two registers'
worth was left on the stack whatever the registers really held; Go closures
of these conventions popped nothing.
---
 src/x86/ffi.c  | 5 ++---
 src/x86/sysv.S | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index bffe861..d6bfbfd 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -553,11 +553,10 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
   switch (cabi)
     {
     case FFI_STDCALL:
-      return flags | (cif->bytes << X86_RET_POP_SHIFT);
     case FFI_THISCALL:
     case FFI_FASTCALL:
-      return flags | ((cif->bytes - (narg_reg * FFI_SIZEOF_ARG))
-          << X86_RET_POP_SHIFT);
+      /* Everything that was passed on the stack.  */
+      return flags | ((argp - stack) << X86_RET_POP_SHIFT);
     default:
       return flags;
     }
diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index c7a0fb5..b44212e 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -307,7 +307,7 @@ L(UW7):
 	movl	%edx, closure_CF+28(%esp)
 	movl	%ecx, closure_CF+32(%esp)
 	movl	%eax, closure_CF+36(%esp)	/* closure is user_data */
-	jmp	L(do_closure_i386)
+	jmp	L(do_closure_STDCALL)
 L(UW8):
 	# cfi_endproc
 ENDF(C(ffi_go_closure_EAX))
-- 
2.43.0


From 23cf5b60c831c05dd814d1effaa865ebc5ac2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 16/19] fix: i386: put Pascal and register arguments where the
 callee finds them

Arguments pushed from left to right were placed at the upper end of the
16-byte aligned area, so the callee saw padding unless their size happened to
be a multiple of 16; closures looked for them there too and never popped them.
---
 src/x86/ffi.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index d6bfbfd..23651e6 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -251,6 +251,29 @@ static const struct abi_params abi_params[FFI_LAST_ABI] = {
   [FFI_MS_CDECL] = { 1, R_ECX, 0 }
 };
 
+/* The stack space taken by the arguments of a convention that pushes them
+   from left to right.  The last argument is at the lowest address, so this
+   has to be known exactly to find the first one.  */
+static size_t
+reverse_args_size (ffi_cif *cif)
+{
+  int i, n, nregs = abi_params[cif->abi].nregs;
+  size_t bytes = 0;
+
+  for (i = 0, n = cif->nargs; i < n; i++)
+    {
+      ffi_type *ty = cif->arg_types[i];
+      int t = ty->type;
+
+      if (ty->size <= FFI_SIZEOF_ARG && nregs > 0 && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX && t != FFI_TYPE_FLOAT)
+	nregs--;
+      else
+	bytes += FFI_ALIGN (ty->size, FFI_SIZEOF_ARG);
+    }
+  return bytes;
+}
+
 #ifdef HAVE_FASTCALL
   #ifdef _MSC_VER
     #define FFI_DECLARE_FASTCALL __fastcall
@@ -312,7 +335,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 
   bytes = STACK_ALIGN (cif->bytes);
   stack = alloca(bytes + sizeof(*frame) + rsize);
-  argp = (dir < 0 ? stack + bytes : stack);
+  argp = (dir < 0 ? stack + reverse_args_size (cif) : stack);
   frame = (struct call_frame *)(stack + bytes);
   if (rsize)
     rvalue = frame + 1;
@@ -465,7 +488,7 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
   rvalue = frame->rettemp;
   pabi = &abi_params[cabi];
   dir = pabi->dir;
-  argp = (dir < 0 ? stack + STACK_ALIGN (cif->bytes) : stack);
+  argp = (dir < 0 ? stack + reverse_args_size (cif) : stack);
 
   switch (flags)
     {
@@ -557,6 +580,9 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
     case FFI_FASTCALL:
       /* Everything that was passed on the stack.  */
       return flags | ((argp - stack) << X86_RET_POP_SHIFT);
+    case FFI_PASCAL:
+    case FFI_REGISTER:
+      return flags | (reverse_args_size (cif) << X86_RET_POP_SHIFT);
     default:
       return flags;
     }
-- 
2.43.0


From 498857f1aa6fe4c2dd54ffcb167c2db56adf3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 17/19] fix: i386: keep ffi_raw_call inside its stack area and
 raw array

Masking with ~16 could place the arguments below the allocated area, the raw
array was read beyond its end and advanced by the wrong amount after register
arguments.
---
 src/x86/ffi.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 23651e6..d0e9dab 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -789,11 +789,11 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
     }
 
   bytes = STACK_ALIGN (cif->bytes);
-  argp = stack =
-      (void *)((uintptr_t)alloca(bytes + sizeof(*frame) + rsize + 15) & ~16);
+  argp = stack = alloca (bytes + sizeof(*frame) + rsize);
   frame = (struct call_frame *)(stack + bytes);
   if (rsize)
     rvalue = frame + 1;
+  bytes = cif->bytes;
 
   frame->fn = fn;
   frame->flags = flags;
@@ -808,6 +808,7 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	{
 	  frame->regs[pabi->regs[0]] = (unsigned)rvalue;
 	  narg_reg = 1;
+	  bytes -= sizeof(void *);
 	  break;
 	}
       /* fallthru */
@@ -834,11 +835,15 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
 	}
       else
 	{
+	  /* See the comment in ffi_call_int.  */
+	  if (t == FFI_TYPE_SINT64 || t == FFI_TYPE_UINT64
+	      || t == FFI_TYPE_STRUCT)
+	    narg_reg = 2;
 	  memcpy (argp, avalue, z);
 	  z = FFI_ALIGN (z, FFI_SIZEOF_ARG);
 	  argp += z;
 	}
-      avalue += z;
+      avalue = (ffi_raw *)((char *)avalue + z);
       bytes -= z;
     }
   if (i < n)
-- 
2.43.0


From 51e95b57a0c043441d654f89b28ec57f9e62443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 18/19] fix: i386: raw closures: static trampolines, and pop
 the arguments of thiscall

ffi_prep_raw_closure_loc wrote a dynamic trampoline also into a closure
whose code address is a static trampoline, whose parameters then stayed
unset.  And ffi_closure_raw_THISCALL popped only its own extra word, while
the callee of a thiscall function pops its stack arguments.
---
 src/x86/ffi.c  | 20 +++++++++++++++++++
 src/x86/sysv.S | 52 ++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index d0e9dab..964dd13 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -702,6 +702,10 @@ ffi_prep_go_closure (ffi_go_closure* closure, ffi_cif* cif,
 
 void FFI_HIDDEN ffi_closure_raw_SYSV(void);
 void FFI_HIDDEN ffi_closure_raw_THISCALL(void);
+#if defined(FFI_EXEC_STATIC_TRAMP)
+void FFI_HIDDEN ffi_closure_raw_SYSV_alt(void);
+void FFI_HIDDEN ffi_closure_raw_THISCALL_alt(void);
+#endif
 
 ffi_status
 ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
@@ -738,6 +742,19 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
       return FFI_BAD_ABI;
     }
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+  if (ffi_tramp_is_present(closure))
+    {
+      /* Initialize the static trampoline's parameters. */
+      if (dest == ffi_closure_raw_SYSV)
+        dest = ffi_closure_raw_SYSV_alt;
+      else
+        dest = ffi_closure_raw_THISCALL_alt;
+      ffi_tramp_set_parms (((ffi_closure *) closure)->ftramp, dest, closure);
+      goto out;
+    }
+#endif
+
   /* movl imm, %eax.  */
   tramp[0] = 0xb8;
   *(void **)(tramp + 1) = codeloc;
@@ -746,6 +763,9 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
   tramp[5] = 0xe9;
   *(unsigned *)(tramp + 6) = (unsigned)dest - ((unsigned)codeloc + 10);
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+out:
+#endif
   closure->cif = cif;
   closure->fun = fun;
   closure->user_data = user_data;
diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index b44212e..1268731 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -806,6 +806,8 @@ L(UW46):
 	movl	%ebx, (%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
+	movl	16(%ebx), %eax				/* save cif->bytes */
+	movl	%eax, raw_closure_T_FS-8(%esp)
 	movl	20(%ebx), %eax				/* load cif->flags */
 	andl	$X86_RET_TYPE_MASK, %eax
 #ifdef __PIC__
@@ -851,20 +853,13 @@ E(L(load_table5), X86_RET_INT32)
 	nop
 	/* fallthru */
 E(L(load_table5), X86_RET_VOID)
-L(e5):
-	addl	$raw_closure_T_FS, %esp
-L(UW48):
-	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
-	/* Remove the extra %ecx argument we pushed.  */
-	ret	$4
-L(UW49):
-	# cfi_adjust_cfa_offset(raw_closure_T_FS)
+	jmp	L(e5)
 E(L(load_table5), X86_RET_STRUCTPOP)
 	addl	$raw_closure_T_FS, %esp
-L(UW50):
+L(UW48):
 	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
 	ret	$8
-L(UW51):
+L(UW49):
 	# cfi_adjust_cfa_offset(raw_closure_T_FS)
 E(L(load_table5), X86_RET_STRUCTARG)
 	jmp	L(e5)
@@ -881,10 +876,47 @@ E(L(load_table5), X86_RET_UNUSED14)
 E(L(load_table5), X86_RET_UNUSED15)
 	ud2
 
+L(e5):
+	movl	raw_closure_T_FS-8(%esp), %ecx		/* load cif->bytes */
+	addl	$raw_closure_T_FS, %esp
+L(UW50):
+	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
+	/* Remove the extra %ecx argument we pushed, and those the caller
+	   pushed: move the return address above them.  */
+	popl	-4(%esp, %ecx)
+	leal	-4(%esp, %ecx), %esp
+	ret
+L(UW51):
+	# cfi_adjust_cfa_offset(raw_closure_T_FS)
 L(UW52):
 	# cfi_endproc
 ENDF(C(ffi_closure_raw_THISCALL))
 
+#if defined(FFI_EXEC_STATIC_TRAMP)
+	.balign	16
+	.globl	C(ffi_closure_raw_SYSV_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_SYSV_alt))
+C(ffi_closure_raw_SYSV_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_SYSV)
+ENDF(C(ffi_closure_raw_SYSV_alt))
+
+	.balign	16
+	.globl	C(ffi_closure_raw_THISCALL_alt)
+	FFI_HIDDEN(C(ffi_closure_raw_THISCALL_alt))
+C(ffi_closure_raw_THISCALL_alt):
+	/* See the comments above trampoline_code_table. */
+	_CET_ENDBR
+	movl	4(%esp), %eax			/* Load closure in eax */
+	add	$8, %esp			/* Restore the stack */
+	jmp	C(ffi_closure_raw_THISCALL)
+ENDF(C(ffi_closure_raw_THISCALL_alt))
+
+#endif /* FFI_EXEC_STATIC_TRAMP */
+
 #endif /* !FFI_NO_RAW_API */
 
 #ifdef X86_DARWIN
-- 
2.43.0


From 38a4c70782d7d281bb3c1921d5d14b6b71df727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 19/19] fix: i386: FFI_REGISTER closures took the return
 address for the closure

The trampoline pushes the closure after the caller pushed the return
address, so that the closure is at the top of the stack and the return
address already where the code following expects it.
---
 src/x86/sysv.S | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index 1268731..d75d230 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -458,9 +458,7 @@ L(UW24):
 L(UW25):
 	# cfi_def_cfa_offset(closure_FS + 4)
 	FFI_CLOSURE_SAVE_REGS
-	movl	closure_FS-4(%esp), %ecx	/* load retaddr */
-	movl	closure_FS(%esp), %eax		/* load closure */
-	movl	%ecx, closure_FS(%esp)		/* move retaddr */
+	movl	closure_FS-4(%esp), %eax	/* load closure */
 	jmp	L(do_closure_REGISTER)
 L(UW26):
 	# cfi_endproc
-- 
2.43.0


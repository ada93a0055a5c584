From 6c41314a88ea4940108f7314ca2cda7f251e2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 01/36] fix: compare ints without overflow when sorting integer
 keys

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a43c4a9..a56bac3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -551,7 +551,7 @@ static int kvtree_cmp_fn_int_asc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_a - int_b);
+  return (int_a > int_b) - (int_a < int_b);
 }
 
 /** sort integers in descending order */
@@ -561,7 +561,7 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_b - int_a);
+  return (int_b > int_a) - (int_b < int_a);
 }
 
 /** sort the hash assuming the keys are ints */
-- 
2.43.0


From 5c5b33f0b561f60817aa72481ea0f702daa6be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 02/36] fix: print indentation of any width without overflowing
 a fixed buffer

---
 src/kvtree.c | 54 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a56bac3..3b85521 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1929,23 +1929,16 @@ end:
 /** prints specified hash element to stdout for debugging */
 static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (mode == KVTREE_PRINT_TREE) {
     if (elem != NULL) {
       if (elem->key != NULL) {
-        printf("%s%s\n", tmp, elem->key);
+        printf("%*s%s\n", indent, "", elem->key);
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
       }
       kvtree_print_mode(elem->hash, indent, mode);
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -1960,25 +1953,25 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
           if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {
             /* my hash has one value, and the hash for that one value
              * is empty, so print this as a key/value pair */
-            printf("%s%s = %s\n", tmp, elem->key, elem2->key);
+            printf("%*s%s = %s\n", indent, "", elem->key, elem2->key);
           } else {
             /* my hash has one value, but the hash for that one value is
              * non-empty so we need to recurse into hash */
-            printf("%s%s\n", tmp, elem->key);
+            printf("%*s%s\n", indent, "", elem->key);
             kvtree_print_mode(elem->hash, indent, mode);
           }
         } else {
           /* hash for current element has 0 or more than one items,
            * so we need to recurse into hash */
-          printf("%s%s\n", tmp, elem->key);
+          printf("%*s%s\n", indent, "", elem->key);
           kvtree_print_mode(elem->hash, indent, mode);
         }
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
         kvtree_print_mode(elem->hash, indent, mode);
       }
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -1990,20 +1983,13 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 /** prints specified hash to stdout for debugging */
 int kvtree_print_mode(const kvtree* hash, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_print(elem, indent + 2, mode);
     }
   } else {
-    printf("%sNULL LIST\n", tmp);
+    printf("%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2017,22 +2003,15 @@ int kvtree_print(const kvtree* hash, int indent)
 /** logs specified hash element to stdout for debugging */
 static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (elem != NULL) {
     if (elem->key != NULL) {
-      kvtree_dbg(log_level, "%s%s\n", tmp, elem->key);
+      kvtree_dbg(log_level, "%*s%s\n", indent, "", elem->key);
     } else {
-      kvtree_dbg(log_level, "%sNULL KEY\n", tmp);
+      kvtree_dbg(log_level, "%*sNULL KEY\n", indent, "");
     }
     kvtree_log(elem->hash, log_level, indent);
   } else {
-    kvtree_dbg(log_level, "%sNULL ELEMENT\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL ELEMENT\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2040,20 +2019,13 @@ static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 /** prints specified hash to stdout for debugging */
 int kvtree_log(const kvtree* hash, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_log(elem, log_level, indent+2);
     }
   } else {
-    kvtree_dbg(log_level, "%sNULL LIST\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From 81a5cfebf291ababc6ff3707a2f27967a2395f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 03/36] fix: pass the size to the allocation failure message

---
 src/kvtree_helpers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index d7ba4e9..dc9539e 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -70,7 +70,9 @@ void* kvtree_malloc(size_t size, const char* file, int line)
   if (size > 0) {
     ptr = malloc(size);
     if (ptr == NULL) {
-      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", file, line);
+      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d",
+        (unsigned long long) size, file, line
+      );
     }
   }
   return ptr;
-- 
2.43.0


From 8eef2314a2a161c2ac9625f0b30bddc267b3607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 04/36] fix: return an invalid descriptor when locking a file
 fails

---
 src/kvtree_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 81c6def..954b23e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -222,7 +222,7 @@ int kvtree_open_with_lock(const char* file, int flags, mode_t mode, int write)
   int ret = kvtree_file_lock_read_write(file, fd, write);
   if (ret != KVTREE_SUCCESS) {
     close(fd);
-    return ret;
+    return -1;
   }
 
   /* return the opened file descriptor */
-- 
2.43.0


From 17f4a3cc2b34718b90a4b43216903981168e90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 05/36] fix: close the file even if unlocking it fails

---
 src/kvtree_io.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 954b23e..ad0ae78 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -234,12 +234,12 @@ int kvtree_close_with_unlock(const char* file, int fd)
 {
   /* release the file lock */
   int ret = kvtree_file_unlock(file, fd);
-  if (ret != KVTREE_SUCCESS) {
-    return ret;
-  }
 
-  /* close the file */
-  return kvtree_close(file, fd);
+  /* close the file, even if the unlock failed, to free the descriptor */
+  if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+    ret = KVTREE_FAILURE;
+  }
+  return ret;
 }
 
 /* seek file descriptor to specified position */
-- 
2.43.0


From 4724d1ca273ef818b73ea7f755b119c53299b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 06/36] fix: report a failed fsync when closing a file

---
 src/kvtree_io.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index ad0ae78..c866e14 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -115,8 +115,20 @@ int kvtree_open(const char* file, int flags, ...)
 /* fsync and close file */
 int kvtree_close(const char* file, int fd)
 {
+  int rc = KVTREE_SUCCESS;
+
   /* fsync first */
-  if (fsync(fd) < 0) {
+  int sync_rc = fsync(fd);
+  while (sync_rc < 0 && errno == EINTR) {
+    sync_rc = fsync(fd);
+  }
+  if (sync_rc < 0) {
+    /* the data may not have reached stable storage, which is an error
+     * unless the file does not support synchronization */
+    if (errno != EINVAL && errno != EROFS) {
+      rc = KVTREE_FAILURE;
+    }
+
     /* print warning that fsync failed */
     kvtree_dbg(2, "Failed to fsync file descriptor: %s errno=%d %s @ %s:%d",
       file, errno, strerror(errno), __FILE__, __LINE__
@@ -132,7 +144,7 @@ int kvtree_close(const char* file, int fd)
     return KVTREE_FAILURE;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /*
-- 
2.43.0


From 6d476e87f629a314390666ee32d5668a71e84795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 07/36] fix: report write and close failures of a locked write

---
 src/kvtree.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 3b85521..80b12e2 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1571,13 +1571,20 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 1);
   if (fd >= 0) {
-    /* write the file into the hash */
-    kvtree_write_fd(file, fd, hash);
+    int rc = KVTREE_SUCCESS;
+
+    /* write the hash into the file */
+    ssize_t nwrite = kvtree_write_fd(file, fd, hash);
+    if (nwrite < 0) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, fd);
+    if (kvtree_close_with_unlock(file, fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
-    return KVTREE_SUCCESS;
+    return rc;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From 1628211f146a71c798e77eb3262a2bbcf20ea8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 08/36] fix: drop stale bytes when a locked write shrinks a
 file

---
 src/kvtree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 80b12e2..404769c 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1577,6 +1577,12 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
     ssize_t nwrite = kvtree_write_fd(file, fd, hash);
     if (nwrite < 0) {
       rc = KVTREE_FAILURE;
+    } else if (ftruncate(fd, (off_t) nwrite) == -1) {
+      /* failed to drop what an earlier, longer version left behind */
+      kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
+        errno, strerror(errno), __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
     }
 
     /* close the file and release the lock */
-- 
2.43.0


From 0bae044b799c19552c2a5e070fa0d85620d91b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 09/36] fix: report seek, write, truncate and close failures of
 a write-back

---
 src/kvtree.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 404769c..879c4d8 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1685,30 +1685,37 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
     return KVTREE_FAILURE;
   }
 
+  int rc = KVTREE_SUCCESS;
+
   if (*fd >= 0) {
     /* wind the file pointer back to the start of the file */
-    lseek(*fd, 0, SEEK_SET);
-
-    /* write the updated hash back to the file */
-    ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
+    if (kvtree_lseek(file, *fd, 0, SEEK_SET) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    } else {
+      /* write the updated hash back to the file */
+      ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
 
-    /* truncate file to new size */
-    if (nwrite >= 0) {
-      if (ftruncate(*fd, (off_t) nwrite) == -1) {
+      /* truncate file to new size */
+      if (nwrite < 0) {
+        rc = KVTREE_FAILURE;
+      } else if (ftruncate(*fd, (off_t) nwrite) == -1) {
         kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
           errno, strerror(errno), __FILE__, __LINE__
         );
+        rc = KVTREE_FAILURE;
       }
     }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, *fd);
+    if (kvtree_close_with_unlock(file, *fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* mark the file descriptor as closed */
     *fd = -1;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /** write kvtree as gather/scatter file, input kvtree must be in form:
-- 
2.43.0


From 81c33dd8039cd9d9564fc8a038aa3e0ef2e441fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 10/36] fix: report a failed read when locking and opening a
 file

---
 src/kvtree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 879c4d8..b78ce75 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1642,7 +1642,13 @@ int kvtree_lock_open_read(const char* file, int* fd, kvtree* hash)
   *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
   if (*fd >= 0) {
     /* read the file into the hash */
-    kvtree_read_fd(file, *fd, hash);
+    if (kvtree_read_fd(file, *fd, hash) < 0) {
+      /* don't hand out a lock on a file whose contents we can't read,
+       * close the file and release the lock */
+      kvtree_close_with_unlock(file, *fd);
+      *fd = -1;
+      return KVTREE_FAILURE;
+    }
     return KVTREE_SUCCESS;
   }
 
-- 
2.43.0


From 00f8cd41ad0780e9c138ab4f4a24e66103dfad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 11/36] fix: fail a read instead of aborting when a file states
 an absurd size

---
 src/kvtree.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index b78ce75..1abcd53 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1396,8 +1396,15 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     return -1;
   }
 
-  /* allocate a buffer to read the hash and crc */
-  char* buf = (char*) KVTREE_MALLOC(filesize);
+  /* allocate a buffer to read the hash and crc,
+   * the size comes from the file, so don't abort if it is absurd */
+  char* buf = (char*) malloc(filesize);
+  if (buf == NULL) {
+    kvtree_err("Failed to allocate %llu bytes to read %s @ %s:%d",
+      (unsigned long long) filesize, file, __FILE__, __LINE__
+    );
+    return -1;
+  }
 
   /* copy the header into the buffer */
   memcpy(buf, header, size);
-- 
2.43.0


From 36ed4451ef7be37073d1741af71a0d7983b401df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 12/36] fix: check that packed data read from a file stays
 within its buffer

---
 src/kvtree.c | 60 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 1abcd53..b245486 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1325,6 +1325,45 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
+/** returns 1 if buf starts with a packed hash that ends within bufsize
+ * bytes, 0 otherwise */
+static int kvtree_pack_is_valid(const char* buf, size_t bufsize)
+{
+  size_t pos = 0;
+
+  /* number of elements we have yet to find, a packed hash is its count
+   * followed by its elements, each of which is a key and a packed hash,
+   * so we start with a count and then alternate between key and count */
+  uint64_t remaining = 0;
+  while (1) {
+    /* read in the COUNT value */
+    uint32_t count;
+    if (bufsize - pos < sizeof(count)) {
+      return 0;
+    }
+    kvtree_unpack_uint32_t(buf, bufsize, &pos, &count);
+    remaining += count;
+
+    /* stop once we have seen all elements */
+    if (remaining == 0) {
+      return 1;
+    }
+
+    /* each element takes some bytes, so bail out on impossible counts */
+    if (remaining > bufsize - pos) {
+      return 0;
+    }
+
+    /* step over the KEY string */
+    const char* end = (const char*) memchr(buf + pos, '\0', bufsize - pos);
+    if (end == NULL) {
+      return 0;
+    }
+    pos = (size_t) (end - buf) + 1;
+    remaining--;
+  }
+}
+
 /** executes logic of kvtree_read using an opened file descriptor */
 ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
 {
@@ -1388,8 +1427,12 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   uint32_t flags;
   kvtree_unpack_uint32_t(header, sizeof(header), &size, &flags);
 
-  /* check that the filesize is valid (positive) */
-  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE) {
+  /* check that the file is large enough to hold the crc, if it has one */
+  size_t crc_size = 0;
+  if (flags & KVTREE_FILE_FLAGS_CRC32) {
+    crc_size = sizeof(uint32_t);
+  }
+  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE + crc_size) {
     kvtree_err("Invalid file size stored in %s @ %s:%d",
       file, __FILE__, __LINE__
     );
@@ -1430,9 +1473,6 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   /* check the crc value if it's set */
   int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
   if (crc_set) {
-    /* TODO: we should check that the remainder above is at least 4
-     * (for the crc) */
-
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
     crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
@@ -1452,6 +1492,16 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
+  /* check that the packed hash lies within the buffer before
+   * unpacking it, since unpack trusts the counts and keys it finds */
+  if (! kvtree_pack_is_valid(buf + size, (size_t) filesize - size - crc_size)) {
+    kvtree_err("Invalid packed data in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    kvtree_free(&buf);
+    return -1;
+  }
+
   /* create a temporary hash to read data into, unpack, and merge */
   kvtree* tmp_hash = kvtree_new();
   kvtree_unpack(buf + size, tmp_hash);
-- 
2.43.0


From e0198cd2810ed6fd18a2cc2bd27130760138b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 13/36] fix: read exactly the files a rank file set names

Scanning the directory with the prefix as a regular expression missed the
set, or picked up others, when the prefix contains special characters,
counted files left over from an earlier, larger set, and leaked each
subfile's entries.
---
 src/kvtree.c | 137 ++++++++++++++++++++++++---------------------------
 1 file changed, 64 insertions(+), 73 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index b245486..43af92e 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -18,10 +18,7 @@
 #include <fcntl.h>
 #include <string.h>
 #include <errno.h>
-#include <libgen.h>
-#include <dirent.h>
 #include <limits.h>
-#include <regex.h>
 
 
 /* need at least version 8.5 of queue.h from Berkeley */
@@ -1880,6 +1877,62 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
+/* read one file of a rank file set, and those it refers to, merging
+ * the entries of all ranks they hold into data, fail if the file does
+ * not belong to a set of the given number of ranks, or if its level is
+ * not below max_level */
+static int kvtree_read_scatter_file(
+  const char* prefix,
+  const char* file,
+  unsigned long ranks,
+  unsigned long max_level,
+  kvtree* data)
+{
+  /* build name of file, which is relative to prefix */
+  char path[PATH_MAX];
+  int path_len = snprintf(path, sizeof(path), "%s%s", prefix, file);
+  if (path_len < 0 || path_len >= (int) sizeof(path)) {
+    return KVTREE_FAILURE;
+  }
+
+  kvtree* tree = kvtree_new();
+  int rc = kvtree_read_file(path, tree);
+
+  /* check that this file is one we expect at this point in the set */
+  unsigned long file_ranks, level;
+  if (rc == KVTREE_SUCCESS &&
+      (kvtree_util_get_unsigned_long(tree, "RANKS", &file_ranks) != KVTREE_SUCCESS ||
+       kvtree_util_get_unsigned_long(tree, "LEVEL", &level) != KVTREE_SUCCESS ||
+       file_ranks != ranks || level >= max_level))
+  {
+    rc = KVTREE_FAILURE;
+  }
+
+  if (rc == KVTREE_SUCCESS) {
+    kvtree* rank_tree = kvtree_get(tree, "RANK");
+    if (level == 0) {
+      /* this file holds the entries themselves */
+      rc = kvtree_merge(data, rank_tree);
+    } else {
+      /* this file lists the files to read next */
+      kvtree_elem* elem;
+      for (elem = kvtree_elem_first(rank_tree);
+           elem != NULL && rc == KVTREE_SUCCESS;
+           elem = kvtree_elem_next(elem))
+      {
+        char* next;
+        rc = kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &next);
+        if (rc == KVTREE_SUCCESS) {
+          rc = kvtree_read_scatter_file(prefix, next, ranks, level, data);
+        }
+      }
+    }
+  }
+
+  kvtree_delete(&tree);
+  return rc;
+}
+
 /*
  * Given a prefix passed to a kvtree_write_gather() (like "/tmp/rank2file",
  * read all the rank data from all the scattered subfiles, and construct a
@@ -1926,82 +1979,20 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   /* Start construction of the final tree that we will return */
   final_tree = kvtree_new();
 
-  /* Look at all the subfiles with our prefix and read in the file lists */
-  char* prefix_dir_copy = strdup(prefix);
-  char* prefix_dir = dirname(prefix_dir_copy);
-  char* prefix_file_copy = strdup(prefix);
-  char* prefix_file = basename(prefix_file_copy);
+  /* Follow the file names from the high level kvtree down to the subfiles,
+   * rather than guess from file names which subfiles belong to our prefix */
+  rc = kvtree_read_scatter_file(prefix, "", expected_ranks, ULONG_MAX, final_tree);
 
-  /* Create our regex to match our prefix files */
-  char pattern[PATH_MAX];
-  snprintf(pattern, sizeof(pattern), "^%s\\.0\\.[0-9]+$", prefix_file);
-  pattern[sizeof(pattern) - 1] = '\0';
-
-  regex_t regex;
-  rc = regcomp(&regex, pattern, REG_EXTENDED);
-  if (rc) {
+  /* Only hand out a complete set */
+  if (rc == KVTREE_SUCCESS && (unsigned long) kvtree_size(final_tree) != expected_ranks) {
     rc = KVTREE_FAILURE;
-    goto end;
   }
-
-  DIR* d = opendir(prefix_dir);
-  if (!d) {
-    rc = KVTREE_FAILURE;
-    goto end;
-  }
-
-  /* For each file/dir in our prefix dir */
-  unsigned long actual_ranks = 0;
-  struct dirent* dir;
-  while ((dir = readdir(d)) != NULL) {
-    /*
-     * Search for any file starting with "prefix_file."
-     * like "rank2file.".
-     */
-    /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = regexec(&regex, dir->d_name, 0, NULL, 0);
-    if (rc == 0) {  /* Did we get both numbers in the extension? */
-      /* subfile matches */
-
-      /* Construct the full path to the subfile kvtree */
-      char tmp[PATH_MAX];
-      memset(tmp, 0, sizeof(tmp));
-      snprintf(tmp, sizeof(tmp), "%s/%s", prefix_dir, dir->d_name);
-      tmp[sizeof(tmp) - 1] = '\0';
-
-      /* Read in the subfile */
-      kvtree* subfile_tree = kvtree_new();
-      rc = kvtree_read_file(tmp, subfile_tree);
-      if (rc == KVTREE_SUCCESS) {
-        /* Sanity: each subfile we want will have LEVEL=0 */
-        unsigned long level;
-        rc = kvtree_util_get_unsigned_long(subfile_tree, "LEVEL", &level);
-        if (rc == KVTREE_SUCCESS && level == 0) {
-          /* Break off and remove the "RANK" subtree from the rank2file tree */
-          kvtree* subfile_rank_tree = kvtree_extract(subfile_tree, "RANK");
-          if (subfile_rank_tree) {
-            if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
-              actual_ranks += kvtree_size(subfile_rank_tree);
-            }
-          }
-        }
-      }
-      kvtree_delete(&subfile_tree);
-    }
+  if (rc == KVTREE_SUCCESS) {
+    rc = kvtree_merge(data, final_tree);
   }
-  closedir(d);
-  kvtree_merge(data, final_tree);
-  rc = KVTREE_SUCCESS;
-
-end:
-  kvtree_free(&prefix_dir_copy);
-  kvtree_free(&prefix_file_copy);
   kvtree_delete(&final_tree);
-  if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {
-    return KVTREE_FAILURE;
-  }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 ///@}
 
-- 
2.43.0


From 5d616e7e36b35fcf6a1fc612067b98c2e9f0b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 14/36] fix: fail without writing files when given no prefix or
 data

---
 src/kvtree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 43af92e..ea473d7 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1786,6 +1786,12 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
 int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
 {
   int rc = KVTREE_SUCCESS;
+
+  /* check that we have a file name prefix and data */
+  if (prefix == NULL || data == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* record up to 8K entries per file */
   long entries_per_file = 8192;
 
-- 
2.43.0


From c786f4629f2af19edc56d9691f1ff1dda4865245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 15/36] fix: don't loop forever on a non-positive
 KVTREE_ENTRIES_PER_FILE

---
 src/kvtree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index ea473d7..09c0116 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1802,6 +1802,10 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
    */
   if (getenv("KVTREE_ENTRIES_PER_FILE")) {
     entries_per_file = atol(getenv("KVTREE_ENTRIES_PER_FILE"));
+    if (entries_per_file < 1) {
+      /* a file without entries would never get us any further */
+      entries_per_file = 1;
+    }
   }
 
   /* we hardcode this to be two levels deep */
-- 
2.43.0


From d220f4b99202e0cee4e9ff2003262f383721d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 16/36] fix: start a new segment when a rank's bytes begin at a
 boundary

---
 src/kvtree_mpi_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 71cd502..2d94afb 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -49,11 +49,12 @@ static int pick_writer(
     /* force rank 0 to start a segment, even if it has no bytes */
     starts_new = 1;
   } else if (count > 0) {
-    /* otherwise we only start a segment if our bytes overflow the boundary */
+    /* otherwise we only start a segment if our bytes overflow the boundary,
+     * or if they begin right at it */
     unsigned long segindex = offset / segsize;
     unsigned long seglastbyte = (segindex + 1) * segsize - 1;
     unsigned long mylastbyte  = offset + count - 1;
-    if (mylastbyte > seglastbyte) {
+    if (mylastbyte > seglastbyte || (offset > 0 && offset % segsize == 0)) {
       starts_new = 1;
     }
   }
-- 
2.43.0


From 743a813f3403d389ae3040d58e8dbd219d51983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 17/36] fix: report seek and close failures of a parallel
 gather

---
 src/kvtree_mpi_io.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 2d94afb..1b27fa1 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -237,7 +237,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_write_persist(&buf, &bufsize, save);
 
       /* write data to file */
-      kvtree_lseek(mappath, fd, offset, SEEK_SET);
+      if (kvtree_lseek(mappath, fd, offset, SEEK_SET) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
       ssize_t write_rc = kvtree_write_attempt(mappath, fd, buf, bufsize);
       if (write_rc < 0) {
         rc = KVTREE_FAILURE;
@@ -247,7 +249,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -347,7 +351,9 @@ int kvtree_write_gather(
       kvtree_write_persist(&buf, &bufsize, save);
 
       /* write data to file */
-      kvtree_lseek(mappath, fd, offset, SEEK_SET);
+      if (kvtree_lseek(mappath, fd, offset, SEEK_SET) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
       ssize_t write_rc = kvtree_write_attempt(mappath, fd, buf, bufsize);
       if (write_rc < 0) {
         rc = KVTREE_FAILURE;
@@ -357,7 +363,9 @@ int kvtree_write_gather(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err( "Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
-- 
2.43.0


From cd37b805f9fe6a6422031a0c1a6d2018312ce428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 18/36] fix: free the file name when a later step of a scatter
 fails

---
 src/kvtree_mpi_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 1b27fa1..bf6500c 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -493,6 +493,7 @@ static int kvtree_read_scatter_map(
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
     rc = KVTREE_FAILURE;
+    kvtree_free(&newfile);
     goto cleanup;
   }
 
-- 
2.43.0


From c3a042bc86fc0f4e186238a5c853e527c04d6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 19/36] fix: don't pass a NULL list to qsort for an empty tree

---
 src/kvtree.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 09c0116..cd8b7b4 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -566,6 +566,10 @@ int kvtree_sort(kvtree* hash, int direction)
 {
   /* get the size of the hash */
   int count = kvtree_size(hash);
+  if (count == 0) {
+    /* nothing to sort, and qsort must not be given a NULL list */
+    return KVTREE_SUCCESS;
+  }
 
   /* allocate space for each element */
   struct sort_elem_str* list = (struct sort_elem_str*) KVTREE_MALLOC(count * sizeof(struct sort_elem_str));
@@ -611,6 +615,10 @@ int kvtree_sort_int(kvtree* hash, int direction)
 {
   /* get the size of the hash */
   int count = kvtree_size(hash);
+  if (count == 0) {
+    /* nothing to sort, and qsort must not be given a NULL list */
+    return KVTREE_SUCCESS;
+  }
 
   /* allocate space for each element */
   struct sort_elem_int* list = (struct sort_elem_int*) KVTREE_MALLOC(count * sizeof(struct sort_elem_int));
-- 
2.43.0


From d1ec635e45b12ed43e4be583a6bf1711f5465f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 20/36] verif: let KVTREE_VERIF builds override the segment
 size

---
 src/kvtree_mpi_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index bf6500c..8b67fba 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -32,6 +32,13 @@ static int pick_writer(
 {
   /* use a segment size of 1MB */
   unsigned long segsize = 1024*1024;
+#ifdef KVTREE_VERIF
+  /* verification only: use small segments so that few processes need
+   * several files and map levels */
+  if (getenv("KVTREE_VERIF_SEGSIZE")) {
+    segsize = strtoul(getenv("KVTREE_VERIF_SEGSIZE"), NULL, 0);
+  }
+#endif
 
   /* get communicator info */
   int rank, ranks;
-- 
2.43.0


From 5f09371ad6d73d716c2fc3f23c6c778c762fc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 21/36] fix: reject a file whose packed data does not fill it
 exactly

A short burst of flipped bits can clear the crc flag and change the first
count, and such a file was read as if it were intact.
---
 src/kvtree.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index cd8b7b4..0a951c5 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1330,8 +1330,8 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
-/** returns 1 if buf starts with a packed hash that ends within bufsize
- * bytes, 0 otherwise */
+/** returns 1 if buf holds a packed hash of exactly bufsize bytes,
+ * 0 otherwise */
 static int kvtree_pack_is_valid(const char* buf, size_t bufsize)
 {
   size_t pos = 0;
@@ -1351,7 +1351,7 @@ static int kvtree_pack_is_valid(const char* buf, size_t bufsize)
 
     /* stop once we have seen all elements */
     if (remaining == 0) {
-      return 1;
+      return (pos == bufsize);
     }
 
     /* each element takes some bytes, so bail out on impossible counts */
@@ -1497,8 +1497,9 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
-  /* check that the packed hash lies within the buffer before
-   * unpacking it, since unpack trusts the counts and keys it finds */
+  /* check that the packed hash fills the buffer exactly before
+   * unpacking it, since unpack trusts the counts and keys it finds,
+   * and a file whose damage cleared its crc flag has bytes left over */
   if (! kvtree_pack_is_valid(buf + size, (size_t) filesize - size - crc_size)) {
     kvtree_err("Invalid packed data in %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From e90784bbdf3248270e9063f1e15652751bcdd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 22/36] fix: keep all digits of double values

---
 src/kvtree_helpers.c |  5 +++--
 src/kvtree_util.c    | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index dc9539e..0dc9664 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -48,8 +48,9 @@ int kvtree_atod(char* str, double* val)
   /* convert string to double */
   errno = 0;
   double value = strtod(str, NULL);
-  if (errno == 0) {
-    /* got a valid double, set our output parameter */
+  if (errno == 0 || (errno == ERANGE && value > -1.0 && value < 1.0)) {
+    /* got a valid double (tiny values raise ERANGE, too),
+     * set our output parameter */
     *val = value;
   } else {
     /* could not interpret value */
diff --git a/src/kvtree_util.c b/src/kvtree_util.c
index 0af2fc5..ece73a4 100644
--- a/src/kvtree_util.c
+++ b/src/kvtree_util.c
@@ -85,8 +85,14 @@ int kvtree_util_set_double(kvtree* hash, const char* key, double value)
   /* first, unset any current setting */
   kvtree_unset(hash, key);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %f", key, value);
+  /* then set the new value,
+   * use the plain form unless that would lose digits */
+  char str[KVTREE_MAX_FILENAME];
+  snprintf(str, sizeof(str), "%f", value);
+  if (strtod(str, NULL) != value) {
+    snprintf(str, sizeof(str), "%.17g", value);
+  }
+  kvtree_setf(hash, NULL, "%s %s", key, str);
 
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From 4eaf36ee916383b90a01620d678703e7a761ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 23/36] fix: list_int compares its integers as integers, not as
 misaligned structures

---
 src/kvtree.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 0a951c5..0e55423 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -561,6 +561,14 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   return (int_b > int_a) - (int_b < int_a);
 }
 
+/** sort plain integers in ascending order */
+static int kvtree_cmp_fn_plain_int_asc(const void* a, const void* b)
+{
+  int int_a = *(const int*) a;
+  int int_b = *(const int*) b;
+  return (int_a > int_b) - (int_a < int_b);
+}
+
 /** sort the hash assuming the keys are ints */
 int kvtree_sort(kvtree* hash, int direction)
 {
@@ -689,7 +697,7 @@ int kvtree_list_int(const kvtree* hash, int* n, int** v)
   }
 
   /* sort the keys */
-  qsort(list, count, sizeof(int), &kvtree_cmp_fn_int_asc);
+  qsort(list, count, sizeof(int), &kvtree_cmp_fn_plain_int_asc);
 
   *n = count;
   *v = list;
-- 
2.43.0


From f52d5b6b7b25a9330fb7bdd191a49e931f7b21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 24/36] fix: don't change the umask to create a file

---
 src/kvtree_io.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index c866e14..b56d0cd 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -42,13 +42,11 @@ open/lock/close/read/write functions
 =========================================
 */
 
-/* returns user's current mode as determined by their umask */
+/* returns mode to create a file with, open() reduces it by the user's umask,
+ * it's not looked up here since that requires to change it for a moment,
+ * which other threads of the process would notice */
 mode_t kvtree_getmode(int read, int write, int execute)
 {
-  /* lookup current mask and set it back */
-  mode_t old_mask = umask(S_IWGRP | S_IWOTH);
-  umask(old_mask);
-
   mode_t bits = 0;
   if (read) {
     bits |= (S_IRUSR | S_IRGRP | S_IROTH);
@@ -60,9 +58,7 @@ mode_t kvtree_getmode(int read, int write, int execute)
     bits |= (S_IXUSR | S_IXGRP | S_IXOTH);
   }
 
-  /* convert mask to mode */
-  mode_t mode = bits & ~old_mask & 0777;
-  return mode;
+  return bits;
 }
 
 /* open file with specified flags and mode, retry open a few times on failure */
-- 
2.43.0


From 6133c032d47185764f2f36b42a5e4695ff1aad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 25/36] fix: fail a parallel gather or scatter on every process
 when one has no prefix or tree

---
 src/kvtree_mpi_io.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 8b67fba..492633a 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -288,6 +288,11 @@ int kvtree_write_gather(
 {
   int rc = KVTREE_SUCCESS;
 
+  /* every process needs a prefix to name its files */
+  if (! kvtree_alltrue(prefix != NULL, comm)) {
+    return KVTREE_FAILURE;
+  }
+
   /* get name of this process */
   int rank_world, ranks_world;
   MPI_Comm_rank(comm, &rank_world);
@@ -534,6 +539,12 @@ int kvtree_read_scatter(
   /* assume that we won't succeed in our fetch attempt */
   int rc = KVTREE_SUCCESS;
 
+  /* every process needs a prefix to name the files, and a tree to
+   * read into */
+  if (! kvtree_alltrue(prefix != NULL && data != NULL, comm)) {
+    return KVTREE_FAILURE;
+  }
+
   int rank_world, ranks_world;
   MPI_Comm_rank(comm, &rank_world);
   MPI_Comm_size(comm, &ranks_world);
-- 
2.43.0


From e58ad31f6ad83ef734f0838670abd4d51ec847ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 26/36] fix: don't cut off long path prefixes of rank file sets

---
 src/kvtree.c        |  6 ++++--
 src/kvtree_mpi_io.c | 32 ++++++++++++++++++--------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 0e55423..983c4e3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1868,8 +1868,9 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
     }
 
     /* build name for part file */
-    char filename[1024];
-    snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);
+    size_t filename_size = strlen(prefix) + 100;
+    char* filename = (char*) KVTREE_MALLOC(filename_size);
+    snprintf(filename, filename_size, "%s.0.%d", prefix, writer);
 
     /* write hash to file */
     if (kvtree_write_file(filename, entries) != KVTREE_SUCCESS) {
@@ -1879,6 +1880,7 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
 
     /* delete part hash and path */
     kvtree_delete(&entries);
+    kvtree_free(&filename);
 
     /* record file name of part in files hash, relative to prefix directory */
     char partname[1024];
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 492633a..486bb11 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -129,6 +129,16 @@ static int pick_writer(
   return KVTREE_SUCCESS;
 }
 
+/* allocate and return full name of a file of a set, which is named
+ * relative to prefix, caller should free string with kvtree_free */
+static char* kvtree_map_path(const char* prefix, const char* file)
+{
+  size_t len = strlen(prefix) + strlen(file) + 1;
+  char* path = (char*) KVTREE_MALLOC(len);
+  snprintf(path, len, "%s%s", prefix, file);
+  return path;
+}
+
 static unsigned long kvtree_write_gather_map(
   const char* prefix,
   const char* file,
@@ -208,8 +218,7 @@ static unsigned long kvtree_write_gather_map(
     snprintf(mapfile, sizeof(mapfile), ".%d.%d", level, writer);
   }
 
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_map_path(prefix, mapfile);
 
   /* call gather recursively if there's another level */
   if (! allranks) {
@@ -267,8 +276,9 @@ static unsigned long kvtree_write_gather_map(
     }
   }
 
-  /* free the hash */
+  /* free the hash and file name */
   kvtree_delete(&save);
+  kvtree_free(&mappath);
 
   return rc;
 }
@@ -329,9 +339,8 @@ int kvtree_write_gather(
 
   /* define file name */
   char mapfile[1024];
-  char mappath[1024];
   snprintf(mapfile, sizeof(mapfile), ".0.%d", writer);
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_map_path(prefix, mapfile);
 
   /* write map to files */
   unsigned long offset = 0;
@@ -386,8 +395,9 @@ int kvtree_write_gather(
     }
   }
 
-  /* free the hash */
+  /* free the hash and file name */
   kvtree_delete(&save);
+  kvtree_free(&mappath);
 
   /* determine whether everyone wrote their files ok */
   if (kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
@@ -473,9 +483,7 @@ static int kvtree_read_scatter_map(
     if (kvtree_util_get_str(elem_hash, "FILE", &value) == KVTREE_SUCCESS)
     {
       /* return string of full path to file to caller */
-      char mappath[1024];
-      snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
-      newfile = strdup(mappath);
+      newfile = kvtree_map_path(prefix, value);
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -549,10 +557,6 @@ int kvtree_read_scatter(
   MPI_Comm_rank(comm, &rank_world);
   MPI_Comm_size(comm, &ranks_world);
 
-  /* build path to file */
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s", prefix);
-
   /* fetch file names and offsets containing file hash data */
   int valid = 0;
   char* file = NULL;
@@ -560,7 +564,7 @@ int kvtree_read_scatter(
   if (rank_world == 0) {
     /* rank 0 is only valid reader to start with */
     valid  = 1;
-    file   = strdup(mappath);
+    file   = strdup(prefix);
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From 9cdc2bfadbfacdacd2f779d85f0dfe9a561cd6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 27/36] fix: refuse files of another set or level when
 scattering

---
 src/kvtree_mpi_io.c | 64 +++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 486bb11..bd3751e 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -406,9 +406,28 @@ int kvtree_write_gather(
   return KVTREE_FAILURE;
 }
 
+/* check that a file just read belongs to a set written for all processes
+ * of comm, and get the level of the file in that set */
+static int kvtree_check_set(const char* file, const kvtree* hash, int* level, MPI_Comm comm)
+{
+  int ranks_world;
+  MPI_Comm_size(comm, &ranks_world);
+
+  int ranks = 0;
+  kvtree_util_get_int(hash, "RANKS", &ranks);
+  if (ranks != ranks_world) {
+    kvtree_err("Invalid number of ranks in %s, got %d expected %d @ %s:%d",
+      file, ranks, ranks_world, __FILE__, __LINE__
+    );
+    return KVTREE_FAILURE;
+  }
+
+  return kvtree_util_get_int(hash, "LEVEL", level);
+}
+
 static int kvtree_read_scatter_map(
   const char*     prefix,
-  int             depth,
+  int             max_level,
   int*            ptr_valid,
   char**          ptr_file,
   unsigned long*  ptr_offset,
@@ -421,8 +440,9 @@ static int kvtree_read_scatter_map(
   char* file           = *ptr_file;
   unsigned long offset = *ptr_offset;
 
-  /* create a hash to hold section of file */
+  /* create a hash to hold section of file, and record its level */
   kvtree* hash = kvtree_new();
+  int level_id = -1;
 
   /* if we can read from file do it */
   if (valid) {
@@ -437,6 +457,11 @@ static int kvtree_read_scatter_map(
           file, __FILE__, __LINE__
         );
         rc = KVTREE_FAILURE;
+      } else if (kvtree_check_set(file, hash, &level_id, comm) != KVTREE_SUCCESS ||
+                 level_id < 1 || level_id >= max_level)
+      {
+        /* not a map of this set, or one that could lead us in circles */
+        rc = KVTREE_FAILURE;
       }
 
       /* close the file */
@@ -499,16 +524,13 @@ static int kvtree_read_scatter_map(
   kvtree_delete(&recv);
   kvtree_delete(&send);
 
-  /* get level id, and broadcast it from rank 0,
-   * which we assume to be a reader in all steps */
-  int level_id = -1;
-  if (valid) {
-    if (kvtree_util_get_int(hash, "LEVEL", &level_id) != KVTREE_SUCCESS)
-    {
-      rc = KVTREE_FAILURE;
-    }
+  /* broadcast level id from rank 0, which we assume to be
+   * a reader in all steps, everyone should be at the same level */
+  int level_root = level_id;
+  MPI_Bcast(&level_root, 1, MPI_INT, 0, comm);
+  if (valid && level_id != level_root) {
+    rc = KVTREE_FAILURE;
   }
-  MPI_Bcast(&level_id, 1, MPI_INT, 0, comm);
 
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
@@ -527,8 +549,8 @@ static int kvtree_read_scatter_map(
   *ptr_offset = newoffset;
 
   /* recurse if we still have levels to read */
-  if (level_id > 1) {
-    rc = kvtree_read_scatter_map(prefix, depth+1, ptr_valid, ptr_file, ptr_offset, comm);
+  if (level_root > 1) {
+    rc = kvtree_read_scatter_map(prefix, level_root, ptr_valid, ptr_file, ptr_offset, comm);
   }
 
 cleanup:
@@ -553,9 +575,8 @@ int kvtree_read_scatter(
     return KVTREE_FAILURE;
   }
 
-  int rank_world, ranks_world;
+  int rank_world;
   MPI_Comm_rank(comm, &rank_world);
-  MPI_Comm_size(comm, &ranks_world);
 
   /* fetch file names and offsets containing file hash data */
   int valid = 0;
@@ -567,7 +588,7 @@ int kvtree_read_scatter(
     file   = strdup(prefix);
     offset = 0;
   }
-  if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
+  if (kvtree_read_scatter_map(prefix, INT_MAX, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
   {
     rc = KVTREE_FAILURE;
   }
@@ -594,13 +615,10 @@ int kvtree_read_scatter(
         rc = KVTREE_FAILURE;
       }
 
-      /* check that the number of ranks match */
-      int ranks = 0;
-      kvtree_util_get_int(save, "RANKS", &ranks);
-      if (ranks != ranks_world) {
-        kvtree_err("Invalid number of ranks in %s, got %d expected %d @ %s:%d",
-          file, ranks, ranks_world, __FILE__, __LINE__
-        );
+      /* check that the number of ranks match, and that this file
+       * holds data rather than names of other files */
+      int level_id = -1;
+      if (kvtree_check_set(file, save, &level_id, comm) != KVTREE_SUCCESS || level_id != 0) {
         rc = KVTREE_FAILURE;
       }
 
-- 
2.43.0


From 4bac85add02d1b29fe2649a7e099de6d05b0b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 28/36] fix: fail to queue a message when there is no tree to
 queue it in

---
 src/kvtree_mpi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index fc9ce37..8580135 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -221,6 +221,11 @@ int kvtree_bcast(kvtree* hash, int root, MPI_Comm comm)
 /* insert message destined for rank into send kvtree */
 int kvtree_exchange_sendq(kvtree* send_hash, int rank, const kvtree* msg)
 {
+  /* check that we got a hash to queue the message in */
+  if (send_hash == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* see whether we've already got data for this rank,
    * if so, merge it in, otherwise create a copy and add it */
   kvtree* hash = kvtree_getf(send_hash, "%d", rank);
-- 
2.43.0


From 044e29359cd9ddb0073544b77c38b87f35c688df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 29/36] fix: don't ignore a failed copy of a key or prefix

strdup results for element keys and for the prefix of a scatter were not
checked.  An element without a key was then packed and written with an
empty key while the operation reported success, or lookups crashed.
Treat the failure like all other failed allocations.
---
 src/kvtree.c        | 5 +++++
 src/kvtree_mpi_io.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 983c4e3..3a6b141 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -97,6 +97,11 @@ static kvtree_elem* kvtree_elem_init(kvtree_elem* elem, const char* key, kvtree*
   if (elem != NULL) {
     if (key != NULL) {
       elem->key = strdup(key);
+      if (elem->key == NULL) {
+        kvtree_abort(-1, "Failed to duplicate key @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       /* bad idea to allow key to be set to NULL */
       elem->key = NULL;
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index bd3751e..19e483e 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -586,6 +586,11 @@ int kvtree_read_scatter(
     /* rank 0 is only valid reader to start with */
     valid  = 1;
     file   = strdup(prefix);
+    if (file == NULL) {
+      kvtree_abort(-1, "Failed to duplicate prefix @ %s:%d",
+        __FILE__, __LINE__
+      );
+    }
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, INT_MAX, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From 8830a978cef50b77491128e5b5fe0ef2d2fdf3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 30/36] fix: store doubles the same way in every locale

A value stored by a process whose locale uses another decimal sign was
read back as its integral part by a process in the C locale.
---
 src/kvtree_helpers.c | 14 ++++++++++++++
 src/kvtree_util.c    | 12 ++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index 0dc9664..ce6bfec 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -11,6 +11,7 @@
 #include <sys/stat.h>
 #include <string.h>
 #include <strings.h>
+#include <locale.h>
 
 /* variable length args */
 #include <errno.h>
@@ -45,9 +46,22 @@ int kvtree_atod(char* str, double* val)
     return KVTREE_FAILURE;
   }
 
+  /* values are stored as in the C locale, whatever locale the process uses */
+  locale_t c_locale = newlocale(LC_NUMERIC_MASK, "C", (locale_t) 0);
+  locale_t old_locale = uselocale(c_locale);
+
   /* convert string to double */
   errno = 0;
   double value = strtod(str, NULL);
+  int strtod_errno = errno;
+
+  /* go back to the locale of the caller */
+  uselocale(old_locale);
+  if (c_locale != (locale_t) 0) {
+    freelocale(c_locale);
+  }
+
+  errno = strtod_errno;
   if (errno == 0 || (errno == ERANGE && value > -1.0 && value < 1.0)) {
     /* got a valid double (tiny values raise ERANGE, too),
      * set our output parameter */
diff --git a/src/kvtree_util.c b/src/kvtree_util.c
index ece73a4..e340460 100644
--- a/src/kvtree_util.c
+++ b/src/kvtree_util.c
@@ -10,6 +10,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <stdint.h>
+#include <locale.h>
 
 /* need at least version 8.5 of queue.h from Berkeley */
 #include "queue.h"
@@ -85,6 +86,10 @@ int kvtree_util_set_double(kvtree* hash, const char* key, double value)
   /* first, unset any current setting */
   kvtree_unset(hash, key);
 
+  /* values are stored as in the C locale, whatever locale the process uses */
+  locale_t c_locale = newlocale(LC_NUMERIC_MASK, "C", (locale_t) 0);
+  locale_t old_locale = uselocale(c_locale);
+
   /* then set the new value,
    * use the plain form unless that would lose digits */
   char str[KVTREE_MAX_FILENAME];
@@ -92,6 +97,13 @@ int kvtree_util_set_double(kvtree* hash, const char* key, double value)
   if (strtod(str, NULL) != value) {
     snprintf(str, sizeof(str), "%.17g", value);
   }
+
+  /* go back to the locale of the caller */
+  uselocale(old_locale);
+  if (c_locale != (locale_t) 0) {
+    freelocale(c_locale);
+  }
+
   kvtree_setf(hash, NULL, "%s %s", key, str);
 
   return KVTREE_SUCCESS;
-- 
2.43.0


From d10e55c3c2a493c94139c3e68dbabcbf502a17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 31/36] fix: checksum the whole of a record above 4 GiB

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 3a6b141..b8dc410 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1173,7 +1173,7 @@ int kvtree_write_persist(void** ptr_buf, size_t* ptr_size, const kvtree* hash)
 
   /* compute the crc over the length of the file */
   uLong crc = crc32(0L, Z_NULL, 0);
-  crc = crc32(crc, (const Bytef*) buf, (uInt) size);
+  crc = crc32_z(crc, (const Bytef*) buf, size);
 
   /* write the crc to the buffer */
   kvtree_pack_uint32_t(buf, filesize, &size, (uint32_t) crc);
@@ -1493,7 +1493,7 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   if (crc_set) {
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
-    crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
+    crc = crc32_z(crc, (const Bytef*) buf, (size_t) filesize - sizeof(uint32_t));
 
     /* read the crc value */
     uint32_t crc_file_network, crc_file;
-- 
2.43.0


From 5123db5b44d7640642306795b65a2a18578fc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 32/36] fix: locked read of a record of 4 GiB - 1 bytes is no
 failure

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index b8dc410..512b97a 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1617,8 +1617,8 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
   if (fd >= 0) {
     int rc;
     /* read the file into the hash */
-    rc = kvtree_read_fd(file, fd, hash);
-    if (rc == -1) {
+    ssize_t nread = kvtree_read_fd(file, fd, hash);
+    if (nread < 0) {
       kvtree_err("Couldn't read file @ %s:%d", __FILE__, __LINE__);
       kvtree_close_with_unlock(file, fd);
       return KVTREE_FAILURE;
-- 
2.43.0


From 6fabb02d17fb3eadf19fdefa81572c41f2fc07fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 33/36] fix: typed setters given a key or value of the tree
 itself read freed memory

---
 src/kvtree_util.c | 48 +++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/kvtree_util.c b/src/kvtree_util.c
index e340460..3000bc3 100644
--- a/src/kvtree_util.c
+++ b/src/kvtree_util.c
@@ -17,8 +17,9 @@
 
 int kvtree_util_set_bytecount(kvtree* hash, const char* key, unsigned long count)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, unset any current setting,
+   * but keep the element since key may point to its key */
+  kvtree_unset_all(kvtree_get(hash, key));
 
   /* then set the new value */
   kvtree_setf(hash, NULL, "%s %lu", key, count);
@@ -28,8 +29,9 @@ int kvtree_util_set_bytecount(kvtree* hash, const char* key, unsigned long count
 
 int kvtree_util_set_crc32(kvtree* hash, const char* key, uLong crc)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, unset any current setting,
+   * but keep the element since key may point to its key */
+  kvtree_unset_all(kvtree_get(hash, key));
 
   /* then set the new value */
   kvtree_setf(hash, NULL, "%s %#x", key, (uint32_t) crc);
@@ -39,8 +41,9 @@ int kvtree_util_set_crc32(kvtree* hash, const char* key, uLong crc)
 
 int kvtree_util_set_int(kvtree* hash, const char* key, int value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, unset any current setting,
+   * but keep the element since key may point to its key */
+  kvtree_unset_all(kvtree_get(hash, key));
 
   /* then set the new value */
   kvtree_set_kv_int(hash, key, value);
@@ -50,8 +53,9 @@ int kvtree_util_set_int(kvtree* hash, const char* key, int value)
 
 int kvtree_util_set_unsigned_long(kvtree* hash, const char* key, unsigned long value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, unset any current setting,
+   * but keep the element since key may point to its key */
+  kvtree_unset_all(kvtree_get(hash, key));
 
   /* then set the new value */
   kvtree_setf(hash, NULL, "%s %lu", key, value);
@@ -61,19 +65,25 @@ int kvtree_util_set_unsigned_long(kvtree* hash, const char* key, unsigned long v
 
 int kvtree_util_set_str(kvtree* hash, const char* key, const char* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* copy the value first, since it may be part of the current setting */
+  kvtree* value_hash = kvtree_new();
+  if (value != NULL) {
+    kvtree_set(value_hash, value, kvtree_new());
+  }
 
-  /* then set the new value */
-  kvtree_set_kv(hash, key, value);
+  /* then replace any current setting with the new value */
+  if (kvtree_set(hash, key, value_hash) == NULL) {
+    kvtree_delete(&value_hash);
+  }
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_int64(kvtree* hash, const char* key, int64_t value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, unset any current setting,
+   * but keep the element since key may point to its key */
+  kvtree_unset_all(kvtree_get(hash, key));
 
   /* then set the new value */
   kvtree_setf(hash, NULL, "%s %lld", key, value);
@@ -83,8 +93,9 @@ int kvtree_util_set_int64(kvtree* hash, const char* key, int64_t value)
 
 int kvtree_util_set_double(kvtree* hash, const char* key, double value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, unset any current setting,
+   * but keep the element since key may point to its key */
+  kvtree_unset_all(kvtree_get(hash, key));
 
   /* values are stored as in the C locale, whatever locale the process uses */
   locale_t c_locale = newlocale(LC_NUMERIC_MASK, "C", (locale_t) 0);
@@ -111,8 +122,9 @@ int kvtree_util_set_double(kvtree* hash, const char* key, double value)
 
 int kvtree_util_set_ptr(kvtree* hash, const char* key, void* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, unset any current setting,
+   * but keep the element since key may point to its key */
+  kvtree_unset_all(kvtree_get(hash, key));
 
   /* then set the new value */
   kvtree_setf(hash, NULL, "%s %p", key, value);
-- 
2.43.0


From 801a9744118b2001d7cc836ed3f81cdf8cd28562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:11 +0000
Subject: [PATCH 34/36] fix: avoid integer overflow on exchange destinations
 out of range

---
 src/kvtree_mpi.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index 8580135..fd38d6e 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -327,12 +327,13 @@ static int kvtree_exchange_direction_hops(
       int dest_rank = kvtree_elem_key_int(elem);
       kvtree* elem_hash = kvtree_elem_hash(elem);
 
-      /* compute relative distance from our rank */
-      int dist;
+      /* compute relative distance from our rank, the destination may
+       * come from a file and be any value */
+      long long dist;
       if (direction == KVTREE_EXCHANGE_RIGHT) {
-        dist = dest_rank - rank;
+        dist = (long long) dest_rank - rank;
       } else {
-        dist = rank - dest_rank;
+        dist = (long long) rank - dest_rank;
       }
       if (dist < 0) {
         dist += ranks;
-- 
2.43.0


From 38774c7c164ec288bbe7ebd4c2269f7e44abbe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:59 +0000
Subject: [PATCH 35/36] fix: do not read the same files of a rank file set over
 and over

---
 src/kvtree.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 512b97a..26a775e 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1957,7 +1957,14 @@ static int kvtree_read_scatter_file(
         char* next;
         rc = kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &next);
         if (rc == KVTREE_SUCCESS) {
+          int before = kvtree_size(data);
           rc = kvtree_read_scatter_file(prefix, next, ranks, level, data);
+
+          /* every file adds ranks of its own, one that adds none has been
+           * read before, and maps that share files could take forever */
+          if (rc == KVTREE_SUCCESS && kvtree_size(data) <= before) {
+            rc = KVTREE_FAILURE;
+          }
         }
       }
     }
-- 
2.43.0


From e0d69829ea1825c348b618335754b578c82a7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:46 +0000
Subject: [PATCH 36/36] fix: read rank file sets of many map levels without
 exhausting the stack

---
 src/kvtree.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 26a775e..b472c36 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1922,15 +1922,15 @@ static int kvtree_read_scatter_file(
   unsigned long max_level,
   kvtree* data)
 {
-  /* build name of file, which is relative to prefix */
-  char path[PATH_MAX];
-  int path_len = snprintf(path, sizeof(path), "%s%s", prefix, file);
-  if (path_len < 0 || path_len >= (int) sizeof(path)) {
-    return KVTREE_FAILURE;
-  }
+  /* build name of file, which is relative to prefix, maps can be many
+   * levels deep, so do not keep it on the stack */
+  size_t path_size = strlen(prefix) + strlen(file) + 1;
+  char* path = (char*) KVTREE_MALLOC(path_size);
+  snprintf(path, path_size, "%s%s", prefix, file);
 
   kvtree* tree = kvtree_new();
   int rc = kvtree_read_file(path, tree);
+  kvtree_free(&path);
 
   /* check that this file is one we expect at this point in the set */
   unsigned long file_ranks, level;
-- 
2.43.0


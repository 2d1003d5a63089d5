From da4ef19ac15a1bc890b3dad31ad39ceb5543ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 01/53] fix: do not byte-swap the caller's data in place when
 converting dtypes

---
 src/bigfile.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 61fc839..ad7c6c9 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1265,18 +1265,36 @@ int
 _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
 {
     /* cast buf2 of dtype2 into buf1 of dtype1 */
-    /* match src to machine endianness */
+    BigArrayIter iter1 = *dst;
+    BigArrayIter iter2 = *src;
+
+    /* match src to machine endianness; src is not ours, thus swap a copy of it. */
+    BigArray native;
+    BigArrayIter iter3 = *src;
+    void * buffer = NULL;
     if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
-        BigArrayIter iter = *src;
+        size_t elsize = big_file_dtype_itemsize(src->array->dtype);
+        buffer = malloc(nmemb * elsize + 1);
+        RAISEIF(buffer == NULL, ex_malloc, "Not enough memory for byte swapping");
+        big_array_init(&native, buffer, src->array->dtype, 1, &nmemb, NULL);
+        BigArrayIter iter;
+        big_array_iter_init(&iter, &native);
+        iter3 = iter;
+        if(0 != cast(&iter, &iter2, nmemb)) {
+            goto ex_cast;
+        }
+        iter = iter3;
         byte_swap(&iter, nmemb);
     }
 
-    BigArrayIter iter1 = *dst;
-    BigArrayIter iter2 = *src;
-
-    if(0 != cast(&iter1, &iter2, nmemb)) {
+    if(0 != cast(&iter1, &iter3, nmemb)) {
         /* cast is not supported */
-        return -1;
+        goto ex_cast;
+    }
+    if(buffer) {
+        free(buffer);
+    } else {
+        iter2 = iter3;
     }
 
     /* match dst to machine endianness */
@@ -1287,6 +1305,10 @@ _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
     *dst = iter1;
     *src = iter2;
     return 0;
+ex_cast:
+    free(buffer);
+ex_malloc:
+    return -1;
 }
 
 
-- 
2.43.0


From 869139b95308d107d50c6d28ee6e36a4e463b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 02/53] fix: byte-swap the real and imaginary parts of complex
 values separately

---
 src/bigfile.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ad7c6c9..3c5884f 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1321,10 +1321,14 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
     /* need byte swap; do it now on buf2 */
     /* XXX: this may still be wrong. */
     ptrdiff_t i;
+    /* the real and imaginary parts of a complex are swapped separately */
+    int ncomp = (iter->array->dtype[1] == 'c')? 2 : 1;
+    elsize /= ncomp;
     int half = elsize >> 1;
     for(i = 0; i < nmemb; i ++) {
-        int j;
+        int j, k;
         char * ptr = iter->dataptr;
+        for(k = 0; k < ncomp; k ++, ptr += elsize)
         for(j = 0; j < half; j ++) {
             char tmp = ptr[j];
             ptr[j] = ptr[elsize - j - 1];
-- 
2.43.0


From 8663d15f209444396dee8e0c66b2eba148e6cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 03/53] fix: removing an attribute marks the attributes as
 modified, such that it is saved

---
 src/bigfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 3c5884f..da960e7 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1729,6 +1729,7 @@ attrset_remove_attr(BigAttrSet * attrset, const char * attrname)
     memmove(&attrset->attrlist[ind], &attrset->attrlist[ind + 1],
         (attrset->listused - ind - 1) * sizeof(BigAttr));
     attrset->listused -= 1;
+    attrset->dirty = 1;
 
     return 0;
 
-- 
2.43.0


From aee4833a490c23e5d21d6ff09dd3871fb6604c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 04/53] fix: keep the error message per thread; concurrent
 failures freed each other's message

---
 src/bigfile.c | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index da960e7..dbe727c 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -25,12 +25,19 @@
 #define FILEID_ATTR_V2 -3
 #define FILEID_HEADER -1
 
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    #include <stdatomic.h>
-static char * volatile _Atomic ERRORSTR = NULL;
+/* The last error message; one per thread, such that threads that fail at the same time
+ * do not free the message of each other. */
+#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_THREADS__)
+    #define THREADLOCAL _Thread_local
+#elif defined(__GNUC__)
+    #define THREADLOCAL __thread
 #else
-static char * volatile ERRORSTR = NULL;
+    #define THREADLOCAL
+    /* really should have propagated errors over the stack! */
+    #warning "enable -std=c11 or -std=gnu11, or use gcc for thread friendly error handling"
 #endif
+static THREADLOCAL char ERRORBUF[8192 + 1];
+static THREADLOCAL char * ERRORSTR = NULL;
 
 static size_t CHUNK_BYTES = 64 * 1024 * 1024;
 
@@ -103,25 +110,16 @@ char * big_file_get_error_message() {
 void
 big_file_set_error_message(char * msg)
 {
-    char * errorstr;
-    if(msg != NULL) msg = _strdup(msg);
-
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    errorstr = atomic_exchange(&ERRORSTR, msg);
-#elif defined(__ATOMIC_SEQ_CST)
-    errorstr = __atomic_exchange_n(&ERRORSTR, msg, __ATOMIC_SEQ_CST);
-#elif _OPENMP >= 201307
-    /* openmp 4.0 supports swap capture*/
-    #pragma omp capture 
-     { errorstr = ERRORSTR; ERRORSTR = msg; }
-#else
-    errorstr = ERRORSTR;
-    ERRORSTR = msg;
-    /* really should have propagated errors over the stack! */
-    #warning "enable -std=c11 or -std=gnu11, or luse gcc for thread friendly error handling"
-#endif
-
-    if(errorstr) free(errorstr);
+    if(msg == NULL) {
+        ERRORSTR = NULL;
+        return;
+    }
+    /* msg may be the current message */
+    size_t l = strlen(msg);
+    if(l > sizeof(ERRORBUF) - 1) l = sizeof(ERRORBUF) - 1;
+    memmove(ERRORBUF, msg, l);
+    ERRORBUF[l] = '\0';
+    ERRORSTR = ERRORBUF;
 }
 
 
-- 
2.43.0


From 6b02080991050eca4566e0c7073ee49285868bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 05/53] fix: format error messages of any length, and never use
 a message as a format

---
 src/bigfile.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index dbe727c..76ee265 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -154,25 +154,39 @@ _big_file_path_is_block(const char * basename)
 void
 _big_file_raise(const char * msg, const char * file, const int line, ...)
 {
+    char * errorstr;
     if(!msg) {
-        if(ERRORSTR) {
-            msg = ERRORSTR;
-        } else {
-            msg = "UNKNOWN ERROR";
+        /* raise the current error again; it is a message, not a format. */
+        msg = ERRORSTR ? ERRORSTR : "UNKNOWN ERROR";
+        errorstr = malloc(strlen(msg) + 1);
+        if(errorstr) strcpy(errorstr, msg);
+    } else {
+        va_list va;
+        va_start(va, line);
+        int l = vsnprintf(NULL, 0, msg, va);
+        va_end(va);
+        if(l < 0) l = 0;
+        errorstr = malloc(l + 1);
+        if(errorstr) {
+            errorstr[0] = '\0';
+            va_start(va, line);
+            vsnprintf(errorstr, l + 1, msg, va);
+            va_end(va);
         }
     }
 
-    size_t len = strlen(msg) + strlen(file) + 512;
-    char * errorstr = malloc(len);
-
-    char * fmtstr = alloca(len);
-    sprintf(fmtstr, "%s @(%s:%d)", msg, file, line);
-    va_list va;
-    va_start(va, line);
-    vsprintf(errorstr, fmtstr, va);
-    va_end(va);
+    if(!errorstr) {
+        big_file_set_error_message("Not enough memory for the error message");
+        return;
+    }
 
-    big_file_set_error_message(errorstr);
+    size_t len = strlen(errorstr) + strlen(file) + 128;
+    char * located = malloc(len);
+    if(located) {
+        snprintf(located, len, "%s @(%s:%d)", errorstr, file, line);
+    }
+    big_file_set_error_message(located ? located : errorstr);
+    free(located);
     free(errorstr);
 }
 
-- 
2.43.0


From 6812875ffc44962a182eefcf82b1df4d19064860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 06/53] fix: rows larger than the I/O buffer looped forever,
 and blocks without data divided by zero

---
 src/bigfile.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 76ee265..1fb286f 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -809,11 +809,16 @@ ex_seek:
 int
 big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
-    char * chunkbuf = malloc(CHUNK_BYTES);
-
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
+    RAISEIF(felsize <= 0,
+            ex_malloc,
+            "Block `%s' has no data to read", bb->basename);
+
     size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* a row may be larger than the buffer size */
+    if(CHUNK_SIZE == 0) CHUNK_SIZE = 1;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -903,12 +908,18 @@ int
 big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
     if(array->size == 0) return 0;
-    /* the file header is modified */
-    bb->dirty = 1;
-    char * chunkbuf = malloc(CHUNK_BYTES);
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
+    RAISEIF(felsize <= 0,
+            ex_malloc,
+            "Block `%s' can not store data", bb->basename);
+    /* the file header is modified */
+    bb->dirty = 1;
+
     size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* a row may be larger than the buffer size */
+    if(CHUNK_SIZE == 0) CHUNK_SIZE = 1;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -922,7 +933,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     RAISEIF(chunkbuf == NULL,
             ex_malloc,
-            "not enough memory for chunkbuf of size %d bytes", CHUNK_BYTES);
+            "not enough memory for chunkbuf of size %td bytes", (ptrdiff_t) (CHUNK_SIZE * felsize));
 
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
-- 
2.43.0


From c32e19baa3058da87a4b9deb7fd4802407cba938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 07/53] fix: count the checksum of a chunk after it is written,
 and check that it is written

---
 src/bigfile.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 1fb286f..b779f4c 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -963,8 +963,6 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
         RAISEIF(0 != _dtype_convert(&chunk_iter, &array_iter, chunk_size * bb->nmemb),
             ex_convert, NULL);
 
-        sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);
-
         fp = _big_file_open_a_file(bb->basename, ptr->fileid, "r+", 1);
         RAISEIF(fp == NULL,
                 ex_open,
@@ -977,7 +975,13 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 ex_write,
                 "Failed to write in block `%s' at (%d:%td) (%s)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_close,
+                "Failed to write in block `%s' at (%d:%td) (%s)",
+                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
+
+        /* only what is written counts, such that a failed write can be retried. */
+        sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);
 
         towrite -= chunk_size;
         RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
@@ -988,6 +992,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 ex_write:
 ex_seek:
     fclose(fp);
+ex_close:
 ex_convert:
 ex_open:
 ex_blockseek:
-- 
2.43.0


From b53c35a58349dbe3b4958e43e827beab5ced127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 08/53] fix: report a failure to write the header or the
 attributes when they are closed

---
 src/bigfile.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index b779f4c..859a8f0 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -473,7 +473,9 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
     }
     return 0;
 
@@ -579,7 +581,9 @@ _big_block_create(BigBlock * bb, const char * basename, const char * dtype, int
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
     }
 ex_internal:
     return rt;
@@ -615,7 +619,10 @@ big_block_flush(BigBlock * block)
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
                 ex_fprintf, "Writing file information to header");
         }
-        fclose(fheader);
+        /* the header may be still in the stdio buffer. */
+        RAISEIF(0 != fclose(fheader),
+                ex_fileio, "Failed to write header of block `%s' (%s)",
+                block->basename, strerror(errno));
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -1615,8 +1622,6 @@ static int
 attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
     static char conv[] = "0123456789ABCDEF";
-    attrset->dirty = 0;
-
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "w", 1);
     RAISEIF(fattr == NULL,
             ex_open,
@@ -1675,7 +1680,10 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_write,
             "Failed to write to file");
     } 
-    fclose(fattr);
+    RAISEIF(0 != fclose(fattr),
+            ex_open,
+            "Failed to write attributes of `%s' (%s)", basename, strerror(errno));
+    attrset->dirty = 0;
     return 0;
 ex_write:
     fclose(fattr);
-- 
2.43.0


From ef04551dc98d59a11b6dd8be80aed90aa7a62e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 09/53] fix: do not grow a block whose new files can not be
 created

---
 src/bigfile.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 859a8f0..1b49509 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -462,13 +462,10 @@ int
 big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
 {
     int oldNfile = bb->Nfile;
-
-    _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
-
     int i;
 
-    /* now truncate the new files */
-    for(i = oldNfile; i < bb->Nfile; i ++) {
+    /* truncate the new files first; if any fails the block is not grown. */
+    for(i = oldNfile; i < oldNfile + Nfile_grow; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);
         RAISEIF(fp == NULL, 
                 ex_fileio, 
@@ -477,7 +474,7 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
                 ex_fileio,
                 "Failed to create file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
     }
-    return 0;
+    return _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
 
 ex_fileio:
     return -1;
-- 
2.43.0


From df871fa5817ed62366177485517e9d58b011e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 10/53] fix: do not read or write out of bounds when an
 attribute file is malformed; accept empty attributes

---
 src/bigfile.c | 65 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 1b49509..013162d 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1501,8 +1501,12 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     int nmemb;
     int lname;
     char dtype[9]={0};
-    char * data;
-    char * name;
+    char * data = NULL;
+    char * name = NULL;
+    struct stat st;
+    RAISEIF(0 != fstat(fileno(fattr), &st), ex_fread,
+        "Failed to stat attribute file of `%s' (%s)", basename, strerror(errno));
+    size_t fsize = st.st_size;
     while(!feof(fattr)) {
         if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
         RAISEIF(
@@ -1512,24 +1516,38 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
             ex_fread,
             "Failed to read from file"
                 )
-        int ldata = big_file_dtype_itemsize(dtype) * nmemb;
-        data = alloca(ldata);
-        name = alloca(lname + 1);
+        RAISEIF(nmemb < 0 || lname <= 0,
+            ex_fread,
+            "Unreasonable attribute in attribute file of `%s'", basename);
+        size_t ldata = (size_t) big_file_dtype_itemsize(dtype) * nmemb;
+        /* no larger than what is in the file */
+        RAISEIF(ldata > fsize || lname > fsize,
+            ex_fread,
+            "Unreasonable attribute in attribute file of `%s'", basename);
+        data = malloc(ldata + 1);
+        name = malloc(lname + 1);
         RAISEIF(
+            data == NULL || name == NULL ||
             (1 != fread(name, lname, 1, fattr)) ||
-            (1 != fread(data, ldata, 1, fattr)),
-            ex_fread,
+            (ldata > 0 && 1 != fread(data, ldata, 1, fattr)),
+            ex_fread_attr,
             "Failed to read from file");
 
         name[lname] = 0;
         RAISEIF(0 != attrset_set_attr(attrset, name, data, dtype, nmemb),
-            ex_set_attr,
+            ex_fread_attr,
             NULL);
+        free(data);
+        free(name);
     }
+    RAISEIF(ferror(fattr), ex_fread,
+        "Failed to read attribute file of `%s' (%s)", basename, strerror(errno));
     attrset->dirty = 0;
     fclose(fattr);
     return 0;
-ex_set_attr:
+ex_fread_attr:
+    free(data);
+    free(name);
 ex_fread:
     attrset->dirty = 0;
     fclose(fattr);
@@ -1567,23 +1585,36 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     long i = 0;
     #define ATTRV2_EXPECT(variable) while(_isblank(buffer[i])) i++; \
                     char * variable = buffer + i; \
-                    while(!_isblank(buffer[i])) i++; buffer[i] = 0; i++;
+                    while(buffer[i] && buffer[i] != '\n' && !_isblank(buffer[i])) i++; \
+                    RAISEIF(!_isblank(buffer[i]), ex_parse_attr, \
+                        "Truncated line in attribute file of `%s'", basename); \
+                    buffer[i] = 0; i++;
     while(buffer[i]) {
         ATTRV2_EXPECT(name);
         ATTRV2_EXPECT(dtype);
         ATTRV2_EXPECT(rawlength);
-        ATTRV2_EXPECT(rawdata);
-        /* skip the reset of the line */
-        while(buffer[i] != '\n' && buffer[i]) i ++;
-        if(buffer[i] == '\n') i++;
 
         int nmemb = atoi(rawlength);
         int itemsize = big_file_dtype_itemsize(dtype);
+        RAISEIF(nmemb < 0 || itemsize < 0,
+            ex_parse_attr,
+            "Unreasonable attribute in attribute file of `%s': %d x %d (%s)",
+            basename, nmemb, itemsize, dtype);
+
+        char * rawdata = "";
+        /* there is no data for an attribute of no members */
+        if(nmemb > 0 && itemsize > 0) {
+            ATTRV2_EXPECT(token);
+            rawdata = token;
+        }
+        /* skip the reset of the line */
+        while(buffer[i] != '\n' && buffer[i]) i ++;
+        if(buffer[i] == '\n') i++;
 
-        RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
+        RAISEIF((size_t) nmemb * itemsize * 2 != strlen(rawdata),
             ex_parse_attr,
-            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
-            nmemb, itemsize, dtype, strlen(rawdata));
+            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %td",
+            nmemb, itemsize, dtype, (ptrdiff_t) strlen(rawdata));
 
         int j, k;
         for(k = 0, j = 0; k < nmemb * itemsize; k ++, j += 2) {
-- 
2.43.0


From d2a1d3e28f99aea65c59899816f9071699f6a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 11/53] fix: refuse attributes that can not be read back (empty
 name, truncated dtype)

---
 src/bigfile.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 013162d..07f09ee 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1812,7 +1812,6 @@ static int
 attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data, const char * dtype, int nmemb)
 {
     BigAttr * attr;
-    attrset->dirty = 1;
 
     RAISEIF (
          strchr(attrname, ' ')
@@ -1821,6 +1820,23 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
       ex_name,
       "Attribute name cannot contain blanks (space, tab or newline)"
     );
+    RAISEIF(attrname[0] == '\0',
+      ex_name,
+      "Attribute name cannot be empty"
+    );
+
+    /* the normalized dtype shall not be truncated */
+    int hasendian = dtype[0] && strchr("<>|=", dtype[0]);
+    RAISEIF(strlen(dtype) + (hasendian ? 0 : 1) > 7 || big_file_dtype_itemsize(dtype) <= 0,
+      ex_name,
+      "Attribute `%s' has an unsupported dtype `%s'", attrname, dtype
+    );
+    RAISEIF(nmemb < 0,
+      ex_name,
+      "Attribute `%s' has an unreasonable number of members (%d)", attrname, nmemb
+    );
+
+    attrset->dirty = 1;
 
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
-- 
2.43.0


From bdbc1949d664a75c4dd9ce7c5ededb2b7def459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 12/53] fix: do not overflow the dtype or the row size when a
 header is malformed

---
 src/bigfile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 07f09ee..2bcee31 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -349,7 +349,7 @@ _big_block_open(BigBlock * bb, const char * basename)
                 NULL);
 
         RAISEIF(
-               (1 != fscanf(fheader, " DTYPE: %s", bb->dtype)) ||
+               (1 != fscanf(fheader, " DTYPE: %7s", bb->dtype)) ||
                (1 != fscanf(fheader, " NMEMB: %d", &(bb->nmemb))) ||
                (1 != fscanf(fheader, " NFILE: %d", &(bb->Nfile))),
                ex_fscanf,
@@ -361,6 +361,8 @@ _big_block_open(BigBlock * bb, const char * basename)
                 "Unreasonable value for nmemb in header of block `%s' (%d)",bb->basename,bb->nmemb);
         RAISEIF(!dtype_isvalid(bb->dtype), ex_fscanf, 
                 "Unreasonable value for dtype in header of block `%s' (%s)",bb->basename,bb->dtype);
+        RAISEIF(bb->nmemb > INT_MAX / big_file_dtype_itemsize(bb->dtype), ex_fscanf,
+                "Unreasonable value for nmemb in header of block `%s' (%d)",bb->basename,bb->nmemb);
         bb->fsize = calloc(bb->Nfile + 1, sizeof(size_t));
         RAISEIF(!bb->fsize,
                 ex_fsize,
@@ -375,7 +377,7 @@ _big_block_open(BigBlock * bb, const char * basename)
                 "Failed to alloc memory `%s'", bb->basename);
         int i;
         for(i = 0; i < bb->Nfile; i ++) {
-            int fid; 
+            int fid = -1;
             size_t size;
             unsigned int cksum;
             unsigned int sysv;
-- 
2.43.0


From c704da058fbdc93c29bceba1a5551ed34b8fac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 13/53] fix: refuse a header whose sizes overflow the offsets

---
 src/bigfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 2bcee31..4ab203a 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -392,6 +392,10 @@ _big_block_open(BigBlock * bb, const char * basename)
         }
         bb->foffset[0] = 0;
         for(i = 0; i < bb->Nfile; i ++) {
+            /* the size in bytes must be representable as an offset */
+            size_t felsize = big_file_dtype_itemsize(bb->dtype) * (size_t) (bb->nmemb ? bb->nmemb : 1);
+            RAISEIF(bb->fsize[i] > PTRDIFF_MAX / felsize - bb->foffset[i], ex_fscanf1,
+                    "Unreasonable size in header of block `%s' (%td)", bb->basename, bb->fsize[i]);
             bb->foffset[i + 1] = bb->foffset[i] + bb->fsize[i];
         }
         bb->size = bb->foffset[bb->Nfile];
-- 
2.43.0


From 1ad413d8c168d74ea4ba43f67dc6380b3a9aec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 14/53] fix: meta blocks have file arrays too, such that seek
 and eof do not dereference NULL

---
 src/bigfile.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4ab203a..fd74534 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -419,6 +419,10 @@ ex_open:
         /* The meta block of a big file, has on extra files. */
         bb->Nfile = 0;
         strcpy(bb->dtype, "####");
+        /* seek, eof and grow expect the arrays, of Nfile + 1 */
+        bb->fsize = calloc(1, sizeof(size_t));
+        bb->foffset = calloc(1, sizeof(size_t));
+        bb->fchecksum = calloc(1, sizeof(int));
         return 0;
     }
 
@@ -551,6 +555,9 @@ ex_fsize:
     } else {
         /* special meta block of a file */
         bb->Nfile = 0;
+        bb->fsize = calloc(1, sizeof(size_t));
+        bb->foffset = calloc(1, sizeof(size_t));
+        bb->fchecksum = calloc(1, sizeof(int));
         /* never flush the header */
         bb->dirty = 0;
 
@@ -561,7 +568,7 @@ ex_fsize:
         return 0;
 
 ex_flush2:
-        attrset_free(bb->attrset);
+        _big_block_close_internal(bb);
         return -1;
     }
 
-- 
2.43.0


From 07c01d1813052808244f6193e76e57c876020a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 15/53] fix: do not leak when a file or block can not be opened
 or created

---
 src/bigfile.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index fd74534..235cf63 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -213,6 +213,8 @@ int big_file_create(BigFile * bf, const char * basename) {
         NULL);
     return 0;
 ex_subdir:
+    free(bf->basename);
+    bf->basename = NULL;
     return -1;
 }
 
@@ -414,7 +416,7 @@ ex_fsize:
 ex_fscanf:
         fclose(fheader);
 ex_open:
-        return -1;
+        goto ex_readattr;
     } else {
         /* The meta block of a big file, has on extra files. */
         bb->Nfile = 0;
@@ -427,6 +429,10 @@ ex_open:
     }
 
 ex_readattr:
+        /* the block is not open; nobody will close it. */
+        attrset_free(bb->attrset);
+        free(bb->basename);
+        memset(bb, 0, sizeof(bb[0]));
         return -1;
 }
 
@@ -544,13 +550,10 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         bb->dirty = 0;
         return 0;
 ex_flush:
-        attrset_free(bb->attrset);
-        free(bb->foffset);
 ex_foffset:
-        free(bb->fchecksum);
 ex_fchecksum:
-        free(bb->fsize);
 ex_fsize:
+        _big_block_close_internal(bb);
         return -1;
     } else {
         /* special meta block of a file */
-- 
2.43.0


From a916f55a26246c2090728b53152799a04b5695e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 16/53] fix: an attribute file that can not be read is an
 error, not an empty set of attributes

---
 src/bigfile.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 235cf63..d0ff204 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1512,7 +1512,13 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
+        /* no attributes, only if there is no such file; or we will overwrite them. */
+        RAISEIF(errno != ENOENT && errno != ENOTDIR,
+            ex_open,
+            "Failed to open attribute file of `%s' (%s)", basename, strerror(errno));
         return 0;
+ex_open:
+        return -1;
     }
     int nmemb;
     int lname;
@@ -1522,6 +1528,11 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     struct stat st;
     RAISEIF(0 != fstat(fileno(fattr), &st), ex_fread,
         "Failed to stat attribute file of `%s' (%s)", basename, strerror(errno));
+    if(S_ISDIR(st.st_mode)) {
+        /* not an attribute file, but a block or group named attr */
+        fclose(fattr);
+        return 0;
+    }
     size_t fsize = st.st_size;
     while(!feof(fattr)) {
         if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
@@ -1581,9 +1592,15 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
     if(fattr == NULL) {
+        /* no attributes, only if there is no such file; or we will overwrite them. */
+        RAISEIF(errno != ENOENT && errno != ENOTDIR,
+            ex_open,
+            "Failed to open attribute file of `%s' (%s)", basename, strerror(errno));
         return 0;
+ex_open:
+        return -1;
     }
-    fseek(fattr, 0, SEEK_END);
+    RAISEIF(0 != fseek(fattr, 0, SEEK_END), ex_init, "fseek error: %s",strerror(errno));
     long size = ftell(fattr);
     /*ftell may fail*/
     RAISEIF(size < 0, ex_init, "ftell error: %s",strerror(errno));
@@ -1591,7 +1608,7 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     RAISEIF(!buffer, ex_init, "Could not allocate memory for buffer: %ld bytes",size+1);
     unsigned char * data = (unsigned char * ) malloc(size + 1);
     RAISEIF(!data, ex_data, "Could not allocate memory for data: %ld bytes",size+1);
-    fseek(fattr, 0, SEEK_SET);
+    RAISEIF(0 != fseek(fattr, 0, SEEK_SET), ex_read_file, "fseek error: %s",strerror(errno));
     RAISEIF(size != fread(buffer, 1, size, fattr),
             ex_read_file,
             "Failed to read attribute file\n");
@@ -2047,6 +2064,7 @@ _big_file_open_a_file(const char * basename, int fileid, char * mode, int raise)
         unbuffered = 1;
     }
     FILE * fp = fopen(filename, mode);
+    int errsv = errno;
 
     if(!raise && fp == NULL) {
         goto ex_fopen;
@@ -2062,6 +2080,7 @@ _big_file_open_a_file(const char * basename, int fileid, char * mode, int raise)
     }
 ex_fopen:
     free(filename);
+    errno = errsv;
     return fp;
 }
 static
-- 
2.43.0


From 3dd826e75f048114482f13b9835594e5b483166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 17/53] fix: refuse to create blocks that can not be opened

---
 src/bigfile.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index d0ff204..4612fc0 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -525,6 +525,14 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         /* always use normalized dtype in files. */
         _dtype_normalize(bb->dtype, dtype);
 
+        /* a block with these could be created, but never opened. */
+        RAISEIF(!dtype_isvalid(bb->dtype) || strlen(dtype) > 7, ex_layout,
+                "Unsupported dtype `%s' for block `%s'", dtype, basename);
+        RAISEIF(Nfile < 0 || Nfile >= INT_MAX - 1, ex_layout,
+                "Unreasonable number of files (%d) for block `%s'", Nfile, basename);
+        RAISEIF(nmemb < 0 || nmemb > INT_MAX / big_file_dtype_itemsize(bb->dtype), ex_layout,
+                "Unreasonable number of members (%d) for block `%s'", nmemb, basename);
+
         bb->Nfile = Nfile;
         bb->nmemb = nmemb;
         bb->fsize = calloc(bb->Nfile + 1, sizeof(size_t));
@@ -553,6 +561,7 @@ ex_flush:
 ex_foffset:
 ex_fchecksum:
 ex_fsize:
+ex_layout:
         _big_block_close_internal(bb);
         return -1;
     } else {
@@ -656,7 +665,7 @@ ex_fileio:
 void
 _big_block_close_internal(BigBlock * block)
 {
-    attrset_free(block->attrset);
+    if(block->attrset) attrset_free(block->attrset);
 
     free(block->basename);
     free(block->fchecksum);
-- 
2.43.0


From 6866090aefd56019fdf46d0fd7e7452ab74e2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 18/53] fix: report text that can not be parsed; do not format
 items larger than the buffer

---
 src/bigfile.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4612fc0..5323983 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1233,6 +1233,12 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     _dtype_normalize(ndtype2, dtype);
     ndtype2[0] = '=';
     _dtype_normalize(ndtype, ndtype2);
+    /* the types too large for converted are not formatted. */
+    int itemsize = big_file_dtype_itemsize(ndtype);
+    if(itemsize < 0 || itemsize > sizeof(converted)) {
+        sprintf(buffer, "<%s>", ndtype);
+        return;
+    }
     dtype_convert_simple(converted, ndtype, data, dtype, 1);
 
     p.v = converted;
@@ -1281,12 +1287,12 @@ big_file_dtype_parse(const char * buffer, const char * dtype, void * data, const
 #define PARSE1(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, p.dtype); \
+        if(1 != sscanf(buffer, fmt, p.dtype)) goto ex_scan; \
     }
 #define PARSE2(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i); \
+        if(2 != sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i)) goto ex_scan; \
     }
     PARSE1(a1, "%c") else
     PARSE1(i8, "%ld") else
@@ -1297,11 +1303,14 @@ big_file_dtype_parse(const char * buffer, const char * dtype, void * data, const
     PARSE1(f4, "%f") else
     PARSE2(c8, "%f + %f I") else
     PARSE2(c16, "%lf + %lf I") else
-    return -1;
+    RAISE(ex, "Can not parse values of dtype `%s'", dtype);
 
-    dtype_convert_simple(data, dtype, converted, ndtype, 1);
+    return dtype_convert_simple(data, dtype, converted, ndtype, 1);
 
-    return 0;
+ex_scan:
+    RAISE(ex, "Failed to parse `%s' as dtype `%s'", buffer, dtype);
+ex:
+    return -1;
 }
 
 static int
-- 
2.43.0


From e129a4426f2524e8c786b49ee746f12effc7da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 19/53] fix: do not resurrect removed attributes from a legacy
 attribute file

---
 src/bigfile.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 5323983..c4ca140 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -335,12 +335,14 @@ _big_block_open(BigBlock * bb, const char * basename)
 
     bb->attrset = attrset_create();
 
-    /* COMPATIBLE WITH V1 ATTR FILES */
-    RAISEIF(0 != attrset_read_attr_set_v1(bb->attrset, bb->basename),
+    int hasv2 = attrset_read_attr_set_v2(bb->attrset, bb->basename);
+    RAISEIF(hasv2 < 0,
             ex_readattr,
             NULL);
 
-    RAISEIF(0 != attrset_read_attr_set_v2(bb->attrset, bb->basename),
+    /* COMPATIBLE WITH V1 ATTR FILES; all attributes are in the V2 file if there is one,
+     * what is only in the V1 file has been removed. */
+    RAISEIF(!hasv2 && 0 != attrset_read_attr_set_v1(bb->attrset, bb->basename),
             ex_readattr,
             NULL);
 
@@ -1603,6 +1605,7 @@ static int _isblank(int ch) {
     return ch == ' ' || ch == '\t';
 }
 
+/* returns 1 if the file is read, 0 if there is no such file, -1 if failed */
 static int
 attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
@@ -1684,7 +1687,7 @@ ex_open:
     free(data);
     free(buffer);
     attrset->dirty = 0;
-    return 0;
+    return 1;
 
 ex_read_file:
 ex_parse_attr:
-- 
2.43.0


From b2a18280edcbcacac6b8e4fb7c52a03ec420ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 20/53] fix: report failed conversions and seeks in collective
 reads and writes

---
 src/bigfile-mpi.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4bdde18..fc8699a 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -524,20 +524,30 @@ _aggregated(
     }
 
     if(action == big_block_write) {
-        _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        e = _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        /* write nothing if the data of any rank can not be converted */
+        if(0 != (e = big_file_mpi_broadcast_anyerror(e, comm))) goto finalize;
+
         MPI_Gatherv(lbuf, recvcounts[rank], mpidtype,
                     gbuf, recvcounts, recvdispls, mpidtype, root, comm);
     }
     if(rank == root) {
-        big_block_seek_rel(block, ptr1, offset);
-        e = action(block, ptr1, garray);
+        e = big_block_seek_rel(block, ptr1, offset);
+        if(e == 0) {
+            e = action(block, ptr1, garray);
+        }
     }
+
+    if(0 != (e = big_file_mpi_broadcast_anyerror(e, comm))) goto finalize;
+
     if(action == big_block_read) {
         MPI_Scatterv(gbuf, recvcounts, recvdispls, mpidtype,
                     lbuf, localsize, mpidtype, root, comm);
-        _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        e = _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        e = big_file_mpi_broadcast_anyerror(e, comm);
     }
 
+finalize:
     if(rank == root) {
         free(gbuf);
     }
@@ -545,7 +555,7 @@ _aggregated(
 
     MPI_Type_free(&mpidtype);
 
-    return big_file_mpi_broadcast_anyerror(e, comm);
+    return e;
 }
 
 int
-- 
2.43.0


From e314f21dc9c75ce89782f74e8ab40d0994edafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 21/53] fix: collective access beyond the end of a block does
 not write a part of the data

---
 src/bigfile-mpi.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index fc8699a..2663dac 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -406,6 +406,7 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
     MPI_Comm_size(comm, &NTask);
     MPI_Comm_rank(comm, &ThisTask);
 
+    int rt = 0;
     MPIU_Segmenter seggrp[1];
 
     if(concurrency <= 0) {
@@ -419,6 +420,17 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     size_t totalsize = MPIU_Segmenter_collect_sizes(localsize, sizes, &myoffset, comm);
 
+    /* nothing is transferred if not everything fits in the block */
+    if(block->foffset[ptr->fileid] + ptr->roffset + totalsize > block->size) {
+        _big_file_raise("Accessing %td items beyond the end of block `%s' at (%d:%td)", __FILE__, __LINE__,
+                (ptrdiff_t) totalsize, block->basename, ptr->fileid, ptr->roffset);
+        rt = -1;
+    }
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        free(sizes);
+        return rt;
+    }
+
     /* try to create as many segments as number of groups (thus one segment per group) */
     avgsegsize = totalsize / concurrency;
 
@@ -431,7 +443,6 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     free(sizes);
 
-    int rt = 0;
     int segment;
 
     for(segment = seggrp->segment_start;
-- 
2.43.0


From 2dc38684a923757d4597b989d99a44d3bb56feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 22/53] fix: collective flush, open and grow neither multiply
 nor lose checksums; grow creates the files first

---
 src/bigfile-mpi.c | 92 +++++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 30 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 2663dac..eb3691e 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -12,6 +12,7 @@ static size_t _BigFileAggThreshold = 0;
 static int _big_file_mpi_verbose = 0;
 
 static int big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm);
+static void big_block_mpi_reduce(BigBlock * bb, MPI_Comm comm);
 static int big_file_mpi_broadcast_anyerror(int rt, MPI_Comm comm);
 
 #define BCAST_AND_RAISEIF(rt, comm) \
@@ -167,6 +168,19 @@ _big_block_mpi_open(BigBlock * bb, const char * basename, MPI_Comm comm)
     return 0;
 }
 
+/* create an empty physical file */
+static int
+big_block_mpi_create_file(BigBlock * bb, int fileid)
+{
+    FILE * fp = _big_file_open_a_file(bb->basename, fileid, "w", 1);
+    RAISEIF(fp == NULL, ex_open, NULL);
+    RAISEIF(0 != fclose(fp), ex_open,
+        "Failed to create file %d of block `%s'", fileid, bb->basename);
+    return 0;
+ex_open:
+    return -1;
+}
+
 static int
 _big_block_mpi_create(BigBlock * bb,
         const char * basename,
@@ -197,15 +211,14 @@ _big_block_mpi_create(BigBlock * bb,
 
     int i;
     for(i = (size_t) bb->Nfile * rank / NTask; i < (size_t) bb->Nfile * (rank + 1) / NTask; i ++) {
-        FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);
-        if(fp == NULL) {
-            rt = -1;
-            break;
-        }
-        fclose(fp);
+        rt = big_block_mpi_create_file(bb, i);
+        if(rt != 0) break;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        /* the block is not open on any rank */
+        _big_block_close_internal(bb);
+    }
 
     return rt;
 }
@@ -227,13 +240,26 @@ big_block_mpi_grow(BigBlock * bb,
 
     int oldNfile = bb->Nfile;
 
+    /* create the new files first; if any fails the block is not grown. */
+    rt = 0;
+    int i;
+    for(i = (size_t) Nfile_grow * rank / NTask; i < (size_t) Nfile_grow * (rank + 1) / NTask; i ++) {
+        rt = big_block_mpi_create_file(bb, i + oldNfile);
+        if(rt != 0) break;
+    }
+
+    BCAST_AND_RAISEIF(rt, comm);
+
+    /* what is written before the growth shall not be lost with the closed blocks. */
+    big_block_mpi_reduce(bb, comm);
+
     if(rank == 0) {
         rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
     } else {
         rt = 0;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    rt = big_file_mpi_broadcast_anyerror(rt, comm);
 
     if(rank != 0) {
         /* closed on non-root because we will bcast.*/
@@ -241,18 +267,6 @@ big_block_mpi_grow(BigBlock * bb,
     }
     big_block_mpi_broadcast(bb, 0, comm);
 
-    int i;
-    for(i = (size_t) Nfile_grow * rank / NTask; i < (size_t) Nfile_grow * (rank + 1) / NTask; i ++) {
-        FILE * fp = _big_file_open_a_file(bb->basename, i + oldNfile, "w", 1);
-        if(fp == NULL) {
-            rt = -1;
-            break;
-        }
-        fclose(fp);
-    }
-
-    BCAST_AND_RAISEIF(rt, comm);
-
     return rt;
 }
 
@@ -272,38 +286,51 @@ big_block_mpi_grow_simple(BigBlock * bb, int Nfile_grow, size_t size_grow, MPI_C
 }
 
 
-int
-big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
+/* add up the checksums and the dirty flags of all ranks to the root */
+static void
+big_block_mpi_reduce(BigBlock * block, MPI_Comm comm)
 {
-    if(comm == MPI_COMM_NULL) return 0;
-
     int rank;
     MPI_Comm_rank(comm, &rank);
 
-    unsigned int * checksum = alloca(sizeof(int) * block->Nfile);
+    unsigned int * checksum = malloc(sizeof(int) * (block->Nfile + 1));
     MPI_Reduce(block->fchecksum, checksum, block->Nfile, MPI_UNSIGNED, MPI_SUM, 0, comm);
     int dirty;
     MPI_Reduce(&block->dirty, &dirty, 1, MPI_INT, MPI_LOR, 0, comm);
-    int rt;
     if(rank == 0) {
-        /* only the root rank updates */
         int i;
         big_block_set_dirty(block, dirty);
         for(i = 0; i < block->Nfile; i ++) {
             block->fchecksum[i] = checksum[i];
         }
+    }
+    free(checksum);
+}
+
+int
+big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
+{
+    if(comm == MPI_COMM_NULL) return 0;
+
+    int rank;
+    MPI_Comm_rank(comm, &rank);
+
+    big_block_mpi_reduce(block, comm);
+    int rt;
+    if(rank == 0) {
+        /* only the root rank updates */
         rt = big_block_flush(block);
     } else {
         rt = 0;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
-    /* close as we will broadcast the block */
+    rt = big_file_mpi_broadcast_anyerror(rt, comm);
+    /* close as we will broadcast the block; also if failed, the checksums are moved to root. */
     if(rank != 0) {
         _big_block_close_internal(block);
     }
     big_block_mpi_broadcast(block, 0, comm);
-    return 0;
+    return rt;
 
 }
 int big_block_mpi_close(BigBlock * block, MPI_Comm comm) {
@@ -378,6 +405,11 @@ big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm)
 
     if(rank != root) {
         _big_block_unpack(bb, buf);
+        /* the checksums are summed up over ranks when flushed; they are already on root. */
+        int i;
+        for(i = 0; i < bb->Nfile; i ++) {
+            bb->fchecksum[i] = 0;
+        }
     }
     free(buf);
     return 0;
-- 
2.43.0


From 7112252e24f69808c1a3d7a61408cd7994d67327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 23/53] fix: open and create meta blocks collectively

---
 src/bigfile-mpi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index eb3691e..6d4303f 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -90,7 +90,8 @@ int big_file_mpi_open_block(BigFile * bf, BigBlock * block, const char * blockna
     if(comm == MPI_COMM_NULL) return 0;
     if(!bf || !bf->basename || !blockname) return 1;
     char * basename = alloca(strlen(bf->basename) + strlen(blockname) + 128);
-    sprintf(basename, "%s/%s/", bf->basename, blockname);
+    /* no trailing slash, for it hides the name of a meta block ('.') */
+    sprintf(basename, "%s/%s", bf->basename, blockname);
     return _big_block_mpi_open(block, basename, comm);
 }
 
@@ -138,7 +139,8 @@ _big_file_mpi_create_block(BigFile * bf,
     BCAST_AND_RAISEIF(rt, comm);
 
     char * basename = alloca(strlen(bf->basename) + strlen(blockname) + 128);
-    sprintf(basename, "%s/%s/", bf->basename, blockname);
+    /* no trailing slash, for it hides the name of a meta block ('.') */
+    sprintf(basename, "%s/%s", bf->basename, blockname);
     return _big_block_mpi_create(block, basename, dtype, nmemb, Nfile, fsize, comm);
 }
 
-- 
2.43.0


From e73646600d331f4bac1b1ceae55808d644a9d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 24/53] fix: do not crash or leak when a collective open or
 create fails

---
 src/bigfile-mpi.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 6d4303f..30a125a 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -51,7 +51,10 @@ int big_file_mpi_open(BigFile * bf, const char * basename, MPI_Comm comm) {
         rt = 0;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm)) && rank != 0) {
+        free(bf->basename);
+        bf->basename = NULL;
+    }
 
     return rt;
 }
@@ -68,7 +71,10 @@ int big_file_mpi_create(BigFile * bf, const char * basename, MPI_Comm comm) {
         bf->basename = _strdup(basename);
         rt = 0;
     }
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm)) && rank != 0) {
+        free(bf->basename);
+        bf->basename = NULL;
+    }
 
     return rt;
 }
@@ -105,7 +111,7 @@ big_file_mpi_create_block(BigFile * bf,
         size_t size,
         MPI_Comm comm)
 {
-    size_t fsize[Nfile];
+    size_t fsize[Nfile > 0 ? Nfile : 1];
     int i;
     for(i = 0; i < Nfile; i ++) {
         fsize[i] = size * (i + 1) / Nfile 
@@ -275,7 +281,7 @@ big_block_mpi_grow(BigBlock * bb,
 int
 big_block_mpi_grow_simple(BigBlock * bb, int Nfile_grow, size_t size_grow, MPI_Comm comm)
 {
-    size_t fsize[Nfile_grow];
+    size_t fsize[Nfile_grow > 0 ? Nfile_grow : 1];
     int i;
     for(i = 0; i < Nfile_grow; i ++) {
         fsize[i] = size_grow * (i + 1) / Nfile_grow
@@ -362,6 +368,7 @@ big_file_mpi_broadcast_anyerror(int rt, MPI_Comm comm)
 
     root -= 1;
     char * error = big_file_get_error_message();
+    if(error == NULL) error = "UNKNOWN ERROR";
 
     int errorlen;
     if(rank == root) {
-- 
2.43.0


From 7b367e701f750c86a712f5629dc584e3a36f5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 25/53] fix: do not sum uninitialized counts on the ranks that
 do not receive them

---
 src/mp-mpiu.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mp-mpiu.c b/src/mp-mpiu.c
index 8daea96..c212849 100644
--- a/src/mp-mpiu.c
+++ b/src/mp-mpiu.c
@@ -284,6 +284,8 @@ MPIU_Gather (MPI_Comm comm, int root, const void * sendbuffer, void * recvbuffer
     int recvcount[NTask];
     int rdispls[NTask + 1];
     int i;
+    /* only root receives the counts */
+    memset(recvcount, 0, sizeof(recvcount));
     MPI_Gather(&nsend, 1, MPI_INT, recvcount, 1, MPI_INT, root, comm);
 
     rdispls[0] = 0;
@@ -324,6 +326,8 @@ MPIU_Scatter (MPI_Comm comm, int root, const void * sendbuffer, void * recvbuffe
     int sdispls[NTask + 1];
     int i;
 
+    /* only root receives the counts */
+    memset(sendcount, 0, sizeof(sendcount));
     MPI_Gather(&nrecv, 1, MPI_INT, sendcount, 1, MPI_INT, root, comm);
 
     sdispls[0] = 0;
-- 
2.43.0


From f1b25d23995a1005477d69147eef11bf63a2ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 26/53] fix: index and assign columns like numpy arrays:
 negative, out of range and empty slices

---
 bigfile/__init__.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 9326613..53a2082 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -7,6 +7,7 @@ from .pyxbigfile import set_buffer_size
 from . import pyxbigfile
 
 import os
+import operator
 import numpy
 from functools import wraps
 
@@ -31,14 +32,20 @@ def _enhance_slicefunc(getitem, returns_none):
         elif index is Ellipsis:
             return getitem(self, slice(None, None, None), *args)
         elif numpy.isscalar(index):
-            index = slice(index, index + 1)
+            # same as numpy, negative counts from the end, otherwise out of range.
+            i = operator.index(index)
+            if i < 0:
+                i = i + int(self.size)
+            if i < 0 or i >= self.size:
+                raise IndexError("index %d is out of bounds with size %d" % (index, self.size))
+            index = slice(i, i + 1)
             if returns_none:
                return getitem(self, index, *args)
             else:
                return getitem(self, index, *args)[0]
         else:
             raise TypeError("Expecting a slice or a scalar, got a `%s`" %
-                    str(type(sl)))
+                    str(type(index)))
     return enhanced
 
 def _enhance_getslice(getitem):
@@ -70,7 +77,8 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
-            return self.read(start, end-start)
+            # a reversed slice is empty; and length of -1 reads everything
+            return self.read(start, max(end - start, 0))
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
 
@@ -82,6 +90,9 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
+            nitems = max(end - start, 0) * int(numpy.prod(self.dtype.shape))
+            if isinstance(value, numpy.ndarray) and value.size != nitems:
+                raise ValueError("cannot assign %d items to a slice of %d items" % (value.size, nitems))
             self.write(start, value)
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
@@ -364,8 +375,10 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
-        result = numpy.empty(end - start, dtype=self.dtype)
-        return self.read(start, end - start, result)
+        # a reversed slice is empty
+        length = max(end - start, 0)
+        result = numpy.empty(length, dtype=self.dtype)
+        return self.read(start, length, result)
 
     @_enhance_setslice
     def __setitem__(self, sl, value):
@@ -375,7 +388,7 @@ class Dataset(pyxbigfile.Dataset):
         start, end, stop = sl.indices(self.size)
         assert stop == 1
         assert value.dtype == self.dtype
-        assert len(value) == end - start
+        assert len(value) == max(end - start, 0)
         return self.write(start, value)
 
     def __getitem__(self, sl):
-- 
2.43.0


From 37a390e2f29b30416f33af8f0960bc0f4c5285d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 27/53] fix: write 0-d arrays and strided records from Python;
 check the output of Dataset.read

---
 bigfile/pyxbigfile.pyx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 62b27fd..ce4689c 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -410,6 +410,10 @@ cdef class ColumnLowLevelAPI:
         cdef CBigArray array
         cdef CBigBlockPtr ptr
 
+        if buf.ndim == 0:
+            # BigArray has at least one dimension
+            buf = buf.reshape(1)
+
         big_array_init(&array, buf.data, buf.dtype.str.encode(), 
                 buf.ndim, 
                 <size_t *> buf.shape,
@@ -633,6 +637,12 @@ cdef class Dataset:
     def read(self, numpy.intp_t start, numpy.intp_t length, numpy.ndarray out=None):
         if out is None:
             out = numpy.empty(length, self.dtype)
+        if out.dtype != self.dtype or out.ndim != 1 or out.shape[0] != length:
+            raise ValueError("output array mismatches with the request")
+        if not out.flags.c_contiguous:
+            # records are packed
+            out[...] = self.read(start, length)
+            return out
         with nogil:
             rt = big_file_read_records(&self.file.bf, &self.rtype, start, length, out.data)
         if rt != 0:
@@ -657,6 +667,7 @@ cdef class Dataset:
         if rt != 0:
             raise Error()
         self.size = self.size + size
+        self.shape = (self.size, )
 
     def append(self, numpy.ndarray buf, numpy.intp_t Nfile=1):
         assert buf.dtype == self.dtype
@@ -668,6 +679,8 @@ cdef class Dataset:
     def write(self, numpy.intp_t start, numpy.ndarray buf):
         assert buf.dtype == self.dtype
         assert buf.ndim == 1
+        # records are packed
+        buf = numpy.ascontiguousarray(buf)
         with nogil:
             rt = big_file_write_records(&self.file.bf, &self.rtype, start, buf.shape[0], buf.data)
         if rt != 0:
-- 
2.43.0


From 21b4c57387bd738a60094b82a21078d30efadfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 28/53] fix: an empty string attribute is read back as an empty
 string

---
 bigfile/pyxbigfile.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index ce4689c..9dae172 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -252,7 +252,7 @@ cdef class AttrSet:
 
         if isstr(value):
             dtype = b'a1'
-            value = numpy.array(str(value).encode()).ravel().view(dtype='S1').ravel()
+            value = numpy.frombuffer(str(value).encode(), dtype='S1')
         else:
             value = numpy.array(value).ravel()
 
-- 
2.43.0


From 483657aa8b62d406f58ef4aa2d0b4c26081e5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 29/53] fix: using a column that is never opened raises instead
 of crashing

---
 bigfile/pyxbigfile.pyx | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 9dae172..7a70dd2 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -205,6 +205,7 @@ cdef class AttrSet:
     def keys(self):
         cdef size_t count
         cdef CBigAttr * list
+        self.bb._check_open()
         list = big_block_list_attrs(&self.bb.bb, &count)
         return sorted([str(list[i].name.decode()) for i in range(count)])
 
@@ -215,6 +216,7 @@ cdef class AttrSet:
         return iter(self.keys())
 
     def __contains__(self, name):
+        self.bb._check_open()
         name = name.encode()
         cdef CBigAttr * attr = big_block_lookup_attr(&self.bb.bb, name)
         if attr == NULL:
@@ -222,6 +224,7 @@ cdef class AttrSet:
         return True
 
     def __getitem__(self, name):
+        self.bb._check_open()
         name = name.encode()
 
         cdef CBigAttr * attr = big_block_lookup_attr(&self.bb.bb, name)
@@ -238,6 +241,7 @@ cdef class AttrSet:
         return result
 
     def __delitem__(self, name):
+        self.bb._check_open()
         name = name.encode()
 
         cdef CBigAttr * attr = big_block_lookup_attr(&self.bb.bb, name)
@@ -246,10 +250,9 @@ cdef class AttrSet:
         big_block_remove_attr(&self.bb.bb, name)
 
     def __setitem__(self, name, value):
+        self.bb._check_open()
         name = name.encode()
 
-
-
         if isstr(value):
             dtype = b'a1'
             value = numpy.frombuffer(str(value).encode(), dtype='S1')
@@ -316,6 +319,11 @@ cdef class ColumnLowLevelAPI:
     def __init__(self):
         pass
 
+    def _check_open(self):
+        """ raises if the column is never opened; there is no block to operate on. """
+        if self._deallocated:
+            raise ColumnClosedError(self)
+
     def __enter__(self):
         return self
 
@@ -410,6 +418,8 @@ cdef class ColumnLowLevelAPI:
         cdef CBigArray array
         cdef CBigBlockPtr ptr
 
+        self._check_open()
+
         if buf.ndim == 0:
             # BigArray has at least one dimension
             buf = buf.reshape(1)
@@ -444,6 +454,8 @@ cdef class ColumnLowLevelAPI:
         cdef numpy.ndarray fsize
         cdef numpy.intp_t size = len(buf)
 
+        self._check_open()
+
         if Nfile < 0:
             raise ValueError("Cannot create negative number of files.")
         if Nfile == 0 and size != 0:
@@ -479,6 +491,9 @@ cdef class ColumnLowLevelAPI:
         cdef CBigArray array
         cdef CBigBlockPtr ptr
         cdef int i
+
+        self._check_open()
+
         if length == -1:
             length = self.size - start
         if length + start > self.size:
@@ -509,6 +524,7 @@ cdef class ColumnLowLevelAPI:
         return result
 
     def _flush(self):
+        self._check_open()
         with nogil:
             rt = big_block_flush(&self.bb)
         if rt != 0:
@@ -537,6 +553,7 @@ cdef class ColumnLowLevelAPI:
             free(buf)
 
     def _MPI_flush(self):
+        self._check_open()
         comm = self.comm
         cdef unsigned int Nfile = self.bb.Nfile
         cdef unsigned int[:] fchecksum
@@ -569,6 +586,7 @@ cdef class ColumnLowLevelAPI:
 
     def _close(self):
         # only need to flush; memory management is done at dealloc
+        self._check_open()
         with nogil:
             rt = big_block_flush(&self.bb)
         if rt != 0:
-- 
2.43.0


From 0c8997fd3f5c1c7a80815165aa7ee1ee267e4a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 30/53] fix: report a file missing when unpickled; do not leak
 the previous block when a column is reopened

---
 bigfile/pyxbigfile.pyx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 7a70dd2..65b8acb 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -172,11 +172,13 @@ cdef class FileLowLevelAPI:
         filename = filename.encode()
         cdef char * filenameptr = filename
 
-        self._deallocated = deallocated
-
         if not deallocated:
             with nogil:
                 rt = big_file_open(&self.bf, filenameptr)
+            if rt != 0:
+                raise Error()
+
+        self._deallocated = deallocated
 
     property basename:
         def __get__(self):
@@ -358,7 +360,15 @@ cdef class ColumnLowLevelAPI:
         if not deallocated:
             _big_block_unpack(&self.bb, container.data)
 
+    def _release(self):
+        """ flush and free the block that is currently open, before opening another. """
+        if not self._deallocated:
+            self._deallocated = True
+            if 0 != big_block_close(&self.bb):
+                raise Error()
+
     def open(self, FileLowLevelAPI f, blockname):
+        self._release()
         blockname = blockname.encode()
         cdef char * blocknameptr = blockname
         with nogil:
@@ -369,6 +379,7 @@ cdef class ColumnLowLevelAPI:
 
     def create(self, FileLowLevelAPI f, blockname, dtype=None, size=None, numpy.intp_t Nfile=1):
 
+        self._release()
         # need to hold the reference
         blockname = blockname.encode()
 
-- 
2.43.0


From 59757e4511f071bf47dabc1db79e519e234abc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 31/53] fix: opening a column on several ranks multiplied its
 checksums when flushed

---
 bigfile/__init__.py    | 4 +++-
 bigfile/pyxbigfile.pyx | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 53a2082..6353324 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -233,7 +233,9 @@ class ColumnMPI(Column):
         finally:
             error = self.comm.allgather(error)
         if any(error):
-            raise RuntimeException("open failed on other rank(s)")
+            raise RuntimeError("open failed on other rank(s)")
+        # the checksums are kept on the root rank only, for they are summed up when flushed.
+        self._MPI_broadcast(root=0, comm=self.comm)
         return r
 
     def close(self):
diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 65b8acb..95a5380 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -559,6 +559,9 @@ cdef class ColumnLowLevelAPI:
         if comm.rank != root:
             _big_block_close_internal(&self.bb)
             _big_block_unpack(&self.bb, container.data)
+            # checksums are summed up over ranks when flushed; they are already on root.
+            for i in range(self.bb.Nfile):
+                self.bb.fchecksum[i] = 0
 
         if comm.rank == root:
             free(buf)
-- 
2.43.0


From 642f2775add384198e6841e512d9b76e8a5bcaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 32/53] fix: create from Python fails on all ranks together;
 rows larger than memorylimit / 1024

---
 bigfile/__init__.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 6353324..6ac4da0 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -193,6 +193,9 @@ class File(FileBase):
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
         itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        if itemlimit <= 0:
+            # less than 1024 items fit
+            itemlimit = max(memorylimit // dtype.itemsize, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
@@ -212,9 +215,17 @@ class ColumnMPI(Column):
         if not check_unique(blockname, self.comm):
             raise BigFileError("blockname is inconsistent between ranks")
 
-        if self.comm.rank == 0:
-            super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
-            super(ColumnMPI, self).close()
+        try:
+            error = True
+            if self.comm.rank == 0:
+                super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
+                super(ColumnMPI, self).close()
+            error = False
+        finally:
+            # do not leave the other ranks waiting in open.
+            error = self.comm.allgather(error)
+        if any(error):
+            raise RuntimeError("create failed on other rank(s)")
         return self.open(f, blockname)
 
     @_enhance_getslice
@@ -325,6 +336,9 @@ class FileMPI(FileBase):
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
         itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        if itemlimit <= 0:
+            # less than 1024 items fit
+            itemlimit = max(memorylimit // dtype.itemsize, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
-- 
2.43.0


From bf94faed356529afa3a7af467eaece343dcc212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 33/53] fix: bigfile-cat prints the requested rows only, for
 any buffer size

---
 utils/bigfile-cat.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index 82e1f37..b8a6680 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -72,7 +72,11 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to open: %s: %s\n", argv[2], big_file_get_error_message());
         exit(1);
     }
-    if(size == -1 || bb.size < size + start) {
+    if(start < 0 || start > bb.size) {
+        fprintf(stderr, "offset %td is out of the block of size %td\n", start, bb.size);
+        exit(1);
+    }
+    if(size < 0 || bb.size - start < size) {
         size = bb.size - start;
     } 
 
@@ -82,14 +86,17 @@ int main(int argc, char * argv[]) {
 
     ptrdiff_t end = start + size;
 
-    size_t chunksize = buffersize / (bb.nmemb * big_file_dtype_itemsize(bb.dtype));
+    size_t rowsize = (bb.nmemb ? bb.nmemb : 1) * big_file_dtype_itemsize(bb.dtype);
+    size_t chunksize = rowsize ? buffersize / rowsize : 0;
+    if(chunksize == 0) chunksize = 1;
     BigBlockPtr ptr;
     BigBlockPtr ptrnew;
     ptrdiff_t offset;
     BigArray array;
 
     for(offset = start; offset < end; ) {
-        if(chunksize > size) chunksize = size;
+        /* only the rows requested, also for the last chunk */
+        if(chunksize > end - offset) chunksize = end - offset;
         if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
             fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
             exit(1);
@@ -118,5 +125,9 @@ int main(int argc, char * argv[]) {
     }
     big_block_close(&bb);
     big_file_close(&bf);
+    if(ferror(stdout) || 0 != fflush(stdout)) {
+        fprintf(stderr, "failed to write to stdout\n");
+        exit(1);
+    }
     return 0;
 }
-- 
2.43.0


From 30d32fd038eec13f7040a17ae9182486dc96c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 34/53] fix: bigfile-copy and bigfile-create with small
 buffers, and unnoticed failures

---
 utils/bigfile-copy.c   | 10 +++++++++-
 utils/bigfile-create.c | 26 ++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index f87efab..b027b82 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -62,6 +62,10 @@ int main(int argc, char * argv[]) {
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        fprintf(stderr, "can not copy to %d files\n", Nfile);
+        exit(1);
+    }
     /* avoid Nfile == 0 */
     size_t newsize[Nfile + 10];
     int i;
@@ -84,12 +88,16 @@ int main(int argc, char * argv[]) {
     BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attr: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
     
     if(bb.nmemb > 0 && bb.size > 0) {
         /* copy data */
         size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+        if(chunksize == 0) chunksize = 1;
         BigBlockPtr ptrnew;
         ptrdiff_t offset;
         BigArray array;
diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 036bc2c..f6cadf0 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -54,6 +54,10 @@ int main(int argc, char * argv[]) {
         exit(1);
     }
     dtype = argv[3];
+    if(nmemb <= 0) {
+        fprintf(stderr, "nmemb must be positive\n");
+        exit(1);
+    }
     size_t fsize[1] = {-1};
 
     if(0 != big_file_create_block(&bf, &bb, argv[2], dtype, nmemb, 1, fsize)) {
@@ -64,23 +68,37 @@ int main(int argc, char * argv[]) {
     signal(SIGUSR1, usr1);
 
     size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+    if(chunksize == 0) chunksize = 1;
     BigBlockPtr ptr;
     BigArray array;
 
-    char * buffer = malloc(buffersize);
+    char * buffer = malloc(chunksize * bb.nmemb * dtype_itemsize(bb.dtype));
+    if(buffer == NULL) {
+        fprintf(stderr, "not enough memory for the buffer\n");
+        exit(1);
+    }
     ptrdiff_t offset = 0;
     while(!feof(stdin)) {
         size_t nread = fread(buffer, bb.nmemb * dtype_itemsize(bb.dtype), chunksize, stdin);
         size_t dims[2] = {nread, bb.nmemb};
         big_array_init(&array, buffer, bb.dtype, 2, dims, NULL);
-        big_block_seek(&bb, &ptr, offset);
-        big_block_write(&bb, &ptr, &array);
+        if(0 != big_block_seek(&bb, &ptr, offset) || 0 != big_block_write(&bb, &ptr, &array)) {
+            fprintf(stderr, "failed to write: %s\n", big_file_get_error_message());
+            exit(1);
+        }
+        if(ferror(stdin)) {
+            fprintf(stderr, "failed to read from stdin\n");
+            exit(1);
+        }
         offset += nread;
         countin += nread;
     }
     bb.size = offset;
     bb.fsize[0] = offset;
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From bef82d6f486da97a03b9ee57e80716f988f17ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 35/53] fix: bigfile-set-attr overran its buffer and ignored
 failures

---
 utils/bigfile-set-attr.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 291741d..d5156e5 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -60,15 +60,19 @@ int main(int argc, char * argv[]) {
     attr = big_block_lookup_attr(&bb, argv[3]);
     if(attr) {
         if(dtype == NULL) {
-            dtype = attr->dtype;
+            /* attr is removed when the attribute is set */
+            memcpy(ndtype, attr->dtype, 8);
+            dtype = ndtype;
         }
         if(nmemb == 0) {
             nmemb = attr->nmemb;
         }
     }
-    char * data = malloc(big_file_dtype_itemsize(dtype) * nmemb);
-
-    memset(data, 0, big_file_dtype_itemsize(dtype) * nmemb);
+    if(dtype == NULL) {
+        fprintf(stderr, "attr %s does not exist; its dtype is needed\n", argv[3]);
+        exit(1);
+    }
+    char * data;
 
     if(big_file_dtype_kind(dtype) == 'S') {
         if (nmemb == 0) nmemb = strlen(argv[4]) + 1;
@@ -76,6 +80,7 @@ int main(int argc, char * argv[]) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
         }
+        data = calloc(nmemb, big_file_dtype_itemsize(dtype) + 1);
         memcpy(data, argv[4], strlen(argv[4]) + 1); 
     } else {
         if (nmemb == 0) nmemb = argc - optind + 1 - 4;
@@ -83,19 +88,26 @@ int main(int argc, char * argv[]) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
         }
+        data = calloc(nmemb, big_file_dtype_itemsize(dtype) + 1);
         for(i = 4; i < argc - optind + 1; i ++) {
             char * p = data + (i - 4) * big_file_dtype_itemsize(dtype);
             if(0 != big_file_dtype_parse(argv[i], dtype, p, NULL)) {
-                fprintf(stderr, "failed to parse the data `%s`\n", p);
+                fprintf(stderr, "failed to parse the data `%s`\n", argv[i]);
                 exit(1);
             }
         }
     }
 
-    big_block_set_attr(&bb, argv[3], data, dtype, nmemb);
+    if(0 != big_block_set_attr(&bb, argv[3], data, dtype, nmemb)) {
+        fprintf(stderr, "failed to set attr: %s\n", big_file_get_error_message());
+        exit(1);
+    }
 
     free(data);
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close block: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From 0057f8d663e8dd228acaace5f18d165f37a8e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 36/53] fix: bigfile-ls of a missing block fails

---
 utils/bigfile-ls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-ls.c b/utils/bigfile-ls.c
index 5c2d3a5..b853275 100644
--- a/utils/bigfile-ls.c
+++ b/utils/bigfile-ls.c
@@ -46,7 +46,7 @@ static void listbigfile_r(BigFile * bf, char * path) {
         sprintf(buf, "%s/%s", bf->basename, path);
     else
         sprintf(buf, "%s", bf->basename);
-    stat(buf, &st);
+    if(0 != stat(buf, &st)) return;
     if(!S_ISDIR(st.st_mode)) return;
     n = scandir(buf, &namelist, filter, alphasort);
     if (n < 0) {
@@ -119,6 +119,7 @@ int main(int argc, char * argv[]) {
         }
         if(0 != listbigblock(&bf, argv[2])) {
             fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
+            exit(1);
         }
         big_file_close(&bf);
     }
-- 
2.43.0


From 6a9cc5a2bb0899a4ec63e2d8cf43eaa435620454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 37/53] fix: bigfile-check and bigfile-repartition report
 failures in the exit status

---
 utils/bigfile-check       | 17 +++++++++++------
 utils/bigfile-repartition | 18 ++++++++++++------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index b777019..c2d87c7 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -2,15 +2,18 @@
 
 usage() {
     echo 'Usage: bigfile-check file [block ...]' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
 
-VERBOSE=0
+# fail if any command in a pipe fails
+set -o pipefail
+
+VERBOSE=
 while getopts ":v" opt; do
     case $opt in 
         v )
@@ -41,23 +44,25 @@ check() {
     fi;
     local sumreal
     local sumheader
+    local sum
     sum=`$ROOT/bigfile-cat -b $FILE $BLOCK | sum -s | awk '{print $1}'`
     if [ $? != 0 ]; then
         echo cat failed
         fail
     fi
+    local expectedsum
     expectedsum=`$ROOT/bigfile-ls -l $FILE $BLOCK | awk '{print $5}'`
     if [ $? != 0 ]; then
         echo ls failed
         fail
     fi
-    if [ $sum -ne $expectedsum ]; then
+    if ! [ "$sum" -eq "$expectedsum" ]; then
         echo check sum failed $BLOCK $sum  $expectedsum
         fail
     fi
 }
-if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+if [ -z "$1" ]; then
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 840b6d9..046f48b 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -2,15 +2,15 @@
 
 usage() {
     echo 'Usage: bigfile-repartition file Nfile block ...' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
 
-VERBOSE=0
+VERBOSE=
 while getopts ":v" opt; do
     case $opt in 
         v )
@@ -41,13 +41,19 @@ repart() {
     $ROOT/bigfile-copy $VERBOSE -n $NFILE $FILE ${BLOCK}-REPBAK ${BLOCK} ||fail
     $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
 }
-if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+if [ -z "$1" ]; then
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
 
+JOBS=
 for block in $BLOCKS ; do
     ( repart $block ) &
+    JOBS="$JOBS $!"
 done
-wait
+STATUS=0
+for job in $JOBS ; do
+    wait $job || STATUS=1
+done
+exit $STATUS
-- 
2.43.0


From 5f64001beae5259dfa2bcaecfa87b83f53e064ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 38/53] fix: bigfile-copy-mpi and bigfile-sample-mpi report
 failures, finalize MPI, and do not wait for missing workers

---
 utils/bigfile-copy-mpi.c   | 30 ++++++++++++++++++++++++------
 utils/bigfile-sample-mpi.c | 33 +++++++++++++++++++++++++++------
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 38451ec..86e92b0 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -26,7 +26,7 @@ int Nfile = -1;
 size_t buffersize = 256 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
-void slave(void);
+int slave(void);
 void server(void);
 
 int main(int argc, char * argv[]) {
@@ -74,6 +74,14 @@ int main(int argc, char * argv[]) {
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        if(ThisTask == 0) fprintf(stderr, "can not write to %d files\n", Nfile);
+        exit(1);
+    }
+    if(NTask < 2) {
+        fprintf(stderr, "at least 2 ranks are needed: the first serves the others\n");
+        exit(1);
+    }
     if(newfilepath == NULL) {
         newfilepath = argv[1];
     }
@@ -96,15 +104,19 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attr: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
+    int result = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
             server();
         } else {
-            slave();
+            result = slave();
         }
     }
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
@@ -114,11 +126,17 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
-    return 0;
+
+    /* fail if any rank failed */
+    int anyerror = 0;
+    MPI_Allreduce(&result, &anyerror, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    MPI_Finalize();
+    return anyerror != 0;
 }
 
 void server() {
     int64_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+    if(chunksize == 0) chunksize = 1;
     int64_t offset;
     int64_t work[2];
     for(offset = 0; offset < bb.size; ) {
@@ -150,7 +168,7 @@ void server() {
     }
 
 }
-void slave() {
+int slave() {
     int result = 0;
     MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
     while(1) {
@@ -192,5 +210,5 @@ void slave() {
         MPI_Send(&result, 1, MPI_INT, 0, ERROR_TAG, MPI_COMM_WORLD);
         continue;
     }
-    return;
+    return result;
 }
diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index 3dcf31b..10af113 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -29,7 +29,7 @@ int Nfile = -1;
 size_t CHUNKSIZE = 1 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
-void slave(void);
+int slave(void);
 void server(void);
 
 double ratio = 1.0;
@@ -88,6 +88,14 @@ int main(int argc, char * argv[]) {
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
+    if(Nfile < 0 || (Nfile == 0 && bb.size > 0)) {
+        if(ThisTask == 0) fprintf(stderr, "can not write to %d files\n", Nfile);
+        exit(1);
+    }
+    if(NTask < 2) {
+        fprintf(stderr, "at least 2 ranks are needed: the first serves the others\n");
+        exit(1);
+    }
     if(newfilepath == NULL) {
         newfilepath = argv[1];
     }
@@ -107,15 +115,19 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attr: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
+    int result = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
             server();
         } else {
-            slave();
+            result = slave();
         }
     }
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
@@ -125,7 +137,12 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
-    return 0;
+
+    /* fail if any rank failed */
+    int anyerror = 0;
+    MPI_Allreduce(&result, &anyerror, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    MPI_Finalize();
+    return anyerror != 0;
 }
 static size_t filesize() {
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
@@ -149,6 +166,8 @@ static size_t filesize() {
             work.nsel = chunksize;
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
+            /* can not select more than there are */
+            if(work.nsel > chunksize) work.nsel = chunksize;
         }
 
         offset += chunksize;
@@ -185,6 +204,8 @@ void server() {
             work.nsel = chunksize;
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
+            /* can not select more than there are */
+            if(work.nsel > chunksize) work.nsel = chunksize;
         }
         MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
 
@@ -201,7 +222,7 @@ void server() {
     }
 
 }
-void slave() {
+int slave() {
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
     int result = 0;
     MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
@@ -276,5 +297,5 @@ void slave() {
         MPI_Send(&result, 1, MPI_INT, 0, ERROR_TAG, MPI_COMM_WORLD);
         continue;
     }
-    return;
+    return result;
 }
-- 
2.43.0


From 0c93a9f7d089f91c632ddef997dde6b8d03650a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 39/53] fix: read_simple counts a start from the end
 consistently and does not overflow on large sizes

---
 src/bigfile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index c4ca140..0630181 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -812,7 +812,10 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
        "failed to seek"       
     );
 
-    if(start + size > bb->size){
+    /* start may be counted from the end */
+    start = ptr.aoffset;
+
+    if(size > (ptrdiff_t) bb->size - start){
         size = bb->size - start;
     }
     RAISEIF(size < 0,
-- 
2.43.0


From e9d1666d43a83615fe45090b1919a9d82df00717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 40/53] fix: error messages name the attribute, value or block
 involved

---
 src/bigfile.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 0630181..a6b7abb 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -510,7 +510,7 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
       || strchr(basename, '\t')
       || strchr(basename, '\n'),
       ex_name,
-      "Column name cannot contain blanks (space, tab or newline)"
+      "Column name `%s' cannot contain blanks (space, tab or newline)", basename
     );
 
     bb->basename = _strdup(basename);
@@ -635,13 +635,15 @@ big_block_flush(BigBlock * block)
             (0 > fprintf(fheader, "NMEMB: %d\n", block->nmemb)) ||
             (0 > fprintf(fheader, "NFILE: %d\n", block->Nfile)),
                 ex_fprintf,
-                "Writing file header");
+                "Failed to write header of block `%s' (%s)",
+                block->basename, strerror(errno));
         for(i = 0; i < block->Nfile; i ++) {
             unsigned int s = block->fchecksum[i];
             unsigned int r = (s & 0xffff) + ((s & 0xffffffff) >> 16);
             unsigned int checksum = (r & 0xffff) + (r >> 16);
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
-                ex_fprintf, "Writing file information to header");
+                ex_fprintf, "Failed to write header of block `%s' (%s)",
+                block->basename, strerror(errno));
         }
         /* the header may be still in the stdio buffer. */
         RAISEIF(0 != fclose(fheader),
@@ -809,7 +811,7 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
 
     RAISEIF(0 != big_block_seek(bb, &ptr, start),
        ex_seek,
-       "failed to seek"       
+       NULL
     );
 
     /* start may be counted from the end */
@@ -820,7 +822,8 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
     }
     RAISEIF(size < 0,
             ex_seek,
-            "failed to seek");
+            "Unreasonable number of rows to read from block `%s' (%td)",
+            bb->basename, size);
 
     buffer = malloc(size * big_file_dtype_itemsize(dtype) * bb->nmemb);
 
@@ -831,7 +834,7 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
 
     RAISEIF(0 != big_block_read(bb, &ptr, array),
             ex_read,
-            "failed to read");
+            NULL);
     return 0;
 ex_read:
     free(buffer);
@@ -1763,7 +1766,7 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
         free(textual);
         RAISEIF(rt <= 0,
             ex_write,
-            "Failed to write to file");
+            "Failed to write attributes of `%s' (%s)", basename, strerror(errno));
     } 
     RAISEIF(0 != fclose(fattr),
             ex_open,
@@ -1875,7 +1878,7 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
       || strchr(attrname, '\t')
       || strchr(attrname, '\n'),
       ex_name,
-      "Attribute name cannot contain blanks (space, tab or newline)"
+      "Attribute name `%s' cannot contain blanks (space, tab or newline)", attrname
     );
     RAISEIF(attrname[0] == '\0',
       ex_name,
@@ -1919,8 +1922,9 @@ static int
 attrset_get_attr(BigAttrSet * attrset, const char * attrname, void * data, const char * dtype, int nmemb)
 {
     BigAttr * found = attrset_lookup_attr(attrset, attrname);
-    RAISEIF(!found, ex_notfound, "attr not found");
-    RAISEIF(found->nmemb != nmemb, ex_mismatch, "attr nmemb mismatch");
+    RAISEIF(!found, ex_notfound, "Attribute name '%s' is not found.", attrname);
+    RAISEIF(found->nmemb != nmemb, ex_mismatch, "Attribute `%s' has %d members, not %d",
+            attrname, found->nmemb, nmemb);
     return dtype_convert_simple(data, dtype, found->data, found->dtype, found->nmemb);
 
 ex_mismatch:
-- 
2.43.0


From d20e1a65daa9ec231fc4052c6696b21e5d248906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 41/53] fix: read_simple refuses sizes that do not fit in
 memory

The size comes from the header; with a malformed header the allocation failed,
or its size wrapped around, and the rows were then stored out of bounds.
---
 src/bigfile.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index a6b7abb..0e0eabc 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -825,7 +825,15 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
             "Unreasonable number of rows to read from block `%s' (%td)",
             bb->basename, size);
 
-    buffer = malloc(size * big_file_dtype_itemsize(dtype) * bb->nmemb);
+    /* the size is from the header, which may announce more rows than fit in memory. */
+    size_t rowsize = (size_t) big_file_dtype_itemsize(dtype) * bb->nmemb;
+    buffer = NULL;
+    if(rowsize == 0 || size <= PTRDIFF_MAX / rowsize) {
+        buffer = malloc(size * rowsize + 1);
+    }
+    RAISEIF(buffer == NULL,
+            ex_seek,
+            "Not enough memory for %td rows of block `%s'", size, bb->basename);
 
     dims[0] = size;
     dims[1] = bb->nmemb;
-- 
2.43.0


From 95312715afbe2e8b43c7e22e27f601cb6c604069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 42/53] fix: a directory named attr-v2 is not an attribute file

The end of a directory may be anywhere, and the size of the buffer overflowed.
---
 src/bigfile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 0e0eabc..bf4c763 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1635,6 +1635,14 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 ex_open:
         return -1;
     }
+    struct stat st;
+    RAISEIF(0 != fstat(fileno(fattr), &st), ex_init,
+        "Failed to stat attribute file of `%s' (%s)", basename, strerror(errno));
+    if(S_ISDIR(st.st_mode)) {
+        /* not an attribute file, but a block or group named attr-v2; it has no size. */
+        fclose(fattr);
+        return 0;
+    }
     RAISEIF(0 != fseek(fattr, 0, SEEK_END), ex_init, "fseek error: %s",strerror(errno));
     long size = ftell(fattr);
     /*ftell may fail*/
-- 
2.43.0


From a505116c21662c55692365fc3047dc9225a7267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 43/53] fix: empty strings in a list attribute are read back as
 empty strings

---
 bigfile/pyxbigfile.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 95a5380..58a40e7 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -237,7 +237,7 @@ cdef class AttrSet:
             attr[0].nmemb)):
             raise Error()
         if attr[0].dtype[1] == 'S':
-            return [i.tostring().decode() for i in result]
+            return [i.decode() for i in result]
         if attr[0].dtype[1] == 'a':
             return result.tostring().decode()
         return result
-- 
2.43.0


From e76c3073eeb0ea852ee27448e5297f2b7642eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 44/53] fix: the representation of a column never opened, and a
 missing file, crashed the interpreter

---
 bigfile/pyxbigfile.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 58a40e7..85efc51 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -367,7 +367,7 @@ cdef class ColumnLowLevelAPI:
             if 0 != big_block_close(&self.bb):
                 raise Error()
 
-    def open(self, FileLowLevelAPI f, blockname):
+    def open(self, FileLowLevelAPI f not None, blockname):
         self._release()
         blockname = blockname.encode()
         cdef char * blocknameptr = blockname
@@ -377,7 +377,7 @@ cdef class ColumnLowLevelAPI:
             raise Error()
         self._deallocated = False
 
-    def create(self, FileLowLevelAPI f, blockname, dtype=None, size=None, numpy.intp_t Nfile=1):
+    def create(self, FileLowLevelAPI f not None, blockname, dtype=None, size=None, numpy.intp_t Nfile=1):
 
         self._release()
         # need to hold the reference
@@ -616,6 +616,9 @@ cdef class ColumnLowLevelAPI:
             self._deallocated = True
 
     def __repr__(self):
+        if self._deallocated:
+            return "<CBigBlock: closed>"
+
         if self.bb.dtype == b'####':
             return "<CBigBlock: %s>" % self.bb.basename
 
-- 
2.43.0


From d131102f8bf85b0dd83613671c52e049c88a6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 45/53] fix: bigfile-get-attr and bigfile-cat showed the dtype
 instead of the characters of strings

---
 src/bigfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index bf4c763..fb2d11f 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1223,6 +1223,7 @@ typedef struct {double r; double i;} cplx128_t;
 typedef struct {float r; float i;} cplx64_t;
 typedef union {
     char *a1;
+    char *S1;
     char *b1;
     int64_t *i8;
     uint64_t *u8;
@@ -1270,6 +1271,7 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     } else
 
     FORMAT1(a1, "%c")
+    FORMAT1(S1, "%c")
     FORMAT1(b1, "%d")
     FORMAT1(i8, "%ld")
     FORMAT1(i4, "%d")
-- 
2.43.0


From 408c49426e33dfed0ae1e4fb20c5083fe08f97f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 46/53] fix: bigfile-create recorded a size of -1 for an empty
 input

---
 utils/bigfile-create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index f6cadf0..cd33d27 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -95,6 +95,8 @@ int main(int argc, char * argv[]) {
     }
     bb.size = offset;
     bb.fsize[0] = offset;
+    /* also if there was nothing to write */
+    bb.dirty = 1;
     if(0 != big_block_close(&bb)) {
         fprintf(stderr, "failed to close: %s\n", big_file_get_error_message());
         exit(1);
-- 
2.43.0


From 740f97257dc4aea0f91903727e63a08d52fd0024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 47/53] fix: bigfile-rename moved a block into an existing one,
 bigfile-rm hid failures, and both split names at blanks

---
 utils/bigfile-rename | 11 ++++++++++-
 utils/bigfile-rm     | 12 ++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-rename b/utils/bigfile-rename
index d79ed0e..8187dca 100755
--- a/utils/bigfile-rename
+++ b/utils/bigfile-rename
@@ -11,4 +11,13 @@ fi;
 
 FILE=$1
 shift
-mv  $FILE/$1 $FILE/$2
+if [ $# -ne 2 ] || [ -z "$1" ] || [ -z "$2" ]; then
+    usage
+    exit 1
+fi
+# mv would move the block into an existing one
+if [ -e "$FILE/$2" ]; then
+    echo "$FILE/$2 already exists" >&2
+    exit 1
+fi
+mv -- "$FILE/$1" "$FILE/$2"
diff --git a/utils/bigfile-rm b/utils/bigfile-rm
index 9d29aa7..d20833c 100755
--- a/utils/bigfile-rm
+++ b/utils/bigfile-rm
@@ -11,6 +11,14 @@ fi;
 
 FILE=$1
 shift
-for i in $*; do
-    rm -r $FILE/$i;
+STATUS=0
+for i in "$@"; do
+    # an empty name would be the entire file
+    if [ -z "$i" ]; then
+        usage
+        STATUS=1
+        continue
+    fi
+    rm -r -- "$FILE/$i" || STATUS=1
 done
+exit $STATUS
-- 
2.43.0


From 38d32569d86283593802f1fdae73db8e5bd7f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 48/53] fix: bigfile-check and bigfile-repartition failed on
 files with blanks in their path

---
 utils/bigfile-check       |  8 ++++----
 utils/bigfile-repartition | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index c2d87c7..365a808 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -26,7 +26,7 @@ while getopts ":v" opt; do
 done
 
 shift $(($OPTIND-1))
-ROOT=`dirname $0`
+ROOT=`dirname "$0"`
 FILE=$1
 shift
 
@@ -45,13 +45,13 @@ check() {
     local sumreal
     local sumheader
     local sum
-    sum=`$ROOT/bigfile-cat -b $FILE $BLOCK | sum -s | awk '{print $1}'`
+    sum=`"$ROOT"/bigfile-cat -b "$FILE" "$BLOCK" | sum -s | awk '{print $1}'`
     if [ $? != 0 ]; then
         echo cat failed
         fail
     fi
     local expectedsum
-    expectedsum=`$ROOT/bigfile-ls -l $FILE $BLOCK | awk '{print $5}'`
+    expectedsum=`"$ROOT"/bigfile-ls -l "$FILE" "$BLOCK" | awk '{print $5}'`
     if [ $? != 0 ]; then
         echo ls failed
         fail
@@ -62,7 +62,7 @@ check() {
     fi
 }
 if [ -z "$1" ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
+    BLOCKS=`"$ROOT"/bigfile-ls "$FILE"` || fail
 else
     BLOCKS="$*"
 fi
diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 046f48b..72c7f1a 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -23,7 +23,7 @@ while getopts ":v" opt; do
 done
 
 shift $(($OPTIND-1))
-ROOT=`dirname $0`
+ROOT=`dirname "$0"`
 FILE=$1
 shift
 NFILE=$1
@@ -37,12 +37,12 @@ repart() {
     if [ $VERBOSE ]; then
         echo Repartitioning $BLOCK >&2
     fi;
-    $ROOT/bigfile-rename $FILE $BLOCK ${BLOCK}-REPBAK || fail
-    $ROOT/bigfile-copy $VERBOSE -n $NFILE $FILE ${BLOCK}-REPBAK ${BLOCK} ||fail
-    $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
+    "$ROOT"/bigfile-rename "$FILE" "$BLOCK" "${BLOCK}-REPBAK" || fail
+    "$ROOT"/bigfile-copy $VERBOSE -n "$NFILE" "$FILE" "${BLOCK}-REPBAK" "${BLOCK}" ||fail
+    "$ROOT"/bigfile-rm "$FILE" "${BLOCK}-REPBAK" ||fail
 }
 if [ -z "$1" ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
+    BLOCKS=`"$ROOT"/bigfile-ls "$FILE"` || fail
 else
     BLOCKS="$*"
 fi
-- 
2.43.0


From 85377bb5a8cb3a8bfd534fdb708684c995775c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 49/53] fix: bigfile-repartition deleted the blocks inside the
 block

---
 utils/bigfile-repartition | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 72c7f1a..ce131e2 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -39,6 +39,12 @@ repart() {
     fi;
     "$ROOT"/bigfile-rename "$FILE" "$BLOCK" "${BLOCK}-REPBAK" || fail
     "$ROOT"/bigfile-copy $VERBOSE -n "$NFILE" "$FILE" "${BLOCK}-REPBAK" "${BLOCK}" ||fail
+    # blocks inside this block stay there
+    for inner in "$FILE/${BLOCK}-REPBAK"/*/ ; do
+        if [ -d "$inner" ]; then
+            mv -- "${inner%/}" "$FILE/$BLOCK/" || fail
+        fi
+    done
     "$ROOT"/bigfile-rm "$FILE" "${BLOCK}-REPBAK" ||fail
 }
 if [ -z "$1" ]; then
@@ -47,12 +53,24 @@ else
     BLOCKS="$*"
 fi
 
-JOBS=
+# blocks inside others can not be done at the same time as these
+NESTED=
 for block in $BLOCKS ; do
-    ( repart $block ) &
-    JOBS="$JOBS $!"
+    for other in $BLOCKS ; do
+        case $other in "$block"/*) NESTED=1 ;; esac
+    done
 done
+
+JOBS=
 STATUS=0
+for block in $BLOCKS ; do
+    if [ $NESTED ]; then
+        ( repart $block ) || STATUS=1
+    else
+        ( repart $block ) &
+        JOBS="$JOBS $!"
+    fi
+done
 for job in $JOBS ; do
     wait $job || STATUS=1
 done
-- 
2.43.0


From 195047ed16537c5137a7474a810a3cf002c2d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 50/53] fix: bigfile-iosim read reported the rows written by
 bigfile-iosim grow as corrupted

---
 utils/bigfile-iosim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 625b8f5..65eb271 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -190,7 +190,7 @@ iosim(char * filename)
             for(i = 0; i < localsize; i ++) {
                 int j;
                 for(j = 0; j < nmemb; j ++) {
-                    fakedata[i * nmemb + j] = start + i;
+                    fakedata[i * nmemb + j] = oldsize + start + i;
                 }
             }
             info("Initialized FakeData\n");
-- 
2.43.0


From 3f1643a0854475ca00c6c81c45b4a5eb7db6de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 51/53] fix: bigfile-iosim ended with status 0 after errors,
 and overflowed with long or missing file names

---
 utils/bigfile-iosim.c | 70 +++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 65eb271..880cae7 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -34,6 +34,15 @@ info(char * fmt, ...) {
     }
 }
 
+/* end all ranks if any of them failed */
+static void
+must(int failed, char * what)
+{
+    if(!failed) return;
+    fprintf(stderr, "%s: %s\n", what, big_file_get_error_message());
+    MPI_Abort(MPI_COMM_WORLD, 1);
+}
+
 #define MODE_CREATE 0
 #define MODE_READ   1
 #define MODE_UPDATE 2
@@ -92,14 +101,14 @@ iosim(char * filename)
         case MODE_CREATE:
             info("Creating BigFile\n");
             t0 = MPI_Wtime();
-            big_file_mpi_create(&bf, filename, MPI_COMM_WORLD);
+            must(0 != big_file_mpi_create(&bf, filename, MPI_COMM_WORLD), "failed to create the file");
             t1 = MPI_Wtime();
             trank.create += t1 - t0;
             info("Created BigFile\n");
 
             info("Creating BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_create_block(&bf, &bb, "TestBlock", "i8", nmemb, Nfile, size, MPI_COMM_WORLD);
+            must(0 != big_file_mpi_create_block(&bf, &bb, "TestBlock", "i8", nmemb, Nfile, size, MPI_COMM_WORLD), "failed to create the block");
             t1 = MPI_Wtime();
             trank.create += t1 - t0;
             info("Created BigBlock\n");
@@ -109,17 +118,14 @@ iosim(char * filename)
         case MODE_READ:
             info("Opening BigFile\n");
             t0 = MPI_Wtime();
-            if(0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) {
-                printf("%s\n", big_file_get_error_message()); 
-                return;
-            }
+            must(0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD), "failed to open the file");
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigFile\n");
 
             info("Opening BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD);
+            must(0 != big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD), "failed to open the block");
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigBlock\n");
@@ -131,19 +137,16 @@ iosim(char * filename)
         case MODE_GROW:
             info("Growing BigFile\n");
             t0 = MPI_Wtime();
-            if (0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) {
-                printf("%s\n", big_file_get_error_message()); 
-                return;
-            }
+            must(0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD), "failed to open the file");
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigFile\n");
 
             info("Opening BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD);
+            must(0 != big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD), "failed to open the block");
             oldsize = bb.size;
-            big_block_mpi_grow_simple(&bb, Nfile, size, MPI_COMM_WORLD);
+            must(0 != big_block_mpi_grow_simple(&bb, Nfile, size, MPI_COMM_WORLD), "failed to grow the block");
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigBlock\n");
@@ -196,9 +199,7 @@ iosim(char * filename)
             info("Initialized FakeData\n");
             info("Writing BigBlock\n");
             t0 = MPI_Wtime();
-            if(0 != big_block_mpi_write(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) {
-                info("Error occured: %s\n", big_file_get_error_message());
-            }
+            must(0 != big_block_mpi_write(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD), "Error occured");
             t1 = MPI_Wtime();
             trank.write += t1 - t0;
             info("Written BigBlock\n");
@@ -208,9 +209,7 @@ iosim(char * filename)
             info("Reading BigBlock\n");
 
             t0 = MPI_Wtime();
-            if(0 != big_block_mpi_read(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) {
-                info("Error occured: %s\n", big_file_get_error_message());
-            }
+            must(0 != big_block_mpi_read(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD), "Error occured");
             t1 = MPI_Wtime();
             trank.read += t1 - t0;
             info("Reading took %f seconds\n", trank.read);
@@ -234,14 +233,14 @@ iosim(char * filename)
 
     info("Closing BigBlock\n");
     t0 = MPI_Wtime();
-    big_block_mpi_close(&bb, MPI_COMM_WORLD);
+    must(0 != big_block_mpi_close(&bb, MPI_COMM_WORLD), "failed to close the block");
     t1 = MPI_Wtime();
     trank.close += t1 - t0;
     info("Closed BigBlock\n");
 
     info("Closing BigFile\n");
     t0 = MPI_Wtime();
-    big_file_mpi_close(&bf, MPI_COMM_WORLD);
+    must(0 != big_file_mpi_close(&bf, MPI_COMM_WORLD), "failed to close the file");
     t1 = MPI_Wtime();
     trank.close += t1 - t0;
     info("Closed BigFile\n");
@@ -254,11 +253,11 @@ iosim(char * filename)
     MPI_Gather(&trank, sizeof(trank), MPI_BYTE, times, sizeof(trank), MPI_BYTE, 0, MPI_COMM_WORLD);
 
     if (ThisTask == 0){
-        char timelog[4096];
+        char * timelog = alloca(strlen(filename) + 100);
         sprintf(timelog, "%s/%s-timelog", filename, MODES[mode]);
         FILE * fp = fopen(timelog, "a+");
         if (!fp){
-            info("iosim.c: Couldn't open file %s for writting!\n", timelog);
+            fprintf(stderr, "iosim.c: Couldn't open file %s for writting!\n", timelog);
         }
         else{
             fprintf(fp, "# mode\tNfile\tranks\twriters\titems\tnmemb\n"
@@ -270,8 +269,8 @@ iosim(char * filename)
                 fprintf(fp, "%04td\t%012.8f\t%012.8f\t%012.8f\t%012.8f\t%012.8f\n",
                     i, times[i].create, times[i].open, times[i].write, times[i].read, times[i].close);
             }
+            fclose(fp);
         }
-        fclose(fp);
     }
     free(times);
 }
@@ -302,9 +301,9 @@ int main(int argc, char * argv[]) {
     MPI_Comm_rank(MPI_COMM_WORLD, &ThisTask);
     MPI_Comm_size(MPI_COMM_WORLD, &NTask);
     
-    int i;
     int ch;
-    char * filename = alloca(1500);
+    int status = 1;
+    char * filename;
     
     while(-1 != (ch = getopt(argc, argv, getoptstr))) {
         switch(ch) {
@@ -339,6 +338,7 @@ int main(int argc, char * argv[]) {
                 }
                 break;
             case 'h':
+                status = 0;
             default:
                 usage();
                 goto byebye;
@@ -358,8 +358,11 @@ int main(int argc, char * argv[]) {
     }
 
     optind++;
-
-    sprintf(filename, "%s", argv[optind]);
+    if(optind == argc) {
+        usage();
+        goto byebye;
+    }
+    filename = argv[optind];
 
     if (Nwriter > NTask || Nwriter == 0) {
         info("############## CAUTION: you chose %d ranks and %d writers! ##############\n"
@@ -373,16 +376,19 @@ int main(int argc, char * argv[]) {
     }
 
     iosim(filename);
+    status = 0;
 
     if (purge) {
         if(ThisTask == 0) {
-            char buffer[1500];
-            sprintf(buffer, "rm -rf %s/TestBlock", filename);
-            system(buffer);
+            /* the shell sees the name as one word, whatever it contains */
+            char * buffer = alloca(strlen(filename) + 100);
+            sprintf(buffer, "%s/TestBlock", filename);
+            setenv("BIGFILE_IOSIM_PURGE", buffer, 1);
+            if(0 != system("rm -rf -- \"$BIGFILE_IOSIM_PURGE\"")) status = 1;
         }
     }
 //+++++++++++++++++ Writing Time Log +++++++++++++++++
 byebye:
     MPI_Finalize();
-    return 0;
+    return status;
 }
-- 
2.43.0


From 9b850dba53fa10b914607bd38df89598f8f7480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:29 +0000
Subject: [PATCH 52/53] fix: bigfile-cat has room for any value in the
 requested format

---
 utils/bigfile-cat.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index b8a6680..a19343f 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -94,6 +94,21 @@ int main(int argc, char * argv[]) {
     ptrdiff_t offset;
     BigArray array;
 
+    /* room for any value, also with the widths and precisions in the format */
+    size_t strsize = 1024;
+    char * p;
+    for(p = fmt; p && *p; ) {
+        char * end = p + 1;
+        if(*p >= '0' && *p <= '9') strsize += strtoul(p, &end, 10);
+        strsize += end - p;
+        p = end;
+    }
+    char * str = malloc(strsize);
+    if(str == NULL) {
+        fprintf(stderr, "not enough memory for the format `%s'\n", fmt);
+        exit(1);
+    }
+
     for(offset = start; offset < end; ) {
         /* only the rows requested, also for the last chunk */
         if(chunksize > end - offset) chunksize = end - offset;
@@ -105,7 +120,6 @@ int main(int argc, char * argv[]) {
         if(!humane) {
             fwrite(array.data, big_file_dtype_itemsize(bb.dtype), array.size, stdout);
         } else {
-            char str[300];
             BigArrayIter iter;
             big_array_iter_init(&iter, &array);
             size_t i;
@@ -123,6 +137,7 @@ int main(int argc, char * argv[]) {
         offset += array.dims[0];
         countin += array.dims[0];
     }
+    free(str);
     big_block_close(&bb);
     big_file_close(&bf);
     if(ferror(stdout) || 0 != fflush(stdout)) {
-- 
2.43.0


From 9be0f2525c50b6447380f000c409ba3939213b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 53/53] fix: sub-files of FileMPI with a leading slash are
 inside of the file

---
 bigfile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 6ac4da0..482a13a 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -293,7 +293,7 @@ class FileMPI(FileBase):
         return block
 
     def subfile(self, key):
-        return FileMPI(self.comm, os.path.join(self.basename, key))
+        return FileMPI(self.comm, os.path.join(self.basename, key.lstrip('/')))
 
     def create(self, blockname, dtype=None, size=None, Nfile=1):
         block = ColumnMPI(self.comm)
-- 
2.43.0


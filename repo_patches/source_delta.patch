From 029a853b7e91e87b59904e12dd77e462952b4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:09 +0000
Subject: [PATCH 01/59] fix: keep a page pinned until its last reference is put
 back

A thread that holds a page twice (a cursor standing on a bucket page and a
lookup of a key in the same bucket) lost the pin at the first put, so the
second put aborted the process and the page could be evicted or handed to
another thread while still in use.
---
 filehash/ffdb_pagepool.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..ba8d9ca 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1240,6 +1240,16 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
+
+  /**
+   * This thread may still hold this page through another get, for
+   * example a cursor standing on this page: the page stays pinned
+   */
+  if (bp->ref > 0) {
+    FFDB_UNLOCK(pgp->lock);
+    return 0;
+  }
+
   /*
    * I am giving up the ownership
    */
-- 
2.43.0


From 9e12808c38e1b038c70058bdc027ce7bbb21445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:09 +0000
Subject: [PATCH 02/59] fix: release pages on every way out of a lookup or
 refused store

A lookup of an empty value, a lookup into too small a buffer, a refused
FFDB_NOOVERWRITE store and a user info read into too small a buffer left
their pages pinned: such pages are skipped by every later sync and by the
close, so changes on them never reached the file, other threads waited for
them for ever and the cache grew without bound.
---
 filehash/ffdb_hash.c | 1 +
 filehash/ffdb_page.c | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..51ea218 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1318,6 +1318,7 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..fa35601 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -490,6 +492,9 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
   next = NEXT_PGNO(pagep);
+  /* an empty datum has nothing to copy */
+  if (rlen == 0)
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
   while (rlen > 0) {
     /* where copy starts in val->data */
     idx = val->size - rlen;
@@ -1550,6 +1555,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
@@ -2735,6 +2742,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From 7d6fc8550b25c53cb1da71cb505af4ebe7294586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:56 +0000
Subject: [PATCH 03/59] fix: a finished cursor and a cursor on an empty
 database report not found

NEXT or PREV after a cursor had reported FFDB_NOT_FOUND dereferenced a null
page. LAST (or a first PREV) on an empty database of one bucket ran below
bucket 0, and FIRST on an empty database read a page beyond the last bucket.
---
 filehash/ffdb_page.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index fa35601..8cb12e6 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2804,11 +2804,15 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     /* Skip empty buckets */
-    while (NUM_ENT(cursor->item.pagep) == 0 && 
-	   bucket <= hashp->hdr.max_bucket) {
+    while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == hashp->hdr.max_bucket) {
+	/* empty database */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket++;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2820,13 +2824,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	return -1;
       }
     }
-    if (bucket > hashp->hdr.max_bucket) {
-      /* empty database */
-      ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      cursor->item.status = ITEM_NO_MORE;
-      cursor->item.pagep = 0;
-      return FFDB_NOT_FOUND;
-    }
     cursor->item.bucket = bucket;
     cursor->item.pgno = tp;
     cursor->item.pgndx = 0;
@@ -2851,6 +2848,11 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2861,13 +2863,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
     cursor->item.pgno = tp;
@@ -2875,6 +2870,10 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.pgndx = NUM_ENT(cursor->item.pagep) - 1;
     cursor->item.status = ITEM_OK;
   }
+  else if (!cursor->item.pagep && (flags == FFDB_NEXT || flags == FFDB_PREV)) {
+    /* The cursor has already moved past either end */
+    return FFDB_NOT_FOUND;
+  }
   else if (flags == FFDB_NEXT) {
     /* We have reached the last data on the key page */
     if (cursor->item.pgndx == NUM_ENT(cursor->item.pagep) - 1) {
-- 
2.43.0


From 9ba9525396f4d121efc0ec2fe8162967e7117a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:56 +0000
Subject: [PATCH 04/59] fix: low mask of a table created with a single bucket

(nbuckets >> 1) - 1 is 0xffffffff for one bucket: the first expansion then
split the new bucket instead of bucket 0 and every key whose hash selects
the new bucket could not be found any more.
---
 filehash/ffdb_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 51ea218..6a9b6de 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -612,7 +612,7 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* high mask and low mask value */
   hashp->hdr.max_bucket = hashp->hdr.high_mask = nbuckets - 1;
-  hashp->hdr.low_mask = (nbuckets >> 1) - 1;
+  hashp->hdr.low_mask = hashp->hdr.high_mask >> 1;
 
   /* set hash version and flag */
   hashp->hdr.magic = FFDB_HASHMAGIC;
-- 
2.43.0


From ca30379fc667f18d70702852fa213279e325fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:56 +0000
Subject: [PATCH 05/59] fix: do not read past the end of the user's value

When the last part of a value that spans pages leaves less room than a data
header on its page, a whole page was copied from the caller's buffer: up to
20 bytes beyond its end were read and stored in the file.
---
 filehash/ffdb_page.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8cb12e6..d2b0cd5 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -729,6 +729,8 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	FIRST_DATA_POS(currpagep) = 0; 
 	/* we copy most of the rest of page */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -863,8 +865,11 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       /* check whether data will fit this page */
       if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD - BIG_DATA_OVERHEAD) 
 	copylen = rlen;
-      else 
+      else {
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
+      }
 
       /* where to start copy the data */
       idx = val->size - rlen;
-- 
2.43.0


From 6f521d22c8ffb4329f95108da9ae84f6d2dbea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 06/59] fix: refuse keys that do not fit on a bucket page

The largest accepted key ignored the alignment slack that PAIRFITS counts, so
keys of the three largest lengths were accepted but never fit on a bucket
page: a bucket whose own page holds no entry is taken for empty and such keys
(and others chained behind them) were lost.
---
 filehash/ffdb_page.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..0d1a3b8 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -352,7 +352,7 @@ typedef struct _ffdb_data_header_
  * we are not dealing with the case that a single key cannot be fit
  * into a page
  */
-#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t))
+#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t) - (sizeof(int) - 1))
 
 #define PAIRFITS(P,K,D)	((PAIRSIZE((K),(D))) <= FREESPACE((P)))
 
-- 
2.43.0


From 86cf266fa4f15677236ec913c47d69b96c9274c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 07/59] fix: closing right after the table doubled has no pages
 to move

With no page allocated on the new level yet the last page number wrapped to
0xffffffff: the close recorded moved pages that do not exist and extended the
file to terabytes instead of truncating it.
---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index d2b0cd5..5b5c7b2 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2397,6 +2397,10 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 	   num_unused, funused, lunused, hashp->hdr.ovfl_point);
 #endif
 
+  /* No overflow or data page has been used on this level yet */
+  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] == 0)
+    return 0;
+
   /* This is the last page used so far */
   dlast = hashp->hdr.spares[hashp->hdr.ovfl_point + 1] - 1;
   assert (dlast > 0);
-- 
2.43.0


From 511ce7db4d68ac9d10b6ecb4c07b0420af0b6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 08/59] fix: write back pages whose next link was changed

The link from a full data page to its successor, and from a full free list
page to the next one, was set on pages put back as unmodified: if the page
was clean the link never reached the file.
---
 filehash/ffdb_page.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 5b5c7b2..2676c7e 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -604,7 +604,7 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
     PREV_PGNO(cpagep) = pnum;
 
     /* Now free the old data page */
-    ffdb_put_page (hashp, mem, HASH_DATA_PAGE, 0);
+    ffdb_put_page (hashp, mem, HASH_DATA_PAGE, 1);
 
     /* update start value */
     start = HIGHEST_FREE(cpagep);
@@ -1322,7 +1322,7 @@ _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
       PREV_PGNO (xpagep) = fpage;
 
       /* release the previous page */
-      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 0); 
+      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 1); 
     }
   }
 }
-- 
2.43.0


From 8151526e123b64eea341ebd74c49dad9362e4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 09/59] fix: a freed overflow page must be deleted on disk too

A freed overflow page that had not been modified was dropped from the cache
without being written: the file kept a stale bucket page, which the page
rearrangement at close then took for a live one (assertion failure, or
records relinked to the wrong key page).
---
 filehash/ffdb_page.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2676c7e..4c638ec 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1340,7 +1340,8 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
     if (deleteit) {
       /* if this page need to be deleted */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
-      return ffdb_pagepool_delete (hashp->mp, pagep); 
+      /* what is on disk has to say so too */
+      return ffdb_put_page (hashp, pagep, HASH_DELETED_PAGE, 1);
     }
     else 
       return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
-- 
2.43.0


From e716d841d4497d4ff475245c43d8e21c209fefeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 10/59] fix: report a failed insert on an overflow page

---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 4c638ec..f5948ca 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1833,7 +1833,7 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
-- 
2.43.0


From 62948cfedcf1034cd9a57408988ae17b9aa996af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 11/59] fix: refuse metadata writes through a read-only handle

Setting user information or configurations on a read-only database reported
success, changed what later reads of the handle returned and was then lost.
---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 6a9b6de..bbb4a91 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1458,6 +1458,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1507,6 +1513,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1546,6 +1558,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From fdd8ae757e1ed7caab353ecc948fb87063ce3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 12/59] fix: ffdb_get_config must not judge its output argument

It looked at the index field of the structure it is about to fill, which is
uninitialised for callers that do not happen to clear it.
---
 filehash/ffdb_hash.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index bbb4a91..78fff6c 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1538,13 +1538,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From f9d4cea9eb575832a044686c6e4fc60bbbefab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 13/59] fix: no uninitialised memory in new pages and unset
 configurations

Only the first 32 bytes of a new page were cleared, so the unused parts of
pages written to the file held whatever was in memory; configurations that
were never set were returned uninitialised.
---
 filehash/ffdb_hash.c     | 2 +-
 filehash/ffdb_pagepool.c | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 78fff6c..b12cea1 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1485,7 +1485,7 @@ ffdb_get_all_configs (const FFDB_DB* db, ffdb_all_config_info_t* configs)
   hashp = (ffdb_htab_t *)db->internal;
 
   configs->numconfigs = hashp->hdr.num_cfigs;
-  configs->allconfigs = (ffdb_config_info_t *)malloc(configs->numconfigs * sizeof(ffdb_config_info_t));
+  configs->allconfigs = (ffdb_config_info_t *)calloc(configs->numconfigs, sizeof(ffdb_config_info_t));
   if (!configs->allconfigs) {
     fprintf (stderr, "Cannot allocate memory space for all configurations.\n");
     errno = ENOMEM;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index ba8d9ca..1575df9 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -938,10 +938,11 @@ _ffdb_pagepool_new_page_i (ffdb_pagepool_t* pgp, pgno_t* pageno,
   *mem = bp->page;
 
   /**
-   * since this is a new page. clear first few bytes 
-   * to tell applications that this is a clean page 
+   * since this is a new page. clear it to tell applications that
+   * this is a clean page, and to keep what happens to be in memory
+   * out of the file
    */
-  memset (bp->page, 0, FFDB_CLEANHDR_SIZE);
+  memset (bp->page, 0, pgp->pagesize);
 
   return 0;
 }
-- 
2.43.0


From 23f092edccb52bb297a128ccd212d9dd3a54f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 14/59] fix: replacing a value above 4 GB by a smaller one

The high bits of the old length stayed in the data pointer, so the replaced
value was unreadable.
---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f5948ca..2dc1a75 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1732,7 +1732,7 @@ _ffdb_replace_item_on_page (ffdb_htab_t* hashp,
   }
 
   /* Change data pointer value */
-  if (hashp->hdr.version > FFDB_VERSION_5 && IS_HUGE_DATA(val->size)) {
+  if (hashp->hdr.version > FFDB_VERSION_5) {
     /* insert ncessary length information to offset */
     INSERT_LEN_TO_PGOFFSET(val->size, datap->offset);
     datap->len = (unsigned int)val->size;
-- 
2.43.0


From ccb588d49e86075a29316f6b99cab4143cb0b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:56 +0000
Subject: [PATCH 15/59] fix: sync the page the caller's own cursor stands on

A sync (or close) while the calling thread has a cursor open skipped the page
the cursor stands on although sync reports success, so stores to that page
were lost if the process died. A page somebody waits for was skipped too.
---
 filehash/ffdb_pagepool.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 1575df9..433dfbf 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1414,8 +1414,10 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
    */
   num = 0;
   FFDB_CIRCLEQ_FOREACH(bp, &pgp->lqh, lq){
-    if (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
-	bp->waiters == 0 && 
+    if ((!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) ||
+	 /* a page this thread itself holds, e.g. through a cursor */
+	 (numpages == 0 && FFDB_THREAD_SAME(bp->owner, FFDB_THREAD_ID))) &&
+	(numpages == 0 || bp->waiters == 0) &&
 	FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_DIRTY)) {
       /* insert this bucket into a single linked list */
       sbp = (ffdb_sbkt_t *)malloc(sizeof(ffdb_sbkt_t));
-- 
2.43.0


From 2266a06751acb29c8436464a2bab0cfe976df4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 16/59] fix: a damaged page signature or a short page must not
 pass for an empty page

---
 filehash/ffdb_page.c     | 37 ++++++++++++++++++++++---------------
 filehash/ffdb_pagepool.c | 10 +++++++---
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2dc1a75..f13965c 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -254,23 +254,22 @@ void
 ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
 {
   ffdb_htab_t* hashp;
-  unsigned int chksum = 0;
+  unsigned int i, sign, stored, chksum = 0;
+  int swap;
 
   hashp = (ffdb_htab_t *)arg;
+  swap = (hashp->hdr.lorder != hashp->mborder);
 
   /* calculate checksum before byte swapped */
   chksum = _ffdb_page_checksum (hashp, page);
 
-#if 0
-  /* First swap the header to disk */
-  if (hashp->mborder == LITTLE_ENDIAN) 
-    _ffdb_swap_page_metainfo_in (page);
-#endif
-
-#if 1
-  if (hashp->hdr.lorder != hashp->mborder)
-    _ffdb_swap_page_metainfo_in (page);  
-#endif
+  /* nothing else on the page can be trusted before these two are checked */
+  sign = PAGE_SIGN(page);
+  stored = CHKSUM(page);
+  if (swap) {
+    M_32_SWAP(sign);
+    M_32_SWAP(stored);
+  }
 
 #ifdef _FFDB_DEBUG
   fprintf (stderr, "Read page %d in at memory %p\n", pgno, page);
@@ -279,16 +278,24 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
   fprintf (stderr, "Page TYPE 0x%x OFFSET %d\n", TYPE(page), OFFSET(page));
 #endif  
   
-  if (PAGE_SIGN(page) != FFDB_PAGE_MAGIC) {
-    /* This is a unintialized page */
+  if (sign != FFDB_PAGE_MAGIC) {
+    /* This is a unintialized page: it has never been written */
+    for (i = 0; i < hashp->hdr.bsize; i++) {
+      if (((unsigned char *)page)[i] != 0) {
+	fprintf (stderr, "Reading page %d with a wrong signature 0x%x\n", pgno, sign);
+	exit (123);
+      }
+    }
     _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
   }
   else {
-    if (chksum != CHKSUM(page)) {
+    if (chksum != stored) {
       /* The check sum chould 0 because this page is empty page */
-      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, CHKSUM(page));
+      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, stored);
       exit (123);
     }
+    if (swap)
+      _ffdb_swap_page_metainfo_in (page);
   }
 }
 
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 433dfbf..6f3fb90 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -764,12 +764,16 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return EIO;
   }
   nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  if ((unsigned int)nbytes != pgp->pagesize && nbytes != 0) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return EIO;
   }
   else if (nbytes == 0) 
     memset (bp->page, 0, pgp->pagesize);
-- 
2.43.0


From c89c071cf2a6edc52724191204b352501573bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:25 +0000
Subject: [PATCH 17/59] fix: only the first user info page carries a length to
 byte-swap

---
 filehash/ffdb_page.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f13965c..7945840 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -121,7 +121,7 @@ extern unsigned int hash_accesses, hash_collisions, hash_expansions, hash_overfl
  * Swap page header in depending on what type of page
  */
 static void
-_ffdb_swap_page_metainfo_in (void *p)
+_ffdb_swap_page_metainfo_in (ffdb_htab_t* hashp, void *p)
 {
   unsigned int i, next, nelems;
   ffdb_data_header_t* header;
@@ -175,7 +175,9 @@ _ffdb_swap_page_metainfo_in (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* only the first page starts with the length, the others hold bytes */
+    if (CURR_PGNO(p) == hashp->hdr.uinfo_page)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < NUM_ENT(p); i++) 
@@ -295,7 +297,7 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
       exit (123);
     }
     if (swap)
-      _ffdb_swap_page_metainfo_in (page);
+      _ffdb_swap_page_metainfo_in (hashp, page);
   }
 }
 
@@ -303,9 +305,10 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
  * Swap page meta information out before this page is written to disk
  */
 static void
-_ffdb_swap_page_metainfo_out (void *p)
+_ffdb_swap_page_metainfo_out (ffdb_htab_t* hashp, void *p)
 {
   unsigned int i, next;
+  pgno_t pgno = CURR_PGNO(p);
   unsigned int type = TYPE(p);
   unsigned int num = NUM_ENT(p);
   ffdb_data_header_t* header;
@@ -359,7 +362,8 @@ _ffdb_swap_page_metainfo_out (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    if (pgno == hashp->hdr.uinfo_page)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < num; i++) 
@@ -389,12 +393,12 @@ ffdb_pgout_routine (void* arg, pgno_t pgno, void* page)
   /* First swap the header to disk */
 #if 0
   if (hashp->mborder == LITTLE_ENDIAN) 
-    _ffdb_swap_page_metainfo_out (page);
+    _ffdb_swap_page_metainfo_out (hashp, page);
 #endif
 
 #if 1
   if (hashp->hdr.lorder != hashp->mborder)
-    _ffdb_swap_page_metainfo_out (page);
+    _ffdb_swap_page_metainfo_out (hashp, page);
 #endif
 
   /* Need to calculte check sum here for different type of page */
-- 
2.43.0


From 9f78ef0e1e448e76f88a90ba1bef429120716dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:38 +0000
Subject: [PATCH 18/59] fix: writing a page must not leave the cached page in
 the file's byte order

---
 filehash/ffdb_pagepool.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6f3fb90..a1ed4e4 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -265,23 +265,32 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   off_t offset;
   int nbytes;
   int ret = 0;
+  void *image;
 
 #ifdef _FFDB_STATISTICS
   ++pgp->pagewrite;
 #endif
 
-  /* Run through the user's filter. */
+  /* 
+   * Run a copy through the user's filter: the page stays in the cache and
+   * must not be left in the byte order of the file
+   */
+  image = malloc (pgp->pagesize);
+  if (!image)
+    return -1;
+  memcpy (image, bp->page, pgp->pagesize);
   if (pgp->pgout)
-    (pgp->pgout)(pgp->pgcookie, bp->pgno, bp->page);
+    (pgp->pgout)(pgp->pgcookie, bp->pgno, image);
 
   offset =  (off_t)pgp->pagesize * bp->pgno;
 
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, bp->page, pgp->pagesize)) != pgp->pagesize) 
+    if ((unsigned int)(nbytes = write(pgp->fd, image, pgp->pagesize)) != pgp->pagesize) 
       ret = -1;
   }
+  free (image);
 
   if (ret == 0)
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
-- 
2.43.0


From c65d0b9f5363d14ee6970576b1a257645e704b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:09 +0000
Subject: [PATCH 19/59] fix: report failed page writes from sync and close

---
 filehash/ffdb_hash.c     | 12 +++++++++---
 filehash/ffdb_pagepool.c | 15 ++++++++++-----
 filehash/ffdb_pagepool.h |  1 +
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index b12cea1..6683603 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -232,6 +232,8 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
   num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
+    if (num_copied != (unsigned int)-1)
+      errno = EIO;
     return -1;
   }
 
@@ -306,8 +308,9 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
-  ffdb_pagepool_close (hashp->mp);
+  if (ffdb_pagepool_close (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = EIO;
 
   /* Reduce file size if possible */
   if (hashp->rearrange_pages)
@@ -1392,7 +1395,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index a1ed4e4..463132c 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1401,7 +1401,8 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   /**
    * Clean out old disk content
    */
-  _ffdb_clean_page_ondisk (pgp, oldpagenum);
+  if (_ffdb_clean_page_ondisk (pgp, oldpagenum) != 0)
+    pgp->clean_failed = 1;
 
   FFDB_UNLOCK(pgp->lock);
   return 0;
@@ -1415,6 +1416,7 @@ static int
 _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 {
   unsigned int num;
+  int ret = 0;
   ffdb_bkt_t* bp;
   ffdb_sbkt_t* sbp;
   ffdb_sbkt_t* next;
@@ -1465,7 +1467,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
       if (_ffdb_pagepool_write (pgp, sbp->bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_sync: writing page %d error.\n",
 		 sbp->bp->pgno);
-	return -1;
+	ret = -1;
       }
     }
 #ifdef _FFDB_STATISTICS
@@ -1477,7 +1479,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
     sbp = next;
   }
 
-  return 0;
+  return ret;
 }
 
 
@@ -1495,6 +1497,8 @@ ffdb_pagepool_sync (ffdb_pagepool_t* pgp)
   FFDB_LOCK (pgp->lock);
 
   ret = _ffdb_pagepool_sync_i (pgp, 0);
+  if (pgp->clean_failed)
+    ret = -1;
 
   FFDB_UNLOCK (pgp->lock);
 
@@ -1516,9 +1520,10 @@ int
 ffdb_pagepool_close (ffdb_pagepool_t* pgp)
 {
   ffdb_bkt_t* bp;
+  int ret;
 
   /* First Sync Everything to disk */
-  ffdb_pagepool_sync (pgp);
+  ret = ffdb_pagepool_sync (pgp);
 
   FFDB_LOCK(pgp->lock);
   
@@ -1541,7 +1546,7 @@ ffdb_pagepool_close (ffdb_pagepool_t* pgp)
   FFDB_LOCK_FINI(pgp->lock);
 
   free (pgp);
-  return 0;
+  return ret;
 }
 
 /**
diff --git a/filehash/ffdb_pagepool.h b/filehash/ffdb_pagepool.h
index a218397..a020149 100644
--- a/filehash/ffdb_pagepool.h
+++ b/filehash/ffdb_pagepool.h
@@ -219,6 +219,7 @@ typedef struct _ffdb_pagepool_
   unsigned int  fileflags;              /* file creation flag */
   int	        fd;		        /* file descriptor */
   int           close_fd;   		/* do i close fd on exit */
+  int           clean_failed;		/* an old page could not be cleaned on disk */
   /* page in conversion routine */
   ffdb_pgiofunc_t pgin;
   /* page out conversion routine */
-- 
2.43.0


From ffdf3bbb6e5e87d82a1b482d7d25dbb178ce7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:09 +0000
Subject: [PATCH 20/59] fix: signal a page waiter before it can free its
 condition variable

---
 filehash/ffdb_pagepool.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 463132c..b75984f 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1277,16 +1277,11 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
   if (bp->waiters > 0) {
     sleeper = FFDB_CIRCLEQ_LAST(&bp->wqh);
     sleeper->wakeup = 0xdeafbeaf;
+    /* the waiter frees its condition variable once it owns the lock */
+    FFDB_COND_SIGNAL(sleeper->cv);
   }
 
   FFDB_UNLOCK(pgp->lock);
-
-  /* bp->waiters will not be changed until other threads are waken up */
-#if 0
-  fprintf (stderr, "Signaling page %d free \n", bp->pgno);
-#endif
-  if (sleeper)
-    FFDB_COND_SIGNAL(sleeper->cv);
   return 0;
 }
 
-- 
2.43.0


From 9b0b9f70eeaf55dfae366dc9f75a66f0dc4d865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:22 +0000
Subject: [PATCH 21/59] fix: initialise the checksum table once when threads
 open databases

---
 filehash/ffdb_hash_func.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/filehash/ffdb_hash_func.c b/filehash/ffdb_hash_func.c
index add47d0..7347d2d 100644
--- a/filehash/ffdb_hash_func.c
+++ b/filehash/ffdb_hash_func.c
@@ -91,6 +91,7 @@
  * PUBLIC: u_int32_t __ham_func2 __P((DB *, const void *, u_int32_t));
  */
 #include <stdio.h>
+#include <pthread.h>
 #include "ffdb_db.h"
 #include "ffdb_hash_func.h"
 
@@ -343,29 +344,34 @@ int (*__ffdb_default_cmp)(const FFDB_DBT *a, const FFDB_DBT *b)= __ham_defcmp;
  * this part of code is from GNUnet
  */
 static unsigned int _ffdb_crc_table[256];
-static int _ffdb_crc32_inited = 0;
+static pthread_once_t _ffdb_crc32_once = PTHREAD_ONCE_INIT;
 
 #define _CRC32POLY (unsigned int)0xedb88320
 
 /**
  * This routine initialize the CRC table above
  */
-void __ffdb_crc32_init (void)
+static void _ffdb_crc32_fill (void)
 {
-  if (!_ffdb_crc32_inited) {
-    unsigned int i, j;
-    unsigned int  h = 1;
-    _ffdb_crc_table[0] = 0;
-    for (i = 128; i; i >>= 1) {
-      h = (h >> 1) ^ ((h & 1) ? _CRC32POLY : 0);
-      /* h is now crc_table[i] */
-      for (j = 0; j < 256; j += 2 * i)
-	_ffdb_crc_table[i + j] = _ffdb_crc_table[j] ^ h;
-    }
-    _ffdb_crc32_inited = 1;
+  unsigned int i, j;
+  unsigned int  h = 1;
+  _ffdb_crc_table[0] = 0;
+  for (i = 128; i; i >>= 1) {
+    h = (h >> 1) ^ ((h & 1) ? _CRC32POLY : 0);
+    /* h is now crc_table[i] */
+    for (j = 0; j < 256; j += 2 * i)
+      _ffdb_crc_table[i + j] = _ffdb_crc_table[j] ^ h;
   }
 }
 
+/**
+ * Databases may be opened by several threads at the same time
+ */
+void __ffdb_crc32_init (void)
+{
+  pthread_once (&_ffdb_crc32_once, _ffdb_crc32_fill);
+}
+
 
   /**
    * Caculate crc32 checksum for a buffer with length len
-- 
2.43.0


From 7c38548c5b51ff8492d8cb0993b44ff30fe99b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 22/59] fix: refuse an unusable page size before creating or
 truncating the file

---
 filehash/ffdb_hash.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 6683603..6865503 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -697,6 +697,17 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
     new_table = 1;
   }
 
+  /**
+   * A page size that cannot be used must not create or truncate anything
+   */
+  if (new_table && info && info->bsize > 0 &&
+      (info->bsize > MAX_BSIZE || info->bsize <= FFDB_MIN_PGSIZE / 2)) {
+    fprintf (stderr, "Page size %u is not supported.\n", info->bsize);
+    free (hashp);
+    errno = EINVAL;
+    return 0;
+  }
+
   /**
    * Now open file according to flags and mode
    */
-- 
2.43.0


From efe5c7b86559875beeb034d26a51f5765d391334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 23/59] fix: free the page pool of an open that fails

---
 filehash/ffdb_hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 6865503..21ca2ae 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -837,6 +837,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   if ((ret = ffdb_pagepool_open_fd(hashp->mp, hashp->fp, 
 				   hashp->hdr.bsize, csize)) != 0) {
     fprintf (stderr, "Cannot open pagepool for %s\n", fname);
+    ffdb_pagepool_close (hashp->mp);
     close (hashp->fp);
     free (hashp);
     errno = ret;
-- 
2.43.0


From bce88ef19808570e4f3fae56bbb6320ec7e86208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:19 +0000
Subject: [PATCH 24/59] fix: a misplaced page or a blank overflow page is
 damage, not data

---
 filehash/ffdb_page.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 7945840..887f39a 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -298,6 +298,10 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
     }
     if (swap)
       _ffdb_swap_page_metainfo_in (hashp, page);
+    if (CURR_PGNO(page) != pgno) {
+      fprintf (stderr, "Reading page %d which says it is page %d\n", pgno, CURR_PGNO(page));
+      exit (123);
+    }
   }
 }
 
@@ -2957,6 +2961,16 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	  cursor->item.status = ITEM_ERROR;
 	  return -1;
 	}
+	/* A page linked into a bucket always holds something */
+	if (NUM_ENT(cursor->item.pagep) == 0) {
+	  fprintf (stderr, "Overflow page %d of bucket %d is empty.\n",
+		   tp, cursor->item.bucket);
+	  ffdb_put_page (hashp, cursor->item.pagep,
+			 TYPE(cursor->item.pagep), 0);
+	  cursor->item.pagep = 0;
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
       }
       cursor->item.pgno = tp;
       cursor->item.pgndx = 0;
@@ -3024,6 +3038,16 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	  cursor->item.status = ITEM_ERROR;
 	  return -1;
 	}
+	/* A page linked into a bucket always holds something */
+	if (NUM_ENT(cursor->item.pagep) == 0) {
+	  fprintf (stderr, "Overflow page %d of bucket %d is empty.\n",
+		   tp, cursor->item.bucket);
+	  ffdb_put_page (hashp, cursor->item.pagep,
+			 TYPE(cursor->item.pagep), 0);
+	  cursor->item.pagep = 0;
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
       }
       cursor->item.pgno = tp;
       cursor->item.status = ITEM_OK;
-- 
2.43.0


From df9ed0aabcc90e0e7c77a33329b96a6dde779110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:37 +0000
Subject: [PATCH 25/59] fix: release the handle's lock before destroying it

---
 filehash/ffdb_hash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 21ca2ae..51c7fc6 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1041,7 +1041,8 @@ _ffdb_hash_close (FFDB_DB* dbp)
 
   retval = _ffdb_hdestroy (hashp);
 
-  /* free lock */
+  /* free lock, which must not be held then */
+  FFDB_UNLOCK(hashp->lock);
   FFDB_LOCK_FINI(hashp->lock);
 
   /* finally free hashp itself */
-- 
2.43.0


From 18a6f2843361f823d2bcbf0d82cb05e78aee563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:43 +0000
Subject: [PATCH 26/59] fix: opening and closing cursors in several threads

---
 filehash/ffdb_hash.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 51c7fc6..2705f0a 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1449,7 +1449,10 @@ _ffdb_hash_cursor (const FFDB_DB* dbp, ffdb_cursor_t** c, unsigned int type)
   inc->pcursor = nc;
   memset (&inc->item, 0, sizeof(ffdb_hent_t));  
   inc->item.status = ITEM_CLEAN;
+  /* other threads may open and close their own cursors */
+  FFDB_LOCK(inc->hashp->lock);
   FFDB_TAILQ_INSERT_TAIL(&(inc->hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(inc->hashp->lock);
 
   /* Set internal pointer */
   nc->internal = inc;
@@ -1656,14 +1659,16 @@ _ffdb_cursor_close (ffdb_cursor_t* cursor)
   ffdb_crs_t* inc = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = inc->hashp;
 
-  FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
-
   /* Check whether there is a page need to be released */
   if (inc->item.pagep) {
     ffdb_put_page (hashp, inc->item.pagep, TYPE(inc->item.pagep), 0);
     inc->item.pagep = 0;
   }
 
+  FFDB_LOCK(hashp->lock);
+  FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(hashp->lock);
+
   FFDB_LOCK_FINI(inc->lock);
   /* Free all memory */
   free (inc);
-- 
2.43.0


From 6091619b0f6bba3f133affb6a00a13570aacb5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 27/59] fix: release buffers and cursor when a stored object
 cannot be read

---
 src/DBFunc.cpp | 12 ++++++----
 src/DBFunc.h   | 60 +++++++++++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index 3a717f0..4faa9f3 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -81,7 +81,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     int  ret;
     
     try {
@@ -111,7 +111,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllKeys", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp != NULL)
+	crp->close(crp);
       throw;
     }
     
@@ -126,7 +128,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     int  ret;
     
     try {
@@ -163,7 +165,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp != NULL)
+	crp->close(crp);
       throw;
     }
     
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 56f797e..2e9869c 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -303,9 +303,9 @@ namespace FILEDB
 	// convert object into a string
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
-	data.readObject (dataObj);
 	// I have to use free since I use malloc in c code
 	free(dbdata.data);
+	data.readObject (dataObj);
       }
       catch (SerializeException& e) {
 	ret = -1;
@@ -372,7 +372,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey;
-    ffdb_cursor_t *crp;
+    ffdb_cursor_t *crp = NULL;
     K    arg;
     int  ret;
     
@@ -389,21 +389,23 @@ namespace FILEDB
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
-	arg.readObject (keyObj);
-
-	// put this new key into the vector
-	keys.push_back (arg);
 
 	// free memory
 	free (dbkey.data);
-
 	dbkey.data = 0;
 	dbkey.size = 0;
+
+	arg.readObject (keyObj);
+
+	// put this new key into the vector
+	keys.push_back (arg);
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllKeys", "Cursor next error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp != NULL)
+	crp->close(crp);
       throw;
     } 
     
@@ -423,7 +425,7 @@ namespace FILEDB
 		bool only_one = false) noexcept(false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     K    arg;
     D    d;
     int  ret;
@@ -441,11 +443,17 @@ namespace FILEDB
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
-	arg.readObject (keyObj);
 
 	// convert into data object
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
+
+	// free memory
+	free (dbkey.data); free (dbdata.data);
+	dbkey.data = dbdata.data = 0;
+	dbkey.size = dbdata.size = 0;
+
+	arg.readObject (keyObj);
 	d.readObject (dataObj);
 
 	// put this new key into the vector
@@ -454,11 +462,6 @@ namespace FILEDB
 	// put this data into the other vector
 	data.push_back (d);
 
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
-
 	if (only_one)
 	{
 	  ret = FFDB_NOT_FOUND;
@@ -468,7 +471,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp != NULL)
+	crp->close(crp);
       throw;
     }
     
@@ -486,7 +491,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     D    d;
     int  ret;
     
@@ -505,6 +510,12 @@ namespace FILEDB
 	// convert into data object
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
+
+	// free memory
+	free (dbkey.data); free (dbdata.data);
+	dbkey.data = dbdata.data = 0;
+	dbkey.size = dbdata.size = 0;
+
 	d.readObject (dataObj);
 
 	// put this new key into the vector
@@ -512,16 +523,13 @@ namespace FILEDB
 	
 	// put this data into the other vector
 	data.push_back (d);
-
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp != NULL)
+	crp->close(crp);
       throw;
     }
     
@@ -539,7 +547,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = NULL;
     K    arg;
     int  ret;
     
@@ -563,7 +571,9 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc isDatabaseEmpty", "cursor first error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      if (crp != NULL)
+	crp->close(crp);
       throw;
     }
     
-- 
2.43.0


From 104d850220aad0a17307efacc3bbea540a45af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 28/59] fix: stores that are not open report errors

---
 src/ConfDataStoreDB.h       |  3 +++
 src/ConfDataStoreDBSimple.h | 39 ++++++++++++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index a89ef45..941f2c9 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -419,6 +419,9 @@ namespace FILEDB
      */
     virtual bool exist(const K& key)
     {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
diff --git a/src/ConfDataStoreDBSimple.h b/src/ConfDataStoreDBSimple.h
index 38a6f53..a0b8248 100644
--- a/src/ConfDataStoreDBSimple.h
+++ b/src/ConfDataStoreDBSimple.h
@@ -70,6 +70,7 @@
 #include "DBCursor.h"
 #include "DBFunc.h"
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 #define FILEDB_DEFAULT_PAGESIZE 8192
@@ -103,7 +104,15 @@ namespace FILEDB
         // the other elements will be arranged by file hash package
       }
 
-      ~DB() { close(); }
+      ~DB() {
+        try {
+          close();
+        }
+        catch (std::exception& e) {
+          // a destructor cannot pass this on
+          std::cerr << e.what() << std::endl;
+        }
+      }
 
       int open(const std::string &file, int open_flags, int mode) {
         close();
@@ -120,8 +129,10 @@ namespace FILEDB
           ret = dbh_->close(dbh_);
           dbh_ = nullptr;
         }
+        std::string closed;
+        closed.swap(filename_);
         if (ret != 0)
-          throw std::runtime_error("Error closing filedb database: " + filename_);
+          throw std::runtime_error("Error closing filedb database: " + closed);
       }
     };
 
@@ -306,6 +317,9 @@ namespace FILEDB
      * @return 0 on successful write, -1 on failure with proper errno set
      */
     template <typename K, typename D> int insert(const K &key, const D &data) {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -325,6 +339,9 @@ namespace FILEDB
      * @return 0 on success, otherwise the key not found
      */
     template <typename K, typename D> int get(const K &key, D &data) const {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -343,6 +360,9 @@ namespace FILEDB
      * @return true if the answer is yes
      */
     template <typename K> bool exist(const K &key) const {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
@@ -362,7 +382,8 @@ namespace FILEDB
      * by keys after this call.
      */
     template <typename K, typename D> void keys(std::vector<K> &keys) const {
-      allKeys< K, D >(db->dbh_, keys);
+      if (db->dbh_)
+        allKeys< K, D >(db->dbh_, keys);
     }
 
     /**
@@ -373,7 +394,8 @@ namespace FILEDB
      */
     template <typename K, typename D>
     void keysAndData(std::vector<K> &keys, std::vector<D> &values) const {
-      allPairs<K, D> (db->dbh_, keys, values);
+      if (db->dbh_)
+        allPairs<K, D> (db->dbh_, keys, values);
     }
 
     /**
@@ -381,7 +403,8 @@ namespace FILEDB
      */
     void flush (void)
     {
-      flushDatabase (db->dbh_);
+      if (db->dbh_)
+        flushDatabase (db->dbh_);
     }
 
     /**
@@ -403,6 +426,9 @@ namespace FILEDB
      */
     int insertUserdata (const std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       return ffdb_set_user_info (db->dbh_, 
 				 (unsigned char *)user_data.c_str(), user_data.length());
     }
@@ -415,6 +441,9 @@ namespace FILEDB
      */
     int getUserdata (std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       int ret;
       unsigned int len;
       unsigned char* data;
-- 
2.43.0


From bea051a631a7746b0c00d5d7ba73611750d163fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:18 +0000
Subject: [PATCH 29/59] fix: ensemble store that is not open, or update out of
 range, reports an error

---
 src/AllConfStoreDB.h | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f82db84..954db82 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -234,6 +234,9 @@ namespace FILEDB
     template <typename K0 = K, typename D0 = D>
     int get (const K0& key, std::vector< D0 >& vs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       std::string cdata;
 
@@ -293,6 +296,9 @@ namespace FILEDB
      */
     int getFromStringKey (const std::string& key, std::vector< D >& vs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       std::string cdata;
 
@@ -387,6 +393,9 @@ namespace FILEDB
      */
     int insert (const K & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -441,6 +450,9 @@ namespace FILEDB
      */
     int insertWithStringKey (const std::string & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -496,6 +508,9 @@ namespace FILEDB
     int insertBinaryData (const std::string& key, 
 			  const std::vector < std::string > & v)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret = 0;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -535,6 +550,14 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
+      if (!this->db->dbh_)
+        return -1;
+
+      if (index < 0 || index >= nbin_) {
+	std::cerr << "Update index " << index << " is out of range of number of configurations " << nbin_ << std::endl;
+	return -1;
+      }
+
       if (empty_) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
@@ -724,6 +747,9 @@ namespace FILEDB
      */
     int setConfigInfo (const ConfigInfo& config)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       ffdb_config_info_t info;
       
       info.config = config.configNumber();
@@ -746,6 +772,9 @@ namespace FILEDB
     int getConfigInfo (unsigned int confignum,
 		       ConfigInfo& info)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int stat;
       ffdb_config_info_t cf;
 
@@ -768,6 +797,9 @@ namespace FILEDB
      */
     int getAllConfigInfo (std::vector<ConfigInfo>& configs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       ffdb_all_config_info_t allcfigs;
       ConfigInfo cf;
       int stat, i;
@@ -800,6 +832,9 @@ namespace FILEDB
      */
     key_iterator begin (void) const
     {
+      if (!this->db->dbh_)
+        return end ();
+
       return DBKeyIterator < K, D >::init (this->db->dbh_);
     }
 
-- 
2.43.0


From c3bdbc310209c9ee6d265863398e0e622ef566e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:18 +0000
Subject: [PATCH 30/59] fix: refuse ensemble records whose elements differ in
 size

---
 src/AllConfStoreDB.h | 69 +++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 954db82..e344c98 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -404,21 +404,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
-	std::string tmpstr;
-	try {
-	  v[0].writeObject (tmpstr);
-	}
-	catch (SerializeException& e) {
-	  std::cerr << "Serialize the first element in insert error: " << e.what () 
-		    << std::endl;
-	  return -1;
-	}
-	bytesize_ = tmpstr.size();
-      }
-
-      // combine every element in the array into a string
+      // combine every element in the array into a string, all elements
+      // must have the same size
+      long bsize = 0;
       std::string dstr;
       for (unsigned int i = 0; i < v.size(); i++) {
 	std::string elem;
@@ -429,6 +417,12 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (i == 0)
+	  bsize = elem.size();
+	if ((std::size_t)bsize != elem.size()) {
+	  std::cerr << "Element size " << elem.size() << " is not the same as the others " << bsize << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -440,6 +434,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0 && bytesize_ == 0)
+	bytesize_ = bsize;
       return ret;
     }
 
@@ -461,21 +457,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
-	std::string tmpstr;
-	try {
-	  v[0].writeObject (tmpstr);
-	}
-	catch (SerializeException& e) {
-	  std::cerr << "Serialize the first element in insert error: " << e.what () 
-		    << std::endl;
-	  return -1;
-	}
-	bytesize_ = tmpstr.size();
-      }
-
-      // combine every element in the array into a string
+      // combine every element in the array into a string, all elements
+      // must have the same size
+      long bsize = 0;
       std::string dstr;
       for (unsigned int i = 0; i < v.size(); i++) {
 	std::string elem;
@@ -486,6 +470,12 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (i == 0)
+	  bsize = elem.size();
+	if ((std::size_t)bsize != elem.size()) {
+	  std::cerr << "Element size " << elem.size() << " is not the same as the others " << bsize << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -497,6 +487,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0 && bytesize_ == 0)
+	bytesize_ = bsize;
       return ret;
     }
 
@@ -519,19 +511,24 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = v[0].size();
-
-      // combine the vector of string into one big string
+      // combine the vector of string into one big string, all elements
+      // must have the same size
+      long bsize = v[0].size();
       std::string dstr;
-      for (unsigned int i = 0; i < v.size(); i++) 
+      for (unsigned int i = 0; i < v.size(); i++) {
+	if (v[i].size() != (std::size_t)bsize) {
+	  std::cerr << "Element size " << v[i].size() << " is not the same as the others " << bsize << std::endl;
+	  return -1;
+	}
 	dstr.append (v[i]);
+      }
 
       ret = this->insertBinary (key, dstr);
       if (ret != 0) {
 	std::cerr << __FILE__ << "cannot insert binary data" << std::endl;
       }
+      else if (bytesize_ == 0)
+	bytesize_ = bsize;
       return ret;
     }
 
-- 
2.43.0


From dd90be21683884cdccce197076f0b3b313278e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:18 +0000
Subject: [PATCH 31/59] fix: updating a second configuration of a new ensemble
 kept only the last element

---
 src/AllConfStoreDB.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index e344c98..cefd12a 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -555,7 +555,8 @@ namespace FILEDB
 	return -1;
       }
 
-      if (empty_) {
+      // a new record is only made for a key that has none yet
+      if (empty_ && !this->exist (key)) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
 	thr[index] = v;
-- 
2.43.0


From 6764b5c5ca2906a54f5c9739027bcc58259d9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:18 +0000
Subject: [PATCH 32/59] fix: configuration records of an ensemble: type,
 terminated names, no leak, no uninitialised bytes

---
 src/AllConfStoreDB.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index cefd12a..d744342 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -121,8 +121,7 @@ namespace FILEDB
       allcfgs_ = std::shared_ptr<ffdb_all_config_info_t>(
           new ffdb_all_config_info_t,
           /* deleter function */ [=](ffdb_all_config_info_t *allcfgs_) {
-            if (allcfgs_->numconfigs > 0)
-              free(allcfgs_->allconfigs);
+            free(allcfgs_->allconfigs);
             delete allcfgs_;
           });
       allcfgs_->numconfigs = 0;
@@ -139,7 +138,7 @@ namespace FILEDB
 
       allcfgs_->numconfigs = nbin_;
       allcfgs_->allconfigs =
-          (ffdb_config_info_t *)malloc(sizeof(ffdb_config_info_t) * nbin_);
+          (ffdb_config_info_t *)calloc(nbin_, sizeof(ffdb_config_info_t));
       for (int i = 0; i < nbin_; i++) {
 	allcfgs_->allconfigs[i].config = configs[i];
 	allcfgs_->allconfigs[i].index = i;
@@ -172,7 +171,7 @@ namespace FILEDB
 	  allcfgs_->allconfigs[i].fname[0] = '\0';
 	else
 	  strncpy (allcfgs_->allconfigs[i].fname, names[i].c_str(), 
-		   _FFDB_MAX_FNAME);
+		   _FFDB_MAX_FNAME - 1);
       }
     }
       
@@ -205,6 +204,7 @@ namespace FILEDB
       }
       else {
 	// update configuration information
+	free (allcfgs_->allconfigs);
 	ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
 	nbin_ = allcfgs_->numconfigs;
 	if (nbin_ == 0) {
@@ -750,11 +750,13 @@ namespace FILEDB
 
       ffdb_config_info_t info;
       
+      ::memset (&info, 0, sizeof(info));
       info.config = config.configNumber();
       info.index = config.index();
       info.inserted = config.inserted ();
+      info.type = config.type();
       info.mtime = config.modifiedTime();
-      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
+      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME - 1);
 
       return ffdb_set_config (this->db->dbh_, &info);
     }
@@ -783,7 +785,7 @@ namespace FILEDB
 	info.insert (cf.inserted);
 	info.type (cf.type);
 	info.modifiedTime (cf.mtime);
-	info.urlname (cf.fname);
+	info.urlname (std::string (cf.fname, ::strnlen (cf.fname, _FFDB_MAX_FNAME)));
       }
       return stat;
     }
@@ -810,11 +812,13 @@ namespace FILEDB
 	  cf.insert (allcfigs.allconfigs[i].inserted);
 	  cf.type (allcfigs.allconfigs[i].type);
 	  cf.modifiedTime (allcfigs.allconfigs[i].mtime);
-	  cf.urlname (allcfigs.allconfigs[i].fname);
+	  cf.urlname (std::string (allcfigs.allconfigs[i].fname, 
+				   ::strnlen (allcfigs.allconfigs[i].fname, _FFDB_MAX_FNAME)));
 
 	  configs.push_back (cf);
 	}
       }
+      free (allcfigs.allconfigs);
       return stat;
     }
 
-- 
2.43.0


From 2c0c83b730c03aa16b27a2777830b7664dfe2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:53 +0000
Subject: [PATCH 33/59] fix: an ensemble open that fails leaves nothing open
 and is reported

---
 src/AllConfStoreDB.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index d744342..d7c5511 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -190,17 +190,26 @@ namespace FILEDB
       if (this->ConfDataStoreDB<K, D>::open(file, open_flags, mode) != 0)
         return -1;
       
+      // element size of a database opened before does not matter any more
+      bytesize_ = 0;
+
       // check whether this database is empty
       empty_ = this->isEmpty ();
 
       if (empty_) {
 	if (nbin_ == 0) {
 	  std::cerr << "One has to provide number of configurations." << std::endl;
+	  this->close ();
 	  return -1;
 	}
 
 	// update configuration information
-	ffdb_set_all_configs (this->db->dbh_, &*allcfgs_);
+	if ((open_flags & O_ACCMODE) != O_RDONLY &&
+	    ffdb_set_all_configs (this->db->dbh_, &*allcfgs_) != 0) {
+	  std::cerr << "Cannot store configuration information." << std::endl;
+	  this->close ();
+	  return -1;
+	}
       }
       else {
 	// update configuration information
@@ -209,6 +218,7 @@ namespace FILEDB
 	nbin_ = allcfgs_->numconfigs;
 	if (nbin_ == 0) {
 	  std::cerr << "number of configurations = 0 on an existing database." << std::endl;
+	  this->close ();
 	  return -1;
 	}
       }
-- 
2.43.0


From e25094a2e6c0bc825438f1b2c9347fd2d92e375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:53 +0000
Subject: [PATCH 34/59] fix: key iterator over an unreadable key leaked its
 cursor

---
 src/DBCursor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DBCursor.h b/src/DBCursor.h
index 64e4607..928bb8e 100644
--- a/src/DBCursor.h
+++ b/src/DBCursor.h
@@ -308,11 +308,13 @@ namespace FILEDB
 	  // convert into key object
 	  std::string keyObj;
 	  keyObj.assign((char*)key.data, key.size);
-	  mykey.readObject (keyObj);
-
 	  free (key.data); free(data.data);
 
-	  return DBKeyIterator<T, D>(DBCursor(crp), mykey, 0);
+	  // closes the cursor if the key cannot be read
+	  DBCursor cursor(crp);
+	  mykey.readObject (keyObj);
+
+	  return DBKeyIterator<T, D>(cursor, mykey, 0);
 	}
 	else if (ret != FFDB_NOT_FOUND) {
 	  std::cerr <<"Fatal: DB cursor  error " << std::endl;
-- 
2.43.0


From 2ece353b65b48318e79f50c26be3678bc9f95d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:53 +0000
Subject: [PATCH 35/59] fix: a configuration skipped by a merge keeps its place
 in the records

---
 src/ConfDataDBMerger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 416c877..5d038cf 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -118,7 +118,8 @@ namespace FILEDB
 #endif
 	std::vector< std::string > thr;
 	
-	thr.resize (numconfigs);
+	// a configuration that has no database keeps its place in the record
+	thr.resize (numconfigs, std::string (data[i].size(), '\0'));
 
 	if (bag.find (keys[i])  != bag.end()) {
 	  std::cerr << "Cannot be right, this key should not be here" 
-- 
2.43.0


From 78d322e67991045707c43f0e26ca783ede0025ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:53 +0000
Subject: [PATCH 36/59] fix: merging with a memory limit below one record

---
 src/ConfDataDBMerger.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 5d038cf..157a458 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -254,8 +254,13 @@ namespace FILEDB
       // calculate size for one key and its data for all configuration
       unsigned int asize = (key.length() + data.length()) * numconfs;
 
-      // number of elements each iteration to use
-      chunk = max_memory/asize > numelems ? numelems : max_memory/asize;
+      // number of elements each iteration to use, at least one
+      if (asize == 0 || max_memory/asize > numelems)
+	chunk = numelems;
+      else
+	chunk = max_memory/asize;
+      if (chunk == 0)
+	chunk = 1;
 
       // calculate cachesize for each single database
       cachesize = chunk * (key.length() + data.length());
-- 
2.43.0


From cfcb800c28f22448f431f792dcc68cfade4d67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:53 +0000
Subject: [PATCH 37/59] fix: a merge that cannot store a record must not pass
 for complete

---
 src/ConfDataDBMerger.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 157a458..76a45f6 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -221,7 +221,10 @@ namespace FILEDB
 	// make compiler happy
 	std::string tkey((*ite).first);
 
-	dbh_->insertBinaryData (tkey, (*ite).second);
+	if (dbh_->insertBinaryData (tkey, (*ite).second) != 0) {
+	  std::cerr << "Fatal: cannot insert merged data" << std::endl;
+	  ::exit (1);
+	}
       }
     }
 
-- 
2.43.0


From c50381c1fad7a12fe8be031932f52f9b9f522523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:19 +0000
Subject: [PATCH 38/59] fix: fileExists of a multi-file store looked at no file

---
 src/AllConfStoreMultipleDB.h  | 4 ++--
 src/ConfDataStoreMultipleDB.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index af1f74d..8214b02 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -101,9 +101,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 9ef3bb5..a40030c 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -115,9 +115,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = false;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
-- 
2.43.0


From 552a072d53a9e899173e8047a7ef53704aeb2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 39/59] fix: VFloatData kept only part of its values and wrote
 uninitialised padding

---
 src/VFloatData.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 0fd00ee..69681ab 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -31,6 +31,7 @@
  *
  *
  */
+#include <cstring>
 #include <stdlib.h>
 #include <sstream>
 #include "VFloatData.h"
@@ -123,18 +124,20 @@ namespace FILEDB
   void 
   VFloatData::writeObject (std::string& output) const noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
-    unsigned short pad;
+    unsigned short pad = 0;
     unsigned int   num;
 
     num = hton_int(data_.size ());
     id = hton_short(serialID());
-    vcfbuf = new float[data_.size()];
+    vcfbuf = new unsigned int[data_.size()];
 
-    // assign complex data values to the array
-    for (std::size_t i = 0; i < data_.size(); i++) 
-      vcfbuf[i] = hton_int((int)data_[i]);
+    // assign the bits of the data values to the array in network order
+    for (std::size_t i = 0; i < data_.size(); i++) {
+      ::memcpy (&vcfbuf[i], &data_[i], sizeof(float));
+      vcfbuf[i] = hton_int(vcfbuf[i]);
+    }
 
     // output stream
     ostringstream ostrm;
@@ -167,12 +170,15 @@ namespace FILEDB
   void 
   VFloatData::readObject (const std::string& input)  noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
     unsigned int   num;
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
+    if (input.length() < hlen)
+      throw SerializeException ("VFloatData", "Serial Header Size error");
+
     const char* buf = input.data();
     ::memcpy (&id, buf, idlen);
     ::memcpy (&num, &buf[2*idlen], sizeof(unsigned int));
@@ -187,15 +193,17 @@ namespace FILEDB
       throw SerializeException ("VFloatData", "Serial Binary Data Size error");
 
     // copy all float values
-    vcfbuf = new float[num];
+    vcfbuf = new unsigned int[num];
     ::memcpy (vcfbuf, &buf[hlen], input.length() - hlen);
 
     // resize this vector
     data_.resize(num);
 
     // assign vector elements
-    for (unsigned int i = 0; i < num; i++) 
-      data_[i] = ntoh_int((int)vcfbuf[i]);
+    for (unsigned int i = 0; i < num; i++) {
+      vcfbuf[i] = ntoh_int(vcfbuf[i]);
+      ::memcpy (&data_[i], &vcfbuf[i], sizeof(float));
+    }
 
     delete []vcfbuf;
   }
-- 
2.43.0


From bbfbf777748cb181dca5d49e5f57f81546c504a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 40/59] fix: stores constructed by several threads raced on the
 checksum table

---
 src/FileDB.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/FileDB.cpp b/src/FileDB.cpp
index 94ec9a9..ff999e7 100644
--- a/src/FileDB.cpp
+++ b/src/FileDB.cpp
@@ -26,6 +26,7 @@
  *
  */
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <sys/time.h>
 #include "FileDB.h"
@@ -49,14 +50,15 @@ namespace FILEDB {
    * this part of code is from GNUnet
    */
   static unsigned int crc_table[256];
-  static int crc32_inited = 0;
+  static std::once_flag crc32_once;
 
   /**
    * This routine initialize the CRC table above
    */
   void crc32_init (void)
   {
-    if (!crc32_inited) {
+    // stores may be constructed by several threads
+    std::call_once (crc32_once, [] () {
       unsigned int i, j;
       unsigned int  h = 1;
       crc_table[0] = 0;
@@ -66,8 +68,7 @@ namespace FILEDB {
 	for (j = 0; j < 256; j += 2 * i)
 	  crc_table[i + j] = crc_table[j] ^ h;
       }
-      crc32_inited = 1;
-    }
+    });
   }
 
 
-- 
2.43.0


From 00de2bdb0eb260b21e22b3fd00e03c314bd80e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:34 +0000
Subject: [PATCH 41/59] fix: a configuration without a database was merged with
 its predecessor's data

---
 src/ConfDataDBMerger.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 76a45f6..010f200 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -333,6 +333,8 @@ namespace FILEDB
 	  info.type (0);
 	  if ((*site) != "N/A")
 	    info.urlname (*site);
+	  else
+	    info.urlname ("");
 	  configs_.push_back (info);
 	  
 	  site++;
-- 
2.43.0


From 1a6d7210e158f6eb2a392e267bcfcfbd5835a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:12 +0000
Subject: [PATCH 42/59] fix: a page of another kind than its link says is
 damage, not data

After writes that were lost or refused a link can lead to a page that was
reused since: a free or deleted page was read as a bucket, a bucket page
as a value, delivering keys and values that were never stored.
---
 filehash/ffdb_page.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 887f39a..5f07cf5 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1398,6 +1398,20 @@ ffdb_get_page (ffdb_htab_t* hashp, pgno_t addr,
   if (FFDB_FLAG_ISSET(flags, FFDB_CREATE) && CURR_PGNO(mem) == 0) 
     _ffdb_init_page (hashp, mem, *page, addrtype);
 
+  /* A page of another kind than the one asked for is damage: the link or
+   * the page is out of date. Overflow pages are kept as bucket pages, and
+   * a bucket may still be the page without items another one moved out of.
+   */
+  if (!FFDB_FLAG_ISSET(flags, FFDB_CREATE) && CURR_PGNO(mem) != 0 &&
+      addrtype != HASH_RAW_PAGE &&
+      TYPE(mem) != (addrtype == HASH_OVFL_PAGE ? HASH_BUCKET_PAGE : addrtype) &&
+      !(addrtype == HASH_BUCKET_PAGE && TYPE(mem) == HASH_DELETED_PAGE &&
+	NUM_ENT(mem) == 0)) {
+    fprintf (stderr, "Page %d is of type 0x%x instead of 0x%x\n", *page,
+	     TYPE(mem), addrtype);
+    exit (123);
+  }
+
   return mem;
 }
 
@@ -2108,8 +2122,10 @@ _ffdb_update_data_pages_content (ffdb_htab_t* hashp, void *pagep,
     if (datap->first >= newfirst && datap->first <= newlast)
       continue;
 
-    /* get data page pointed back by this pointer */
-    dpagep = ffdb_get_page (hashp, datap->first, HASH_DATA_PAGE, 0, &dp);
+    /* get data page pointed back by this pointer (it may have been moved
+     * and deleted already)
+     */
+    dpagep = ffdb_get_page (hashp, datap->first, HASH_RAW_PAGE, 0, &dp);
     if (!dpagep) {
       fprintf (stderr, "Cannot get data page %d pointed by overflow page %d item %d\n",
 	       datap->first, oldpage, i);
-- 
2.43.0


From dfad9fce1d872e658c61a66a944cd8ff4151f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 43/59] fix: a backward cursor used a page that could not be
 read

---
 filehash/ffdb_page.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 5f07cf5..883d21c 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -3017,6 +3017,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
 
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
-- 
2.43.0


From 5247242370b99851b10dfb79d1ebd6015a16880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:16 +0000
Subject: [PATCH 44/59] fix: an open that cannot read the metadata pages used a
 null page

---
 filehash/ffdb_hash.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 2705f0a..44b3011 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -479,6 +479,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -511,6 +513,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -893,8 +897,17 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 ||
+      _ffdb_read_config_info (hashp) != 0) {
+    fprintf (stderr, "Cannot read user and configuration information of %s\n", fname);
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    errno = EIO;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     ffdb_pagepool_close (hashp->mp);
-- 
2.43.0


From a1b97a75fcd40336f11fefbfdbc9c71ed066476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:36 +0000
Subject: [PATCH 45/59] fix: a read failure while pages are moved left them
 half moved

_ffdb_move_pages returned early when a page could not be read, its caller
took no notice, and the half moved pages were written to the file. Nothing
can be undone at that point, so stop before the damage reaches the file.
---
 filehash/ffdb_page.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 883d21c..2dd814c 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2264,6 +2264,9 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
  *
+ * A page that cannot be read stops the process: the pages moved so far can
+ * neither be left half moved nor be moved back.
+ *
  * @return last page number on the linked list after successful move. 
  * If there is no data pages being moved, INVALID_PGNO is returned
  */
@@ -2289,7 +2292,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
-      return dlast;
+      abort ();
     }
 
     if (TYPE(pagep) != type) {
@@ -2311,8 +2314,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	nextpagep = ffdb_get_page (hashp, nextp, HASH_RAW_PAGE, 0, &tp);
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
-	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  abort ();
 	}
 
 	PREV_PGNO(nextpagep) = rpage;
@@ -2340,8 +2342,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	prevpagep = ffdb_get_page (hashp, prevp, HASH_RAW_PAGE, 0, &tp);
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
-	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  abort ();
 	}
 
 	NEXT_PGNO(prevpagep) = rpage;
@@ -2367,9 +2368,8 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
       if (_ffdb_update_key_pages_content (hashp, pagep, page, rpage, 
 					  oldfirst, oldlast,
 					  newfirst, newlast) != 0) {
-	/* Release this page and update page number */
-	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	fprintf (stderr, "Cannot move page %d to new page %d.\n", page, rpage);
+	abort ();
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update primary page for data page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
@@ -2383,9 +2383,8 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
       if (_ffdb_update_data_pages_content (hashp, pagep, page, rpage,
 					   oldfirst, oldlast,
 					   newfirst, newlast) != 0) {
-	/* Release this page and update page number */
-	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	fprintf (stderr, "Cannot move page %d to new page %d.\n", page, rpage);
+	abort ();
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update data page for primary page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
-- 
2.43.0


From 023351fc4ef6b5da309121f70f845debd9555ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:26 +0000
Subject: [PATCH 46/59] fix: a read failure while a bucket is split lost its
 keys

ffdb_split_bucket gave up, or took the rest of the bucket's pages for absent,
when a page could not be read, although the masks of the table had changed
already: keys were dropped or looked for in the wrong bucket. Stop the process
before the half split table reaches the file.
---
 filehash/ffdb_page.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2dd814c..8e0cff3 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2025,6 +2025,9 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
  * Split a bucket: this happens when a bucket is full. This bucket may not be 
  * splitted right away (overflow pages needed), but it will eventually 
  * will be splitted
+ *
+ * The masks of the table have been changed already, so a page that cannot
+ * be read stops the process before a half split table reaches the file.
  */
 int 
 ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
@@ -2036,7 +2039,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   pgno_t oldpage, nextpage, tp;
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
-  int base_page = 1;
+  int base_page = 1, status;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2044,7 +2047,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   oldpagep = ffdb_get_page (hashp, oldbucket, HASH_BUCKET_PAGE, FFDB_CREATE, &oldpage);
   if (!oldpagep) {
     fprintf (stderr, "Cannot find page for bucket %d\n", oldbucket);
-    return -1;
+    abort ();
   }
 
   /* get split buffer pointer */
@@ -2067,9 +2070,13 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	status = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	status = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+      if (status != 0) {
+	fprintf (stderr, "Cannot move a key of bucket %d\n", oldbucket);
+	abort ();
+      }
     }
     
     /* get next page number */
@@ -2081,8 +2088,14 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else  /* free overflow page */ 
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
-    if (nextpage != INVALID_PGNO) 
+    if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      if (!temp_pagep) {
+	fprintf (stderr, "Cannot get overflow page %d of bucket %d\n",
+		 nextpage, oldbucket);
+	abort ();
+      }
+    }
     else
       break;
   }
-- 
2.43.0


From b229dcbc6cbb509f215c5692b21dfea9176a9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:13 +0000
Subject: [PATCH 47/59] fix: a store that failed on a read error left a half
 linked page behind

ffdb_add_ovflpage linked the new overflow page before its item was stored and
left the link in memory, unmarked, when storing failed; a scan then ran into a
page that was never written. Data pages stayed pinned on the same paths, and a
failure to update the data header during a split went unnoticed.
---
 filehash/ffdb_page.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8e0cff3..b108b87 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -717,6 +717,7 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
       currpagep = ffdb_get_page (hashp, currp, HASH_DATA_PAGE,FFDB_CREATE, &tp);
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate data page at %d\n", currp);
+	ffdb_put_page (hashp, cpagep, HASH_DATA_PAGE, 0);
 	return -1;
       }
       if (reuse)
@@ -874,6 +875,7 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate page %d to overwrite data\n",
 		 currp);
+	ffdb_put_page (hashp, mem, TYPE(mem), 1);
 	return -1;
       }
 
@@ -1846,19 +1848,20 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
   hash_overflows++;
 #endif
   
-  /* Set up page link */
-  NEXT_PGNO(item->pagep) = ovflpage;
-  PREV_PGNO(opagep) = item->pgno;
-
   /* Add this pair to the new page */
   status = _ffdb_add_item_on_page (hashp, opagep, ovflpage,
 				   key, val, item->data_chksum);
 
   if (status != 0) {
-    ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 0);
+    /* the page is not part of the chain: give it back */
+    ffdb_delete_page (hashp, opagep, HASH_OVFL_PAGE, 0);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 0);
   }
   else {
+    /* Set up page link */
+    NEXT_PGNO(item->pagep) = ovflpage;
+    PREV_PGNO(opagep) = item->pgno;
+
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
@@ -1932,7 +1935,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
 {
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
-  int needovfl, reuse;
+  int needovfl, reuse, status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1948,7 +1951,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -2013,12 +2016,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
-- 
2.43.0


From 22ba13e4ba9f62278035942579b9f4b05aedeada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:50 +0000
Subject: [PATCH 48/59] fix: metadata sizes beyond the 16-bit page counts of
 the header were accepted

The header stores the number of user information pages, the number of
configuration pages and where they start in 16 bits. A database created
with more overlapped them with other pages. Such a request is refused
with EINVAL before anything is created or truncated.
---
 filehash/ffdb_hash.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 44b3011..dccef80 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -542,6 +542,27 @@ _ffdb_num_config_info_pages (ffdb_htab_t* hashp, unsigned int num)
 }
 
 
+/**
+ * The header keeps page numbers of user and configuration information
+ * in 16 bits: check whether the requested amount can be recorded
+ */
+static int
+_ffdb_meta_fits (const FFDB_HASHINFO* info)
+{
+  unsigned long space, upages, cpages;
+
+  if (info->bsize)
+    space = 1UL << __ffdb_log2 (info->bsize);
+  else
+    space = DEF_BUCKET_SIZE;
+  space -= PAGE_OVERHEAD;
+
+  upages = ((unsigned long)info->userinfolen + sizeof(unsigned int) + space - 1)/space;
+  space = space/sizeof(ffdb_config_info_t);
+  cpages = ((unsigned long)info->numconfigs + space - 1)/space;
+  return upages < 0xffff && cpages <= 0xffff;
+}
+
 /**
  * Initialize the hash table if this is a new file
  * Initialize hash table with 'nb' number of buckets
@@ -712,6 +733,16 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
     return 0;
   }
 
+  /**
+   * Neither must an amount of metadata that the header cannot describe
+   */
+  if (new_table && info && !_ffdb_meta_fits (info)) {
+    fprintf (stderr, "Too much user or configuration information for the page size.\n");
+    free (hashp);
+    errno = EINVAL;
+    return 0;
+  }
+
   /**
    * Now open file according to flags and mode
    */
-- 
2.43.0


From c08822f6dd6a4bbfcccc3f0d62a7c326acf68416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:08 +0000
Subject: [PATCH 49/59] fix: deleting a key reported success and deleted
 nothing

Deletion is not implemented; the call now says so (ENOSYS).
---
 filehash/ffdb_hash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index dccef80..87bfe65 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1407,7 +1407,9 @@ _ffdb_hash_delete (const FFDB_DB* dbp, const FFDB_DBT* key, unsigned int flag)
   (void)dbp;
   (void)key;
   (void)flag;
-  return 0;
+  /* nothing is deleted, so this must not look like a success */
+  errno = ENOSYS;
+  return -1;
 }
 
 
-- 
2.43.0


From d32716f084ed0555bbfdbc2284f3f4c5e1367bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:25 +0000
Subject: [PATCH 50/59] fix: reading from a data cursor reported success and
 returned nothing

Only key cursors are implemented; a loop over a data cursor never ended
and saw no data. It now fails with ENOSYS.
---
 filehash/ffdb_hash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 87bfe65..7ae4d4f 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1693,7 +1693,9 @@ _ffdb_cursor_get  (ffdb_cursor_t* cursor, FFDB_DBT* key,
     FFDB_UNLOCK(icrs->lock);
   }
   else {
-    status = 0;
+    /* data cursors are not implemented: nothing is returned */
+    errno = ENOSYS;
+    status = -1;
   }
   return status;
 }
-- 
2.43.0


From 1e85999846ca05cf6252fa81b09d2b987af03d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:15 +0000
Subject: [PATCH 51/59] fix: keyExist said a key is absent when its lookup
 failed

A read error or a damaged page made exist() answer 'not there', and an
ensemble update() then replaced the whole record by default values. Report
the failure by an exception, like the other functions here.
---
 src/DBFunc.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DBFunc.h b/src/DBFunc.h
index 2e9869c..ad2ba2f 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -590,7 +590,8 @@ namespace FILEDB
    * @param dbh database pointer
    * @param arg key we are interested
    *
-   * @return 1 if this key exists. return 0 not there
+   * @return 1 if this key exists. return 0 not there. A lookup that fails
+   * throws FileHashDBException
    */
   template <typename K>
   int keyExist (FFDB_DB* dbh, const K& arg) 
@@ -626,6 +627,8 @@ namespace FILEDB
     catch (SerializeException& e) {
       throw;
     }
+    if (ret != FFDB_NOT_FOUND)
+      throw FileHashDBException ("DBFunc keyExist", "Lookup Error");
     return 0;
   }
   
-- 
2.43.0


From cae949ba66e97b84b02caf35ae34e022b729d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:15 +0000
Subject: [PATCH 52/59] fix: an ensemble whose configuration list could not be
 read was opened as if it had none

AllConfStoreDB::open ignored the result of ffdb_get_all_configs. Close the
database and report the failure.
---
 src/AllConfStoreDB.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index d7c5511..2391ea9 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -214,7 +214,11 @@ namespace FILEDB
       else {
 	// update configuration information
 	free (allcfgs_->allconfigs);
-	ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
+	if (ffdb_get_all_configs (this->db->dbh_, &*allcfgs_) != 0) {
+	  std::cerr << "Cannot read configuration information." << std::endl;
+	  this->close ();
+	  return -1;
+	}
 	nbin_ = allcfgs_->numconfigs;
 	if (nbin_ == 0) {
 	  std::cerr << "number of configurations = 0 on an existing database." << std::endl;
-- 
2.43.0


From 7284efc4c335042b5423af0d11db1c8fe023f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:15 +0000
Subject: [PATCH 53/59] fix: a multiple database fell through to the next file
 when a lookup failed

get and getBinary delivered the record of a later database, or 'not found',
when reading the first one failed. Go on only after FFDB_NOT_FOUND.
---
 src/AllConfStoreMultipleDB.h  | 2 +-
 src/ConfDataStoreMultipleDB.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index 8214b02..cdcd189 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -169,7 +169,7 @@ namespace FILEDB
 	for(int i=0; i < dbs_.size(); ++i) 
 	{
 	  ret = dbs_[i].get(key, vs);
-	  if (ret == 0)
+	  if (ret != FFDB_NOT_FOUND)
 	    break;
 	}
       }
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index a40030c..94c9052 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -176,7 +176,7 @@ namespace FILEDB
 	for(int i=0; i < dbs_.size(); ++i) 
 	{
 	  ret = dbs_[i].get(key, data);
-	  if (ret == 0)
+	  if (ret != FFDB_NOT_FOUND)
 	    break;
 	}
       }
@@ -201,7 +201,7 @@ namespace FILEDB
       for(int i=0; i < dbs_.size(); ++i)
       {
 	ret = dbs_[i].getBinary(key, data);
-	if (ret == 0)
+	if (ret != FFDB_NOT_FOUND)
 	  break;
       }
       return ret;
-- 
2.43.0


From 614ef9d04cf7f014ec356adeb7e31dcdf0921fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:15 +0000
Subject: [PATCH 54/59] fix: an ensemble with an unreadable first value could
 not be opened

isDatabaseEmpty read the value of the first key only to throw it away. Read
the key alone.
---
 src/DBFunc.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/DBFunc.h b/src/DBFunc.h
index ad2ba2f..313b996 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -546,7 +546,7 @@ namespace FILEDB
   int isDatabaseEmpty (FFDB_DB* dbh)
     noexcept (false)
   {
-    FFDB_DBT dbkey, dbdata;
+    FFDB_DBT dbkey;
     ffdb_cursor_t* crp = NULL;
     K    arg;
     int  ret;
@@ -557,13 +557,12 @@ namespace FILEDB
       if (ret != 0) 
 	throw FileHashDBException ("DBFunc isDatabaseEmpty", "cursor creation error");
 
-      // get first thing from the database 
-      dbkey.data = dbdata.data = 0;
-      dbkey.size = dbdata.size = 0;
-      ret = crp->get (crp, &dbkey, &dbdata, FFDB_NEXT);
+      // get first key from the database, its data does not matter
+      dbkey.data = 0;
+      dbkey.size = 0;
+      ret = crp->get (crp, &dbkey, 0, FFDB_NEXT);
       if (ret == 0) {
 	free (dbkey.data);
-	free (dbdata.data);
 	crp->close(crp);
 	return 0;
       }
-- 
2.43.0


From 2376be45f8b7a4095c84418aa0b34a7b031fdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:19 +0000
Subject: [PATCH 55/59] fix: a free-page list no longer refers to the list page
 that was taken out of it

When the head page of a free-page list is used up and taken for a normal
page, the next list page kept its link back to it. When that list page was
moved at close, the link of the page now in normal use was overwritten and
the data behind it was lost.
---
 filehash/ffdb_page.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index b108b87..043a51e 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -992,6 +992,20 @@ _ffdb_reuse_free_ovflpage (ffdb_htab_t* hashp)
       num = fpage;
       /* nextp could be INVALID_PGNO */
       hashp->hdr.free_pages[clevel] = nextp;
+
+      /* The next page becomes the head of the list: it must not refer to
+       * this page any more, which is about to hold something else
+       */
+      if (nextp != INVALID_PGNO) {
+	fpagep = ffdb_get_page (hashp, nextp, HASH_FREE_PAGE, 0, &tp);
+	if (!fpagep) {
+	  fprintf (stderr, "Fatal error: free map page at %d could not be found\n",
+		   nextp);
+	  abort ();
+	}
+	PREV_PGNO(fpagep) = INVALID_PGNO;
+	ffdb_put_page (hashp, fpagep, HASH_FREE_PAGE, 1);
+      }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Free map page %d contains no free pages, reuse it\n",
 	       fpage);
@@ -2361,7 +2375,11 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	  abort ();
 	}
 
-	NEXT_PGNO(prevpagep) = rpage;
+	/* A free map page written by an earlier version may still refer to
+	 * a page that has left its list
+	 */
+	if (NEXT_PGNO(prevpagep) == page)
+	  NEXT_PGNO(prevpagep) = rpage;
 	ffdb_put_page (hashp, prevpagep, TYPE(prevpagep), 1);
       }
       else {
-- 
2.43.0


From 4530a00408661163e7b066a7cb29801a6890e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:58 +0000
Subject: [PATCH 56/59] fix: sync left out the pages on which another thread's
 cursor stands

A sync that reported success skipped every modified page that a cursor of
another thread stood on, so a process death afterwards lost what was stored
there.
---
 filehash/ffdb_pagepool.c | 8 ++++----
 filehash/ffdb_pagepool.h | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index b75984f..2e4eb3d 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1425,8 +1425,9 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
   num = 0;
   FFDB_CIRCLEQ_FOREACH(bp, &pgp->lqh, lq){
     if ((!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) ||
-	 /* a page this thread itself holds, e.g. through a cursor */
-	 (numpages == 0 && FFDB_THREAD_SAME(bp->owner, FFDB_THREAD_ID))) &&
+	 /* a complete flush leaves out no page a cursor stands on: whoever
+	    holds a page meanwhile only reads it */
+	 numpages == 0) &&
 	(numpages == 0 || bp->waiters == 0) &&
 	FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_DIRTY)) {
       /* insert this bucket into a single linked list */
@@ -1479,8 +1480,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, pages in use included
  *
  * @param  pgp cache page pool pointer
  */
diff --git a/filehash/ffdb_pagepool.h b/filehash/ffdb_pagepool.h
index a020149..d4a147f 100644
--- a/filehash/ffdb_pagepool.h
+++ b/filehash/ffdb_pagepool.h
@@ -376,8 +376,7 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, pages in use included
  *
  * @param  pgp cache page pool pointer
  */
-- 
2.43.0


From 5cd9ecba8e9ce6d35b9744d2a448b503f0e79344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:20 +0000
Subject: [PATCH 57/59] fix: a failed cursor step leaked the key it had
 allocated

---
 filehash/ffdb_page.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 043a51e..95d3111 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2861,6 +2861,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   pgno_t bucket, tp, nextp;
   unsigned char* ekdata;
   unsigned int   eksize;
+  int needfree = 0;
 
   if (flags == FFDB_FIRST) {
     if (cursor->item.pagep) {
@@ -3140,6 +3141,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     key->size = eksize;
+    needfree = 1;
   }
   memcpy (key->data, ekdata, eksize);
 
@@ -3150,7 +3152,14 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.key_len = eksize;
     cursor->item.data_off = DATAP_OFF(cursor->item.pagep, cursor->item.pgndx);
 
-    return ffdb_get_item (hashp, key, data, &cursor->item, 0);
+    if (ffdb_get_item (hashp, key, data, &cursor->item, 0) != 0) {
+      if (needfree) {
+	free (key->data);
+	key->data = 0;
+	key->size = 0;
+      }
+      return -1;
+    }
   }
   return 0;
 }
-- 
2.43.0


From ff84e0ed6be0ad9212a76946a2404348031c1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:43 +0000
Subject: [PATCH 58/59] fix: a refused or failed cursor step moved the cursor
 past a pair

A step into a too small buffer, or one whose read failed, left the cursor on
the pair it had not delivered, so that going on skipped it; after a failed
read of a page the scan ended as if complete.
---
 filehash/ffdb_hash.c | 26 ++++++++++++++++++++++++++
 filehash/ffdb_page.c |  4 ++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 7ae4d4f..2df3308 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1663,6 +1663,28 @@ ffdb_max_user_info_len (const FFDB_DB* db)
 /************************************************************************
  * Cursor related routines                                              *
  ************************************************************************/
+/**
+ * Bring a cursor back to where it was before a step that failed
+ */
+static void
+_ffdb_cursor_restore (ffdb_crs_t* icrs, const ffdb_hent_t* before)
+{
+  void* pagep = icrs->item.pagep;
+  pgno_t tp;
+
+  if (pagep && (!before->pagep || icrs->item.pgno != before->pgno)) {
+    ffdb_put_page (icrs->hashp, pagep, TYPE(pagep), 0);
+    pagep = 0;
+  }
+  if (!pagep && before->pagep)
+    pagep = ffdb_get_page (icrs->hashp, before->pgno, HASH_RAW_PAGE, 0, &tp);
+
+  icrs->item = *before;
+  icrs->item.pagep = pagep;
+  if (before->pagep && !pagep)
+    icrs->item.status = ITEM_ERROR;
+}
+
 static int
 _ffdb_cursor_get  (ffdb_cursor_t* cursor, FFDB_DBT* key,
 		   FFDB_DBT* data, unsigned int flags)
@@ -1670,6 +1692,7 @@ _ffdb_cursor_get  (ffdb_cursor_t* cursor, FFDB_DBT* key,
   int status;
   ffdb_crs_t*  icrs = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = icrs->hashp;
+  ffdb_hent_t before;
   unsigned int realflags;
 
   /* Check flag to see whether it is valid */
@@ -1689,7 +1712,10 @@ _ffdb_cursor_get  (ffdb_cursor_t* cursor, FFDB_DBT* key,
       realflags = FFDB_LAST;
 
     FFDB_LOCK(icrs->lock);
+    before = icrs->item;
     status = ffdb_cursor_find_by_key (hashp, icrs, key, data, realflags);
+    if (status != 0 && status != FFDB_NOT_FOUND)
+      _ffdb_cursor_restore (icrs, &before);
     FFDB_UNLOCK(icrs->lock);
   }
   else {
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 95d3111..6daa585 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2946,8 +2946,8 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.status = ITEM_OK;
   }
   else if (!cursor->item.pagep && (flags == FFDB_NEXT || flags == FFDB_PREV)) {
-    /* The cursor has already moved past either end */
-    return FFDB_NOT_FOUND;
+    /* The cursor has already moved past either end, or lost its place */
+    return cursor->item.status == ITEM_ERROR ? -1 : FFDB_NOT_FOUND;
   }
   else if (flags == FFDB_NEXT) {
     /* We have reached the last data on the key page */
-- 
2.43.0


From e3cebbda38413da2c65802453e03758f90e7f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:05 +0000
Subject: [PATCH 59/59] fix: sync moved the file position under readers in
 other threads

The header was written through the shared file position, outside the lock of
the page pool: a reader then got the wrong page, or the header went to the
wrong place.
---
 filehash/ffdb_hash.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 2df3308..eebe0fb 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -227,9 +227,9 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
   whdrp->chksum = chksum;
 
 
-  /* write the header */
-  lseek(hashp->fp, 0, SEEK_SET);
-  num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
+  /* write the header: the file position belongs to the page pool, whose
+     readers may be using it at this moment */
+  num_copied = pwrite(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t), 0);
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
     if (num_copied != (unsigned int)-1)
-- 
2.43.0


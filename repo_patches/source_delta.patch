From defc7e1bab2975708593cbccf50ac2333e426436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:32 +0000
Subject: [PATCH 01/46] fix: wait for every queued task, not for one wakeup of
 a shared condition

---
 src/napr_threadpool.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index f464623..6befb49 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -272,7 +272,6 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
 {
     char errbuf[ERR_BUF_SIZE] = { 0 };
     apr_status_t status = APR_SUCCESS;
-    int list_size = 0;
 
     /* DEBUG_DBG("Called"); */
     status = apr_thread_mutex_lock(threadpool->threadpool_mutex);
@@ -280,8 +279,8 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
         DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    list_size = (int) napr_list_size(threadpool->list);
-    if ((0 != list_size) || (threadpool->nb_waiting != threadpool->nb_thread)) {
+    /* Loop: the condition is shared with the workers and wakeups may be spurious. */
+    while ((0 != napr_list_size(threadpool->list)) || (threadpool->nb_waiting != threadpool->nb_thread)) {
         /* DEBUG_DBG("After lock before wait"); */
         /*
          * Because the caller of this function has added all data we are now
@@ -296,9 +295,9 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
             return status;
         }
         /* DEBUG_DBG("Awake"); */
-        /* Because all data have been processed, we are no more running  */
-        threadpool->run &= 0x0;
     }
+    /* Because all data have been processed, we are no more running  */
+    threadpool->run &= 0x0;
     /*
      * garbage collecting under lock protection to avoid list manipulation
      * during this freeing.
-- 
2.43.0


From 0b2e35445212fd3e1d9f80b5cee7559cc6eda130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 02/46] fix: do not insert the same ignore-list name twice
 (endless hash rebuild)

---
 src/ft_config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3c0e8ee..7adf046 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -155,8 +155,9 @@ static void ft_hash_add_ignore_list(napr_hash_t *hash, const char *file_list)
         else {
             tmp = apr_pstrdup(pool, filename);
         }
-        napr_hash_search(hash, tmp, strlen(tmp), &hash_value);
-        napr_hash_set(hash, tmp, hash_value);
+        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {
+            napr_hash_set(hash, tmp, hash_value);
+        }
 
         if (NULL != end) {
             filename = end + 1;
-- 
2.43.0


From fbdbe4913e227fdef7006cab0cbfd4b8a3a62f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 03/46] fix: apply the whitelist regex to files only, so that
 -w still recurses

---
 src/ft_traverse.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 129dfc4..51118a4 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -89,11 +89,25 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     return APR_SUCCESS;
 }
 
+/* Whether an entry is to be descended into: a directory, or a link to one when links are followed. */
+static int is_directory(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool)
+{
+    apr_finfo_t target;
+
+    if ((finfo->valid & APR_FINFO_TYPE) && finfo->filetype != APR_LNK) {
+        return finfo->filetype == APR_DIR;
+    }
+    if (is_option_set(conf->mask, OPTION_FSYML)) {
+        return apr_stat(&target, fullname, APR_FINFO_TYPE, gc_pool) == APR_SUCCESS && target.filetype == APR_DIR;
+    }
+    return apr_stat(&target, fullname, APR_FINFO_TYPE | APR_FINFO_LINK, gc_pool) == APR_SUCCESS && target.filetype == APR_DIR;
+}
+
 static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
     if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+        (conf->wl_regex && !is_directory(fullname, finfo, conf, gc_pool) && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
         return APR_SUCCESS;
     }
 
-- 
2.43.0


From 32f5d0b0bfe8ef5052b462242c9200d92e58e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 04/46] fix: initialise the archive subpath of traversed files

---
 src/ft_traverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 51118a4..217871f 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -64,7 +64,7 @@ static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
-        ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
+        ft_file_t *file = apr_pcalloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
         file->size = finfo->size;
         file->mtime = finfo->mtime;
-- 
2.43.0


From c8cd0bf5ba1d2f541873aae88ae5d3bc4b2f5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:31 +0000
Subject: [PATCH 05/46] fix: -R does not recurse through a followed link to a
 directory either

---
 src/ft_traverse.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 217871f..d9a71e5 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -149,11 +149,10 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         if (napr_hash_search(conf->ig_files, finfo.name, strlen(finfo.name), NULL) != NULL || (finfo.name[0] == '.' && !is_option_set(conf->mask, OPTION_SHOW_HIDDEN))) {
             continue;
         }
-        if (finfo.filetype == APR_DIR && !is_option_set(conf->mask, OPTION_RECSD)) {
+        char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
+        if (!is_option_set(conf->mask, OPTION_RECSD) && is_directory(fullname, &finfo, conf, gc_pool)) {
             continue;
         }
-
-        char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
         status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
         if (status != APR_SUCCESS) {
             break;
-- 
2.43.0


From c0bea6f98077dd76fef850868ae72e39c7737fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:31 +0000
Subject: [PATCH 06/46] fix: recognise a broken link with -f instead of reading
 an unset file type

---
 src/ft_traverse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index d9a71e5..c49ac17 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -25,10 +25,11 @@ static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_c
     apr_status_t status = apr_stat(finfo, filename, statmask, pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        if (is_option_set(conf->mask, OPTION_FSYML) && (finfo->filetype & APR_LNK)) {
+        if (is_option_set(conf->mask, OPTION_FSYML) && apr_stat(finfo, filename, APR_FINFO_TYPE | APR_FINFO_LINK, pool) == APR_SUCCESS && finfo->filetype == APR_LNK) {
             if (is_option_set(conf->mask, OPTION_VERBO)) {
                 (void) fprintf(stderr, "Skipping : [%s] (broken link)\n", filename);
             }
+            finfo->filetype = APR_NOFILE;
             return APR_SUCCESS;
         }
         DEBUG_ERR("error calling apr_stat on filename %s : %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
-- 
2.43.0


From e660b7f3d940f72d00bafa2182d5cfa0716a018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:31 +0000
Subject: [PATCH 07/46] fix: stop at a symbolic link that loops back to an
 ancestor directory

---
 src/ft_traverse.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index c49ac17..b19296e 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -17,7 +17,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
 
 static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
 {
-    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
+    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT | APR_FINFO_IDENT;
     if (!is_option_set(conf->mask, OPTION_FSYML)) {
         statmask |= APR_FINFO_LINK;
     }
@@ -112,11 +112,7 @@ static apr_status_t process_directory_entry(const char *fullname, const apr_finf
         return APR_SUCCESS;
     }
 
-    struct stats child;
-    child.parent = stats;
-    child.stat = *finfo;
-
-    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, &child, current_ctx);
+    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -180,7 +176,20 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     }
 
     if (finfo.filetype == APR_DIR) {
-        return process_directory(filename, conf, gc_pool, stats, parent_ctx);
+        struct stats self;
+
+        /* A followed link may lead back to a directory being traversed. */
+        for (const struct stats *ancestor = stats; ancestor != NULL; ancestor = ancestor->parent) {
+            if (ancestor->stat.inode == finfo.inode && ancestor->stat.device == finfo.device) {
+                if (is_option_set(conf->mask, OPTION_VERBO)) {
+                    (void) fprintf(stderr, "Skipping : [%s] (directory loop)\n", filename);
+                }
+                return APR_SUCCESS;
+            }
+        }
+        self.parent = stats;
+        self.stat = finfo;
+        return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         return process_file(filename, &finfo, conf);
-- 
2.43.0


From 3c5c73571fb942750a5afe14c1311311c17baea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:31 +0000
Subject: [PATCH 08/46] fix: skip a directory entry that cannot be examined
 instead of aborting the scan

---
 src/ft_traverse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index b19296e..8cd4f89 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -115,9 +115,10 @@ static apr_status_t process_directory_entry(const char *fullname, const apr_finf
     apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        DEBUG_ERR("skipping %s: %s", fullname, apr_strerror(status, errbuf, ERR_BUF_SIZE));
     }
-    return status;
+    /* An entry that cannot be examined must not end the traversal of its siblings. */
+    return APR_SUCCESS;
 }
 
 static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *parent_ctx)
-- 
2.43.0


From d1ca3ee7551c78b0820aa5ecbbd6f37a6f390974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:31 +0000
Subject: [PATCH 09/46] fix: survive a failed comparison between files of equal
 size

---
 src/ft_process.c     | 2 +-
 src/ft_report.c      | 3 +++
 src/ft_report_json.c | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ft_process.c b/src/ft_process.c
index b53cfe6..e738aa0 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -144,7 +144,7 @@ static apr_status_t categorize_files(ft_conf_t *conf, napr_heap_t *tmp_heap, apr
             }
             else {
                 if (NULL == fsize->chksum_array) {
-                    fsize->chksum_array = apr_palloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t));
+                    fsize->chksum_array = apr_pcalloc(conf->pool, fsize->nb_files * sizeof(struct ft_chksum_t));
                 }
 
                 fsize->chksum_array[fsize->nb_checksumed].file = file;
diff --git a/src/ft_report.c b/src/ft_report.c
index a4099e4..d0603ef 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -81,6 +81,9 @@ static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_f
     }
 
     for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
+        if (NULL == fsize->chksum_array[j_index].file) {
+            continue;           /* Already reported as a twin of an earlier file */
+        }
         /* If hashes match, perform a full comparison */
         if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
             if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index b58eb61..75862f7 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -144,6 +144,9 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
         json_t *duplicates_array = NULL;
 
         for (size_t j = i + 1; j < fsize->nb_files; j++) {
+            if (fsize->chksum_array[j].file == NULL) {
+                continue;
+            }
             if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
                 status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
                 if (status != APR_SUCCESS) {
-- 
2.43.0


From 45d706399de624404b5fa4aa2cbb8bd208824f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:35 +0000
Subject: [PATCH 10/46] fix: size the regex buffer from the ignore pattern
 (heap overflow on long globs)

---
 src/ft_ignore.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 823cb51..6bbe8cf 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -28,7 +28,9 @@
 
 enum
 {
-    INITIAL_PATTERNS_CAPACITY = 16
+    INITIAL_PATTERNS_CAPACITY = 16,
+    PCRE_EXPANSION = 6,
+    PCRE_ANCHORS_LEN = 16
 };
 
 /**
@@ -273,7 +275,8 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
 static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
 {
-    char *result = apr_pcalloc(pool, MAX_PATTERN_LEN);
+    /* No glob character expands to more than PCRE_EXPANSION characters; the rest is for the anchors. */
+    char *result = apr_pcalloc(pool, strlen(pattern) * PCRE_EXPANSION + PCRE_ANCHORS_LEN);
     char *result_cursor = result;
     struct pcre_anchor_params_t anchor_params = { 0 };
     const char *pattern_cursor = handle_negation_and_slashes(pattern, flags, &anchor_params.starts_with_slash);
@@ -325,7 +328,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
 
     /* Trim whitespace */
     trimmed = pattern_str;
-    while (isspace(*trimmed)) {
+    while (isspace((unsigned char) *trimmed)) {
         trimmed++;
     }
 
-- 
2.43.0


From 025ef50973c302521be1dadc71ed30ce73ee78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:35 +0000
Subject: [PATCH 11/46] fix: let the ignore rules of a subdirectory override
 those of its ancestors

---
 src/ft_ignore.c | 8 +++++++-
 src/ft_ignore.h | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 6bbe8cf..f915e47 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -402,8 +402,14 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
     for (current_ctx = ctx; current_ctx != NULL; current_ctx = current_ctx->parent) {
         int index = 0;
 
+        /* The rules of a directory take precedence over those of its ancestors */
+        if (result != FT_IGNORE_MATCH_NONE) {
+            break;
+        }
+
         /* Calculate relative path from this context's base_dir */
-        if (strncmp(fullpath, current_ctx->base_dir, current_ctx->base_dir_len) == 0) {
+        if (strncmp(fullpath, current_ctx->base_dir, current_ctx->base_dir_len) == 0 &&
+            (fullpath[current_ctx->base_dir_len] == '/' || (current_ctx->base_dir_len > 0 && current_ctx->base_dir[current_ctx->base_dir_len - 1] == '/'))) {
             relative_path = fullpath + current_ctx->base_dir_len;
             /* Skip leading slash */
             while (*relative_path == '/') {
diff --git a/src/ft_ignore.h b/src/ft_ignore.h
index a4ac341..4fffcf1 100644
--- a/src/ft_ignore.h
+++ b/src/ft_ignore.h
@@ -99,8 +99,9 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
 /**
  * @brief Checks if a given path should be ignored based on the hierarchical context.
  *
- * It traverses the context hierarchy from the current context up to the root,
- * applying rules from each level. The last matching pattern determines the outcome.
+ * It traverses the context hierarchy from the current context up to the root and
+ * stops at the first level with a matching pattern; within a level, the last
+ * matching pattern determines the outcome.
  *
  * @param[in] ctx The starting context for matching (usually the one for the file's direct parent).
  * @param[in] fullpath The absolute path of the file or directory to check.
-- 
2.43.0


From d113423d48090b75f4ce831e20aedd2dbdad576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 12/46] fix: apply the default ignores to relative paths too

---
 src/ft_ignore.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index f915e47..a54d43f 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -416,6 +416,10 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
                 relative_path++;
             }
         }
+        else if (fullpath[0] != '/' && strcmp(current_ctx->base_dir, "/") == 0) {
+            /* A relative path is under the root as well */
+            relative_path = fullpath;
+        }
         else {
             /* Path not under this context's base, try parent */
             continue;
-- 
2.43.0


From 36d4d6c39080a932b27ee4f605a9f5556050e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:54 +0000
Subject: [PATCH 13/46] fix: anchor ignore patterns like git (inner slash, end
 of path)

---
 src/ft_ignore.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index a54d43f..6ce0769 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -94,6 +94,12 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
         *flags |= FT_IGNORE_DIR_ONLY;
     }
 
+    /* A slash in the middle anchors the pattern too */
+    const char *slash = strchr(pattern_cursor, '/');
+    if (slash != NULL && slash < end) {
+        *starts_with_slash = 1;
+    }
+
     return pattern_cursor;
 }
 
@@ -289,15 +295,8 @@ static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int
     /* Convert the main body of the glob pattern */
     convert_glob_body_to_pcre(&pattern_cursor, &result_cursor, *flags);
 
-    /* Set end anchor */
-    if (*flags & FT_IGNORE_DIR_ONLY) {
-        /* Match a directory with an optional trailing slash */
-        append_pcre_sequence(&result_cursor, "(/|$)");
-    }
-    else {
-        /* Match the end of the string */
-        append_pcre_sequence(&result_cursor, "$");
-    }
+    /* Match the end of the string; what lies below a matching directory is never visited */
+    append_pcre_sequence(&result_cursor, "$");
 
     *result_cursor = '\0';
     return result;
@@ -341,7 +340,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
     /* Compile regex */
-    regex = pcre_compile(regex_str, 0, &error, &erroffset, NULL);
+    regex = pcre_compile(regex_str, PCRE_DOLLAR_ENDONLY | PCRE_DOTALL, &error, &erroffset, NULL);
     if (!regex) {
         DEBUG_ERR("Failed to compile pattern '%s': %s", trimmed, error);
         return APR_EGENERAL;
-- 
2.43.0


From 6b7d8745b91b5279fcf348cf5a48ce011ce8b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:10 +0000
Subject: [PATCH 14/46] fix: convert globs to regexes like git (double star,
 escapes, character classes)

---
 src/ft_ignore.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 6ce0769..b7b0ff9 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -158,14 +158,18 @@ static void set_pcre_anchors(char **result_cursor, const struct pcre_anchor_para
  * @brief Handles the conversion of a glob star (`*`) or double-star (`**`)
  * into its PCRE equivalent.
  *
+ * @param pattern_start The start of the glob pattern (with prefixes like `!` already handled).
  * @param pattern_cursor A pointer to the current position in the glob pattern.
  * @param result_cursor A pointer to the current position in the result buffer.
  */
-static void handle_star(const char **pattern_cursor, char **result_cursor)
+static void handle_star(const char *pattern_start, const char **pattern_cursor, char **result_cursor)
 {
-    if (*(*pattern_cursor + 1) == '*') {
+    /* A double star is special only as a whole path component */
+    int starts_component = (*pattern_cursor == pattern_start || *(*pattern_cursor - 1) == '/');
+
+    if (starts_component && *(*pattern_cursor + 1) == '*' && (*(*pattern_cursor + 2) == '/' || *(*pattern_cursor + 2) == '\0')) {
         /* Double star: ** */
-        if (*(*pattern_cursor + 2) == '/') {
+        if (*(*pattern_cursor + 2) == '/' && *(*pattern_cursor + 3) != '\0') {
             /* * *//* pattern: matches zero or more directory levels */
             append_pcre_sequence(result_cursor, "(.*/)?");
             *pattern_cursor += 3;
@@ -204,7 +208,7 @@ static void handle_question_mark(const char **pattern_cursor, char **result_curs
 static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 {
     char *cursor = *result_cursor;
-    *cursor++ = '[';
+    append_pcre_sequence(&cursor, "(?!/)[");    // no class matches a slash
     (*pattern_cursor)++;        // Move past opening `[`
 
     if (**pattern_cursor == '!' || **pattern_cursor == '^') {
@@ -214,8 +218,10 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 
     while (**pattern_cursor && **pattern_cursor != ']') {
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            *cursor++ = '\\';
             (*pattern_cursor)++;
+            if (!isalnum((unsigned char) **pattern_cursor)) {
+                *cursor++ = '\\';
+            }
         }
         *cursor++ = *(*pattern_cursor)++;
     }
@@ -241,6 +247,8 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
  */
 static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result_cursor, unsigned int flags)
 {
+    const char *pattern_start = *pattern_cursor;
+
     while (**pattern_cursor) {
         /* Stop if we hit a trailing slash for a directory-only pattern */
         if (**pattern_cursor == '/' && (flags & FT_IGNORE_DIR_ONLY) && *(*pattern_cursor + 1) == '\0') {
@@ -250,13 +258,15 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
             /* Handle escaped characters */
             char *cursor = *result_cursor;
-            *cursor++ = '\\';
+            if (!isalnum((unsigned char) *(*pattern_cursor + 1))) {
+                *cursor++ = '\\';       /* an escaped letter would be a PCRE class */
+            }
             *cursor++ = *(*pattern_cursor + 1);
             *result_cursor = cursor;
             *pattern_cursor += 2;
         }
         else if (**pattern_cursor == '*') {
-            handle_star(pattern_cursor, result_cursor);
+            handle_star(pattern_start, pattern_cursor, result_cursor);
         }
         else if (**pattern_cursor == '?') {
             handle_question_mark(pattern_cursor, result_cursor);
-- 
2.43.0


From d7cfd253e3d61c1917f9ef17a7f6e755f710998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:10 +0000
Subject: [PATCH 15/46] fix: strip unescaped trailing spaces from ignore
 patterns

---
 src/ft_ignore.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index b7b0ff9..1c501ec 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -328,6 +328,7 @@ ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *pool, ft_ignore_contex
 apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pattern_str)
 {
     const char *trimmed = NULL;
+    apr_size_t length = 0;
     unsigned int flags = 0;
     char *regex_str = NULL;
     pcre *regex = NULL;
@@ -346,6 +347,13 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
         return APR_SUCCESS;
     }
 
+    /* Trailing spaces are not part of the pattern unless escaped */
+    length = strlen(trimmed);
+    while (length > 1 && trimmed[length - 1] == ' ' && trimmed[length - 2] != '\\') {
+        length--;
+    }
+    trimmed = apr_pstrndup(ctx->pool, trimmed, length);
+
     /* Convert glob to regex */
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
-- 
2.43.0


From a87c9804f8df56b216ba3841d9fa8825ffc8a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:35 +0000
Subject: [PATCH 16/46] fix: accept the documented B suffix and reject sizes
 that cannot be represented

---
 src/human_size.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/human_size.c b/src/human_size.c
index 896ce35..6fa85cd 100644
--- a/src/human_size.c
+++ b/src/human_size.c
@@ -15,6 +15,7 @@ static const apr_off_t KIBIBYTE = 1024LL;
 static const apr_off_t MEBIBYTE = 1024LL * 1024LL;
 static const apr_off_t GIBIBYTE = 1024LL * 1024LL * 1024LL;
 static const apr_off_t TEBIBYTE = 1024LL * 1024LL * 1024LL * 1024LL;
+static const double OFF_T_LIMIT = 9223372036854775808.0;        /* 2^63 */
 
 const char *format_human_size(apr_off_t size, apr_pool_t *pool)
 {
@@ -62,10 +63,17 @@ apr_off_t parse_human_size(const char *size_str)
         case 'K':
             multiplier = KIBIBYTE;
             break;
+        case 'B':
+            break;
         default:
             return -1;          // Invalid suffix
         }
     }
 
-    return (apr_off_t) (size * (double) multiplier);
+    size *= (double) multiplier;
+    if (!(size >= 0.0 && size < OFF_T_LIMIT)) {
+        return -1;              // Not a number, negative or not representable
+    }
+
+    return (apr_off_t) size;
 }
-- 
2.43.0


From eb74d9c71b495154df2a7ba080b023ceff00660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:46 +0000
Subject: [PATCH 17/46] fix: reject an unknown option instead of running with
 the options before it

---
 src/ft_config.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 7adf046..5b094fe 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -620,6 +620,12 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         }
     }
 
+    if (APR_EOF != status) {
+        /* Unknown option or missing argument, already reported by apr_getopt_long */
+        print_usage_and_exit(argv[0], opt_option, NULL, "");
+        return APR_EGENERAL;
+    }
+
     if (argc - opt_state->ind < 1) {
         print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
         return APR_EGENERAL;
-- 
2.43.0


From 913b9b6c93ae21b4e5d955e770dffd1dadb4865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:27 +0000
Subject: [PATCH 18/46] fix: refuse keys and values larger than a page instead
 of truncating their size

---
 src/napr_db_tree.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 89865aa..204d41b 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -22,11 +22,11 @@
  * @param key2_size Size of second key
  * @return <0 if key1 < key2, 0 if equal, >0 if key1 > key2
  */
-static int db_key_compare(const uint8_t *key1_data, uint16_t key1_size, const uint8_t *key2_data, uint16_t key2_size)
+static int db_key_compare(const uint8_t *key1_data, size_t key1_size, const uint8_t *key2_data, size_t key2_size)
 {
     /* Compare the common length */
     size_t min_size = (key1_size < key2_size) ? key1_size : key2_size;
-    int result = memcmp(key1_data, key2_data, min_size);
+    int result = (min_size > 0) ? memcmp(key1_data, key2_data, min_size) : 0;
 
     if (result != 0) {
         return result;
@@ -91,13 +91,13 @@ apr_status_t db_page_search(DB_PageHeader *page, const napr_db_val_t *key, uint1
             /* Branch page */
             DB_BranchNode *node = db_page_branch_node(page, mid);
             uint8_t *node_key = db_branch_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else if (page->flags & P_LEAF) {
             /* Leaf page */
             DB_LeafNode *node = db_page_leaf_node(page, mid);
             uint8_t *node_key = db_leaf_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else {
             /* Invalid page type */
@@ -398,7 +398,7 @@ apr_status_t db_page_get_writable(napr_db_txn_t *txn, DB_PageHeader *original_pa
 apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child_pgno)
 {
     uint16_t *slots = NULL;
-    uint16_t node_size = 0;
+    size_t node_size = 0;
     uint16_t free_space = 0;
     uint16_t new_offset = 0;
     uint16_t idx = 0;
@@ -413,11 +413,11 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
         if (!data) {
             return APR_EINVAL;
         }
-        node_size = (uint16_t) (sizeof(DB_LeafNode) + key->size + data->size);
+        node_size = sizeof(DB_LeafNode) + key->size + data->size;
     }
     else if (page->flags & P_BRANCH) {
         /* Branch node: DB_BranchNode + key */
-        node_size = (uint16_t) (sizeof(DB_BranchNode) + key->size);
+        node_size = sizeof(DB_BranchNode) + key->size;
     }
     else {
         return APR_EINVAL;
@@ -425,7 +425,7 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
 
     /* Check if there's enough free space */
     free_space = page->upper - page->lower;
-    if (free_space < (node_size + sizeof(uint16_t))) {
+    if (key->size > PAGE_SIZE || (data && data->size > PAGE_SIZE) || free_space < (node_size + sizeof(uint16_t))) {
         return APR_ENOSPC;
     }
 
@@ -438,7 +438,7 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
     }
 
     /* Allocate space for new node (grows downward from upper) */
-    new_offset = page->upper - node_size;
+    new_offset = (uint16_t) (page->upper - node_size);
 
     /* Create the new node */
     if (page->flags & P_LEAF) {
-- 
2.43.0


From 728fdc80cc8446a2487e7370e2b4137c9ea41580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:25 +0000
Subject: [PATCH 19/46] fix: give the space of moved entries back to the left
 page of a split

---
 src/napr_db_tree.c | 86 ++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 45 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 204d41b..5b442eb 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -534,6 +534,42 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Rewrite the node area of a page so that only the nodes in the slot array remain.
+ *
+ * After a split, the nodes moved to the right sibling leave holes between the
+ * nodes that stay; packing them makes that space available again.
+ *
+ * @param page Page to pack (must be writable/dirty)
+ */
+static void db_page_compact(DB_PageHeader *page)
+{
+    uint8_t copy[PAGE_SIZE];
+    uint16_t *slots = db_page_slots(page);
+    uint16_t idx = 0;
+
+    memcpy(copy, page, PAGE_SIZE);
+    page->upper = PAGE_SIZE;
+
+    for (idx = 0; idx < page->num_keys; idx++) {
+        uint16_t offset = slots[idx];
+        uint16_t node_size = 0;
+
+        if (page->flags & P_LEAF) {
+            const DB_LeafNode *node = (const DB_LeafNode *) (copy + offset);
+            node_size = (uint16_t) (sizeof(DB_LeafNode) + node->key_size + node->data_size);
+        }
+        else {
+            const DB_BranchNode *node = (const DB_BranchNode *) (copy + offset);
+            node_size = (uint16_t) (sizeof(DB_BranchNode) + node->key_size);
+        }
+
+        page->upper -= node_size;
+        memcpy((char *) page + page->upper, copy + offset, node_size);
+        slots[idx] = page->upper;
+    }
+}
+
 /**
  * @brief Split a leaf page when it becomes full.
  *
@@ -629,22 +665,8 @@ apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Page
     left_page->num_keys = split_point;
     left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
 
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
+    /* Give the space of the moved entries back to the left page */
+    db_page_compact(left_page);
 
     /* Store the right page in dirty pages hash */
     pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
@@ -760,38 +782,12 @@ apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Pa
         right_page->upper = new_offset;
     }
 
-    /* Update left page header to reflect the reduced number of keys
-     * CRITICAL: For B+tree branches with "minimum key" semantics:
-     * - Left page gets entries [0..split_point-1]
-     * - Right page gets entries [split_point+1..end]
-     * - Entry at split_point is NOT in either page - its key becomes the divider,
-     *   and its child pointer is LOST (which is the bug!)
-     *
-     * TODO: Fix this properly by including split_point in one of the pages
-     */
+    /* Update left page header to reflect the reduced number of keys */
     left_page->num_keys = split_point;
     left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
 
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    if (split_point > 0) {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
-    else {
-        /* Edge case: all entries moved to right */
-        left_page->upper = PAGE_SIZE;
-    }
+    /* Give the space of the moved entries back to the left page */
+    db_page_compact(left_page);
 
     /* Set divider key = minimum key of right page (right[0].key)
      * This will be pushed up to the parent to guide searches.
-- 
2.43.0


From c8b42b90c7b32101e47d9d7ef21a05307e4f7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:51 +0000
Subject: [PATCH 20/46] fix: keep the tree ordered and complete when
 variable-size entries split pages

Splitting the first child of a branch put the new page before it, a split that
left too little room lost the entry being replaced, and a parent without room
for the divider lost half of the entries.
---
 src/napr_db.c          | 552 +----------------------------------------
 src/napr_db_internal.h |  36 ++-
 src/napr_db_tree.c     | 237 ++++++++++++++++++
 3 files changed, 271 insertions(+), 554 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 59b99cd..eef258e 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -773,10 +773,6 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
     return apr_file_sync(txn->env->file);
 }
 
-/* Forward declarations for Free DB helper functions */
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos);
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out);
-
 /**
  * @brief Populate the Free DB with freed pages from this transaction.
  *
@@ -791,135 +787,6 @@ static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_roo
  * @param new_free_db_root_out Output: the new Free DB root page number
  * @return APR_SUCCESS or an error code
  */
-static apr_status_t initialize_empty_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_root_pgno_out)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t new_root_pgno;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    DB_PageHeader *new_root;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t *pgno_key;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_LEAF;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    status = db_page_insert(new_root, 0, key, data, 0);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-    *new_root_pgno_out = new_root_pgno;
-
-    return APR_SUCCESS;
-}
-
-static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_free_db_root_out)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    uint16_t index = 0;
-    napr_db_val_t current_key = *key;
-    napr_db_val_t current_data = *data;
-    pgno_t right_child_pgno = 0;
-
-    status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &current_key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return initialize_empty_free_db(txn, key, data, new_free_db_root_out);
-    }
-
-    status = db_page_search(leaf_page, &current_key, &index);
-    if (status == APR_SUCCESS) {
-        return APR_EEXIST;
-    }
-
-    for (int i = (int)path_len - 1; i >= 0; i--) {
-        pgno_t current_pgno = path[i];
-        DB_PageHeader *dirty_page = NULL;
-        DB_PageHeader *page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
-        }
-        if (i == (int) path_len - 1) {
-            leaf_page = dirty_page;
-        }
-    }
-
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
-    if (status == APR_SUCCESS) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
-    }
-    if (status != APR_ENOSPC) {
-        return status;
-    }
-
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    apr_status_t search_status = db_page_search(left_page, &current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, &current_key, &index);
-        status = db_page_insert(right_page, index, &current_key, &current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, &current_key, &current_data, 0);
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    right_child_pgno = right_page->pgno;
-    current_key = divider_key;
-    status = propagate_split_up_tree_in_tree(txn, path, path_len, &current_key, (DB_SplitPgnos) {
-                                             .right_child_pgno = &right_child_pgno,.new_root_out = new_free_db_root_out}
-    );
-    if (status == APR_INCOMPLETE) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    return handle_root_split_in_tree(txn, path[0], right_child_pgno, &current_key, new_free_db_root_out);
-}
-
 static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
 {
     napr_db_val_t key = { 0 };
@@ -941,12 +808,7 @@ static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_roo
     data.data = txn->freed_pages->elts;
     data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
 
-    pgno_t max_valid_pgno = (txn->flags & NAPR_DB_RDONLY) ? txn->env->live_meta->last_pgno : txn->new_last_pgno;
-    if (txn->free_db_root_pgno == 0 || txn->free_db_root_pgno > max_valid_pgno) {
-        return initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
-    }
-
-    return insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+    return db_tree_insert(txn, new_free_db_root_out, &key, &data);
 }
 
 /**
@@ -1384,78 +1246,19 @@ apr_status_t napr_db_get(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  * @param data Value to insert
  * @return APR_SUCCESS on success, APR_EEXIST if key exists, error code on failure
  */
-static apr_status_t handle_empty_tree_put(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    apr_status_t status = APR_SUCCESS;
-
-    /* Allocate the first leaf page */
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Allocate dirty page in memory */
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    /* Initialize the new leaf page */
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_LEAF;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    /* Insert the first key */
-    status = db_page_insert(new_root, 0, key, data, 0);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Store in dirty pages hash */
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    /* Update transaction's root pointer */
-    txn->root_pgno = new_root_pgno;
-
-    return APR_SUCCESS;
-}
-
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno);
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key);
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data);
-
 apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
     uint16_t path_len = 0;
     DB_PageHeader *leaf_page = NULL;
-    DB_PageHeader *dirty_page = NULL;
     uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
-    int idx = 0;
-
-    napr_db_val_t current_key;
-    napr_db_val_t current_data;
-    pgno_t right_child_pgno = 0;
 
     /* Validate inputs */
     if (!txn || !key || !data) {
         return APR_EINVAL;
     }
 
-    /* Key/data to insert at each level (may be updated during split propagation) */
-    current_key = *key;
-    current_data = *data;
-
     /* Ensure this is a write transaction */
     if (txn->flags & NAPR_DB_RDONLY) {
         return APR_EACCES;
@@ -1463,17 +1266,17 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
 
     /* Special case: Empty tree (no root yet) */
     if (txn->root_pgno == 0) {
-        return handle_empty_tree_put(txn, &current_key, &current_data);
+        return db_tree_insert(txn, &txn->root_pgno, key, data);
     }
 
     /* Normal case: Tree exists, find the leaf page and record path */
-    status = db_find_leaf_page_with_path(txn, &current_key, path, &path_len, &leaf_page);
+    status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
     if (status != APR_SUCCESS) {
         return status;
     }
 
     /* Search within the leaf page to find insertion point */
-    apr_status_t search_status = db_page_search(leaf_page, &current_key, &index);
+    apr_status_t search_status = db_page_search(leaf_page, key, &index);
 
     /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
      * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
@@ -1488,352 +1291,7 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         /* Different transaction - will CoW and update below */
     }
 
-    /* CoW path propagation: Copy all pages from leaf to root */
-    for (idx = (int) path_len - 1; idx >= 0; idx--) {
-        pgno_t current_pgno = path[idx];
-        DB_PageHeader *page_to_cow = NULL;
-
-        /* Check if page is already dirty */
-        page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
-            /* Page is in mmap - CoW it */
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
-        }
-
-        /* Update leaf_page pointer if this is the leaf */
-        if (idx == (int) path_len - 1) {
-            leaf_page = dirty_page;
-        }
-    }
-
-    /* If key exists (MVCC update), delete the old entry before inserting new one */
-    if (search_status == APR_SUCCESS) {
-        status = db_page_delete(leaf_page, index);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-    }
-
-    /* Try to insert into the dirty leaf page */
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
-
-    /* If insertion succeeded, we're done */
-    if (status == APR_SUCCESS) {
-        return APR_SUCCESS;
-    }
-
-    /* If insertion failed due to insufficient space, handle split */
-    if (status != APR_ENOSPC) {
-        return status;          /* Other error */
-    }
-
-    return handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
-}
-
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
-
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    apr_status_t search_status = db_page_search(left_page, current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, current_key, &index);
-        status = db_page_insert(right_page, index, current_key, current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, current_key, current_data, 0);
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_t right_child_pgno = right_page->pgno;
-    *current_key = divider_key;
-
-    status = propagate_split_up_tree(txn, path, path_len, current_key, &right_child_pgno);
-    if (status == APR_INCOMPLETE) {
-        return APR_SUCCESS;
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    return handle_root_split(txn, path[0], right_child_pgno, current_key);
-}
-
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
-    int idx = 0;
-
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
-            return APR_EGENERAL;
-        }
-
-        (void) db_page_search(parent_page, current_key, &index);
-
-        status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
-        if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
-            return status;
-        }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
-        }
-
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        *right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
-    }
-
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
-}
-
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
-    }
-
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
-
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    txn->root_pgno = new_root_pgno;
-
-    return APR_SUCCESS;
-}
-
-/**
- * @brief Propagate a split up the tree, updating an arbitrary tree root.
- *
- * This is similar to propagate_split_up_tree() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param path Array of page numbers from root to leaf
- * @param path_len Length of the path
- * @param current_key Key to insert at parent level (may be updated during splits)
- * @param pgnos The page numbers to update.
- * @return APR_SUCCESS if split propagated to root, APR_INCOMPLETE if absorbed, error otherwise
- */
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
-    int idx = 0;
-
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
-            return APR_EGENERAL;
-        }
-
-        (void) db_page_search(parent_page, current_key, &index);
-
-        status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
-            return status;
-        }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        *pgnos.right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
-    }
-
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
-}
-
-/**
- * @brief Handle root split for an arbitrary tree.
- *
- * This is similar to handle_root_split() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param old_root_pgno Old root page number
- * @param right_child_pgno Right child page number from split
- * @param divider_key Key separating left and right children
- * @param new_root_out Output: New root page number
- * @return APR_SUCCESS on success, error code on failure
- */
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
-    }
-
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
-
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    /* Update output parameter instead of txn->root_pgno */
-    *new_root_out = new_root_pgno;
-
-    return APR_SUCCESS;
+    return db_tree_insert(txn, &txn->root_pgno, key, data);
 }
 
 /**
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 2693387..e7d4c1e 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -42,13 +42,6 @@ typedef struct DB_CommitPgnos
     pgno_t new_free_db_root_pgno;   /**< New root page number for Free DB */
 } DB_CommitPgnos;
 
-/** @brief Structure for passing page numbers to propagate_split_up_tree_in_tree */
-typedef struct DB_SplitPgnos
-{
-    pgno_t *right_child_pgno;   /**< Right child page number */
-    pgno_t *new_root_out;       /**< New root page number */
-} DB_SplitPgnos;
-
 /*
  * MVCC Reader Tracking
  */
@@ -117,6 +110,12 @@ typedef struct DB_ReaderSlot
 #define DB_LEAFNODE_DATA_SIZE_OFFSET 2
 #define DB_LEAFNODE_KV_DATA_OFFSET 4
 
+/** Largest key: two branch entries have to fit in a page */
+#define DB_MAX_KEY_SIZE ((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 2 - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t))
+
+/** Largest key and value together: a leaf entry has to fit in a page */
+#define DB_MAX_ENTRY_SIZE (PAGE_SIZE - DB_PAGEHEADER_SIZE - DB_LEAFNODE_BASE_SIZE - sizeof(uint16_t))
+
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
@@ -589,6 +588,29 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index);
 apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out);
 apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out);
 
+/**
+ * @brief Make every page of a path writable (Copy-on-Write path propagation).
+ *
+ * @param txn Write transaction handle
+ * @param path Page numbers from the root to a leaf
+ * @param path_len Length of the path
+ * @return APR_SUCCESS on success, error code on failure
+ */
+apr_status_t db_path_get_writable(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len);
+
+/**
+ * @brief Insert an entry in a tree, or replace its value, splitting pages as needed.
+ *
+ * On failure the entries of the tree are the same as before the call.
+ *
+ * @param txn Write transaction handle
+ * @param root_pgno Root of the tree (0 for an empty one), updated when it changes
+ * @param key Key to insert
+ * @param data Value to store
+ * @return APR_SUCCESS on success, APR_ENOSPC if the entry is too large, error code otherwise
+ */
+apr_status_t db_tree_insert(napr_db_txn_t *txn, pgno_t *root_pgno, const napr_db_val_t *key, const napr_db_val_t *data);
+
 /**
  * @brief Get the oldest active reader TXNID from the reader tracking table.
  *
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 5b442eb..fa30d5f 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <apr_hash.h>
+#include <apr_strings.h>
 
 /**
  * @brief Compare two keys.
@@ -918,3 +919,239 @@ apr_status_t db_find_leaf_page_with_path(napr_db_txn_t *txn, const napr_db_val_t
     }
     return db_find_leaf_page_with_path_in_tree(txn, txn->root_pgno, key, path_out, path_len_out, leaf_page_out);
 }
+
+/**
+ * @brief Allocate an empty page and register it as dirty.
+ */
+static apr_status_t db_page_new(napr_db_txn_t *txn, uint16_t flags, DB_PageHeader **page_out)
+{
+    pgno_t pgno = 0;
+    apr_status_t status = db_page_alloc(txn, 1, &pgno);
+
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    DB_PageHeader *page = apr_pcalloc(txn->pool, PAGE_SIZE);
+    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
+    if (!page || !pgno_key) {
+        return APR_ENOMEM;
+    }
+
+    page->pgno = pgno;
+    page->flags = flags;
+    page->num_keys = 0;
+    page->lower = sizeof(DB_PageHeader);
+    page->upper = PAGE_SIZE;
+
+    *pgno_key = pgno;
+    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), page);
+
+    *page_out = page;
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Make every page of a path writable (CoW path propagation).
+ */
+apr_status_t db_path_get_writable(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len)
+{
+    for (uint16_t idx = 0; idx < path_len; idx++) {
+        DB_PageHeader *dirty_page = NULL;
+
+        if (apr_hash_get(txn->dirty_pages, &path[idx], sizeof(pgno_t))) {
+            continue;
+        }
+
+        apr_status_t status = db_page_get_writable(txn, db_get_page(txn, path[idx]), &dirty_page);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+    }
+
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Get the key of the entry at the given index of a branch or leaf page.
+ */
+static napr_db_val_t db_page_key(DB_PageHeader *page, uint16_t index)
+{
+    napr_db_val_t key = { 0 };
+
+    if (page->flags & P_LEAF) {
+        DB_LeafNode *node = db_page_leaf_node(page, index);
+        key.data = db_leaf_node_key(node);
+        key.size = node->key_size;
+    }
+    else {
+        DB_BranchNode *node = db_page_branch_node(page, index);
+        key.data = db_branch_node_key(node);
+        key.size = node->key_size;
+    }
+
+    return key;
+}
+
+/**
+ * @brief Add a root above the current one, with the current root as its only child.
+ */
+static apr_status_t db_tree_grow(napr_db_txn_t *txn, pgno_t *root_pgno)
+{
+    DB_PageHeader *old_root = apr_hash_get(txn->dirty_pages, root_pgno, sizeof(pgno_t));
+    DB_PageHeader *new_root = NULL;
+
+    if (!old_root || old_root->num_keys == 0) {
+        return APR_EGENERAL;
+    }
+
+    apr_status_t status = db_page_new(txn, P_BRANCH, &new_root);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    napr_db_val_t min_key = db_page_key(old_root, 0);
+    status = db_page_insert(new_root, 0, &min_key, NULL, *root_pgno);
+    if (status == APR_SUCCESS) {
+        *root_pgno = new_root->pgno;
+    }
+
+    return status;
+}
+
+/**
+ * @brief Make room for a key by splitting one page on the path to it.
+ *
+ * The page at the given level is split, or the nearest of its ancestors that
+ * has to be split (or put under a new root) first. The set of stored entries
+ * does not change; the caller looks for its leaf again afterwards.
+ *
+ * @param txn Write transaction handle
+ * @param root_pgno Root of the tree, updated when the tree grows
+ * @param path Writable pages from the root to the leaf of the key
+ * @param level Level of the full page on that path
+ * @param key Key to make room for
+ * @return APR_SUCCESS on success, error code on failure
+ */
+static apr_status_t db_tree_split(napr_db_txn_t *txn, pgno_t *root_pgno, const pgno_t *path, uint16_t level, const napr_db_val_t *key)
+{
+    apr_status_t status = APR_SUCCESS;
+    uint16_t child_index = 0;
+    DB_PageHeader *right_page = NULL;
+
+    if (level == 0) {
+        return db_tree_grow(txn, root_pgno);
+    }
+
+    DB_PageHeader *page = apr_hash_get(txn->dirty_pages, &path[level], sizeof(pgno_t));
+    DB_PageHeader *parent = apr_hash_get(txn->dirty_pages, &path[level - 1], sizeof(pgno_t));
+    if (!page || !parent || page->num_keys == 0) {
+        return APR_EGENERAL;
+    }
+
+    /* The divider is the median key; a leaf with a single entry is divided between that entry and the new key */
+    napr_db_val_t divider = db_page_key(page, page->num_keys / 2);
+    int append = 0;
+    if (page->num_keys == 1 && db_key_compare(key->data, key->size, divider.data, divider.size) > 0) {
+        divider = *key;
+        append = 1;
+    }
+    divider.data = apr_pmemdup(txn->pool, divider.data, divider.size);
+
+    if ((size_t) (parent->upper - parent->lower) < sizeof(DB_BranchNode) + divider.size + sizeof(uint16_t)) {
+        return db_tree_split(txn, root_pgno, path, level - 1, key);
+    }
+
+    while (child_index < parent->num_keys && db_page_branch_node(parent, child_index)->pgno != path[level]) {
+        child_index++;
+    }
+    if (child_index == parent->num_keys) {
+        return APR_EGENERAL;
+    }
+
+    if (append) {
+        status = db_page_new(txn, P_LEAF, &right_page);
+    }
+    else {
+        napr_db_val_t unused = { 0 };
+        status = (page->flags & P_LEAF) ? db_split_leaf(txn, page, &right_page, &unused) : db_split_branch(txn, page, &right_page, &unused);
+    }
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    /* Keys smaller than the first key of a branch live in its first child: keep the keys of the branch ordered */
+    napr_db_val_t child_key = db_page_key(parent, child_index);
+    if (child_index == 0 && db_key_compare(divider.data, divider.size, child_key.data, child_key.size) <= 0) {
+        napr_db_val_t empty_key = {.size = 0,.data = divider.data };
+
+        status = db_page_delete(parent, 0);
+        if (status == APR_SUCCESS) {
+            status = db_page_insert(parent, 0, &empty_key, NULL, path[level]);
+        }
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+    }
+
+    return db_page_insert(parent, child_index + 1, &divider, NULL, right_page->pgno);
+}
+
+apr_status_t db_tree_insert(napr_db_txn_t *txn, pgno_t *root_pgno, const napr_db_val_t *key, const napr_db_val_t *data)
+{
+    pgno_t path[MAX_TREE_DEPTH] = { 0 };
+    uint16_t path_len = 0;
+    DB_PageHeader *leaf_page = NULL;
+    apr_status_t status = APR_SUCCESS;
+
+    /* An entry has to fit in a leaf of its own, and two keys in a branch */
+    if (key->size > DB_MAX_KEY_SIZE || data->size > DB_MAX_ENTRY_SIZE - key->size) {
+        return APR_ENOSPC;
+    }
+
+    if (*root_pgno == 0) {
+        status = db_page_new(txn, P_LEAF, &leaf_page);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        *root_pgno = leaf_page->pgno;
+    }
+
+    while (1) {
+        uint16_t index = 0;
+
+        status = db_find_leaf_page_with_path_in_tree(txn, *root_pgno, key, path, &path_len, &leaf_page);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+
+        status = db_path_get_writable(txn, path, path_len);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        leaf_page = apr_hash_get(txn->dirty_pages, &path[path_len - 1], sizeof(pgno_t));
+
+        if (db_page_search(leaf_page, key, &index) == APR_SUCCESS) {
+            /* Replace the old value, which stays in place until there is room for the new one */
+            size_t room = (size_t) (leaf_page->upper - leaf_page->lower) + db_page_leaf_node(leaf_page, index)->data_size;
+            status = APR_ENOSPC;
+            if (data->size <= room) {
+                status = db_page_delete(leaf_page, index);
+                if (status == APR_SUCCESS) {
+                    status = db_page_insert(leaf_page, index, key, data, 0);
+                }
+            }
+        }
+        else {
+            status = db_page_insert(leaf_page, index, key, data, 0);
+        }
+        if (status != APR_ENOSPC) {
+            return status;
+        }
+
+        status = db_tree_split(txn, root_pgno, path, path_len - 1, key);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+    }
+}
-- 
2.43.0


From cbc5ac38a82545bd47435abb4b98be8978a08afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:28 +0000
Subject: [PATCH 21/46] fix: update a key of an earlier transaction whatever
 else this transaction wrote

Storing a key next to one already written by the same transaction was refused
as a duplicate.
---
 src/napr_db.c          | 46 +++++++++++++++++-------------------------
 src/napr_db_internal.h |  1 +
 2 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index eef258e..ea79827 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -16,6 +16,7 @@
 #include <apr_proc_mutex.h>
 #include <apr_global_mutex.h>
 #include <apr_portable.h>
+#include <apr_strings.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -554,6 +555,14 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             return APR_ENOMEM;
         }
 
+        /* Create hash table for the keys stored by this transaction */
+        txn_handle->put_keys = apr_hash_make(txn_pool);
+        if (!txn_handle->put_keys) {
+            db_writer_unlock(env);
+            apr_pool_destroy(txn_pool);
+            return APR_ENOMEM;
+        }
+
         /* Create array for tracking freed pages */
         txn_handle->freed_pages = apr_array_make(txn_pool, DB_FREED_PAGES_DFLT_SIZE, sizeof(pgno_t));
         if (!txn_handle->freed_pages) {
@@ -1248,10 +1257,6 @@ apr_status_t napr_db_get(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  */
 apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
 
     /* Validate inputs */
@@ -1264,34 +1269,17 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_EACCES;
     }
 
-    /* Special case: Empty tree (no root yet) */
-    if (txn->root_pgno == 0) {
-        return db_tree_insert(txn, &txn->root_pgno, key, data);
-    }
-
-    /* Normal case: Tree exists, find the leaf page and record path */
-    status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return status;
+    /* A key may be stored once per transaction; a key of an earlier transaction is updated */
+    if (apr_hash_get(txn->put_keys, key->data, (apr_ssize_t) key->size)) {
+        return APR_EEXIST;
     }
 
-    /* Search within the leaf page to find insertion point */
-    apr_status_t search_status = db_page_search(leaf_page, key, &index);
-
-    /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
-     * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
-     * MVCC update: Leaf page is NOT dirty -> allow via CoW */
-    if (search_status == APR_SUCCESS) {
-        pgno_t leaf_pgno = path[path_len - 1];
-        DB_PageHeader *check_dirty = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-        if (check_dirty) {
-            /* Same transaction - key already inserted, can't insert again */
-            return APR_EEXIST;
-        }
-        /* Different transaction - will CoW and update below */
+    status = db_tree_insert(txn, &txn->root_pgno, key, data);
+    if (status == APR_SUCCESS) {
+        apr_hash_set(txn->put_keys, apr_pmemdup(txn->pool, key->data, key->size), (apr_ssize_t) key->size, txn);
     }
 
-    return db_tree_insert(txn, &txn->root_pgno, key, data);
+    return status;
 }
 
 /**
@@ -1369,6 +1357,8 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_EGENERAL;
     }
 
+    apr_hash_set(txn->put_keys, key->data, (apr_ssize_t) key->size, NULL);
+
     /* Delete the entry from the dirty leaf page */
     status = db_page_delete(leaf_page, index);
     if (status != APR_SUCCESS) {
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index e7d4c1e..fc476e8 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -326,6 +326,7 @@ typedef struct __attribute__((packed))
          /* Copy-on-Write tracking for write transactions */
          apr_hash_t *dirty_pages;
                                 /**< Hash table: pgno_t -> DB_PageHeader* (dirty copy) */
+         apr_hash_t *put_keys;  /**< Keys stored by this transaction */
          pgno_t new_last_pgno;  /**< Last page number for this transaction (for allocation) */
 
          /* Free space tracking for write transactions */
-- 
2.43.0


From f20eb1397497eccd12d9de2251d400a32f937363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:10 +0000
Subject: [PATCH 22/46] fix: reclaim free pages without reading the entry being
 rewritten or touching the main tree

The key and the list of remaining pages pointed into the page being modified,
so a reclaimed entry could be lost or corrupted and pages handed out twice.
---
 src/napr_db.c          | 92 +++++++-----------------------------------
 src/napr_db_internal.h | 10 +++++
 src/napr_db_tree.c     | 31 ++++++++++++++
 3 files changed, 56 insertions(+), 77 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index ea79827..fe7d8d6 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -917,29 +917,17 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
 // NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
 static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
     size_t num_pages = data->size / sizeof(pgno_t);
 
-    if (num_pages == 1) {
-        return napr_db_del(txn, key, NULL);
-    }
-
-    pgno_t *freed_pages = (pgno_t *) data->data;
-    pgno_t *remaining_pages = apr_palloc(txn->pool, (num_pages - 1) * sizeof(pgno_t));
-    if (!remaining_pages) {
-        return APR_ENOMEM;
-    }
-    memcpy(remaining_pages, &freed_pages[1], (num_pages - 1) * sizeof(pgno_t));
-
-    napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
+    /* Key and data point into a page of the Free DB that is about to be modified */
+    napr_db_val_t entry_key = {.size = key->size,.data = apr_pmemdup(txn->pool, key->data, key->size) };
+    napr_db_val_t remaining_pages = {.size = (num_pages - 1) * sizeof(pgno_t),.data = apr_pmemdup(txn->pool, (pgno_t *) data->data + 1, (num_pages - 1) * sizeof(pgno_t)) };
 
-    status = napr_db_del(txn, key, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (num_pages == 1) {
+        return db_tree_delete(txn, txn->free_db_root_pgno, &entry_key);
     }
 
-    return napr_db_put(txn, key, &new_data);
+    return db_tree_insert(txn, &txn->free_db_root_pgno, &entry_key, &remaining_pages);
 }
 
 /**
@@ -985,15 +973,14 @@ apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_
     status = find_reclaimable_entry(txn, oldest_reader_txnid, cursor, &key, &data);
 
     napr_db_cursor_close(cursor);
+    txn->root_pgno = saved_root;
 
     if (status == APR_SUCCESS) {
-        pgno_t *freed_pages = (pgno_t *) data.data;
-        *reclaimed_pgno_out = freed_pages[0];
+        memcpy(reclaimed_pgno_out, data.data, sizeof(pgno_t));
 
         status = update_or_delete_reclaimed_entry(txn, &key, &data);
     }
 
-    txn->root_pgno = saved_root;
     return status;
 }
 
@@ -1301,69 +1288,20 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  */
 apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    uint16_t index = 0;
-    apr_status_t status = APR_SUCCESS;
-
     (void) data;                /* Reserved for future use (conditional delete) */
 
     if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {
         return APR_EINVAL;
     }
 
-    /* Empty tree - nothing to delete */
-    if (txn->root_pgno == 0) {
-        return APR_NOTFOUND;
-    }
-
-    /* Find the leaf page containing the key, recording path for CoW */
-    status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Search for the key in the leaf page */
-    status = db_page_search(leaf_page, key, &index);
-    if (status != APR_SUCCESS) {
-        return APR_NOTFOUND;
-    }
-
-    /* CoW: Make dirty copies of all pages in the path */
-    for (int idx = (int)path_len - 1; idx >= 0; idx--) {
-        pgno_t current_pgno = path[idx];
-        DB_PageHeader *page_to_cow = NULL;
-        DB_PageHeader *dirty_page = NULL;
-
-        /* Check if page is already dirty */
-        page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-
-        if (!page_to_cow) {
-            /* Page is in mmap - CoW it */
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
-        }
-    }
-
-    /* Get the dirty copy of the leaf page */
-    pgno_t leaf_pgno = path[path_len - 1];
-    leaf_page = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-    if (!leaf_page) {
-        return APR_EGENERAL;
-    }
-
-    apr_hash_set(txn->put_keys, key->data, (apr_ssize_t) key->size, NULL);
+    /* The key of a cursor points into the page that is modified */
+    const void *key_data = apr_pmemdup(txn->pool, key->data, key->size);
+    apr_size_t key_size = key->size;
 
-    /* Delete the entry from the dirty leaf page */
-    status = db_page_delete(leaf_page, index);
-    if (status != APR_SUCCESS) {
-        return status;
+    apr_status_t status = db_tree_delete(txn, txn->root_pgno, key);
+    if (status == APR_SUCCESS) {
+        apr_hash_set(txn->put_keys, key_data, (apr_ssize_t) key_size, NULL);
     }
 
-    return APR_SUCCESS;
+    return status;
 }
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index fc476e8..344875c 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -612,6 +612,16 @@ apr_status_t db_path_get_writable(napr_db_txn_t *txn, const pgno_t *path, uint16
  */
 apr_status_t db_tree_insert(napr_db_txn_t *txn, pgno_t *root_pgno, const napr_db_val_t *key, const napr_db_val_t *data);
 
+/**
+ * @brief Delete an entry from a tree.
+ *
+ * @param txn Write transaction handle
+ * @param root_pgno Root of the tree (0 for an empty one)
+ * @param key Key to delete
+ * @return APR_SUCCESS on success, APR_NOTFOUND if the key is not there, error code otherwise
+ */
+apr_status_t db_tree_delete(napr_db_txn_t *txn, pgno_t root_pgno, const napr_db_val_t *key);
+
 /**
  * @brief Get the oldest active reader TXNID from the reader tracking table.
  *
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index fa30d5f..292b7a6 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -1155,3 +1155,34 @@ apr_status_t db_tree_insert(napr_db_txn_t *txn, pgno_t *root_pgno, const napr_db
         }
     }
 }
+
+apr_status_t db_tree_delete(napr_db_txn_t *txn, pgno_t root_pgno, const napr_db_val_t *key)
+{
+    pgno_t path[MAX_TREE_DEPTH] = { 0 };
+    uint16_t path_len = 0;
+    DB_PageHeader *leaf_page = NULL;
+    uint16_t index = 0;
+
+    /* Empty tree - nothing to delete */
+    if (root_pgno == 0) {
+        return APR_NOTFOUND;
+    }
+
+    /* Find the leaf page containing the key, recording path for CoW */
+    apr_status_t status = db_find_leaf_page_with_path_in_tree(txn, root_pgno, key, path, &path_len, &leaf_page);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    if (db_page_search(leaf_page, key, &index) != APR_SUCCESS) {
+        return APR_NOTFOUND;
+    }
+
+    /* CoW: Make dirty copies of all pages in the path */
+    status = db_path_get_writable(txn, path, path_len);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    return db_page_delete(apr_hash_get(txn->dirty_pages, &path[path_len - 1], sizeof(pgno_t)), index);
+}
-- 
2.43.0


From 0d92efac30d12e6b3abb18a68a907077f34dbc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:44 +0000
Subject: [PATCH 23/46] fix: write modified pages to new places, so that a
 commit is atomic and snapshots stay intact

Commits overwrote the pages of the previous snapshot in place: open readers saw
the new data, and a crash before the meta page update left a mix of both states.
The list of freed pages is split over several Free DB entries when it is long.
---
 src/napr_db.c          | 87 ++++++++++++++++++++++++++++++++++++------
 src/napr_db_internal.h |  7 ++++
 src/napr_db_tree.c     |  2 +-
 3 files changed, 84 insertions(+), 12 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index fe7d8d6..d1687f5 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -668,17 +668,22 @@ static apr_status_t build_pgno_map(napr_db_txn_t *txn, apr_hash_t **pgno_map_ptr
  * @param txn The transaction.
  * @param pgno_map The mapping from old to new page numbers.
  * @param new_root_pgno_ptr Pointer to store the new root page number.
+ * @param new_free_db_root_ptr Root of the Free DB, replaced by its new page number.
  */
-static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, pgno_t *new_root_pgno_ptr)
+static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, pgno_t *new_root_pgno_ptr, pgno_t *new_free_db_root_ptr)
 {
     apr_hash_index_t *h_index = NULL;
     pgno_t *mapped_root = apr_hash_get(pgno_map, &txn->root_pgno, sizeof(pgno_t));
+    pgno_t *mapped_free_db_root = apr_hash_get(pgno_map, new_free_db_root_ptr, sizeof(pgno_t));
     if (mapped_root) {
         *new_root_pgno_ptr = *mapped_root;
     }
     else {
         *new_root_pgno_ptr = txn->root_pgno;
     }
+    if (mapped_free_db_root) {
+        *new_free_db_root_ptr = *mapped_free_db_root;
+    }
 
     for (h_index = apr_hash_first(txn->pool, txn->dirty_pages); h_index; h_index = apr_hash_next(h_index)) {
         void *val = NULL;
@@ -787,6 +792,7 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
  *
  * This function inserts an entry into the Free DB mapping:
  * Key = current TXNID, Value = array of freed pgno_t values.
+ * Every page modified by the transaction gets a new page number on the way.
  *
  * The Free DB is a separate B+ tree that tracks which pages were freed
  * by which transaction. This enables safe page reclamation based on
@@ -798,9 +804,16 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
  */
 static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
 {
+    /* Key of the entries of a transaction: its TXNID, and a sequence number after the first entry */
+    struct
+    {
+        txnid_t txnid;
+        uint32_t seq;
+    } __attribute__((packed)) entry_key;
     napr_db_val_t key = { 0 };
     napr_db_val_t data = { 0 };
-    txnid_t txnid_key = 0;
+    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
+    apr_status_t status;
 
     if (!txn || !new_free_db_root_out) {
         return APR_EINVAL;
@@ -811,13 +824,64 @@ static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_roo
         return APR_SUCCESS;
     }
 
-    txnid_key = txn->txnid;
-    key.data = &txnid_key;
+    entry_key.txnid = txn->txnid;
+    entry_key.seq = 0;
+    key.data = &entry_key;
     key.size = sizeof(txnid_t);
-    data.data = txn->freed_pages->elts;
-    data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
 
-    return db_tree_insert(txn, new_free_db_root_out, &key, &data);
+    /* The Free DB pages modified below are replaced by this transaction too */
+    if (txn->free_db_root_pgno != 0) {
+        pgno_t path[MAX_TREE_DEPTH] = { 0 };
+        uint16_t path_len = 0;
+        DB_PageHeader *leaf_page = NULL;
+
+        status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &key, path, &path_len, &leaf_page);
+        if (status == APR_SUCCESS) {
+            status = db_path_get_writable(txn, path, path_len);
+        }
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+    }
+
+    /* Give every modified page a new place in the file: the old ones still belong to
+     * the previous snapshot. Reclaiming a page may modify more Free DB pages, which
+     * are then appended to the list. */
+    for (int idx = 0; idx < txn->freed_pages->nelts; idx++) {
+        pgno_t old_pgno = APR_ARRAY_IDX(txn->freed_pages, idx, pgno_t);
+        DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &old_pgno, sizeof(pgno_t));
+        pgno_t new_pgno = 0;
+
+        status = db_page_alloc(txn, 1, &new_pgno);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        dirty_page->pgno = new_pgno;
+    }
+
+    /* The list is complete: record it without reclaiming from the Free DB any more */
+    txn->reclaim_disabled = 1;
+    *new_free_db_root_out = txn->free_db_root_pgno;
+
+    for (int first = 0; first < txn->freed_pages->nelts; first += DB_FREE_ENTRY_MAX_PAGES) {
+        int count = txn->freed_pages->nelts - first;
+        if (count > DB_FREE_ENTRY_MAX_PAGES) {
+            count = DB_FREE_ENTRY_MAX_PAGES;
+        }
+
+        data.data = &APR_ARRAY_IDX(txn->freed_pages, first, pgno_t);
+        data.size = (apr_size_t) count * sizeof(pgno_t);
+
+        status = db_tree_insert(txn, new_free_db_root_out, &key, &data);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+
+        entry_key.seq++;
+        key.size = sizeof(entry_key);
+    }
+
+    return APR_SUCCESS;
 }
 
 /**
@@ -895,7 +959,7 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
 
     status = napr_db_cursor_get(cursor, key, data, NAPR_DB_FIRST);
     while (status == APR_SUCCESS) {
-        if (key->size != sizeof(txnid_t)) {
+        if (key->size < sizeof(txnid_t)) {
             status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
             continue;
         }
@@ -903,7 +967,8 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
         memcpy(&entry_txnid, key->data, sizeof(txnid_t));
 
         if (entry_txnid < oldest_reader_txnid) {
-            if (data->size % sizeof(pgno_t) == 0 && data->size > 0) {
+            /* The last page of a recent entry is left alone, so that an entry is not deleted as soon as it is added */
+            if (data->size % sizeof(pgno_t) == 0 && (data->size > sizeof(pgno_t) || (data->size > 0 && entry_txnid + DB_FREE_ENTRY_MIN_AGE < txn->txnid))) {
                 return APR_SUCCESS;
             }
         }
@@ -945,7 +1010,7 @@ apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_
     if (!txn || !reclaimed_pgno_out) {
         return APR_EINVAL;
     }
-    if (txn->free_db_root_pgno == 0) {
+    if (txn->free_db_root_pgno == 0 || txn->reclaim_disabled) {
         return APR_NOTFOUND;
     }
 
@@ -1094,7 +1159,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         goto cleanup;
     }
 
-    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);
+    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno, &new_free_db_root);
 
     status = extend_database_file(txn);
     if (status != APR_SUCCESS) {
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 344875c..949c49e 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -119,6 +119,12 @@ typedef struct DB_ReaderSlot
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
+/* Number of pages listed by one entry of the Free DB */
+#define DB_FREE_ENTRY_MAX_PAGES 256
+
+/* Number of transactions before an entry of the Free DB may be deleted */
+#define DB_FREE_ENTRY_MIN_AGE 8
+
 /*
  * Constants
  */
@@ -332,6 +338,7 @@ typedef struct __attribute__((packed))
          /* Free space tracking for write transactions */
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
+         int reclaim_disabled;  /**< Set when the Free DB may not be modified by allocations any more */
      };
 
 /**
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 292b7a6..93c9544 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -311,7 +311,7 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
  *
  * The dirty copy is stored in the transaction's dirty_pages hash table,
  * keyed by the original page number. On commit, dirty pages are written
- * to their original locations in the file.
+ * to newly allocated locations in the file.
  *
  * @param txn Write transaction handle
  * @param original_page Pointer to the original page in the memory map
-- 
2.43.0


From 70e8180b13f1eb7b4ed85dc3f81ecabc573ea24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:11 +0000
Subject: [PATCH 24/46] fix: iterate over the leaves emptied by deletions, and
 seek past the end of a leaf

---
 src/napr_db_cursor.c | 72 ++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/napr_db_cursor.c b/src/napr_db_cursor.c
index 1c31956..3e69045 100644
--- a/src/napr_db_cursor.c
+++ b/src/napr_db_cursor.c
@@ -13,6 +13,8 @@
 /* Forward declarations for internal helpers */
 static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t *key, napr_db_cursor_op_t operation);
 static apr_status_t db_cursor_next(napr_db_cursor_t *cursor);
+static apr_status_t cursor_next_leaf(napr_db_cursor_t *cursor);
+static apr_status_t cursor_prev_leaf(napr_db_cursor_t *cursor);
 static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor);
 
 /**
@@ -170,10 +172,9 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         break;
     case NAPR_DB_SET_RANGE:
         status = db_page_search(page, key, &index);
-        /* If exact match or insertion point is found, it's valid */
         if (index >= page->num_keys) {
-            /* TODO: Handle NEXT logic to find next page */
-            return APR_NOTFOUND;
+            /* Every key of this leaf is smaller: the first key of the next leaf, if any */
+            return cursor_next_leaf(cursor);
         }
         break;
     case NAPR_DB_NEXT:
@@ -183,9 +184,9 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         return APR_EINVAL;
     }
 
+    /* Deletions leave empty leaves behind */
     if (page->num_keys == 0) {
-        cursor->eof = 1;
-        return APR_NOTFOUND;
+        return (operation == NAPR_DB_LAST) ? cursor_prev_leaf(cursor) : cursor_next_leaf(cursor);
     }
 
     cursor->stack[cursor->top - 1].index = index;
@@ -214,8 +215,6 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
 {
     DB_PageHeader *page = NULL;
     uint16_t index = 0;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t child_pgno;
 
     if (!cursor || cursor->top == 0 || cursor->eof) {
         return APR_NOTFOUND;
@@ -233,6 +232,19 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
         return APR_SUCCESS;
     }
 
+    return cursor_next_leaf(cursor);
+}
+
+/**
+ * @brief Move cursor to the first key of the next leaf that has keys.
+ */
+static apr_status_t cursor_next_leaf(napr_db_cursor_t *cursor)
+{
+    DB_PageHeader *page = NULL;
+    uint16_t index = 0;
+    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
+    pgno_t child_pgno;
+
     /* Went off the end of leaf - need to ascend to find next sibling */
     cursor->top--;              /* Pop the leaf */
 
@@ -265,11 +277,10 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
 
                 if (page->flags & P_LEAF) {
                     /* Reached leaf - push it with index 0 */
-                    cursor_push(cursor, page, 0);
                     if (page->num_keys == 0) {
-                        cursor->eof = 1;
-                        return APR_NOTFOUND;
+                        break;
                     }
+                    cursor_push(cursor, page, 0);
                     return APR_SUCCESS;
                 }
 
@@ -277,6 +288,9 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 cursor_push(cursor, page, 0);
                 child_pgno = db_page_branch_node(page, 0)->pgno;
             }
+
+            /* Empty leaf - go on with its next sibling */
+            continue;
         }
 
         /* This parent also exhausted - ascend further */
@@ -305,6 +319,8 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
  */
 /**
  * @brief Descend to the rightmost leaf of a subtree.
+ *
+ * @return APR_SUCCESS, or APR_NOTFOUND if that leaf is empty (it is not pushed then)
  */
 static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
 {
@@ -317,34 +333,26 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
             return APR_EGENERAL;
         }
 
-        if (page->flags & P_LEAF) {
-            if (page->num_keys == 0) {
-                cursor->eof = 1;
-                return APR_NOTFOUND;
-            }
-            cursor_push(cursor, page, page->num_keys - 1);
-            return APR_SUCCESS;
-        }
-
         if (page->num_keys == 0) {
-            cursor->eof = 1;
             return APR_NOTFOUND;
         }
+
         cursor_push(cursor, page, page->num_keys - 1);
+        if (page->flags & P_LEAF) {
+            return APR_SUCCESS;
+        }
         pgno = db_page_branch_node(page, page->num_keys - 1)->pgno;
     }
 }
 
 static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
 {
-    DB_PageHeader *page = NULL;
     uint16_t index = 0;
 
     if (!cursor || cursor->top == 0 || cursor->eof) {
         return APR_NOTFOUND;
     }
 
-    page = cursor->stack[cursor->top - 1].page;
     index = cursor->stack[cursor->top - 1].index;
 
     if (index > 0) {
@@ -352,6 +360,17 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
         return APR_SUCCESS;
     }
 
+    return cursor_prev_leaf(cursor);
+}
+
+/**
+ * @brief Move cursor to the last key of the previous leaf that has keys.
+ */
+static apr_status_t cursor_prev_leaf(napr_db_cursor_t *cursor)
+{
+    DB_PageHeader *page = NULL;
+    uint16_t index = 0;
+
     cursor->top--;
 
     if (cursor->top == 0) {
@@ -366,7 +385,14 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
         if (index > 0) {
             index--;
             cursor->stack[cursor->top - 1].index = index;
-            return descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+
+            apr_status_t status = descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            if (status != APR_NOTFOUND) {
+                return status;
+            }
+
+            /* Empty leaf - go on with its previous sibling */
+            continue;
         }
 
         cursor->top--;
-- 
2.43.0


From 12b190730a5ebf8cdf1e3fda2937b353f2389b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:12 +0000
Subject: [PATCH 25/46] fix: delete only a matching value when napr_db_del is
 given one, as documented

---
 src/napr_db.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index d1687f5..790a017 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1348,17 +1348,27 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  *
  * @param txn Write transaction handle
  * @param key Key to delete
- * @param data Currently unused (reserved for conditional delete)
+ * @param data Optional: if non-NULL, only delete if the value matches
  * @return APR_SUCCESS on success, APR_NOTFOUND if key doesn't exist, error otherwise
  */
 apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
-    (void) data;                /* Reserved for future use (conditional delete) */
-
     if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {
         return APR_EINVAL;
     }
 
+    if (data) {
+        napr_db_val_t stored = { 0 };
+        apr_status_t get_status = napr_db_get(txn, key, &stored);
+
+        if (get_status != APR_SUCCESS) {
+            return get_status;
+        }
+        if (stored.size != data->size || (data->size > 0 && memcmp(stored.data, data->data, data->size) != 0)) {
+            return APR_NOTFOUND;
+        }
+    }
+
     /* The key of a cursor points into the page that is modified */
     const void *key_data = apr_pmemdup(txn->pool, key->data, key->size);
     apr_size_t key_size = key->size;
-- 
2.43.0


From 02c4dd161cedee0ca49a8ab87dacc117066d5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:13 +0000
Subject: [PATCH 26/46] fix: fail with APR_ENOSPC when the memory map is full
 instead of reading past it

---
 src/napr_db_tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 93c9544..a1134de 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -296,6 +296,9 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
 
     /* Fall back to extending the file (original behavior) */
     first_pgno = txn->new_last_pgno + 1;
+    if (first_pgno + count > txn->env->mapsize / PAGE_SIZE) {
+        return APR_ENOSPC;      /* The memory map is full */
+    }
     txn->new_last_pgno += count;
 
     *pgno_out = first_pgno;
-- 
2.43.0


From b6b1699d8859673a2fc7471ceee60d8a8c05c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:58 +0000
Subject: [PATCH 27/46] fix: refuse to open a database that is truncated or
 does not fit in the memory map

---
 src/napr_db.c | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 790a017..605b764 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -162,6 +162,32 @@ static apr_status_t select_live_meta(napr_db_env_t *env)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Check that the pages of the live snapshot are in the file and in the memory map.
+ *
+ * @param env Database environment
+ * @return APR_SUCCESS if they are, APR_EINVAL otherwise
+ */
+static apr_status_t check_live_meta(napr_db_env_t *env)
+{
+    const DB_MetaPage *meta = env->live_meta;
+    apr_finfo_t finfo;
+    apr_status_t status = apr_file_info_get(&finfo, APR_FINFO_SIZE, env->file);
+
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    if (meta->last_pgno < 1 || meta->last_pgno >= (pgno_t) finfo.size / PAGE_SIZE || meta->last_pgno >= env->mapsize / PAGE_SIZE) {
+        return APR_EINVAL;
+    }
+    if (meta->root > meta->last_pgno || meta->free_db_root > meta->last_pgno) {
+        return APR_EINVAL;
+    }
+
+    return APR_SUCCESS;
+}
+
 /**
  * @brief Open or create the database file.
  *
@@ -190,6 +216,9 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
     }
 
     if (status == APR_SUCCESS) {
+        if (finfo.size < (apr_off_t) 2 * PAGE_SIZE) {
+            return APR_EINVAL;  /* No room for the meta pages */
+        }
         *is_new_file = 0;
         return apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
     }
@@ -263,7 +292,12 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
         return APR_SUCCESS;
     }
 
-    return select_live_meta(env);
+    apr_status_t status = select_live_meta(env);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    return check_live_meta(env);
 }
 
 /**
@@ -306,6 +340,9 @@ apr_status_t napr_db_env_open(napr_db_env_t *env, const char *path, unsigned int
     if (env->mapsize == 0) {
         return APR_EINVAL;      /* Must call set_mapsize first */
     }
+    if (env->mapsize < (apr_size_t) 2 * PAGE_SIZE) {
+        return APR_EINVAL;      /* No room for the meta pages */
+    }
 
     env->flags = flags;
 
-- 
2.43.0


From a99ce93045660cbee2644b08a2ec4c23f158729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:18 +0000
Subject: [PATCH 28/46] fix: register a reader together with its snapshot, and
 release it from any thread

A writer could reclaim the pages of a snapshot taken but not yet registered, and
a read transaction ended by another thread kept its slot for ever.
---
 src/napr_db.c          | 71 +++++++++++++++++++++---------------------
 src/napr_db_internal.h |  1 +
 src/napr_db_tree.c     |  3 +-
 3 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 605b764..408a4c7 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -570,18 +570,28 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
     txn_handle->pool = txn_pool;
     txn_handle->flags = flags;
 
-    /* Capture snapshot from current live meta page */
+    /* Initialize dirty page tracking */
+    txn_handle->dirty_pages = NULL;
+    txn_handle->freed_pages = NULL;
+
+    /* Capture snapshot from current live meta page; a reader registers it under the
+     * same lock, so that no writer reclaims its pages in between */
+    status = apr_thread_mutex_lock(env->reader_table_mutex);
+    if (status != APR_SUCCESS) {
+        if (is_write) {
+            db_writer_unlock(env);
+        }
+        apr_pool_destroy(txn_pool);
+        return status;
+    }
     txn_handle->txnid = env->live_meta->txnid;
     txn_handle->root_pgno = env->live_meta->root;
     txn_handle->free_db_root_pgno = env->live_meta->free_db_root;
-
-    /* Initialize dirty page tracking and allocation state */
-    txn_handle->dirty_pages = NULL;
     txn_handle->new_last_pgno = env->live_meta->last_pgno;
-    txn_handle->freed_pages = NULL;
 
     /* If write transaction, increment TXNID and create dirty pages tracker */
     if (is_write) {
+        apr_thread_mutex_unlock(env->reader_table_mutex);
         txn_handle->txnid++;
 
         /* Create hash table for tracking dirty pages (CoW) */
@@ -615,18 +625,13 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
         int slot_idx = 0;
         int found_slot = 0;
 
-        status = apr_thread_mutex_lock(env->reader_table_mutex);
-        if (status != APR_SUCCESS) {
-            apr_pool_destroy(txn_pool);
-            return status;
-        }
-
         /* Find an empty slot (txnid == 0) */
         for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
             if (env->reader_table[slot_idx].txnid == 0) {
                 env->reader_table[slot_idx].pid = pid;
                 env->reader_table[slot_idx].tid = tid;
                 env->reader_table[slot_idx].txnid = txn_handle->txnid;
+                txn_handle->reader_slot = slot_idx;
                 found_slot = 1;
                 break;
             }
@@ -1135,8 +1140,14 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    /* Transactions that begin from now on see the new snapshot */
+    status = apr_thread_mutex_lock(txn->env->reader_table_mutex);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
     txn->env->live_meta = stale_meta;
+    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
 
     return APR_SUCCESS;
 }
@@ -1156,21 +1167,14 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
+        DB_ReaderSlot *slot = &txn->env->reader_table[txn->reader_slot];
 
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
 
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
+        /* Clear our slot */
+        slot->txnid = 0;
+        slot->pid = 0;
+        slot->tid = 0;
 
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
     }
@@ -1234,29 +1238,24 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 {
     apr_status_t status = APR_SUCCESS;
-    int is_write = !(txn->flags & NAPR_DB_RDONLY);
+    int is_write = 0;
 
     if (!txn) {
         return APR_EINVAL;
     }
 
+    is_write = !(txn->flags & NAPR_DB_RDONLY);
+
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
+        DB_ReaderSlot *slot = &txn->env->reader_table[txn->reader_slot];
 
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
 
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
+        /* Clear our slot */
+        slot->txnid = 0;
+        slot->pid = 0;
+        slot->tid = 0;
 
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
     }
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 949c49e..558469e 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -328,6 +328,7 @@ typedef struct __attribute__((packed))
          pgno_t free_db_root_pgno;
                                 /**< Root page number for Free DB snapshot */
          unsigned int flags;    /**< Transaction flags (RDONLY, etc.) */
+         int reader_slot;       /**< Index in the reader table (read transactions) */
 
          /* Copy-on-Write tracking for write transactions */
          apr_hash_t *dirty_pages;
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index a1134de..5ddc5be 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -861,8 +861,7 @@ apr_status_t db_find_leaf_page_with_path_in_tree(napr_db_txn_t *txn, pgno_t root
         depth++;
 
         /* Validate page number is within bounds before accessing */
-        pgno_t max_pgno = (txn->flags & NAPR_DB_RDONLY) ? txn->env->live_meta->last_pgno : txn->new_last_pgno;
-        if (current_pgno > max_pgno) {
+        if (current_pgno > txn->new_last_pgno) {
             return APR_EINVAL;  /* Page number out of bounds */
         }
 
-- 
2.43.0


From ab88676fb1e2b1dee7fd9fdb7c62aff093768ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:19 +0000
Subject: [PATCH 29/46] fix: take back the meta page of a commit that failed

The next open would have found the failed transaction committed, on top of pages
that later transactions reuse.
---
 src/napr_db.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 408a4c7..afeba57 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1101,6 +1101,7 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
 {
     apr_status_t status = APR_SUCCESS;
     DB_MetaPage updated_meta;
+    DB_MetaPage previous_meta;
     DB_MetaPage *stale_meta = NULL;
     pgno_t meta_pgno = 0;
     apr_off_t meta_offset = 0;
@@ -1115,6 +1116,7 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         meta_pgno = 0;
     }
 
+    memcpy(&previous_meta, stale_meta, sizeof(DB_MetaPage));
     memset(&updated_meta, 0, sizeof(DB_MetaPage));
     updated_meta.magic = DB_MAGIC;
     updated_meta.version = DB_VERSION;
@@ -1131,12 +1133,13 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
     }
 
     status = apr_file_write_full(txn->env->file, &updated_meta, meta_bytes, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (status == APR_SUCCESS) {
+        status = apr_file_sync(txn->env->file);
     }
-
-    status = apr_file_sync(txn->env->file);
     if (status != APR_SUCCESS) {
+        /* The transaction failed: do not leave a meta page that says otherwise */
+        memcpy(stale_meta, &previous_meta, sizeof(DB_MetaPage));
+        (void) apr_file_sync(txn->env->file);
         return status;
     }
 
-- 
2.43.0


From 42d1a49485c35d8c1e7b7a5a5aa44ffe6a75ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:20 +0000
Subject: [PATCH 30/46] fix: let the last entry upserted for a path in a
 transaction win

---
 src/napr_cache.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 0ad38c8..e39d181 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -350,7 +350,16 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-    return napr_db_put(cache->active_txn, &key, &value);
+    apr_status_t status = napr_db_put(cache->active_txn, &key, &value);
+    if (status == APR_EEXIST) {
+        /* Already stored by this transaction: the last value counts */
+        status = napr_db_del(cache->active_txn, &key, NULL);
+        if (status == APR_SUCCESS) {
+            status = napr_db_put(cache->active_txn, &key, &value);
+        }
+    }
+
+    return status;
 }
 
 /* ========================================================================
-- 
2.43.0


From e4c11ec97ad5bfee28e87e9abb3118725b15dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 31/46] fix: do not take a read error or a short read for equal
 contents

When reading the second file failed, or returned less than was asked for,
the buffered comparison ended with a success status and no difference, so
the two files were reported as duplicates.
---
 src/ft_file.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9cd27c6..ace220e 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -251,20 +251,17 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
     }
 
     do {
-        rbytes1 = HUGE_LEN;
-        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
-        rbytes2 = rbytes1;
-        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
-        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (rbytes2 == rbytes1)) {
-            *result_out = memcmp(data_chunk1, data_chunk2, rbytes1);
+        status1 = apr_file_read_full(fd1, data_chunk1, HUGE_LEN, &rbytes1);
+        status2 = apr_file_read_full(fd2, data_chunk2, HUGE_LEN, &rbytes2);
+        if (((APR_SUCCESS != status1) && (APR_EOF != status1)) || ((APR_SUCCESS != status2) && (APR_EOF != status2))) {
+            DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
+            DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
+            (void) apr_file_close(fd2);
+            (void) apr_file_close(fd1);
+            return ((APR_SUCCESS != status1) && (APR_EOF != status1)) ? status1 : status2;
         }
-    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out) && (rbytes2 == rbytes1));
-
-    if ((APR_EOF != status1) && (APR_EOF != status2) && (0 == *result_out)) {
-        DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
-        DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
-        return status1;
-    }
+        *result_out = (rbytes1 != rbytes2) ? 1 : memcmp(data_chunk1, data_chunk2, rbytes1);
+    } while ((0 == *result_out) && (APR_SUCCESS == status1) && (APR_SUCCESS == status2));
 
     status1 = apr_file_close(fd2);
     if (APR_SUCCESS != status1) {
-- 
2.43.0


From 6a70f4090bbed571c407a8ccb492f8509b323d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:41 +0000
Subject: [PATCH 32/46] fix: visit every entry when the current one is removed
 during a hash iteration

---
 src/napr_hash.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/napr_hash.c b/src/napr_hash.c
index 4bbb70e..eca6b1d 100644
--- a/src/napr_hash.c
+++ b/src/napr_hash.c
@@ -344,6 +344,7 @@ napr_hash_index_t *napr_hash_first(apr_pool_t *pool, napr_hash_t *hash)
     hash_index->element = 0;
 
     if (hash->filling_table[0] > 0) {
+        hash_index->element = hash->filling_table[0] - 1;
         return hash_index;
     }
 
@@ -352,14 +353,14 @@ napr_hash_index_t *napr_hash_first(apr_pool_t *pool, napr_hash_t *hash)
 
 napr_hash_index_t *napr_hash_next(napr_hash_index_t *index)
 {
-    if ((0 != index->hash->filling_table[index->bucket])
-        && (index->element < (index->hash->filling_table[index->bucket] - 1))) {
-        index->element++;
+    /* From the last element of a bucket to the first: removing the current one moves the last one, already seen, into its place. */
+    if (index->element > 0) {
+        index->element--;
         return index;
     }
-    index->element = 0;
     for (index->bucket += 1; index->bucket < index->hash->size; index->bucket++) {
         if (0 != index->hash->filling_table[index->bucket]) {
+            index->element = index->hash->filling_table[index->bucket] - 1;
             break;
         }
     }
-- 
2.43.0


From fe6981cfc1f03a9e238689356ef40603412f77ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:41 +0000
Subject: [PATCH 33/46] fix: wake the workers, not only a waiter, when a task
 is queued

---
 src/napr_threadpool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index 6befb49..9f80394 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -259,9 +259,10 @@ extern apr_status_t napr_threadpool_add(napr_threadpool_t *threadpool, void *dat
         DEBUG_ERR("error calling apr_thread_mutex_unlock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    status = apr_thread_cond_signal(threadpool->threadpool_update);
+    /* Not a signal: it could wake a caller of napr_threadpool_wait instead of a worker. */
+    status = apr_thread_cond_broadcast(threadpool->threadpool_update);
     if (APR_SUCCESS != status) {
-        DEBUG_ERR("error calling apr_thread_cond_signal: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        DEBUG_ERR("error calling apr_thread_cond_broadcast: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
 
-- 
2.43.0


From 432646669a76d3e23af5595609f68c978c0b629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 34/46] fix: end the threads already started when a thread pool
 cannot be completed

---
 src/napr_threadpool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index 9f80394..5469d37 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -235,6 +235,11 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         status = apr_thread_create(&((*threadpool)->thread[idx]), NULL, napr_threadpool_loop, (*threadpool), (*threadpool)->pool);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            /* The threads already running use the pool: end them before the caller destroys it. */
+            (void) apr_thread_mutex_lock((*threadpool)->threadpool_mutex);
+            (*threadpool)->nb_thread = idx;
+            (void) apr_thread_mutex_unlock((*threadpool)->threadpool_mutex);
+            (void) napr_threadpool_shutdown(*threadpool);
             return status;
         }
     }
-- 
2.43.0


From 1c4b145042742372e73398d0a16a7d20f26f72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:16 +0000
Subject: [PATCH 35/46] fix: report a failure when the report cannot be written
 to standard output

---
 src/ftwin.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ftwin.c b/src/ftwin.c
index a55bf00..57bf72d 100644
--- a/src/ftwin.c
+++ b/src/ftwin.c
@@ -176,6 +176,12 @@ int ftwin_main(int argc, const char **argv)
     if (should_manage_apr) {
         apr_terminate();
     }
+
+    /* A report that could not be written is not a success. */
+    if ((0 != fflush(stdout)) || ferror(stdout)) {
+        (void) fprintf(stderr, "error writing the report\n");
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From b7568f8747e503a5e5b444235e4a03508b6e3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:47 +0000
Subject: [PATCH 36/46] fix: release the archive handles when a file cannot be
 extracted

---
 src/ft_archive.c | 76 ++++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index bf5d8ea..7abd421 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -64,41 +64,12 @@ static int copy_data(struct archive *archive_read, struct archive *archive_write
     }
 }
 
-char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
+static char *extract_subpath(struct archive *archive_handle, struct archive *ext, ft_file_t *file, apr_pool_t *pool)
 {
-    struct archive *archive_handle = NULL;
-    struct archive *ext = NULL;
     struct archive_entry *entry = NULL;
     char *tmpfile = NULL;
     int result_value = 0;
 
-    archive_handle = archive_read_new();
-    if (NULL == archive_handle) {
-        DEBUG_ERR("error calling archive_read_new()");
-        return NULL;
-    }
-    result_value = archive_read_support_filter_all(archive_handle);
-    if (0 != result_value) {
-        DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
-        return NULL;
-    }
-    result_value = archive_read_support_format_all(archive_handle);
-    if (0 != result_value) {
-        DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
-        return NULL;
-    }
-    result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
-    if (0 != result_value) {
-        DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
-        return NULL;
-    }
-
-    ext = archive_write_disk_new();
-    if (NULL == ext) {
-        DEBUG_ERR("error calling archive_write_disk_new()");
-        return NULL;
-    }
-
     for (;;) {
         result_value = archive_read_next_header(archive_handle, &entry);
         if (result_value == ARCHIVE_EOF) {
@@ -120,11 +91,11 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
              */
             tmpfile = apr_pstrdup(pool, "/tmp/ftwinXXXXXX");
             result_value = mkstemp(tmpfile);
+            umask(current_mode);
             if (result_value < 0) {
                 DEBUG_ERR("error creating tmpfile %s", tmpfile);
                 return NULL;
             }
-            umask(current_mode);
             close(result_value);
 
             archive_entry_copy_pathname(entry, tmpfile);
@@ -148,6 +119,49 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
         }
     }
 
+    return tmpfile;
+}
+
+char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
+{
+    struct archive *archive_handle = NULL;
+    struct archive *ext = NULL;
+    char *tmpfile = NULL;
+    int result_value = 0;
+
+    archive_handle = archive_read_new();
+    if (NULL == archive_handle) {
+        DEBUG_ERR("error calling archive_read_new()");
+        return NULL;
+    }
+    result_value = archive_read_support_filter_all(archive_handle);
+    if (0 != result_value) {
+        DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
+        return NULL;
+    }
+    result_value = archive_read_support_format_all(archive_handle);
+    if (0 != result_value) {
+        DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
+        return NULL;
+    }
+    result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
+    if (0 != result_value) {
+        DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
+        return NULL;
+    }
+
+    ext = archive_write_disk_new();
+    if (NULL == ext) {
+        DEBUG_ERR("error calling archive_write_disk_new()");
+        archive_read_free(archive_handle);
+        return NULL;
+    }
+
+    tmpfile = extract_subpath(archive_handle, ext, file, pool);
+
     archive_write_free(ext);
     archive_read_free(archive_handle);
 
-- 
2.43.0


From 9658a396d57e8d54efe2344a0aaf28371abae828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:04 +0000
Subject: [PATCH 37/46] fix: use all supplementary groups of the user, however
 many

---
 src/ft_config.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 5b094fe..3edc06f 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -100,30 +100,29 @@ static pcre *ft_pcre_compile(const char *regex, int caseless, apr_pool_t *pool)
     return result;
 }
 
-static const int MAX_GIDS = 256;
-
 static apr_status_t fill_gids_ht(const char *username, napr_hash_t *gids, apr_pool_t *pool)
 {
-    gid_t list[MAX_GIDS];
+    gid_t *list = NULL;
     apr_uint32_t hash_value = 0;
-    int nb_gid = 0;
+    int nb_gid = getgroups(0, NULL);
 
-    memset(list, 0, sizeof(list));
-    nb_gid = getgroups((int) (sizeof(list) / sizeof(gid_t)), list);
+    if (nb_gid >= 0) {
+        list = apr_pcalloc(pool, ((apr_size_t) nb_gid + 1) * sizeof(gid_t));
+        nb_gid = getgroups(nb_gid, list);
+    }
     if (nb_gid < 0) {
         DEBUG_ERR("error calling getgroups()");
         return APR_EGENERAL;
     }
+
     /*
      * According to getgroups manpage:
      * It is unspecified whether the effective group ID of the calling process
      * is included in the returned list.  (Thus, an application should also
      * call getegid(2) and add or remove the resulting value.)
      */
-    if (nb_gid < (sizeof(list) / sizeof(gid_t))) {
-        list[nb_gid] = getegid();
-        nb_gid++;
-    }
+    list[nb_gid] = getegid();
+    nb_gid++;
 
     for (int idx = 0; idx < nb_gid; idx++) {
         ft_gid_t *gid = napr_hash_search(gids, &(list[idx]), sizeof(gid_t), &hash_value);
-- 
2.43.0


From a53db723055fad8d77233612160c7383cfee4495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:06 +0000
Subject: [PATCH 38/46] fix: run for a user id that has no entry in the
 password database

---
 src/ft_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3edc06f..79355d6 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -638,8 +638,8 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
 
     status = apr_uid_name_get(&(conf->username), conf->userid, conf->pool);
     if (APR_SUCCESS != status) {
-        DEBUG_ERR("error calling apr_uid_name_get: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
-        return status;
+        /* Not every user id has a name (containers, network accounts), and none is needed */
+        conf->username = NULL;
     }
 
     status = fill_gids_ht(conf->username, conf->gids, conf->pool);
-- 
2.43.0


From bceefe59f8e0f6a3e1eadaf252b3c92819063db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:43 +0000
Subject: [PATCH 39/46] fix: report modification times before 1970 without
 rounding them up

---
 src/ft_report_json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index 75862f7..fd60614 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -47,6 +47,11 @@
 static const char *ft_format_time_iso8601_utc(apr_time_t time_value, apr_pool_t *pool)
 {
     apr_time_exp_t exploded;
+    apr_time_t usec = time_value % APR_USEC_PER_SEC;
+    if (usec < 0) {
+        // Before 1970: apr_time_exp_gmt rounds up, so go back to the start of the second.
+        time_value -= APR_USEC_PER_SEC + usec;
+    }
     // Use apr_time_exp_gmt to get the time in UTC (GMT).
     if (apr_time_exp_gmt(&exploded, time_value) != APR_SUCCESS) {
         return apr_pstrdup(pool, "UNKNOWN_TIME");
-- 
2.43.0


From 6a9019ce4f2e4d282229cfa35f6c8730e3bae7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:57 +0000
Subject: [PATCH 40/46] fix: align the database environment as its type
 requires

---
 src/napr_db.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index afeba57..e57c8ac 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -37,11 +37,12 @@ apr_status_t napr_db_env_create(napr_db_env_t **env, apr_pool_t *pool)
         return APR_EINVAL;
     }
 
-    /* Allocate environment structure from pool */
-    napr_db_env_t *env_handle = apr_pcalloc(pool, sizeof(napr_db_env_t));
-    if (!env_handle) {
+    /* Allocate environment structure from pool; it is aligned to cache lines, which pool memory is not */
+    char *block = apr_pcalloc(pool, sizeof(napr_db_env_t) + CACHE_LINE_SIZE - 1);
+    if (!block) {
         return APR_ENOMEM;
     }
+    napr_db_env_t *env_handle = (napr_db_env_t *) APR_ALIGN((uintptr_t) block, CACHE_LINE_SIZE);
 
     /* Initialize fields */
     env_handle->pool = pool;
-- 
2.43.0


From 22b6bb0bc4dc0977942d369cf32b39e26556afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:17 +0000
Subject: [PATCH 41/46] fix: read character classes in ignore patterns as git
 does

---
 src/ft_ignore.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 1c501ec..f780aaa 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -216,12 +216,27 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
         (*pattern_cursor)++;
     }
 
-    while (**pattern_cursor && **pattern_cursor != ']') {
+    const char *first = *pattern_cursor;        // a closing bracket right here is a member
+    while (**pattern_cursor && (**pattern_cursor != ']' || *pattern_cursor == first)) {
+        const char *class_end = NULL;
+        int is_range = (**pattern_cursor == '-');
+
+        if (**pattern_cursor == '[' && *(*pattern_cursor + 1) == ':') {
+            class_end = strchr(*pattern_cursor + 2, ']');
+        }
+        if (class_end != NULL && class_end > *pattern_cursor + 2 && *(class_end - 1) == ':') {
+            /* Named class such as [:alpha:] */
+            while (*pattern_cursor <= class_end) {
+                *cursor++ = *(*pattern_cursor)++;
+            }
+            continue;
+        }
+
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
             (*pattern_cursor)++;
-            if (!isalnum((unsigned char) **pattern_cursor)) {
-                *cursor++ = '\\';
-            }
+        }
+        if (!isalnum((unsigned char) **pattern_cursor) && !is_range) {
+            *cursor++ = '\\';
         }
         *cursor++ = *(*pattern_cursor)++;
     }
-- 
2.43.0


From ef7c8b437bdf58d6f9f30f19646453a682041f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:55 +0000
Subject: [PATCH 42/46] fix: refuse keys of which four do not fit in a branch,
 so that the tree cannot get too deep

---
 src/napr_db_internal.h | 4 ++--
 src/napr_db_tree.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 558469e..5fa3f36 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -110,8 +110,8 @@ typedef struct DB_ReaderSlot
 #define DB_LEAFNODE_DATA_SIZE_OFFSET 2
 #define DB_LEAFNODE_KV_DATA_OFFSET 4
 
-/** Largest key: two branch entries have to fit in a page */
-#define DB_MAX_KEY_SIZE ((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 2 - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t))
+/** Largest key: four branch entries have to fit in a page, so that both halves of a split branch have two or more */
+#define DB_MAX_KEY_SIZE ((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 4 - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t))
 
 /** Largest key and value together: a leaf entry has to fit in a page */
 #define DB_MAX_ENTRY_SIZE (PAGE_SIZE - DB_PAGEHEADER_SIZE - DB_LEAFNODE_BASE_SIZE - sizeof(uint16_t))
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 5ddc5be..f2aa85c 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -1106,7 +1106,7 @@ apr_status_t db_tree_insert(napr_db_txn_t *txn, pgno_t *root_pgno, const napr_db
     DB_PageHeader *leaf_page = NULL;
     apr_status_t status = APR_SUCCESS;
 
-    /* An entry has to fit in a leaf of its own, and two keys in a branch */
+    /* An entry has to fit in a leaf of its own, and four keys in a branch */
     if (key->size > DB_MAX_KEY_SIZE || data->size > DB_MAX_ENTRY_SIZE - key->size) {
         return APR_ENOSPC;
     }
-- 
2.43.0


From 0b56c1f0b2597c3a9fce5c8bea7055bb5f99d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:58 +0000
Subject: [PATCH 43/46] fix: make room in a full bucket when a larger table
 would not spread its entries

---
 src/napr_hash.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/napr_hash.c b/src/napr_hash.c
index eca6b1d..466c9be 100644
--- a/src/napr_hash.c
+++ b/src/napr_hash.c
@@ -311,7 +311,20 @@ extern apr_status_t napr_hash_set(napr_hash_t *hash, void *data, apr_uint32_t ha
     hash->filling_table[bucket]++;
     hash->nel++;
 
-    if (hash->ffactor <= hash->filling_table[bucket]) {
+    if ((hash->ffactor <= hash->filling_table[bucket]) && (hash->nel < hash->size)) {
+        /* Many equal hash values, which a larger table would not spread: make room in the bucket */
+        nel = hash->filling_table[bucket];
+        if (0 == nel % hash->ffactor) {
+            void **larger = (void **) apr_pcalloc(hash->own_pool, (nel + hash->ffactor) * sizeof(void *));
+            if (NULL == larger) {
+                DEBUG_ERR("allocation error");
+                return APR_ENOMEM;
+            }
+            memcpy(larger, hash->table[bucket], nel * sizeof(void *));
+            hash->table[bucket] = larger;
+        }
+    }
+    else if (hash->ffactor <= hash->filling_table[bucket]) {
         // int i;
         // DEBUG_DBG( "rebuilding hash table, because there's %u element in bucket %u ffactor is %u (total element = %u)", 
         //      hash->filling_table[bucket], bucket, hash->ffactor, hash->nel);
-- 
2.43.0


From b7e865de68b6defcfad0f3195160ee68167f7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:59 +0000
Subject: [PATCH 44/46] fix: limit the recursion of regex matching instead of
 overflowing the stack on long paths

---
 src/ft_traverse.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 8cd4f89..79c98e5 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -10,7 +10,8 @@
 
 enum
 {
-    MATCH_VECTOR_SIZE = 210
+    MATCH_VECTOR_SIZE = 210,
+    MATCH_RECURSION_LIMIT = 10000       /* pcre_exec needs about half a kilobyte of stack per level */
 };
 
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx);
@@ -104,11 +105,21 @@ static int is_directory(const char *fullname, const apr_finfo_t *finfo, ft_conf_
     return apr_stat(&target, fullname, APR_FINFO_TYPE | APR_FINFO_LINK, gc_pool) == APR_SUCCESS && target.filetype == APR_DIR;
 }
 
-static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
+static int regex_matches(const pcre *regex, const char *path)
 {
     int ovector[MATCH_VECTOR_SIZE];
-    if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && !is_directory(fullname, finfo, conf, gc_pool) && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+    pcre_extra limits = {.flags = PCRE_EXTRA_MATCH_LIMIT_RECURSION,.match_limit_recursion = MATCH_RECURSION_LIMIT };
+    int result = pcre_exec(regex, &limits, path, (int) strlen(path), 0, 0, ovector, MATCH_VECTOR_SIZE);
+
+    if (result < PCRE_ERROR_NOMATCH) {
+        DEBUG_ERR("error %d calling pcre_exec on %s", result, path);
+    }
+    return result >= 0;
+}
+
+static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
+{
+    if ((conf->ig_regex && regex_matches(conf->ig_regex, fullname)) || (conf->wl_regex && !is_directory(fullname, finfo, conf, gc_pool) && !regex_matches(conf->wl_regex, fullname))) {
         return APR_SUCCESS;
     }
 
-- 
2.43.0


From e0272460092f049811a5cc356bc8515bf6bb9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 45/46] fix: trim the trailing spaces of an ignore pattern that
 ends with an escaped backslash

---
 src/ft_ignore.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index f780aaa..76a044f 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -364,7 +364,15 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
 
     /* Trailing spaces are not part of the pattern unless escaped */
     length = strlen(trimmed);
-    while (length > 1 && trimmed[length - 1] == ' ' && trimmed[length - 2] != '\\') {
+    while (length > 1 && trimmed[length - 1] == ' ') {
+        apr_size_t escapes = 0;
+
+        while (escapes < length - 1 && trimmed[length - 2 - escapes] == '\\') {
+            escapes++;
+        }
+        if (escapes % 2 != 0) {
+            break;              /* an even number of backslashes escapes itself, not the space */
+        }
         length--;
     }
     trimmed = apr_pstrndup(ctx->pool, trimmed, length);
-- 
2.43.0


From 0e8a8f96438a073629f54c69d415c6285374e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 46/46] fix: do not return an extracted file whose trailing
 hole could not be written

---
 src/ft_archive.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 7abd421..a32d249 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -103,6 +103,10 @@ static char *extract_subpath(struct archive *archive_handle, struct archive *ext
             result_value = archive_write_header(ext, entry);
             if (result_value == ARCHIVE_OK) {
                 result_value = copy_data(archive_handle, ext);
+                if (result_value == ARCHIVE_OK) {
+                    /* A hole at the end of the file is written here */
+                    result_value = archive_write_finish_entry(ext);
+                }
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
                     (void) apr_file_remove(tmpfile, pool);
-- 
2.43.0


From 8191e721930add5b2e93926c2b2321b865ae85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:38 +0000
Subject: [PATCH 1/9] fix: reserve room for the longest replacement when
 cleaning a name

---
 src/clean_string.c |  4 ++--
 src/clean_utf_8.c  |  8 +++++++-
 src/table.c        | 25 +++++++++++++++++++++++++
 src/table.h        |  1 +
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..8b37276 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -40,7 +40,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_replacement(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +100,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_replacement(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..9e01940 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -65,6 +65,7 @@ char *clean_utf_8(char *filename, table_t *table)
     int characters_eaten;
     int utf_8_width;
     int failed;
+    size_t max_replacement;
 
     if (filename == NULL) {
         return NULL;
@@ -75,7 +76,12 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    max_replacement = table_max_replacement(table);
+    if (max_replacement < strlen(null_replacement)) {
+        max_replacement = strlen(null_replacement);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_replacement) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/table.c b/src/table.c
index fefeac5..ecf0bf1 100644
--- a/src/table.c
+++ b/src/table.c
@@ -219,3 +219,28 @@ char *table_get(table_t *table, unsigned int key)
 
     return table->rows[offset].data;
 }
+
+/**
+ * Returns the length of the longest text that one input character can be
+ * replaced with: a row, the default, or the character itself.
+ *
+ * @param table The table to use.
+ *
+ * @return The length, which is never less than 1.
+ */
+size_t table_max_replacement(table_t *table)
+{
+    size_t ret;
+
+    ret = 1;
+
+    if (table->max_data_length > 1) {
+        ret = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > ret) {
+        ret = strlen(table->default_translation);
+    }
+
+    return ret;
+}
diff --git a/src/table.h b/src/table.h
index d2999ae..bb2a370 100644
--- a/src/table.h
+++ b/src/table.h
@@ -19,5 +19,6 @@ extern table_t *table_resize(table_t *table, int rows, int use_hash);
 extern void table_free(table_t *table);
 extern int table_put(table_t *table, unsigned int key, char *data);
 extern char *table_get(table_t *table, unsigned int key);
+extern size_t table_max_replacement(table_t *table);
 
 #endif /* __TABLE_H */
-- 
2.43.0


From 242c8bdca5bf74e0526c5e9bdd77d6ec38fb1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:38 +0000
Subject: [PATCH 2/9] fix: look through the whole ignore list for every
 directory entry

---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 00a03cc..0b5cc54 100644
--- a/src/file.c
+++ b/src/file.c
@@ -38,6 +38,8 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From 6e74baa7476595bdf53173082939b00e9dd745fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 3/9] fix: do not rename a file into another directory

---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index 0b5cc54..2dae6b3 100644
--- a/src/file.c
+++ b/src/file.c
@@ -115,6 +115,13 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    /* never move a file to another directory */
+    if (strchr(work, '/') != NULL) {
+        fprintf(stderr, "Cannot rename %s to %s: name contains a directory separator\n", old_filename, work);
+        free(work);
+        return old_filename;
+    }
+
     len = (old_filename_ptr - old_filename);
     new_filename = wrapped_malloc(len + strlen(work) + 1);
 
-- 
2.43.0


From 5d50c407bb5c146e9a37e9406f2a9c755c904b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 4/9] fix: do not look in front of the line buffer in inline
 mode

---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 2dae6b3..97657d1 100644
--- a/src/file.c
+++ b/src/file.c
@@ -300,7 +300,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             //
 
             hold = seek = strchr(base, '\0');
-            seek--;
+            if (seek > base) {
+                seek--;
+            }
 
 #ifdef DEBUG
             if (is_utf_8_cont(*seek)) {
@@ -308,7 +310,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             }
 #endif
 
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
+            while (seek > base && is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
 #ifdef DEBUG
                 fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
 #endif
-- 
2.43.0


From 3deb24409d53024bb0727a18d2068f9cec51a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:12 +0000
Subject: [PATCH 5/9] fix: overwriting a table row neither fills nor needs a
 free row

---
 src/table.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/table.c b/src/table.c
index ecf0bf1..dff52bf 100644
--- a/src/table.c
+++ b/src/table.c
@@ -123,10 +123,6 @@ int table_put(table_t *table, unsigned int key, char *data)
         return -1;
     }
 
-    if (table->length == table->used) {
-        return -1;
-    }
-
     offset = -1;
 
     if (table->use_hash) {
@@ -152,11 +148,12 @@ int table_put(table_t *table, unsigned int key, char *data)
 
     if (table->rows[offset].key == key) {
         table->overwrites++;
+    } else {
+        table->used++;
     }
 
     table->rows[offset].key = key;
     table->rows[offset].data = wrapped_strdup(data);
-    table->used++;
 
     if (table->max_key < key) {
         table->max_key = key;
-- 
2.43.0


From 8f97ecd17daa3839de09d304f2c38f81afbb97e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 6/9] fix: an empty quoted default in a translation table means
 no default

---
 src/parse_table.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..0805da5 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -133,6 +133,8 @@ table_t *parse_table(char *filename)
                     continue;
                 }
 
+                parsed[0] = '\0'; // nothing may be left of the quoted text
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -141,7 +143,7 @@ table_t *parse_table(char *filename)
                     sscanf(work + offset, "%s", parsed);
                 }
 
-                table->default_translation = wrapped_strdup(parsed);
+                table->default_translation = (parsed[0] != '\0') ? wrapped_strdup(parsed) : NULL;
 
                 continue;
             }
-- 
2.43.0


From 6656bfd4d8eefca54489d85002ce0ccefff741ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 7/9] fix: stop when there is no memory for a string in a
 configuration file

---
 src/config_file_lex.c | 5 +++--
 src/config_file_lex.l | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index b3f4c70..14b3cd6 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -556,6 +556,7 @@ char *yytext;
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
@@ -933,7 +934,7 @@ case 19:
 YY_RULE_SETUP
 #line 45 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -947,7 +948,7 @@ case 20:
 YY_RULE_SETUP
 #line 56 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 	YY_BREAK
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index f38ed29..2dc6a9e 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -10,6 +10,7 @@
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
@@ -43,7 +44,7 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -54,7 +55,7 @@ wipeup             { return WIPEUP; }
 }
 
 [a-zA-Z][a-zA-Z0-9_]* {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 
-- 
2.43.0


From 289b6522523cc40b1912dd69f323e5b50412ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:17 +0000
Subject: [PATCH 8/9] fix: keep the standard output open when the scanner's
 output cannot be opened

---
 src/config_file_yacc.c | 7 ++++++-
 src/config_file_yacc.y | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/config_file_yacc.c b/src/config_file_yacc.c
index 39d67f2..7de8042 100644
--- a/src/config_file_yacc.c
+++ b/src/config_file_yacc.c
@@ -1641,6 +1641,9 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
+    if (yyout == NULL) {
+        yyout = stderr;
+    }
 
     /*
      * Initialize the return variable
@@ -1691,7 +1694,9 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     while (!feof(yyin));
 
     fclose(yyin);
-    fclose(yyout);
+    if (yyout != stderr) {
+        fclose(yyout);
+    }
 
     /*
      * Populate returns
diff --git a/src/config_file_yacc.y b/src/config_file_yacc.y
index 5164f8c..afc187c 100644
--- a/src/config_file_yacc.y
+++ b/src/config_file_yacc.y
@@ -192,6 +192,9 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
+    if (yyout == NULL) {
+        yyout = stderr;
+    }
 
     /*
      * Initialize the return variable
@@ -242,7 +245,9 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     while (!feof(yyin));
 
     fclose(yyin);
-    fclose(yyout);
+    if (yyout != stderr) {
+        fclose(yyout);
+    }
 
     /*
      * Populate returns
-- 
2.43.0


From dd3616a23c35d588489f25eaebdfbab105847ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:18 +0000
Subject: [PATCH 9/9] fix: a zero byte inside a quoted string of a
 configuration file made the scanner read outside its buffer

---
 src/config_file_lex.c | 18 +++++++++++-------
 src/config_file_lex.l |  8 ++++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 14b3cd6..2dbc1e8 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -934,19 +934,23 @@ case 19:
 YY_RULE_SETUP
 #line 45 "config_file_lex.l"
 {
+    size_t len;
+
+    /* the text may have a zero byte inside, so do not rely on yyleng */
     yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    len = strlen(yylval.string);
+    if (len == 0 || yylval.string[len-1] != '"') {
         printf("Unterminated character string\n");
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yylval.string[len-1] = '\0';
     }
     return QSTRING;
 }
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 56 "config_file_lex.l"
+#line 60 "config_file_lex.l"
 {
     yylval.string = wrapped_strdup(yytext);
     return ID;
@@ -954,7 +958,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 61 "config_file_lex.l"
+#line 65 "config_file_lex.l"
 {
     yylval.nvalue = atoi(yytext);
     return NVALUE;
@@ -962,12 +966,12 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 66 "config_file_lex.l"
+#line 70 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 68 "config_file_lex.l"
+#line 72 "config_file_lex.l"
 ECHO;
 	YY_BREAK
 #line 973 "config_file_lex.c"
@@ -1975,6 +1979,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 68 "config_file_lex.l"
+#line 72 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 2dc6a9e..a49e209 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -44,12 +44,16 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
+    size_t len;
+
+    /* the text may have a zero byte inside, so do not rely on yyleng */
     yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    len = strlen(yylval.string);
+    if (len == 0 || yylval.string[len-1] != '"') {
         printf("Unterminated character string\n");
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yylval.string[len-1] = '\0';
     }
     return QSTRING;
 }
-- 
2.43.0


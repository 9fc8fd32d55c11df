From bda3712022c81b7f072a2459849a3344489d6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 01/35] fix: close the source file after LOAD

Every LOAD leaked its FILE, so a long session ran out of file handles.
---
 Basic/source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..f4ea5da 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -185,6 +185,7 @@ SOURCE* load_source_file(const char* name) {
       exit(EXIT_FAILURE);
     append(src, num, text);
   }
+  fclose(fp);
   return src;
 }
 
-- 
2.43.0


From 2ec76c0cbdbd98c2f1e7c1fb28aad907562e8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 02/35] fix: report a read error during LOAD instead of
 truncating the program

---
 Basic/source.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Basic/source.c b/Basic/source.c
index f4ea5da..c449183 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -185,7 +185,13 @@ SOURCE* load_source_file(const char* name) {
       exit(EXIT_FAILURE);
     append(src, num, text);
   }
+  bool read_failed = ferror(fp);
   fclose(fp);
+  if (read_failed) {
+    fprintf(stderr, "Cannot read source file: %s\n", name);
+    delete_source(src);
+    return NULL;
+  }
   return src;
 }
 
-- 
2.43.0


From 3671e010f820d6d88d6313c15211c28daef5ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 03/35] fix: LOAD of a malformed file no longer ends the
 session

Errors in a loaded file were fatal: one bad line in a file, and the program
in memory was lost with the session. Report the error and keep the program.
Running such a file from the command line still exits with a failure status.
---
 Basic/run.c     |  2 +-
 Basic/source.c  | 65 ++++++++++++++++++++++++++++++-------------------
 System/lbasic.c |  8 ++++++
 3 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..2e5917c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -247,7 +247,7 @@ bool vm_save_source(VM* vm, const char* name) {
 }
 
 bool vm_load_source(VM* vm, const char* name) {
-  SOURCE* source = load_source_file(name); // TODO: errors should not terminate the interpreter
+  SOURCE* source = load_source_file(name);
   if (source == NULL)
     return false;
 
diff --git a/Basic/source.c b/Basic/source.c
index c449183..4194c29 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -72,7 +72,8 @@ void print_source_line(const SOURCE* source, unsigned line, FILE* fp) {
     fprintf(fp, "%u %s", source_linenum(source, line), source_text(source, line));
 }
 
-static void source_error(const SOURCE* src, const char* fmt, ...) {
+// Report an error in the source being loaded. Always return false.
+static bool source_error(const SOURCE* src, const char* fmt, ...) {
   assert(src != NULL);
   if (src->name)
     fprintf(stderr, "%s(%u): ", src->name, src->used + 1);
@@ -80,7 +81,7 @@ static void source_error(const SOURCE* src, const char* fmt, ...) {
   va_start(ap, fmt);
   vfprintf(stderr, fmt, ap);
   va_end(ap);
-  exit(EXIT_FAILURE);
+  return false;
 }
 
 static void ensure_space(SOURCE* src) {
@@ -91,21 +92,23 @@ static void ensure_space(SOURCE* src) {
   }
 }
 
-static void append(SOURCE* src, unsigned num, const char* text) {
+static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
   if (num == 0)
-    source_error(src, "invalid line number: %u\n", num);
+    return source_error(src, "invalid line number: %u\n", num);
   unsigned latest = src->used ? src->lines[src->used - 1].num : 0;
   if (num <= latest)
-    source_error(src, "line number is not in increasing order: %u\n", num);
+    return source_error(src, "line number is not in increasing order: %u\n", num);
   ensure_space(src);
   assert(src->used < src->allocated);
   src->lines[src->used].num = num;
   src->lines[src->used].text = estrdup(text);
   src->used++;
+  return true;
 }
 
+// Return the text after the line number, or NULL if there is no line number.
 static const char* parse_line_number(SOURCE* src, const char* line, unsigned *num) {
   assert(line != NULL);
   assert(num != NULL);
@@ -113,8 +116,10 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   const char* s = line;
   for (; isdigit(*s); s++)
     *num = *num * 10 + *s - '0';
-  if (s == line)
+  if (s == line) {
     source_error(src, "line has no line number\n");
+    return NULL;
+  }
   // treat one space as pure delimiter but preserve any other indenting
   if (*s == ' ')
     s++;
@@ -161,6 +166,22 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
+// Add a line of a source file, including its line number, to the source.
+static bool load_line(SOURCE* src, char* buf) {
+  size_t len = strlen(buf);
+  if (len > 0) {
+    if (buf[len-1] != '\n')
+      return source_error(src, "source line is too long\n");
+    len--;
+    buf[len] = '\0';
+  }
+  if (len == 0)
+    return source_error(src, "source line is empty\n");
+  unsigned num;
+  const char* text = parse_line_number(src, buf, &num);
+  return text != NULL && append(src, num, text);
+}
+
 SOURCE* load_source_file(const char* name) {
   FILE* fp = fopen(name, "r");
   if (fp == NULL) {
@@ -170,20 +191,11 @@ SOURCE* load_source_file(const char* name) {
   SOURCE* src = new_source(name);
   char buf[256];
   while (fgets(buf, sizeof buf, fp)) {
-    size_t len = strlen(buf);
-    if (len > 0) {
-      if (buf[len-1] != '\n')
-        source_error(src, "source line is too long");
-      len--;
-      buf[len] = '\0';
+    if (!load_line(src, buf)) {
+      fclose(fp);
+      delete_source(src);
+      return NULL;
     }
-    if (len == 0)
-      source_error(src, "source line is empty");
-    unsigned num;
-    const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
-      exit(EXIT_FAILURE);
-    append(src, num, text);
   }
   bool read_failed = ferror(fp);
   fclose(fp);
@@ -220,10 +232,14 @@ static unsigned line_length(const char* s) {
 
 static unsigned get_line(SOURCE* src, const char* string, char* buf, unsigned bufsz) {
   unsigned len = line_length(string);
-  if (len == 0)
-    source_error(src, "source line is empty");
-  if (len + 1 > bufsz)
-    source_error(src, "source line is too long");
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    exit(EXIT_FAILURE);
+  }
+  if (len + 1 > bufsz) {
+    source_error(src, "source line is too long\n");
+    exit(EXIT_FAILURE);
+  }
   strncpy(buf, string, len);
   buf[len] = '\0';
   return len;
@@ -241,9 +257,8 @@ SOURCE* load_source_string(const char* string, const char* name) {
 
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
+    if (text == NULL || !append(src, num, text))
       exit(EXIT_FAILURE);
-    append(src, num, text);
 
     if (string[len] == '\0' || string[len+1] == '\0')
       break;
diff --git a/System/lbasic.c b/System/lbasic.c
index dd2e1c2..d1f1ca3 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -132,6 +132,8 @@ static void process_file(const Options* opt) {
       delete_symbol_table(st);
       delete_source(source);
     }
+    else
+      exit(EXIT_FAILURE);
     return;
   }
 
@@ -151,6 +153,8 @@ static void process_file(const Options* opt) {
       printf("Microseconds elapsed: %lld\n", elapsed_usec(&timer));
 #endif
   }
+  else
+    exit(EXIT_FAILURE);
 
   delete_vm(vm);
 }
@@ -162,6 +166,8 @@ static void list_file(const char* file_name) {
       printf("%5u %s\n", source_linenum(source, i), source_text(source, i));
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name);
@@ -188,6 +194,8 @@ static void list_names(const char* file_name, bool crunched) {
     delete_lex(lex);
     delete_source(source);
   }
+  else
+    exit(EXIT_FAILURE);
 }
 
 static void print_name(const char* name) {
-- 
2.43.0


From 43e9c5318841f4fc8262f9d200c830ad4d68f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 04/35] fix: report an error when SAVE cannot write the whole
 program

A full disk or other write error went unnoticed and the program was lost.
---
 Basic/source.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 4194c29..e197b6f 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -210,12 +210,18 @@ SOURCE* load_source_file(const char* name) {
 bool save_source_file(const SOURCE* src, const char* name) {
   FILE* fp = fopen(name, "w");
   if (fp == NULL) {
-    fprintf(stderr, "cannot create file: %s", name);
+    fprintf(stderr, "cannot create file: %s\n", name);
     return false;
   }
   for (unsigned i = 0; i < src->used; i++)
     fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
-  fclose(fp);
+  bool write_failed = ferror(fp);
+  if (fclose(fp) != 0)
+    write_failed = true;
+  if (write_failed) {
+    fprintf(stderr, "cannot write file: %s\n", name);
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 7d124cb0dcf99b92837174432af92ea2cde7c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 05/35] fix: SAVE without a program says that nothing was saved

---
 Basic/run.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 2e5917c..9f38e67 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -241,8 +241,10 @@ void vm_enter_source_line(VM* vm, unsigned num, const char* text) {
 }
 
 bool vm_save_source(VM* vm, const char* name) {
-  if (vm->stored_program.source == NULL)
+  if (vm->stored_program.source == NULL) {
+    fputs("no program to save\n", stderr);
     return false;
+  }
   return save_source_file(vm->stored_program.source, name);
 }
 
-- 
2.43.0


From a0fcda2face3cb837eed5741bfad4d97fe632702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 06/35] fix: reject line number 0 when entering a program line

It was passed on to the stored program, which sorted it first or, if the
program was empty, ended the session.
---
 Monitor/interactive.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..24f01f3 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -142,6 +142,10 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
+  if (num == 0) {
+    error("Invalid line number");
+    return;
+  }
   if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
-- 
2.43.0


From 6bdf3c67958af165e4f99edd3f95cfa95601c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 07/35] fix: line numbers that are too large no longer wrap
 round to other lines

---
 Basic/source.c        | 11 +++++++++--
 Monitor/interactive.c |  7 +++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index e197b6f..a1ee5dc 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -6,6 +6,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <stdarg.h>
+#include <limits.h>
 #include <assert.h>
 #include "source.h"
 #include "utils.h"
@@ -114,8 +115,14 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
-    *num = *num * 10 + *s - '0';
+  for (; isdigit(*s); s++) {
+    unsigned digit = *s - '0';
+    if (*num > (UINT_MAX - 1 - digit) / 10) {
+      source_error(src, "line number is too large\n");
+      return NULL;
+    }
+    *num = *num * 10 + digit;
+  }
   if (s == line) {
     source_error(src, "line has no line number\n");
     return NULL;
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 24f01f3..1065574 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -8,6 +8,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <stdarg.h>
+#include <limits.h>
 #include <math.h>
 #include <assert.h>
 #include "interactive.h"
@@ -142,7 +143,7 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
-  if (num == 0) {
+  if (num == 0 || num == UINT_MAX) {
     error("Invalid line number");
     return;
   }
@@ -440,11 +441,13 @@ static char* skip_space(char* s) {
   return s;
 }
 
+// Read an unsigned number. If it is out of range, return UINT_MAX as the number.
 static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    unsigned digit = *line - '0';
+    *num = *num > (UINT_MAX - digit) / 10 ? UINT_MAX : 10 * *num + digit;
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From 4406553c61300882368b32accb00d63b554ffa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 08/35] fix: invalid characters and DATA are errors, not the
 end of the session

A non-ASCII character or an unterminated string in DATA exited the
interpreter, losing the program being edited.
---
 Basic/lexer.c | 30 ++++++++++++++++++++++++------
 Basic/lexer.h |  1 +
 Basic/parse.c | 11 +++++++++--
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..d1cb54c 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -23,6 +23,7 @@ LEX* new_lex(const char* name, bool recognise_keyword_prefixes) {
   lex->num = 0;
   lex->word[0] = '\0';
   lex->recognise_keyword_prefixes = recognise_keyword_prefixes;
+  lex->invalid = false;
   return lex;
 }
 
@@ -75,8 +76,9 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
 
 static void validate(LEX* lex, int c) {
   if (c != EOF && (c < 0 || c >= 127)) {
-    lex_error(lex, "invalid character on line: value %d\n", c);
-    exit(EXIT_FAILURE);
+    if (!lex->invalid)
+      lex_error(lex, "invalid character on line: value %d\n", c);
+    lex->invalid = true;
   }
 }
 
@@ -176,7 +178,15 @@ static bool append(LEX* lex, unsigned *i, int c, const char* descrip) {
   return true;
 }
 
+static int next_token(LEX*);
+
 int lex_next(LEX* lex) {
+  lex->invalid = false;
+  int token = next_token(lex);
+  return lex->invalid ? (lex->token = TOK_ERROR) : token;
+}
+
+static int next_token(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
 
@@ -311,8 +321,15 @@ int lex_next(LEX* lex) {
   return lex->token = (c == EOF ? TOK_EOF : c);
 }
 
+static const char* data_error(LEX* lex) {
+  lex->token = TOK_ERROR;
+  return NULL;
+}
+
 // Recognise a string token, or read other characters into a string, for untyped DATA.
+// Return NULL if there is an error.
 const char* lex_next_data(LEX* lex) {
+  lex->invalid = false;
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
 
@@ -327,13 +344,14 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        return data_error(lex);
       }
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      return data_error(lex);
     }
   }
   else {
@@ -341,7 +359,7 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        return data_error(lex);
       }
       lex->word[i++] = c;
       c = lex_char(lex);
@@ -353,7 +371,7 @@ const char* lex_next_data(LEX* lex) {
   }
   lex->word[i] = '\0';
 
-  return lex->word;
+  return lex->invalid ? data_error(lex) : lex->word;
 }
 
 int lex_token(LEX* lex) {
diff --git a/Basic/lexer.h b/Basic/lexer.h
index 18432be..5346a1e 100644
--- a/Basic/lexer.h
+++ b/Basic/lexer.h
@@ -17,6 +17,7 @@ typedef struct {
   int token;
   double num;
   bool recognise_keyword_prefixes;
+  bool invalid; // current token contains an invalid character
   char word[MAX_WORD];
 } LEX;
 
diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..3e2e73e 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -212,9 +212,16 @@ static void data_statement(PARSER* parser) {
   if (lex_token(parser->lex) != TOK_DATA)
     match(parser, TOK_DATA);
 
-  emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+  datum(parser);
   while (lex_next(parser->lex) == ',')
-    emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+    datum(parser);
+}
+
+static void datum(PARSER* parser) {
+  const char* str = lex_next_data(parser->lex);
+  if (str == NULL)
+    parse_error_no_token(parser, "invalid data");
+  emit_str(parser->bcode, B_DATA, str);
 }
 
 static void read_item(PARSER*);
-- 
2.43.0


From b3f2484dbb02ab8cfeeecfd5011b8998a037717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 09/35] fix: RENUM updates every line number of ON lists and
 after THEN GOTO

Only the first line number of ON ... GOTO/GOSUB was updated, and none in
THEN GOTO, THEN GOSUB, ELSE GOTO and ELSE GOSUB, so that renumbering broke
the program.
---
 Monitor/interactive.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 1065574..5fc8dda 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -369,8 +369,10 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     int tok = lex_line(lex, line, source_text(source, line));
     while (tok != TOK_EOF && tok != '\n') {
       if (takes_line_number(tok)) {
-        tok = lex_next(lex);
-        if (tok == TOK_NUM) {
+        do {
+          tok = lex_next(lex);
+          if (tok != TOK_NUM)
+            break;
           double x = lex_num(lex);
           if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
             unsigned basic_line = (unsigned) x;
@@ -389,9 +391,11 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
               }
             }
           }
-        }
+          tok = lex_next(lex);
+        } while (tok == ',');
       }
-      tok = lex_next(lex);
+      else
+        tok = lex_next(lex);
     }
   }
 
-- 
2.43.0


From e5add7f29e47332a374ec32de1844c663c348239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 10/35] fix: RENUM leaves DATA items alone

---
 Monitor/interactive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 5fc8dda..ab2b951 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -394,6 +394,12 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
           tok = lex_next(lex);
         } while (tok == ',');
       }
+      else if (tok == TOK_DATA) {
+        do {
+          lex_next_data(lex);
+          tok = lex_next(lex);
+        } while (tok == ',');
+      }
       else
         tok = lex_next(lex);
     }
-- 
2.43.0


From 73655286e9f49688dac1447f0845f7ac3de29ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 11/35] fix: RENUM that cannot be done changes nothing

RENUM could give several lines the same number (RENUM 10,20 or an increment
of 0), give lines numbers that no statement can refer to, and stop half way
leaving some lines renumbered and no references updated.
---
 Monitor/interactive.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index ab2b951..0b728b1 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -341,20 +341,19 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
   // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
+  // before changing anything
   LINE_MAP* map = new_line_map(source_lines(source));
   unsigned new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
+      if (new_linenum <= prev_basic_line || new_linenum > (U16)(-1)) {
         error("Cannot renumber line %u to %u after line %u",
               basic_line, new_linenum, prev_basic_line);
         goto bail;
       }
       insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
       prev_basic_line = new_linenum;
       new_linenum += inc;
     }
@@ -364,6 +363,13 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  // update the line number of each source line
+  for (unsigned line = 0; line < source_lines(source); line++) {
+    unsigned new_basic_line;
+    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
+      set_source_linenum(source, line, new_basic_line);
+  }
+
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-- 
2.43.0


From ee3579d510edf39dcbce3ac2ee7f066897e7b51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 12/35] fix: RENUM makes the program recompile

Until the next edit GOTO still used the old line numbers, and CONT and error
messages mixed old code with new numbers.
---
 Basic/run.c           | 4 ++++
 Basic/run.h           | 3 ++-
 Monitor/interactive.c | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 9f38e67..000bcd4 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -264,6 +264,10 @@ SOURCE* vm_stored_source(VM* vm) {
   return vm->stored_program.source;
 }
 
+void vm_source_changed(VM* vm) {
+  stored_program_changed(vm);
+}
+
 static void run(VM*);
 
 void run_program(VM* vm) {
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..9f5d9f4 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -18,7 +18,8 @@ void vm_enter_source_line(VM*, unsigned num, const char* text);
 bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
-SOURCE* vm_stored_source(vm);
+SOURCE* vm_stored_source(VM*);
+void vm_source_changed(VM*);
 
 // Compile and run code.
 void vm_compile(VM*);
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 0b728b1..cae395f 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -363,6 +363,8 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  vm_source_changed(vm);
+
   // update the line number of each source line
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned new_basic_line;
-- 
2.43.0


From d53460fbc9339afe8fc5974a86a75e98030c0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 13/35] fix: INPUT at the end of input is an error

INPUT went on with what was left in the buffer from earlier input, or
repeated for ever.
---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index 000bcd4..e282650 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -920,6 +920,7 @@ static void execute(VM* vm) {
       if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
         if (ferror(stdin))
           run_error(vm, "error reading input\n");
+        run_error(vm, "end of input\n");
       }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
-- 
2.43.0


From dd13f0b4f826ec119946cabff06600bf33e94759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 14/35] fix: the rest of an overlong INPUT line is not taken as
 the next line

It became the input of the next INPUT or even the next command.
---
 Basic/run.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index e282650..31651b8 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -451,6 +451,9 @@ static void set_string_element(VM*, SYMBOL*, unsigned ndim, char* val);
 
 static void set_string(VM*, SYMBOL*, unsigned ndim, char* val);
 
+// Input
+static bool discard_input_line(void);
+
 // Number conversion
 static char* convert(const char* string, double *val);
 
@@ -922,6 +925,8 @@ static void execute(VM* vm) {
           run_error(vm, "error reading input\n");
         run_error(vm, "end of input\n");
       }
+      if (strchr(vm->input, '\n') == NULL && discard_input_line())
+        puts("* Extra input was discarded *");
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
@@ -1425,6 +1430,16 @@ static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
     set_string_element(vm, sym, ndim, val);
 }
 
+// Discard the rest of a line that was too long for the input buffer.
+// Return whether there was anything to discard.
+static bool discard_input_line(void) {
+  int c = getchar();
+  bool discarded = (c != EOF && c != '\n');
+  while (c != EOF && c != '\n')
+    c = getchar();
+  return discarded;
+}
+
 static char* convert(const char* s, double *val) {
   while (*s == ' ' || *s == '\t')
     s++;
-- 
2.43.0


From fdc161eaaec617604fa6dcffb75abc611fbc0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 15/35] fix: invalid input for an array element leaves nothing
 on the stack

Enough invalid lines ended in a numeric stack overflow.
---
 Basic/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 31651b8..bd9b6da 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -960,6 +960,9 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      // array indexes will be evaluated again
+      for (unsigned k = 0; k < i->u.param.params; k++)
+        pop(vm);
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0


From 2c32c06502b45baa8a9223cf4fb7002e60278297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:02 +0000
Subject: [PATCH 16/35] fix: a run-time error leaves no trace of the abandoned
 statement

Values left on the stacks by every error added up to a stack overflow. An
error in a user-defined function left the parameter's value in the variable
of that name, made every later function call fail as nested, and left an
older stopped program for CONT. CTRL-C during a failing statement made the
failed statement continuable.
---
 Basic/run.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index bd9b6da..f08326d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -336,21 +336,38 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void end_def(VM*);
 static void report_for_in_progress(VM*);
 
+// Abandon the statement in which a run-time error has occurred:
+// its intermediate values and any function call in progress.
+static void abandon_statement(VM* vm) {
+  vm->sp = 0;
+  clear_string_stack(vm);
+  if (vm->fn.code_state.code != NULL)
+    end_def(vm);
+}
+
 // Run the currently selected code from current PC.
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
 
+  volatile bool failed = false;
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else {
+    failed = true;
+    abandon_statement(vm);
+  }
   untrap_interrupt();
 
-  if (interrupted)
+  if (failed)
+    ; // already reported
+  else if (interrupted)
     puts("Break");
   else if (vm->stopped) {
     print_source_line(vm->code_state.code->source, vm->code_state.source_line, stdout);
@@ -363,10 +380,10 @@ static void run(VM* vm) {
   }
 
   // On STOP in program, or interrupted program, store program stopped state for continuing.
-  // On normal program end, clear program stopped state.
+  // On normal program end or error, clear program stopped state.
   // After running immediate code, leave program stopped state alone.
   if (vm->code_state.code == &vm->stored_program) {
-    if (vm->stopped || interrupted)
+    if (!failed && (vm->stopped || interrupted))
       vm->stopped_program = vm->code_state;
     else
       clear_code_state(&vm->stopped_program);
-- 
2.43.0


From 44b44422bd19202705c0d0d7f7ce1486a772feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 17/35] fix: CTRL-C stops a program between statements, not
 inside an expression

A break inside a user-defined function could not be continued, and made
every function call in immediate mode fail. Values of a broken expression
stayed on the stack when the program was not continued.
---
 Basic/run.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index f08326d..93d9545 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -348,6 +348,13 @@ static void abandon_statement(VM* vm) {
     end_def(vm);
 }
 
+// Whether an interrupt can stop the code here so that it can be continued:
+// not in the middle of evaluating an expression or calling a function,
+// because immediate statements use the same stacks and functions.
+static bool can_break(const VM* vm) {
+  return vm->sp == 0 && vm->ssp == 0 && vm->fn.code_state.code == NULL;
+}
+
 // Run the currently selected code from current PC.
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
@@ -356,7 +363,7 @@ static void run(VM* vm) {
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && can_break(vm)))
       execute(vm);
   }
   else {
-- 
2.43.0


From 157b35ad9252395e94a56883bdecf9afe3001209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:08 +0000
Subject: [PATCH 18/35] fix: CONT after a break in the last statement reads
 past the end of the code

---
 Basic/run.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 93d9545..ce6c1f0 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -405,7 +405,9 @@ bool vm_continue(VM* vm) {
   vm->code_state = vm->stopped_program;
   // If continuing from STOP, continue from PC after STOP.
   // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
+  // If interrupted in the last statement, there is nothing left to run.
+  if (vm->stopped_program.pc < vm->stopped_program.code->bcode->used &&
+      vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
     vm->code_state.pc++;
   run(vm);
   return true;
-- 
2.43.0


From 1f60ab84790177e54ccc9dd65aae4c2c4f64acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:11 +0000
Subject: [PATCH 19/35] fix: GOSUB to a missing line leaves no return behind

After enough such errors every GOSUB failed as nested too deeply.
---
 Basic/run.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index ce6c1f0..76ee8a8 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -489,6 +489,7 @@ static const char* find_data(VM*);
 
 // Control flow
 static void go_to_basic_line(VM*, unsigned basic_line);
+static void gosub(VM*, unsigned basic_line, unsigned return_pc);
 static void push_return(VM*, unsigned return_pc);
 static void pop_return(VM*);
 static int find_for(VM*, SYMID);
@@ -747,8 +748,7 @@ static void execute(VM* vm) {
       }
       break;
     case B_GOSUB:
-      push_return(vm, vm->code_state.pc + 1);
-      go_to_basic_line(vm, i->u.basic_line.lineno);
+      gosub(vm, i->u.basic_line.lineno, vm->code_state.pc + 1);
       return;
     case B_RETURN:
       pop_return(vm); // pops PC to continue from
@@ -865,8 +865,9 @@ static void execute(VM* vm) {
       if (k >= vm->code_state.code->bcode->used || vm->code_state.code->bcode->inst[k].op != B_ON_LINE)
         run_error(vm, "internal error: ON-LINE expected\n");
       if (i->op == B_ON_GOSUB)
-        push_return(vm, vm->code_state.pc + i->u.count + 1);
-      go_to_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno);
+        gosub(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno, vm->code_state.pc + i->u.count + 1);
+      else
+        go_to_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno);
       return;
     }
     case B_IF_THEN: // IF ... THEN statements  -- skip to next line if condition false
@@ -1550,6 +1551,13 @@ static void pop_return(VM* vm) {
   vm->code_state = vm->retstack[vm->rsp];
 }
 
+static void gosub(VM* vm, unsigned basic_line, unsigned return_pc) {
+  unsigned pc = find_basic_line(vm, basic_line); // must exist before pushing return
+  push_return(vm, return_pc);
+  vm->code_state.pc = pc;
+  vm->code_state.code = &vm->stored_program;
+}
+
 // Return index on FOR stack of given variable, or -1 if not there.
 static int find_for(VM* vm, SYMID id) {
   for (int j = 0; j < (int)vm->for_sp; j++) {
-- 
2.43.0


From 40c2e5f9927e524790bd43b83629ead98a47a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 20/35] fix: too many subscripts is an error, not an abort

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 76ee8a8..4520a87 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1264,7 +1264,8 @@ static unsigned pop_index(VM* vm, const char* name) {
 }
 
 static void pop_indexes(VM* vm, unsigned* indexes, unsigned dimensions, const char* name) {
-  assert(dimensions <= MAX_DIMENSIONS);
+  if (dimensions > MAX_DIMENSIONS)
+    run_error(vm, "too many dimensions: %s\n", name);
   for (unsigned i = 0; i < dimensions; i++)
     indexes[i] = pop_index(vm, name);
 }
-- 
2.43.0


From 71cfcb59f82562b3ef2784da9cd13311fdc42e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 21/35] fix: using a built-in function as a variable is an
 error, not an abort

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 3e2e73e..7534977 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -918,6 +918,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
+    if (sym->kind == SYM_BUILTIN)
+      parse_error_no_token(parser, "name already used for %s: %s", symbol_kind(sym->kind), name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
         sym->kind = paren_kind;
-- 
2.43.0


From 94a13ff9bd5b4f1c98517a4a343f0d1fda042cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:34 +0000
Subject: [PATCH 22/35] fix: a dimension of 4294967295 overflows the array size

---
 Basic/arrays.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..3d1b6f4 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -14,10 +14,9 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
   for (unsigned i = 0; i < dimensions; i++) {
     if (max[i] < base)
       return false;
-    unsigned size = max[i] - base + 1;
-    if (size > MAX_ELEMENTS / *elements)
+    if (max[i] - base >= MAX_ELEMENTS / *elements)
       return false;
-    *elements *= size;
+    *elements *= max[i] - base + 1;
   }
   return true;
 }
-- 
2.43.0


From afdcdb3c64fb006af26f4470cb5301a19c2e136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 23/35] fix: a function used in the program can be defined in
 immediate mode

---
 Basic/parse.c |  1 -
 Basic/run.c   | 10 ++++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 7534977..690e4ff 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -44,7 +44,6 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
     parser.bcode = NULL;
   }
   delete_lex(parser.lex);
-  sym_make_unknown_array(st);
   return parser.bcode;
 }
 
diff --git a/Basic/run.c b/Basic/run.c
index 4520a87..37b7d8b 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -561,7 +561,10 @@ static void execute(VM* vm) {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_NUM);
       // must be a parenthesised kind of symbol; not a builtin,
-      // which has its own opcodes; therefore array or user-defined function
+      // which has its own opcodes; therefore array or user-defined function;
+      // if never defined with DIM or DEF, an undeclared array
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY;
       if (sym->kind == SYM_ARRAY)
         get_numeric_element(vm, sym, i->u.param.params);
       else {
@@ -685,7 +688,10 @@ static void execute(VM* vm) {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_STR);
       // must be a parenthesised kind of symbol; not a builtin,
-      // which has its own opcodes; therefore array or user-defined function
+      // which has its own opcodes; therefore array or user-defined function;
+      // if never defined with DIM or DEF, an undeclared array
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY;
       if (sym->kind == SYM_ARRAY)
         get_string_element(vm, sym, i->u.param.params);
       else {
-- 
2.43.0


From 68e4ce6369d69077a69d36d64fc7c1843398566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:40 +0000
Subject: [PATCH 24/35] fix: CTRL-C while RUN is compiling the program is not
 forgotten

---
 Shared/interrupt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Shared/interrupt.c b/Shared/interrupt.c
index 99137f4..07c5694 100644
--- a/Shared/interrupt.c
+++ b/Shared/interrupt.c
@@ -7,15 +7,22 @@
 
 bool interrupted;
 
+static bool trapped;
+
 static void interrupt(int sig) {
   interrupted = true;
 }
 
+// If already trapped, do not forget an interrupt that has already happened.
 void trap_interrupt(void) {
-  interrupted = false;
-  signal(SIGINT, &interrupt);
+  if (!trapped) {
+    interrupted = false;
+    trapped = true;
+    signal(SIGINT, &interrupt);
+  }
 }
 
 void untrap_interrupt(void) {
   signal(SIGINT, SIG_DFL);
+  trapped = false;
 }
-- 
2.43.0


From b9e90a0f128a7387567bd66413028db1399d43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 25/35] fix: CTRL-C stops PRINT SPC and TAB with a huge count

---
 Basic/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 37b7d8b..8e4a901 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -903,7 +903,7 @@ static void execute(VM* vm) {
       break;
     case B_PRINT_SPC: {
       unsigned k = pop_unsigned(vm);
-      while (k--)
+      while (k-- && !interrupted)
         putchar(' '), vm->col++;
       fflush(stdout);
       break;
@@ -914,7 +914,7 @@ static void execute(VM* vm) {
         putchar('\n');
         vm->col = 1;
       }
-      while (vm->col < k)
+      while (vm->col < k && !interrupted)
         putchar(' '), vm->col++;
       fflush(stdout);
       break;
-- 
2.43.0


From ed981a38207c94c4ea7e63db20f64a91a6f67aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 26/35] fix: run-time errors in string functions do not leak
 the strings

---
 Basic/run.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 8e4a901..3c8ce85 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -451,6 +451,7 @@ static void pop_indexes(VM*, unsigned* indexes, unsigned dimensions, const char*
 // Declare string stack functions
 static void push_str(VM*, const char*);
 static char* pop_str(VM*);
+static const char* peek_str(VM*, unsigned depth);
 static int compare_strings(VM*);
 
 // Numeric variables and arrays
@@ -724,17 +725,17 @@ static void execute(VM* vm) {
       push_logic(vm, compare_strings(vm) >= 0);
       break;
     case B_CONCAT: {
-      char* t = pop_str(vm);
-      char* s = pop_str(vm);
+      const char* t = peek_str(vm, 0);
+      const char* s = peek_str(vm, 1);
       size_t sz = strlen(s) + strlen(t);
       char buf[256];
       if (sz + 1 > sizeof buf)
         run_error(vm, "concatenated string would be too long: %lu characters\n", (unsigned long)sz);
       strcpy(buf, s);
       strcat(buf, t);
+      efree(pop_str(vm));
+      efree(pop_str(vm));
       push_str(vm, buf);
-      efree(s);
-      efree(t);
       break;
     }
     // control flow
@@ -1100,7 +1101,7 @@ static void execute(VM* vm) {
       push(vm, floor(pop(vm)));
       break;
     case B_LEFT: {
-      char* s = pop_str(vm);
+      const char* s = peek_str(vm, 0);
       unsigned u = pop_unsigned(vm);
       size_t sz = strlen(s);
       if (u > sz)
@@ -1110,8 +1111,8 @@ static void execute(VM* vm) {
         run_error(vm, STRING_TOO_LONG);
       strncpy(buf, s, u);
       buf[u] = '\0';
+      efree(pop_str(vm));
       push_str(vm, buf);
-      efree(s);
       break;
     }
     case B_LEN: {
@@ -1128,7 +1129,7 @@ static void execute(VM* vm) {
       break;
     }
     case B_MID3: {
-      char* s = pop_str(vm);
+      const char* s = peek_str(vm, 0);
       unsigned v = pop_unsigned(vm);
       unsigned u = pop_unsigned(vm);
       size_t sz = strlen(s);
@@ -1141,8 +1142,8 @@ static void execute(VM* vm) {
         run_error(vm, STRING_TOO_LONG);
       strncpy(buf, s + u - 1, v);
       buf[v] = '\0';
+      efree(pop_str(vm));
       push_str(vm, buf);
-      efree(s);
       break;
     }
     case B_STR: {
@@ -1153,7 +1154,7 @@ static void execute(VM* vm) {
       break;
     }
     case B_RIGHT: {
-      char* s = pop_str(vm);
+      const char* s = peek_str(vm, 0);
       unsigned u = pop_unsigned(vm);
       size_t sz = strlen(s);
       if (u > sz)
@@ -1163,8 +1164,8 @@ static void execute(VM* vm) {
         run_error(vm, STRING_TOO_LONG);
       strncpy(buf, s + sz - u, u);
       buf[u] = '\0';
+      efree(pop_str(vm));
       push_str(vm, buf);
-      efree(s);
       break;
     }
     case B_RND: {
@@ -1202,12 +1203,12 @@ static void execute(VM* vm) {
       break;
     }
     case B_VAL: {
-      char* s = pop_str(vm);
+      const char* s = peek_str(vm, 0);
       double x;
       const char* t = convert(s, &x);
       if (t == NULL || *t != '\0')
         run_error(vm, "invalid number: %s\n", s);
-      efree(s);
+      efree(pop_str(vm));
       push(vm, x);
       break;
     }
@@ -1289,6 +1290,14 @@ static char* pop_str(VM* vm) {
   return vm->strstack[vm->ssp];
 }
 
+// Look at a string on the stack without taking ownership of it,
+// so that it is freed with the stack if an error occurs.
+static const char* peek_str(VM* vm, unsigned depth) {
+  if (vm->ssp <= depth)
+    run_error(vm, "string stack empty\n");
+  return vm->strstack[vm->ssp - 1 - depth];
+}
+
 static int compare_strings(VM* vm) {
   char* t = pop_str(vm);
   char* s = pop_str(vm);
@@ -1448,6 +1457,11 @@ static void get_string_element(VM* vm, SYMBOL* sym, unsigned ndim) {
 static void set_string_element(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
 
+  // keep value on string stack, where it was or where there is room for it,
+  // until stored, so that it is freed if an error occurs
+  assert(vm->ssp < MAX_STR_STACK);
+  vm->strstack[vm->ssp++] = val;
+
   unsigned indexes[MAX_DIMENSIONS];
   pop_indexes(vm, indexes, ndim, sym->name);
 
@@ -1457,7 +1471,7 @@ static void set_string_element(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
   assert(sym->val.strarr != NULL);
   char* * addr = string_element(vm, sym->val.strarr, sym->name, ndim, indexes);
   efree(*addr);
-  *addr = val;
+  *addr = pop_str(vm);
 }
 
 static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
-- 
2.43.0


From ce5254bb59203c89414932e3c2189d8e81172ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:06 +0000
Subject: [PATCH 27/35] fix: CTRL-C does not stop a program half way through
 assigning INPUT

---
 Basic/run.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 3c8ce85..bdaef49 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -97,6 +97,7 @@ struct vm {
   char input[128];
   int inp;
   unsigned input_pc;
+  bool input_active; // input line has been read but not all items assigned
   // behaviour options
   bool keywords_anywhere;
   bool trace_basic;
@@ -173,6 +174,7 @@ static void reset_control_state(VM* vm) {
   vm->immediate_data = 0;
   vm->inp = -1;
   vm->input_pc = 0;
+  vm->input_active = false;
 }
 
 // Flag stored program source as changed and compiled program as out of date.
@@ -344,15 +346,17 @@ static void report_for_in_progress(VM*);
 static void abandon_statement(VM* vm) {
   vm->sp = 0;
   clear_string_stack(vm);
+  vm->input_active = false;
   if (vm->fn.code_state.code != NULL)
     end_def(vm);
 }
 
 // Whether an interrupt can stop the code here so that it can be continued:
-// not in the middle of evaluating an expression or calling a function,
-// because immediate statements use the same stacks and functions.
+// not in the middle of evaluating an expression, calling a function or
+// assigning input items, because immediate statements use the same stacks,
+// functions and input buffer.
 static bool can_break(const VM* vm) {
-  return vm->sp == 0 && vm->ssp == 0 && vm->fn.code_state.code == NULL;
+  return vm->sp == 0 && vm->ssp == 0 && vm->fn.code_state.code == NULL && !vm->input_active;
 }
 
 // Run the currently selected code from current PC.
@@ -963,6 +967,7 @@ static void execute(VM* vm) {
         puts("* Extra input was discarded *");
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
+      vm->input_active = true;
       break;
     case B_INPUT_END: {
       int c;
@@ -970,6 +975,7 @@ static void execute(VM* vm) {
         vm->inp++;
       if (c != '\0')
         puts("* Extra input was discarded *");
+      vm->input_active = false;
       break;
     }
     case B_INPUT_SEP: {
@@ -982,6 +988,7 @@ static void execute(VM* vm) {
       }
       puts("* More input items are expected *");
       vm->code_state.pc = vm->input_pc;
+      vm->input_active = false;
       return;
     }
     case B_INPUT_NUM: {
@@ -998,6 +1005,7 @@ static void execute(VM* vm) {
       for (unsigned k = 0; k < i->u.param.params; k++)
         pop(vm);
       vm->code_state.pc = vm->input_pc;
+      vm->input_active = false;
       return;
     }
     case B_INPUT_STR: {
@@ -1019,6 +1027,7 @@ static void execute(VM* vm) {
       s = estrdup(vm->input);
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       set_string(vm, sym, i->u.param.params, s);
+      vm->input_active = false;
       break;
     }
     // inline data
-- 
2.43.0


From db773a33ce48bb3775176b5fc42d82d63388c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:19 +0000
Subject: [PATCH 28/35] fix: CONT after a break just before STOP does not skip
 the STOP

---
 Basic/run.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index bdaef49..f15a8b9 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -394,8 +394,13 @@ static void run(VM* vm) {
   // On normal program end or error, clear program stopped state.
   // After running immediate code, leave program stopped state alone.
   if (vm->code_state.code == &vm->stored_program) {
-    if (!failed && (vm->stopped || interrupted))
+    if (!failed && (vm->stopped || interrupted)) {
       vm->stopped_program = vm->code_state;
+      // If continuing from STOP, continue from PC after STOP.
+      // If continuing from interrupt, continue from where we are.
+      if (vm->stopped)
+        vm->stopped_program.pc++;
+    }
     else
       clear_code_state(&vm->stopped_program);
   }
@@ -407,12 +412,6 @@ bool vm_continue(VM* vm) {
   if (vm->stopped_program.code->bcode == NULL)
     return false;
   vm->code_state = vm->stopped_program;
-  // If continuing from STOP, continue from PC after STOP.
-  // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  // If interrupted in the last statement, there is nothing left to run.
-  if (vm->stopped_program.pc < vm->stopped_program.code->bcode->used &&
-      vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
-    vm->code_state.pc++;
   run(vm);
   return true;
 }
-- 
2.43.0


From 3602c383fdb87c7e76d648371ed96bc849fc096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:07 +0000
Subject: [PATCH 29/35] fix: CLS clears the screen after what was printed
 before, not before it

---
 Shared/os.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Shared/os.c b/Shared/os.c
index 5317b87..12c03c9 100644
--- a/Shared/os.c
+++ b/Shared/os.c
@@ -16,6 +16,9 @@ void clear_screen(void) {
   NULL;
 #endif
 
+  // what has been printed so far belongs to the old screen
+  fflush(stdout);
+
   if (CMD == NULL || system(CMD) != 0) {
     // fake a new screen
     puts("\n----------------------------------------------------------------\n");
-- 
2.43.0


From af96745377a08242778dcc98a333581740483bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 30/35] fix: RENUM leaves comments alone

---
 Monitor/interactive.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index cae395f..d6723c6 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -408,6 +408,8 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
           tok = lex_next(lex);
         } while (tok == ',');
       }
+      else if (tok == TOK_REM)
+        break;
       else
         tok = lex_next(lex);
     }
-- 
2.43.0


From 41bb6cecea467a3a2f61685b8f8fc9ffd59fa7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:13 +0000
Subject: [PATCH 31/35] fix: NEXT defines its variable even after CLEAR

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index f15a8b9..57829fe 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1611,6 +1611,7 @@ static void next(VM* vm, int si) {
   }
   else {
     sym->val.num = x;
+    sym->defined = true;
     vm->code_state = f->code_state;
   }
   if (vm->trace_for)
-- 
2.43.0


From e5d54c663a05117aa5217fc4067eddc07d0a37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:02 +0000
Subject: [PATCH 32/35] fix: a string operand of ^ in an ignored argument is a
 syntax error, not left on the stack

---
 Basic/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 690e4ff..7b269db 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -813,7 +813,7 @@ static int power_expr(PARSER* parser) {
     lex_next(parser->lex);
     int type2 = power_expr(parser);
     if (type2 != TYPE_NUM)
-      return TYPE_ERR;
+      parse_error_no_token(parser, "Invalid types for power operator");
     emit(parser->bcode, B_POW);
   }
 
-- 
2.43.0


From e9e110232ae8921855da951f02681c767033b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:58 +0000
Subject: [PATCH 33/35] fix: CHR$ of 128 to 255 does not convert a number to a
 char that cannot hold it

---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 57829fe..619e094 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1080,7 +1080,7 @@ static void execute(VM* vm) {
       if (x < 0 || x > 255 || x != floor(x))
         run_error(vm, "invalid character code: %g\n", x);
       char buf[2];
-      buf[0] = (char) x;
+      buf[0] = (char)(unsigned char) x;
       buf[1] = '\0';
       push_str(vm, buf);
       break;
-- 
2.43.0


From adf1d01cf68d5c2da202cb333bb4e6621b2d4a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 34/35] fix: SAVE refuses a line that LOAD would refuse

---
 Basic/source.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Basic/source.c b/Basic/source.c
index a1ee5dc..d8ac08f 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -173,6 +173,9 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
+// Buffer for a line of a source file, including its line number, newline and terminator.
+#define LINE_BUFFER (256)
+
 // Add a line of a source file, including its line number, to the source.
 static bool load_line(SOURCE* src, char* buf) {
   size_t len = strlen(buf);
@@ -196,7 +199,7 @@ SOURCE* load_source_file(const char* name) {
     return NULL;
   }
   SOURCE* src = new_source(name);
-  char buf[256];
+  char buf[LINE_BUFFER];
   while (fgets(buf, sizeof buf, fp)) {
     if (!load_line(src, buf)) {
       fclose(fp);
@@ -215,6 +218,13 @@ SOURCE* load_source_file(const char* name) {
 }
 
 bool save_source_file(const SOURCE* src, const char* name) {
+  // renumbering can make a line too long to be loaded again
+  for (unsigned i = 0; i < src->used; i++) {
+    if (snprintf(NULL, 0, "%u %s\n", src->lines[i].num, src->lines[i].text) >= LINE_BUFFER) {
+      fprintf(stderr, "cannot save: source line is too long: %u\n", src->lines[i].num);
+      return false;
+    }
+  }
   FILE* fp = fopen(name, "w");
   if (fp == NULL) {
     fprintf(stderr, "cannot create file: %s\n", name);
-- 
2.43.0


From 64eb19d6b32bbf488c59eef7a26df586a11d44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 35/35] fix: DIM that fails leaves an existing array as it was

---
 Basic/run.c | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 619e094..29ec64b 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -550,12 +550,6 @@ static void execute(VM* vm) {
     case B_DIM_NUM: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
-      if (sym->val.numarr) {
-        assert(sym->defined);
-        delete_numeric_array(sym->val.numarr);
-        sym->val.numarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_numeric(vm, sym, i->u.param.params, max);
@@ -677,12 +671,6 @@ static void execute(VM* vm) {
     case B_DIM_STR: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
-      if (sym->val.strarr) {
-        assert(sym->defined);
-        delete_string_array(sym->val.strarr);
-        sym->val.strarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_string(vm, sym, i->u.param.params, max);
@@ -1337,11 +1325,11 @@ static void set_numeric_simple(VM* vm, SYMBOL* sym, double val) {
 static void dimension_numeric(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
 
-  sym->val.numarr = new_numeric_array(vm->array_base, ndim, max);
-  if (sym->val.numarr == NULL) {
-    sym->defined = false;
+  struct numeric_array * p = new_numeric_array(vm->array_base, ndim, max);
+  if (p == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  delete_numeric_array(sym->val.numarr); // keep any existing array until replaced
+  sym->val.numarr = p;
   sym->defined = true;
 }
 
@@ -1424,11 +1412,11 @@ static void set_string_simple(VM* vm, SYMBOL* sym, char* val) {
 static void dimension_string(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
 
-  sym->val.strarr = new_string_array(vm->array_base, ndim, max);
-  if (sym->val.strarr == NULL) {
-    sym->defined = false;
+  struct string_array * p = new_string_array(vm->array_base, ndim, max);
+  if (p == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  delete_string_array(sym->val.strarr); // keep any existing array until replaced
+  sym->val.strarr = p;
   sym->defined = true;
 }
 
-- 
2.43.0


From 9ad73d2391dd99fbd879120f849e81ebece69ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 01/46] fix: a long FAIL message overflowed the buffer of the
 error line

---
 src/crasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index f09dcf3..99cba13 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -603,7 +603,7 @@ void error(char* s)
 
   if (!(asmflags & F_NOERROR))
   {
-    sprintf(raw, "%7d ERROR: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d ERROR: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
@@ -633,7 +633,7 @@ void warning(char* s)
 
   if (!(asmflags & F_NOWARNING))
   {
-    sprintf(raw, "%7d WARNING: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d WARNING: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
-- 
2.43.0


From 42348e43920a42efe38087d2ece582ff8644b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 02/46] fix: a line with many operands overflowed the buffer of
 the filters

---
 src/crasm.c  | 1 +
 src/filter.c | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 99cba13..2377cce 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -614,6 +614,7 @@ void error(char* s)
     outputraw(raw);
   }
 
+  zerobuffer();
   outputline();
 
   if (advance != 0)
diff --git a/src/filter.c b/src/filter.c
index b4a88ed..196e342 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -31,7 +31,7 @@
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
 char* bufferpos;
-char buffer[4000];
+char buffer[1 << 18];
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
@@ -60,6 +60,13 @@ int filter(char* s, char* fil, ...)
 
   s = str_start;
   oldbufferpos = bufferpos;
+
+  /* un filtre copie au plus s, et un zero par WILDCARD */
+  if (strlen(s) + strlen(fil) + 1 >= (size_t)(buffer + sizeof(buffer) - bufferpos))
+  {
+    error("line too complex");
+  }
+
   starts = NULL;
   startf = NULL;
   va_start(ap, fil);
-- 
2.43.0


From 9dee7cf5f18e1d34c516ee854e98959a03f6cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 03/46] fix: ASC read past the end of an unterminated string

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 802939c..6b45e8d 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -232,6 +232,11 @@ int Xasc(int modifier, char* label, char* mnemo, char* oper)
 
   while ((r = *++s) != delimiter)
   {
+    if (r == 0)
+    {
+      error("unterminated string");
+    }
+
     if (r == '\\')
     {
       switch (*++s)
-- 
2.43.0


From 591aa4a19932a0f1bd338df006022da947d0ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 04/46] fix: dividing the lowest value by -1 crashed

---
 src/operator.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index e589756..ad120b4 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -412,7 +412,12 @@ void opdiv(struct result* presult, struct result* parg)
   presult->flags |= parg->flags;
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
-  if (parg->value != 0)
+  if (parg->value == -1)
+  {
+    /* LONG_MIN / -1 would trap */
+    presult->value = -(unsigned long)presult->value;
+  }
+  else if (parg->value != 0)
   {
     presult->value /= parg->value;
   }
-- 
2.43.0


From 9502bff1e3eb5c974abc6248e3b1d0b5b9615a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 05/46] fix: a register range made the assembler loop forever

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index ad120b4..12cd006 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -343,7 +343,7 @@ void opsub(struct result* presult, struct result* parg)
 
     while (lo <= hi)
     {
-      presult->value |= 1 << lo;
+      presult->value |= 1 << lo++;
     }
   }
   else
-- 
2.43.0


From d680d8686c0360d38543823cd843118b7b23460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 06/46] fix: a constant inherited the modifier of an earlier
 operand, which misled IF

---
 src/operator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operator.c b/src/operator.c
index 12cd006..1a4270c 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -35,6 +35,8 @@ static void cst(struct result* presult, long int val)
 {
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
+  presult->modifier = 0;
+  presult->ptr = NULL;
   presult->value = val;
 }
 
-- 
2.43.0


From 4d43241ce61620f4ae7ad6ec98e0be02368d7d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 07/46] fix: code following a DUMMY section was recorded at a
 wrong address

---
 src/scode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index bc85b32..fd0ab2e 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,7 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16)
+      if (rawnumber >= 16 || rawstart + rawnumber != pc)
       {
         flushscoderaw();
       }
-- 
2.43.0


From ea502e0d6ae583391cb7fec46519daabc8b839ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 08/46] fix: a record reaching into the next 64K bank had wrong
 addresses

---
 src/scode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index fd0ab2e..186170f 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,7 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16 || rawstart + rawnumber != pc)
+      if (rawnumber >= 16 || rawstart + rawnumber != pc || !(pc & 0xffff))
       {
         flushscoderaw();
       }
-- 
2.43.0


From 3b6a3c7b69390bc186a5e6f70916f9a1e4b5f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 09/46] fix: a forward label which got another address in pass
 2 went unnoticed

---
 src/label.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/label.c b/src/label.c
index 6948501..212ee5a 100644
--- a/src/label.c
+++ b/src/label.c
@@ -227,6 +227,11 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
     }
   }
 
+  if (passnumber == 2 && (q->flags & UNDEF) && (q->flags & FORWARD) && q->value != value)
+  {
+    error("phase error: label changed since it was referenced");
+  }
+
   q->flags &= USED | NOREDEF | FORWARD;
   flags    &= ~USED;
 
-- 
2.43.0


From b1f7d21012f2af7125564d74b3cea4e3f198b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 10/46] fix: Z80 arithmetic with a 16-bit or indirect operand
 assembled as another instruction

---
 src/cpuz80.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 1a370cd..c590b4b 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -622,6 +622,10 @@ static int logical(int code, char* label, char* mnemo, char* oper)
     reg = 0x46;
     arg8flag = TRUE;
   }
+  else if (!isreg8(reg))
+  {
+    error(needreg8);
+  }
 
   return docode(code + reg);
 }
-- 
2.43.0


From 6f1aaccf769070a9657510577302acc28b63db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 11/46] fix: the 6502 accepted the indexed modes of BIT, which
 only the 65C02 has

---
 src/cpu6502.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3964262..c8feea3 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -248,7 +248,8 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   if (cpuflag < 2)
   {
     if (mode == 4 || opcode == 0x7c || opcode == 0x89 ||
-                     opcode == 0x1a || opcode == 0x3a)
+                     opcode == 0x1a || opcode == 0x3a ||
+                     opcode == 0x34 || opcode == 0x3c)
     {
       error("illegal use of 65C02 addressing mode");
     }
-- 
2.43.0


From 0d99cd663720520aa095df13afa2ed9fe8d836b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 12/46] fix: ROR was accepted on the 6500

---
 src/cpu6502.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index c8feea3..01b6ede 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -239,7 +239,7 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   /* test specials modes */
   if (cpuflag < 1)
   {
-    if (code == (0x60 | 0x100 | F_noimm | F_noindy))
+    if ((code & 0xffff) == (0x60 | 0x100 | F_noimm | F_noindy))
     {
       error("no ROR instruction on 6500");
     }
-- 
2.43.0


From 6ae6187ffb1a11b340710d94c22073ed8a54c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 13/46] fix: operators of one precedence did not associate to
 the left, as in 10*3/4

---
 src/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9395b2e..2be49db 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -133,7 +133,9 @@ static void parse2(char* expr, struct result* presult)
 
         if (filter(expr, q[i].filtre, &ca, &cb))
         {
-          if (cb < c2 || j < 0)
+          /* l'operateur le plus a droite laisse le plus long reste, sauf
+             s'il suit un autre operateur: c'est alors le signe de 5+-3 */
+          if (j < 0 || (strlen(cb) > strlen(c2) && !(*cb && strchr("+-*/|&^", *cb))))
           {
             c1 = ca;
             c2 = cb;
-- 
2.43.0


From 8cc73ce66d7aaa4e5011c38746118edf331cc8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 14/46] fix: binary constants beyond 32 bits were accepted

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 1a4270c..eea88cd 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -166,7 +166,7 @@ void cstbinary(struct result* presult, char* s)
 
     r = *s - '0';
 
-    if (val > 0xefffffff)
+    if (val > 0x7fffffff)
     {
       error(overflow);
     }
-- 
2.43.0


From 07d9612b7ac66842c4144f833fa574cdeae42d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 15/46] fix: an IF, MACRO or INCLUDE ending on a last line
 without a newline was mishandled

---
 src/macro.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index c107558..61bece3 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -567,6 +567,12 @@ void linegets(char* buffer, int length)
     register char* s2;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
+
+    if (s1 && feof(source[slevel].filedesc.file))
+    {
+      clearerr(source[slevel].filedesc.file); /* last line without a newline */
+    }
+
     s2 = buffer;
     s1 = buffer;
 
-- 
2.43.0


From bedf4959b9fa9c4829b718319d6ed54b63149322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 16/46] fix: the reported code length counted both passes

---
 src/crasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 2377cce..c4018b2 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -44,6 +44,7 @@ int warnnumber;
 int segment;
 extern int includelevel;
 extern int thiscall;
+extern unsigned long codelen;
 struct label* starlabel;
 int llen;
 int ppos;
@@ -261,6 +262,7 @@ void pass(int n)
   fprintf(stderr, "Pass #%d\n", n);
 
   errnumber = warnnumber = 0;
+  codelen = 0;
 
   while (!feof(file))
   {
-- 
2.43.0


From 045a752bd4e66a1782ea5711746566d362fd1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 17/46] fix: the summary always reported zero warnings

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index c4018b2..523328c 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -636,6 +636,7 @@ void warning(char* s)
 
   if (!(asmflags & F_NOWARNING))
   {
+    warnnumber++;
     snprintf(raw, sizeof(raw), "%7d WARNING: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
-- 
2.43.0


From c4b30af0110b0fbf338ec3079dddf15bda5c22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 18/46] fix: PAGE accepted a width one column larger than the
 line buffer

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 389e396..b835d1f 100644
--- a/src/output.c
+++ b/src/output.c
@@ -82,7 +82,7 @@ void setpage(int xplen, int xllen)
     warning("page redefinition");
   }
 
-  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen > (int)sizeof(linebuffer))
+  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen >= (int)sizeof(linebuffer))
   {
     error("illegal values");
   }
-- 
2.43.0


From 3c5927047d0e132bc413ab34be7c88079ddd521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 19/46] fix: a PAGE width below 62 columns ended in a fatal
 error at the symbol table

---
 src/xref.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index ed21d52..25ce424 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -108,7 +108,11 @@ void printlabel(struct label* label)
 
   *b = 0;
   output(buffer);
-  position(newpos);
+
+  if (newpos < llen)
+  {
+    position(newpos);
+  }
 }
 
 
-- 
2.43.0


From bb3da74101712e8ff78e9b68a76290e1bc135b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 20/46] fix: DS with a negative count ran for billions of bytes

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 6b45e8d..cceb3e0 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -187,6 +187,11 @@ int Xds(int modifier, char* label, char* mnemo, char* oper)
   checktype(r, L_ABSOLUTE);
   i = r->value;
 
+  if (i < 0)
+  {
+    error("illegal count");
+  }
+
   while (i--)
   {
     insert8(init);
-- 
2.43.0


From 8afda0af3bf81e8b773ef30b231e3f3dab629817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 21/46] fix: the warning about unprintable characters named the
 line before

---
 src/macro.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 61bece3..f476a6e 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -589,13 +589,13 @@ void linegets(char* buffer, int length)
 
     *s2 = 0;
 
+    linenumber++;
+
     if (s1 != s2)
     {
       warning("Unprintable characters removed");
     }
 
-    linenumber++;
-
     if ((linenumber & 7) == 1 && passnumber == 1)
     {
       fprintf(stderr, "%d    \r", linenumber);
-- 
2.43.0


From 6d26748aec1b8578355fe5c4ee3676cf04a2c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 22/46] fix: the tail of a line of more than 249 characters was
 assembled as a line of its own

---
 src/macro.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index f476a6e..facd79e 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -565,6 +565,7 @@ void linegets(char* buffer, int length)
   {
     register char* s1;
     register char* s2;
+    int toolong = FALSE;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
 
@@ -572,6 +573,17 @@ void linegets(char* buffer, int length)
     {
       clearerr(source[slevel].filedesc.file); /* last line without a newline */
     }
+    else if (s1 && (int)strlen(buffer) == length - 1 && buffer[length - 2] != '\n')
+    {
+      int c; /* the rest must not become a line of its own */
+
+      while ((c = fgetc(source[slevel].filedesc.file)) != EOF && c != '\n')
+      {
+        toolong = TRUE;
+      }
+
+      clearerr(source[slevel].filedesc.file);
+    }
 
     s2 = buffer;
     s1 = buffer;
@@ -591,6 +603,11 @@ void linegets(char* buffer, int length)
 
     linenumber++;
 
+    if (toolong)
+    {
+      warning("Too long line");
+    }
+
     if (s1 != s2)
     {
       warning("Unprintable characters removed");
-- 
2.43.0


From 32caa7b4b209a7f47ebf7c43781c892881f9d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 23/46] fix: a code file that could not be written was reported
 as a successful assembly

---
 src/scode.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index 186170f..83071fd 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -34,6 +34,7 @@ int rawnumber;
 int rawextended;
 char raw[16];
 extern int includelevel;
+extern int errnumber;
 
 void setpc(long unsigned int addr)
 {
@@ -165,7 +166,13 @@ void closescodefile(void)
 
   if (scode)
   {
-    fclose(scode);
+    int failed = ferror(scode);
+
+    if (fclose(scode) || failed)
+    {
+      fileerror(scodename);
+      errnumber++;
+    }
   }
 }
 
-- 
2.43.0


From 97aa426246359766620c56200b3ad75b16a81d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 24/46] fix: running out of memory in a macro definition
 crashed

---
 src/macro.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index facd79e..3fec96f 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -465,6 +465,12 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     if (status & 2)
     {
       *where = (struct macroline*) malloc(sizeof(struct macroline) + strlen(s1));
+
+      if (*where == NULL)
+      {
+        fatal("no memory");
+      }
+
       (*where)->next = NULL;
       strcpy((*where)->line, s1);
       where = & ((*where)->next);
-- 
2.43.0


From ac5a0eab7ec7420ca5815d7fe19def24994228f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 25/46] fix: 6502 instructions without an accumulator mode
 accepted a register operand

'bit a' assembled to 58 (CLI) and 'inc x' to the accumulator form: the
accumulator flag was tested before the operand was known to be a
register, and any register was taken for A.
---
 src/cpu6502.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 01b6ede..cb20876 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -184,6 +184,11 @@ static int standard(int code, char* label, char* mnemo, char* oper)
 
     if (mode == 10 && r->type == L_REGS && r->modifier == 0)
     {
+      if ((code & F_noacc) || r->value != 1 /* a */)
+      {
+        error("illegal addressing mode");
+      }
+
       mode = 15;
     }
     else
-- 
2.43.0


From 805591cc7d5dcbf7bc3978773382b6a04e187ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 26/46] fix: an operand such as (a)+(b) was taken for a
 parenthesised one

---
 src/filter.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/filter.c b/src/filter.c
index 196e342..6a6772f 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -55,6 +55,8 @@ int filter(char* s, char* fil, ...)
   register char* starts;
   register char* startf;
   register int quote;
+  char prev = 0;
+  int inparen = FALSE;
   char* oldbufferpos;
   char* str_start = (s) ? s : "";
 
@@ -96,6 +98,7 @@ int filter(char* s, char* fil, ...)
       {
         startf = fil;
         starts = s;
+        inparen = (prev == '(');
       }
     }
     else if (*fil == SPACES)
@@ -160,6 +163,14 @@ int filter(char* s, char* fil, ...)
         case ')' :
           if (!(quote & 0x3))     /* "x)x" ok  */
           {
+            if (inparen && !quote)  /* (a)+(b) is not ( something ) */
+            {
+              *bufferpos = 0;
+              bufferpos = oldbufferpos;
+              va_end(ap);
+              return FALSE;
+            }
+
             quote -= 0x8;
           }
           break;
@@ -170,6 +181,11 @@ int filter(char* s, char* fil, ...)
       s = ++starts;
       fil = startf;
     }
+
+    if (*fil != SPACES)
+    {
+      prev = *fil;
+    }
   } while (*fil++ != 0);
 
   *bufferpos = 0;
-- 
2.43.0


From e932e50b603a28a2c9bbd97edbc92555777e8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 27/46] fix: ascii constants beyond 32 bits were accepted

---
 src/operator.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/operator.c b/src/operator.c
index eea88cd..e524604 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -181,7 +181,6 @@ void cstbinary(struct result* presult, char* s)
 
 void cstascii(struct result* presult, char* s)
 {
-  register unsigned long oval;
   register unsigned long val;
   register int r;
   register char delimit;
@@ -229,14 +228,12 @@ void cstascii(struct result* presult, char* s)
       }
     }
 
-    oval = val;
-
-    val = (val << 8) + r;
-
-    if ((val >> 8) != oval)
+    if (val > 0xffffff)
     {
       error(overflow);
     }
+
+    val = (val << 8) + r;
   }
 
   if (*++s)
-- 
2.43.0


From 6842fe4ae857f3dbf60a4b9d87443bec5c8c5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 28/46] fix: a sign after another operator was refused, as in
 5*-3 or --3

---
 src/parse.c | 73 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 10 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 2be49db..cdd488a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -107,10 +107,38 @@ struct oplist
 };
 
 
+/* operand_ends(s)
+   s est renverse: retourne TRUE si un operande se termine la, FALSE si c'est
+   un operateur (ou rien): un signe qui suit est alors monadique.
+   Une etoile est le label * si un operande est attendu a cet endroit.
+*/
+static int operand_ends(char* s)
+{
+  int star = FALSE;
+
+  for (;; s++)
+  {
+    if (*s == '*')
+    {
+      star = !star;
+    }
+    else if (*s != ' ' && *s != '\t')
+    {
+      break;
+    }
+  }
+
+  return star != (*s && !strchr("+-/|&^<>~", *s));
+}
+
+
 static void parse2(char* expr, struct result* presult)
 {
   register char* c1 = 0;
   register char* c2 = 0;
+  register char* end = 0;
+  char* left;
+  char c;
   char* ca;
   char* cb;
   register int i;
@@ -129,28 +157,53 @@ static void parse2(char* expr, struct result* presult)
     case 2:     /* diadiques  */
       for (i = 0; i < q->nxt; i++)
       {
-        ca = cb = NULL;
+        /* le plus a droite des operateurs de ce groupe qui suivent un operande */
+        left = expr;
 
-        if (filter(expr, q[i].filtre, &ca, &cb))
+        while (filter(left, q[i].filtre, &ca, &cb))
         {
-          /* l'operateur le plus a droite laisse le plus long reste, sauf
-             s'il suit un autre operateur: c'est alors le signe de 5+-3 */
-          if (j < 0 || (strlen(cb) > strlen(c2) && !(*cb && strchr("+-*/|&^", *cb))))
+          if (*cb && operand_ends(cb))
           {
-            c1 = ca;
-            c2 = cb;
-            j = i;
+            if (j < 0 || strlen(cb) > strlen(c2))
+            {
+              c1 = ca;
+              c2 = cb;
+              end = (left == expr) ? NULL : expr + strlen(expr) - strlen(left) + strlen(ca);
+              j = i;
+            }
+
+            break;
           }
+
+          left = cb;
         }
       }
 
-      if (j < 0 || c1 == NULL || c2 == NULL || !*c1 || !*c2)
+      if (j < 0 || c1 == NULL || c2 == NULL || (end == NULL && !*c1))
       {
         break;
       }
 
       parse2(c2, presult);
-      parse2(c1, &arg);
+
+      if (end == NULL)
+      {
+        parse2(c1, &arg);
+      }
+      else
+      {
+        /* des signes monadiques precedent l'operande */
+        while (end[-1] == ' ' || end[-1] == '\t')
+        {
+          end--;
+        }
+
+        c = *end;
+        *end = 0;
+        parse2(expr, &arg);
+        *end = c;
+      }
+
       (q[j].callop)(presult, &arg);
       return;
 
-- 
2.43.0


From 7ea8ab9a04feedf60e9704ee8bc72045affc9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 29/46] fix: an expression could not begin with the constant
 '\\'

---
 src/filter.c | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/filter.c b/src/filter.c
index 6a6772f..68a6cde 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -218,44 +218,36 @@ void reverse(char* s)
 
   for (d = s; *d; d++)
   {
-    switch (*d)
+    if (quote)
     {
-    case '\'':
-      if (! quote)
-      {
-        quote |= 0x1;
-      }
-      else if (quote & 0x1)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x1;
-        }
-      }
-      break;
+      /* un caractere precede d'un nombre impair de \ reste derriere le sien */
+      for (f = d + 1; *f == '\\'; f++)
+        ;
 
-    case '\"':
-      if (! quote)
+      if (!((f - d) & 1))
       {
-        quote |= 0x2;
+        c = *d;
+        *d++ = '\\';
+        *d = c;
+        continue;
       }
-      else if (quote & 0x2)
+    }
+
+    switch (*d)
+    {
+    case '\'':
+      if (!(quote & 0x2))
       {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x2;
-        }
+        quote ^= 0x1;
       }
       break;
 
-    case '\\':
-      if (quote)
+    case '\"':
+      if (!(quote & 0x1))
       {
-        d[0] = d[-1];
-        d[-1] = '\\';
+        quote ^= 0x2;
       }
       break;
     }
   }
 }
-
-- 
2.43.0


From 490de195b85fcc8ff1e7fc133f6a209137379126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 30/46] fix: a malformed name alone on its line was accepted as
 a label

---
 src/crasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 523328c..a4968e2 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -490,6 +490,11 @@ start:
     {
       label = mnemo;
 
+      if (checklabel(label) == FALSE)
+      {
+        error("malformed label");
+      }
+
       if (status & 2)
       {
         herelabel(label);
-- 
2.43.0


From c514bda1a4b2d6ced44d1541717e998623c9ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 31/46] fix: IF took the shift operators << and >> for
 comparisons

---
 src/macro.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 3fec96f..56e6b9c 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -91,6 +91,28 @@ static struct compar
 
 static struct result zero = { 0, L_ABSOLUTE, 0, 0, 0 };
 
+/* comparison(oper,comp,&s1,&s2)
+   filtre un operateur de comparaison, sans le confondre avec << ou >>
+*/
+static int comparison(char* oper, char* comp, char** s1, char** s2)
+{
+  char* rest = oper;
+
+  while (filter(rest, comp, s1, s2))
+  {
+    if (comp[3] != '_' || comp[2] == '=' || **s2 != comp[2])
+    {
+      rest[strlen(*s1)] = 0;
+      *s1 = oper;
+      return TRUE;
+    }
+
+    rest += strlen(rest) - strlen(*s2) + 1;
+  }
+
+  return FALSE;
+}
+
 static int testtrue(char* oper)
 {
   char* s1, *s2;
@@ -104,13 +126,8 @@ static int testtrue(char* oper)
 
   q = compar;
 
-  while (q->comp)
+  while (q->comp && !comparison(oper, q->comp, &s1, &s2))
   {
-    if (filter(oper, q->comp, &s1, &s2))
-    {
-      break;
-    }
-
     q++;
   }
 
-- 
2.43.0


From 43d198962057ad8b97021ea358402b633f0a7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 32/46] fix: macro operands were silently cut after 59
 characters

---
 src/macro.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 56e6b9c..fa27e79 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -31,6 +31,7 @@
 #include <ctype.h>
 
 #define MAXSOURCEDEEP 10
+#define MAXOPERLEN 255
 
 extern jmp_buf errorjump;
 extern int errnumber;
@@ -535,7 +536,7 @@ union
     byte oldlist;
     byte oldprefix;
     int  oldlinnum;
-    char (*replace)[60];
+    char (*replace)[MAXOPERLEN + 1];
     int  numarg;
     struct macroline* mlineptr;
   } macrodesc;
@@ -651,7 +652,7 @@ void linegets(char* buffer, int length)
   {
     register struct macroline* q;
     int numarg;
-    char (*replace)[60];
+    char (*replace)[MAXOPERLEN + 1];
     register char* s1;
     register char* s2;
 
@@ -712,6 +713,12 @@ void linegets(char* buffer, int length)
           *s1++ = *s++;
         }
 
+        if (s && *s)
+        {
+          warning("Too long line");
+          break;
+        }
+
         s2++;
       }
       else
@@ -779,7 +786,7 @@ extern int segment;
 
 int macrocall(struct label* labmacro, int status, char* oper)
 {
-  char replace[10][60];
+  char replace[10][MAXOPERLEN + 1];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
   jmp_buf errjmpsav;
@@ -805,8 +812,8 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   if (oper && *oper)
   {
-    strncpy(replace[9], oper, 59);
-    replace[9][59] = 0;
+    strncpy(replace[9], oper, MAXOPERLEN);
+    replace[9][MAXOPERLEN] = 0;
   }
 
   while (oper && *oper)
@@ -822,13 +829,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     if (filter(oper, "?_,_?", &arg1, &arg2))
     {
       oper = arg2;
-      strncpy(replace[numarg], arg1, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], arg1, MAXOPERLEN);
+      replace[numarg++][MAXOPERLEN] = 0;
     }
     else
     {
-      strncpy(replace[numarg], oper, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], oper, MAXOPERLEN);
+      replace[numarg++][MAXOPERLEN] = 0;
       oper = NULL;
     }
   }
-- 
2.43.0


From 253393373d3ad00f6d91baae951d3393d7025799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 33/46] fix: a second definition of a macro was taken for a
 call of the first

---
 src/crasm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index a4968e2..2530965 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -546,13 +546,13 @@ start:
 
   if (labmnemo->type == L_MACRO)
   {
-    if (label && oper && !strncmp(oper, "MACRO", 5))
-    {
-      error("macro is already defined");
-    }
-
     if (status & 2)
     {
+      if (oper && strcasecmp(oper, "MACRO") == 0)
+      {
+        error("macro is already defined");
+      }
+
       macrocall(labmnemo, status, oper);
     }
     else if (status & 1)
-- 
2.43.0


From 61b23436884a1722dd7f26b24c1b86bdb8f359d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 34/46] fix: lines skipped by IF were refused when their
 mnemonic was unknown

---
 src/crasm.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 2530965..eb4ebf6 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -448,7 +448,7 @@ int asmline(char* s, int status)
     mnemo = "equ";
     labmnemo = findmnemo(mnemo);
 
-    if (checklabel(label) == FALSE)
+    if ((status & 2) && checklabel(label) == FALSE)
     {
       error("malformed label");
     }
@@ -468,7 +468,7 @@ start:
       {
         label = mnemo;
 
-        if (checklabel(label) == FALSE)
+        if ((status & 2) && checklabel(label) == FALSE)
         {
           error("malformed label");
         }
@@ -490,7 +490,7 @@ start:
     {
       label = mnemo;
 
-      if (checklabel(label) == FALSE)
+      if ((status & 2) && checklabel(label) == FALSE)
       {
         error("malformed label");
       }
@@ -508,6 +508,16 @@ start:
       return 0;
     }
 
+    if (!(status & 2)) /* skipped by IF or ELSE */
+    {
+      if (status & 1)
+      {
+        outputline();
+      }
+
+      return 0;
+    }
+
     error("unknown macro or mnemonic");
   }
 
-- 
2.43.0


From 682ff1c25ef74ce2297f469abba594ec10ae442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 35/46] fix: ILIST ON took effect before its line (kept from
 the first pass)

---
 src/crasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index eb4ebf6..dac6b1a 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -244,7 +244,7 @@ void pass(int n)
 #ifdef DEBUG
   asmflags |= F_IFLIST_ON | F_MACROLIST_ON;
 #else
-  asmflags &= ~ F_MACROLIST_ON;
+  asmflags &= ~ (F_MACROLIST_ON | F_INCLUDELIST_ON);
   asmflags |=   F_IFLIST_ON;
 #endif
   macrolevel    = 0;
-- 
2.43.0


From c090b681a8d93c51bdae926587255b4d9cfcb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 36/46] fix: the call of a macro which changes MLIST was not
 listed, or twice

---
 src/macro.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index fa27e79..417dca7 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -789,6 +789,7 @@ int macrocall(struct label* labmacro, int status, char* oper)
   char replace[10][MAXOPERLEN + 1];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
+  int mlist = asmflags & F_MACROLIST_ON; /* the body may change it */
   jmp_buf errjmpsav;
   char curlinesav[256];
 
@@ -846,7 +847,7 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   source[slevel].macrodesc.replace  = replace;
 
-  if (asmflags & F_MACROLIST_ON)
+  if (mlist)
   {
     if (status & 1)
     {
@@ -861,7 +862,7 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   mystatus = 2;
 
-  if ((asmflags & F_MACROLIST_ON))
+  if (mlist)
   {
     mystatus |= 1;
   }
@@ -898,7 +899,7 @@ int macrocall(struct label* labmacro, int status, char* oper)
     error("ELSE or ENDC illegal here");
   }
 
-  if (!(asmflags & F_MACROLIST_ON))
+  if (!mlist)
   {
     strcpy(curline, curlinesav);
 
-- 
2.43.0


From 0f9b063b3ffecea61df515448e60f013e2b49ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 37/46] fix: Z80 IN and OUT refused blanks within their
 parentheses

---
 src/cpuz80.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index c590b4b..738e135 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -495,8 +495,8 @@ static int inout(int code, char* label, char* mnemo, char* oper)
   CLRALL;
 
   if ((!(code & 8)) ?
-      filter(oper, "(?)_,_?", &op1, &op2)
-      : filter(oper, "?_,_(?)", &op2, &op1))
+      filter(oper, "(_?_)_,_?", &op1, &op2)
+      : filter(oper, "?_,_(_?_)", &op2, &op1))
   {
     reg = getreg(op1);
 
-- 
2.43.0


From f94b47cdddaeeb1d0bb7a21ae0f3399938930010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:38 +0000
Subject: [PATCH 38/46] fix: a source which cannot be read, as a directory,
 made the assembler loop forever

---
 src/macro.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 417dca7..c9628e8 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -593,6 +593,11 @@ void linegets(char* buffer, int length)
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
 
+    if (ferror(source[slevel].filedesc.file))
+    {
+      fatal("can't read source file");
+    }
+
     if (s1 && feof(source[slevel].filedesc.file))
     {
       clearerr(source[slevel].filedesc.file); /* last line without a newline */
-- 
2.43.0


From 1afc0fca91654d0470a19c850d8f6325257ae528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:10 +0000
Subject: [PATCH 39/46] fix: INCLUDE in a macro was listed in spite of MLIST
 OFF

---
 src/dcl.h           |  2 +-
 src/macro.c         | 14 ++++++++++++--
 src/stdvocabulary.c |  2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dcl.h b/src/dcl.h
index 5d5e059..24d55c5 100644
--- a/src/dcl.h
+++ b/src/dcl.h
@@ -143,7 +143,7 @@ extern int  Xendc(int status, char* label, char* mnemo, char* oper);
 
 /* external: pseudos.c */
 extern int  Xequ(int modifier, char* label, char* mnemo, char* oper);
-extern int  Xinclude(int modifier, char* label, char* mnemo, char* oper);
+extern int  Xinclude(int status, char* label, char* mnemo, char* oper);
 extern int  Xdc(int modifier, char* label, char* mnemo, char* oper);
 extern int  Xds(int modifier, char* label, char* mnemo, char* oper);
 extern int  Xalign(int modifier, char* label, char* mnemo, char* oper);
diff --git a/src/macro.c b/src/macro.c
index c9628e8..047f9ff 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -737,11 +737,21 @@ void linegets(char* buffer, int length)
 }
 
 /* include   */
-int Xinclude(int modifier, char* label, char* mnemo, char* oper)
+int Xinclude(int status, char* label, char* mnemo, char* oper)
 {
   FILE* f;
   register int slevel;
 
+  if (!(status & 2)) /* skipped by IF or ELSE */
+  {
+    if (status & 1)
+    {
+      outputline();
+    }
+
+    return 0;
+  }
+
   if (!oper)
   {
     error("no filename");
@@ -767,7 +777,7 @@ int Xinclude(int modifier, char* label, char* mnemo, char* oper)
   source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;
   source[slevel].filedesc.file  = f;
 
-  if (asmflags & F_LIST_ON)
+  if (status & 1)
   {
     outputline();
   }
diff --git a/src/stdvocabulary.c b/src/stdvocabulary.c
index 2fb6290..2283a81 100644
--- a/src/stdvocabulary.c
+++ b/src/stdvocabulary.c
@@ -50,7 +50,7 @@ struct label pseudos[] =
   defpseudo("FAIL", NOLABEL, Xfail)
   defpseudo("IF", NOLABEL  | DEFCOND, Xif)
   defpseudo("ILIST", NOLABEL, Xilist)
-  defpseudo("INCLUDE", NOLABEL, Xinclude)
+  defpseudo("INCLUDE", NOLABEL | DEFMACRO, Xinclude)
   defpseudo("LIST", NOLABEL, Xlist)
   defpseudo("MACRO", DEFLABEL | DEFMACRO, Xmacro)
   defpseudo("MLIST", NOLABEL, Xmlist)
-- 
2.43.0


From 887c80c453a1d3ab72687a4532e7b1e8df1cccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:03 +0000
Subject: [PATCH 40/46] fix: a file left by EXITM in a macro was never closed

---
 src/macro.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 047f9ff..ee7011f 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -895,6 +895,11 @@ int macrocall(struct label* labmacro, int status, char* oper)
     flag = asmline(curline, status & mystatus);
   } while (flag == 0);
 
+  while (sourcelevel > slevel) /* files left by EXITM */
+  {
+    fclose(source[sourcelevel--].filedesc.file);
+  }
+
   macrolevel--;
   linenumber = source[slevel].filedesc.oldlinnum;
   lineprefix = source[slevel].filedesc.oldprefix;
-- 
2.43.0


From f8954b3e0022496119a4254765e1395ba7840985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 41/46] fix: code of a file included by an unlisted macro was
 missing at its call

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index ee7011f..841cea9 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -786,7 +786,7 @@ int Xinclude(int status, char* label, char* mnemo, char* oper)
   sourcelevel = slevel;
   includelevel++;
 
-  if (!(asmflags & F_INCLUDELIST_ON))
+  if (!(asmflags & F_INCLUDELIST_ON) && (status & 1))
   {
     asmflags &= ~F_LIST_ON;
   }
-- 
2.43.0


From 127fb4a110ee478dbc1295120c60f465b96d8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 42/46] fix: lines skipped by IF or ELSE were refused for a
 label they may not have or lack

---
 src/crasm.c | 4 ++--
 src/macro.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index dac6b1a..c4dc387 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -523,7 +523,7 @@ start:
 
   if (labmnemo->flags & NOLABEL)
   {
-    if (label)
+    if (label && ((status & 2) || (labmnemo->flags & DEFCOND)))
     {
       error("labels not allowed here");
     }
@@ -531,7 +531,7 @@ start:
 
   if (labmnemo->flags & DEFLABEL)
   {
-    if (!label)
+    if (!label && ((status & 2) || (labmnemo->flags & DEFMACRO)))
     {
       error("label required here");
     }
diff --git a/src/macro.c b/src/macro.c
index 841cea9..05a18d3 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -382,7 +382,7 @@ struct macroline
 
 int Xexitm(int status, char* label, char* mnemo, char* oper)
 {
-  if (oper)
+  if (oper && (status & 2))
   {
     error("no operand allowed in EXITM statement");
   }
@@ -403,7 +403,7 @@ int Xexitm(int status, char* label, char* mnemo, char* oper)
 
 int Xendm(int status, char* label, char* mnemo, char* oper)
 {
-  if (oper)
+  if (oper && (status & 2))
   {
     error("no operand allowed in ENDM statement");
   }
-- 
2.43.0


From 0107a27d2c7c4dca8bc23eb4bdcd2d1fa84b9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:54 +0000
Subject: [PATCH 43/46] fix: an operand beyond 16 bits was taken for one of 8
 bits, without a warning

---
 src/cpu6502.c | 4 ++--
 src/cpu6800.c | 4 ++--
 src/cpuz80.c  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index cb20876..3c20d65 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -198,13 +198,13 @@ static int standard(int code, char* label, char* mnemo, char* oper)
 
     value = r->value;
 
-    if ((value & 0xFF00) || (r->flags & FORWARD))
+    if ((value & 0xFFFFFF00) || (r->flags & FORWARD))
     {
       if (mode != 12)
       {
         mode |= 1;
       }
-      else if (value & 0xFF00)
+      else if (value & 0xFFFFFF00)
       {
         warning("operand overflow");
       }
diff --git a/src/cpu6800.c b/src/cpu6800.c
index c967937..4acba6e 100644
--- a/src/cpu6800.c
+++ b/src/cpu6800.c
@@ -103,7 +103,7 @@ static int findmode(char* oper, int* pvalue)
       if (q->add == 0x30)
       {
         if (!(r->flags & FORWARD) &&
-            !(r->value & 0xff00))
+            !(r->value & 0xffffff00))
         {
           return 0x10;
         }
@@ -139,7 +139,7 @@ static void codemode(int code, int add, int value)
   {
     insert8(value); /* direct, indexed and */
 
-    if (value & 0xff00) /* 8 bits immediate */
+    if (value & 0xffffff00) /* 8 bits immediate */
     {
       if (add == 0x20)
       {
diff --git a/src/cpuz80.c b/src/cpuz80.c
index 738e135..6a726ec 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -211,7 +211,7 @@ static int docode(int code)
   {
     insert8(arg);
 
-    if (arg & 0xff00)
+    if (arg & 0xffffff00)
     {
       warning("argument overflow");
     }
-- 
2.43.0


From b18d07636ce47caded55e416e3fbab2a5ac5483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:55 +0000
Subject: [PATCH 44/46] fix: RST accepted vectors beyond 16 bits

---
 src/cpuz80.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 6a726ec..4570dd6 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -307,14 +307,14 @@ static int rst(int code, char* label, char* mnemo, char* oper)
   r = parse(oper);
   checktype(r, L_ABSOLUTE);
 
-  if (!(r->value & 0xfff8))
+  if (!(r->value & 0xfffffff8))
   {
     r->value <<= 3;
   }
 
   insert8(0xc7 | r->value);
 
-  if (r->value & 0xffc7)
+  if (r->value & 0xffffffc7)
   {
     error("Bad RST vector");
   }
-- 
2.43.0


From a9bd300faeee8122a9e35ee2ec2a0d39b27b7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:54 +0000
Subject: [PATCH 45/46] fix: labels such as asl.x were taken for a 6502
 instruction with a size

---
 src/cpu6502.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3c20d65..3f5a12f 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -27,7 +27,7 @@
 #define F_noimm     (1<<12)
 #define F_noacc     (1<<13)
 #define F_noindx    (1<<14)
-#define F_noindy    (1<<15)
+#define F_noindy    (1<<11) /* not 1<<15: negative modifiers are for sized mnemonics */
 
 /* n: name
    t: instruction type
@@ -35,7 +35,7 @@
    b: base address: opcode = b+offset
 */
 
-#define m2_offset   (offsettable[ (code>>8) & 0xf ])
+#define m2_offset   (offsettable[ (code>>8) & 0x7 ])
 #define m2_base     (code & 0xff)
 
 
-- 
2.43.0


From dcad54d5da4d1f9a45fd6e5dbb4de66f052cb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:38 +0000
Subject: [PATCH 46/46] fix: labels such as asl.x or ldir.1 were taken for an
 instruction with a size

---
 src/cpu6502.c | 4 ++--
 src/crasm.c   | 2 +-
 src/dcl.h     | 1 +
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3f5a12f..3c20d65 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -27,7 +27,7 @@
 #define F_noimm     (1<<12)
 #define F_noacc     (1<<13)
 #define F_noindx    (1<<14)
-#define F_noindy    (1<<11) /* not 1<<15: negative modifiers are for sized mnemonics */
+#define F_noindy    (1<<15)
 
 /* n: name
    t: instruction type
@@ -35,7 +35,7 @@
    b: base address: opcode = b+offset
 */
 
-#define m2_offset   (offsettable[ (code>>8) & 0x7 ])
+#define m2_offset   (offsettable[ (code>>8) & 0xf ])
 #define m2_base     (code & 0xff)
 
 
diff --git a/src/crasm.c b/src/crasm.c
index c4dc387..3793b7a 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -321,7 +321,7 @@ static struct label* findmnemo(char* mnemo)
 
   labmnemo = searchlabel(mnemo);
 
-  if (labmnemo == NULL) /* sizer 68k */
+  if (labmnemo == NULL && (asmflags & F_SIZES)) /* sizer 68k */
   {
     if (filter(mnemo, "?.?", &aux1, &aux2))
     {
diff --git a/src/dcl.h b/src/dcl.h
index 24d55c5..d4766ef 100644
--- a/src/dcl.h
+++ b/src/dcl.h
@@ -76,6 +76,7 @@ extern char lineprefix;
 #define F_RELATIF        (1<<11)
 #define F_CODE_HEX       (1<<12)
 #define F_CODE_SCODE     (1<<13)
+#define F_SIZES          (1<<14) /* CPU with sizes, 68k-like */
 
 #define F_NOLIST         (1<<16)
 #define F_NOWARNING      (1<<17)
-- 
2.43.0


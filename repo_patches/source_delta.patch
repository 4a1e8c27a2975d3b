From 5dfe4578131ad02ee39c08781a2971e9ca9f4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 01/26] fix: smlrl: refuse absolute symbols instead of indexing
 sections out of bounds

---
 v0100/smlrl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 6c2dc37..119477a 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1655,6 +1655,8 @@ uint32 FindSymbolAddress(const char* SymName)
           tElfSection* pSect;
           if (pSym->st_shndx == SHN_COMMON)
             error("Common symbols unsupported\n");
+          if (pSym->st_shndx >= SHN_LORESERVE)
+            error("Absolute symbols unsupported\n");
           pSect = &pMeta->pSections[pSym->st_shndx];
           addr = pSect->OutOffset + pSym->st_value;
           return addr;
@@ -1720,6 +1722,8 @@ void Relocate(tElfMeta* pMeta, tElfSection* pRelSect, Elf32_Rel* pRel, unsigned
 #ifdef SUPPORT_LOCAL_RELS
     else if ((pSym->st_info >> 4) == STB_LOCAL)
     {
+      if (pSym->st_shndx >= SHN_LORESERVE)
+        error("Absolute symbols unsupported\n");
       symAddr = pMeta->pSections[pSym->st_shndx].OutOffset + pSym->st_value;
     }
 #endif
@@ -3585,6 +3589,7 @@ void GenerateMap(void)
           // Check exported symbols
           if ((pSym->st_info >> 4) == STB_GLOBAL &&
               pSym->st_shndx &&
+              pSym->st_shndx < SHN_LORESERVE &&
               pSym->st_name)
           {
             tElfSection* pSymSect = &pMeta->pSections[pSym->st_shndx];
-- 
2.43.0


From 8f9fbd046b4f5837af144e66d11031f2c18acbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 02/26] fix: smlrcc: quote arguments for sh with single quotes

---
 v0100/smlrcc.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 2d80b1f..868dfe9 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -574,6 +574,47 @@ void fatargs(int* pargc, char*** pargv)
   *pargv = pp;
 }
 
+#ifdef UNIX_LIKE
+int EscapingNeeded(char* s)
+{
+  return *s == '\0' || strpbrk(s, " \t\n\"\\'`$&|;<>()[]{}*?!#~^=%") != NULL;
+}
+
+// Commands are executed by sh: nothing is special inside single quotes,
+// except the single quote itself, which is output as '\''.
+size_t Escape(char* out, char* in, size_t outsz)
+{
+  size_t sz = 0;
+  int c;
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  while ((c = *in++) != '\0')
+  {
+    if (c == '\'')
+    {
+      if (sz++ < outsz)
+        *out++ = '\'';
+      if (sz++ < outsz)
+        *out++ = '\\';
+      if (sz++ < outsz)
+        *out++ = '\'';
+    }
+
+    if (sz++ < outsz)
+      *out++ = c;
+  }
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  if (sz++ < outsz)
+    *out++ = '\0';
+
+  return sz;
+}
+#else
 int EscapingNeeded(char* s)
 {
   // Looks like DOS' COMMAND.COM and Windows' cmd.exe handle %
@@ -634,6 +675,7 @@ size_t Escape(char* out, char* in, size_t outsz)
 
   return sz;
 }
+#endif
 
 void AddOptionInner(char** options, size_t* len, char* option, int escape)
 {
-- 
2.43.0


From 77773de348455d1dba668fa2bac373ff4e84008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 03/26] fix: smlrcc: accept repeated -ppg and -nopp

---
 v0100/smlrcc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 868dfe9..3eeabb9 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -1439,6 +1439,7 @@ int main(int argc, char* argv[])
       PreprocessWithGcc = 1;
       memmove(argv + i, argv + i + 1, (argc - i) * sizeof(char*));
       argc--;
+      i--;
     }
   }
   // Check if an external preprocessor shouldn't be used.
@@ -1451,6 +1452,7 @@ int main(int argc, char* argv[])
       UseExternalPreprocessor = PreprocessWithGcc = 0;
       memmove(argv + i, argv + i + 1, (argc - i) * sizeof(char*));
       argc--;
+      i--;
     }
   }
   if (PreprocessWithGcc)
-- 
2.43.0


From eb0193a5bae2dd260fd7dd51585de2ea81f9f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 04/26] fix: smlrcc: no standard library with -flat16/-flat32

---
 v0100/smlrcc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 3eeabb9..017552f 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -1873,6 +1873,10 @@ int main(int argc, char* argv[])
 #endif
   }
 
+  // There's no standard library for the raw flat formats
+  if (!LibName[OutputFormat])
+    LinkStdLib = 0;
+
   // Choose a default executable name if not specified explicitly
   if (!DontLink && !OutName)
   {
-- 
2.43.0


From 1d77c1aca94d19ab79fd8dd9944224f400703e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 05/26] fix: smlrcc: remove temporary object files when
 assembling fails

---
 v0100/smlrcc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 017552f..64a5777 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -903,7 +903,6 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, asmName);
 
     AddFile(&TemporaryFiles, &TemporaryFilesLen, asmName);
-    // TBD!!! also, if CompileToAsm==0, add .o file to temps here
     System(cmd);
 
     free(cmd);
@@ -948,6 +947,9 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, "-o");
     AddOption(&cmd, &cmdlen, objName);
 
+    // Temporary object files will be removed at the end
+    if (!DontLink || DoArchive)
+      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
     System(cmd);
 
     free(cmd);
@@ -961,13 +963,10 @@ void Compile(char* name)
     if (!DontLink)
     {
       AddOption(&LinkerOptions, &LinkerOptionsLen, objName);
-      // Temporary object files will be removed at the end
-      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
     }
     else if (DoArchive)
     {
       AddFile(&ArchiveFiles, &ArchiveFilesLen, objName);
-      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
     }
 
     if (objName != OutName)
-- 
2.43.0


From a930c04423779f1752d48d9c6c4fff41300ebfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 06/26] fix: n2f: don't loop forever when reading the input
 fails

---
 v0100/n2f.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 7d87644..6b36a95 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -317,7 +317,9 @@ void n2f1(FILE* fin, long start, long end, FILE* fout)
 {
   fseek(fin, start, SEEK_SET);
 
-  while (start >= 0 && start < end) // ensure start>=0: prevent infinite loop if ftell() fails
+  // ensure start>=0: prevent infinite loop if ftell() fails;
+  // feof(), ferror(): prevent infinite loop if read fails
+  while (start >= 0 && start < end && !feof(fin) && !ferror(fin))
   {
     char ident[sizeof "extern"/*longest of directives being replaced*/ +
                1/*+1 in case it's longer, e.g. "externs"; space for NUL included in sizeof*/];
-- 
2.43.0


From 3c7d17452a84b5717699c0d212588d0183dc86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 07/26] fix: n2f: report write errors found when closing the
 output

---
 v0100/n2f.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 6b36a95..b8bf0e6 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -450,7 +450,11 @@ void convert(void)
 
   fclose(fin);
   fin = NULL;
-  fclose(fout);
+  if (fclose(fout))
+  {
+    fout = NULL;
+    error("Failed to write file '%s'\n", out);
+  }
   fout = NULL;
 }
 
-- 
2.43.0


From 849b87ca9e8e37612f4eaba12f437949555b94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:19 +0000
Subject: [PATCH 08/26] fix: n2f: report seek failures

---
 v0100/n2f.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index b8bf0e6..4399695 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -277,7 +277,8 @@ void findFrags(FILE* f)
       char name[MAX_SEC_NAME_LEN + 1/*+1 in case it's longer*/ + 1/*NUL*/];
     } u;
 
-    end = ftell(f);
+    if ((end = ftell(f)) < 0)
+      error("Failed to read file '%s'\n", InName);
 
     skipSpaces(f);
     readNonspace(f, u.ident, sizeof u.ident - 1);
@@ -295,7 +296,8 @@ void findFrags(FILE* f)
         error("Section name missing\n");
 
       skipLine(f);
-      start = ftell(f);
+      if ((start = ftell(f)) < 0)
+        error("Failed to read file '%s'\n", InName);
       endFrag(end);
       beginFrag(start, u.name, line + 1); // fragment actually begins on the next line
     }
@@ -307,7 +309,8 @@ void findFrags(FILE* f)
     line++;
   } while (!feof(f) && !ferror(f)); // ferror(): prevent infinite loop if read/seek fails
 
-  end = ftell(f);
+  if ((end = ftell(f)) < 0)
+    error("Failed to read file '%s'\n", InName);
   endFrag(end);
 
   qsort(frag, fragCnt, sizeof(frag[0]), &fragCmp);
@@ -315,11 +318,11 @@ void findFrags(FILE* f)
 
 void n2f1(FILE* fin, long start, long end, FILE* fout)
 {
-  fseek(fin, start, SEEK_SET);
+  if (fseek(fin, start, SEEK_SET))
+    error("Failed to read file '%s'\n", InName);
 
-  // ensure start>=0: prevent infinite loop if ftell() fails;
   // feof(), ferror(): prevent infinite loop if read fails
-  while (start >= 0 && start < end && !feof(fin) && !ferror(fin))
+  while (start < end && !feof(fin) && !ferror(fin))
   {
     char ident[sizeof "extern"/*longest of directives being replaced*/ +
                1/*+1 in case it's longer, e.g. "externs"; space for NUL included in sizeof*/];
@@ -376,7 +379,8 @@ void n2f1(FILE* fin, long start, long end, FILE* fout)
     }
 
     line++;
-    start = ftell(fin);
+    if ((start = ftell(fin)) < 0)
+      error("Failed to read file '%s'\n", InName);
   }
 }
 
-- 
2.43.0


From 7100f5d2f8936cfe0ff26e17f416e732ed9e76e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 09/26] fix: n2f: quote file names in the assembler command

---
 v0100/n2f.c | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 4399695..2082088 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -85,6 +85,13 @@
 #include <stdlib.h>
 #include <string.h>
 
+#ifdef HOST_MACOS
+#define UNIX_LIKE
+#endif
+#ifdef HOST_LINUX
+#define UNIX_LIKE
+#endif
+
 #define MAX_FRAGS 3000
 #define MAX_SECS  32
 #define MAX_SEC_NAME_LEN 32
@@ -462,10 +469,37 @@ void convert(void)
   fout = NULL;
 }
 
+// Appends a file name to a command, quoting it for the shell
+void addName(char* cmd, char* name)
+{
+  char* p = cmd + strlen(cmd);
+  *p++ = ' ';
+#ifdef UNIX_LIKE
+  // Nothing is special to sh inside single quotes, except the single quote
+  // itself, which is output as '\''
+  *p++ = '\'';
+  for (; *name; name++)
+  {
+    if (*name == '\'')
+    {
+      *p++ = '\'';
+      *p++ = '\\';
+      *p++ = '\'';
+    }
+    *p++ = *name;
+  }
+  *p++ = '\'';
+  *p = '\0';
+#else
+  sprintf(p, strpbrk(name, " \t&^") ? "\"%s\"" : "%s", name);
+#endif
+}
+
 void fassemble(char* argv0)
 {
   size_t argv0l = strlen(argv0);
-  size_t cmdsz = strlen(IntermidName) + (OutName ? 1 + strlen(OutName) : 0) + 1/*NUL*/;
+  // Quoting may produce up to 4 chars from one, plus 2 quotes
+  size_t cmdsz = 4 * strlen(IntermidName) + 2 + (OutName ? 1 + 4 * strlen(OutName) + 2 : 0) + 1/*NUL*/;
   char* pfasm;
   char* cmd;
   int res;
@@ -488,13 +522,9 @@ void fassemble(char* argv0)
     error("Out of memory\n");
 
   strcpy(cmd, pfasm);
-  strcat(cmd, " ");
-  strcat(cmd, IntermidName);
+  addName(cmd, IntermidName);
   if (OutName)
-  {
-    strcat(cmd, " ");
-    strcat(cmd, OutName);
-  }
+    addName(cmd, OutName);
 
   res = system(cmd);
 
-- 
2.43.0


From f53c036b71a4ed547fbefc63f42ebc9ef5501af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 10/26] fix: smlrc: accept address constants with several
 offsets in initialisers

---
 v0100/smlrc.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 04681be..4a28169 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -7398,27 +7398,25 @@ int InitScalar(int synPtr, int tok)
   }
   else if (elementSz == (unsigned)SizeOfWord)
   {
+    int ofs = 0;
+    // Accumulate constant offsets, there can be several,
+    // e.g. in &arr[1].member or &struc.member.member
+    while ((ttop == '+' || ttop == '-') &&
+           (stack[sp - 2][0] == tokNumInt || stack[sp - 2][0] == tokNumUint))
+    {
+      ofs += (ttop == '+') ? stack[sp - 2][1] : -stack[sp - 2][1];
+      sp -= 2;
+      ttop = stack[sp - 1][0];
+    }
     if (ttop == tokIdent)
     {
-      GenAddrData(elementSz, IdentTable + stack[sp - 1][1], 0);
+      GenAddrData(elementSz, IdentTable + stack[sp - 1][1], ofs);
     }
-    else if (ttop == '+' || ttop == '-')
+    else if (ttop == '+' &&
+             stack[sp - 2][0] == tokIdent &&
+             (stack[sp - 3][0] == tokNumInt || stack[sp - 3][0] == tokNumUint))
     {
-      int tleft = stack[sp - 3][0];
-      int tright = stack[sp - 2][0];
-      if (tleft == tokIdent &&
-          (tright == tokNumInt || tright == tokNumUint))
-      {
-        GenAddrData(elementSz, IdentTable + stack[sp - 3][1], (ttop == '+') ? stack[sp - 2][1] : -stack[sp - 2][1]);
-      }
-      else if (ttop == '+' &&
-               tright == tokIdent &&
-               (tleft == tokNumInt || tleft == tokNumUint))
-      {
-        GenAddrData(elementSz, IdentTable + stack[sp - 2][1], stack[sp - 3][1]);
-      }
-      else
-        errorNotConst();
+      GenAddrData(elementSz, IdentTable + stack[sp - 2][1], stack[sp - 3][1] + ofs);
     }
     else
       errorNotConst();
-- 
2.43.0


From e8d7fa0b2207357188249082805b69e978f5ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 11/26] fix: libc: printf: # prefix of %hx/%hhx follows the
 converted value

---
 v0100/srclib/doprint.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/doprint.c b/v0100/srclib/doprint.c
index 796328d..4968847 100644
--- a/v0100/srclib/doprint.c
+++ b/v0100/srclib/doprint.c
@@ -483,8 +483,6 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         base = 16;
         if (c == 'X')
           digits = "0123456789ABCDEF";
-        if (alt && v)
-          hexpfx = (c == 'X') ? "0X" : "0x";
       }
 
       if (c != 'd')
@@ -505,6 +503,10 @@ int __doprint(FILE* f, char* fmt, va_list vl)
           v = -v, sign = '-';
       }
 
+      // the prefix depends on the value that gets printed (see hh and h above)
+      if (alt && v && toupper(c) == 'X')
+        hexpfx = (c == 'X') ? "0X" : "0x";
+
       tmp = v;
       do
       {
-- 
2.43.0


From e08419a9d3491f06e22ae8f7a80273c7f851fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 12/26] fix: libc: ignore excess fraction digits in strtof()
 and scanf() without scaling the value

---
 v0100/srclib/doscan.c | 3 +--
 v0100/srclib/strtof.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 29cecfb..307291b 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -373,8 +373,7 @@ lmatchchars2:
               chcnt++; width--;
               gotfrct = 2; // got fractional part digits: non-zero
               if (mcnt < MAX_FP_DIGITS)
-                digits[mcnt++] = c2 - '0';
-              mexp--; // TBD??? overflow
+                digits[mcnt++] = c2 - '0', mexp--; // TBD??? overflow
             }
             else if (toupper(c2) == 'E' && (gotint | gotfrct))
             {
diff --git a/v0100/srclib/strtof.c b/v0100/srclib/strtof.c
index bc6f7d8..17615b8 100644
--- a/v0100/srclib/strtof.c
+++ b/v0100/srclib/strtof.c
@@ -87,8 +87,7 @@ float strtof(char* nptr, char** endptr)
       {
         gotfrct = 2; // got fractional part digits: non-zero
         if (mcnt < MAX_FP_DIGITS)
-          digits[mcnt++] = c - '0';
-        mexp--; // TBD??? overflow
+          digits[mcnt++] = c - '0', mexp--; // TBD??? overflow
         nptr++;
       }
     }
-- 
2.43.0


From dc661137869c8c21bd4173ed9f6e76e8817bacd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 13/26] fix: libc: scanf: don't count EOF as a character for %n

---
 v0100/srclib/doscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 307291b..8180d2c 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -34,7 +34,8 @@ int __doscan(FILE* f, char* fmt, va_list vl)
         chcnt++;
       } while (isspace(c2));
       if (c2 != EOF)
-        ungetc(c2, f), chcnt--;
+        ungetc(c2, f);
+      chcnt--; // the last one is either not consumed or EOF
     }
 
     else if (c != '%' || *fmt == '%')
-- 
2.43.0


From bcbaef8c6092b7c726a3dc111da426d02f06cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 14/26] fix: libc: scanf: skip white space before matching %%

---
 v0100/srclib/doscan.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 8180d2c..dd990e2 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -40,7 +40,14 @@ int __doscan(FILE* f, char* fmt, va_list vl)
 
     else if (c != '%' || *fmt == '%')
     {
-      fmt += (c == '%');
+      if (c == '%') // %% skips white space like most other conversions
+      {
+        fmt++;
+        while (isspace(c2 = fgetc(f)))
+          chcnt++;
+        if (c2 != EOF)
+          ungetc(c2, f);
+      }
       goto lmatchchars2;
 lmatchchars:
       if ((c = (unsigned char)*fmt++) == '\0')
-- 
2.43.0


From 182eb6c4db4e5a61dbfd98b431291fffe9678add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 15/26] fix: libc: strtof: cap huge exponents instead of
 rejecting the number

---
 v0100/srclib/strtof.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/v0100/srclib/strtof.c b/v0100/srclib/strtof.c
index 17615b8..4fed0d0 100644
--- a/v0100/srclib/strtof.c
+++ b/v0100/srclib/strtof.c
@@ -112,11 +112,9 @@ float strtof(char* nptr, char** endptr)
         if (ex10 / 10 != eexp ||
             ex10 + d < ex10 ||
             ex10 + d > (unsigned)-1 / 2)
-        {
-          nptr = nptr0;
-          goto lend;
-        }
-        eexp = ex10 + d;
+          eexp = (unsigned)-1 / 2; // cap exponent
+        else
+          eexp = ex10 + d;
         nptr++;
       }
       if (!gotexp)
-- 
2.43.0


From f8748ebc9e407f9fa122e1f007965b8737bd6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:22 +0000
Subject: [PATCH 16/26] fix: libc: malloc: never shrink the Linux heap for a
 huge request

---
 v0100/srclib/malloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/malloc.c b/v0100/srclib/malloc.c
index 804c020..de342e7 100644
--- a/v0100/srclib/malloc.c
+++ b/v0100/srclib/malloc.c
@@ -303,11 +303,12 @@ void* malloc(unsigned size)
   else
   {
     togrow = size + 2*HEADER_FOOTER_SZ;
-    if ((int)togrow <= 0)
-      return 0;
     blk = (unsigned*)__heap_stop;
   }
 
+  if ((int)togrow <= 0) // too large (a negative increment would shrink the heap)
+    return 0;
+
   if ((int)__sbrk(togrow) != -1)
   {
     unsigned* nxtblk = (unsigned*)((unsigned)blk + 2*HEADER_FOOTER_SZ + size);
-- 
2.43.0


From 3d4fd323b869f09f843f3165a08c1240d645a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:36 +0000
Subject: [PATCH 17/26] fix: libc: fseek: SEEK_CUR counts from the stream's
 position, not the buffer's end

---
 v0100/srclib/fseek.c   |  4 ++++
 v0100/srclib/fseek16.c | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/fseek.c b/v0100/srclib/fseek.c
index 3e7610f..7b7c233 100644
--- a/v0100/srclib/fseek.c
+++ b/v0100/srclib/fseek.c
@@ -48,6 +48,10 @@ int fseek(FILE* f, long offset, int whence)
     return -1;
   }
 
+  // When reading, the file's position is past the data that's still in the buffer
+  if (whence == SEEK_CUR && (f->flags & _IORD))
+    offset -= f->cnt;
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
diff --git a/v0100/srclib/fseek16.c b/v0100/srclib/fseek16.c
index 54523cc..43593ab 100644
--- a/v0100/srclib/fseek16.c
+++ b/v0100/srclib/fseek16.c
@@ -80,6 +80,16 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
     return -1;
   }
 
+  pos = *offset; // preserve the position parameter
+
+  // When reading, the file's position is past the data that's still in the buffer
+  if (whence == SEEK_CUR && (f->flags & _IORD))
+  {
+    fpos_t t;
+    __lngFromUnsigned(&t, f->cnt);
+    __lngSub(&pos, &t);
+  }
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
@@ -91,7 +101,6 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
   if (f->flags & _IOAPPEND)
     return 0;
 
-  pos = *offset; // preserve the position parameter
   if (__lseekp(f->fd, &pos, whence))
   {
     return -1;
-- 
2.43.0


From 1d17ed75acf9ef412b482c9f2129f9f6fb5bd291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:42 +0000
Subject: [PATCH 18/26] fix: libc: allow writing to a read-write stream right
 after reading its end

---
 v0100/srclib/flushbuf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/srclib/flushbuf.c b/v0100/srclib/flushbuf.c
index 28f1b04..c47a369 100644
--- a/v0100/srclib/flushbuf.c
+++ b/v0100/srclib/flushbuf.c
@@ -16,6 +16,8 @@ int __flushbuf(int c, FILE* f)
 {
   ssize_t written;
 
+  if ((f->flags & (_IORWOK | _IORD | _IOEOF)) == (_IORWOK | _IORD | _IOEOF))
+    f->flags &= ~_IORD; // read-write files may be written immediately after reading up to the end
   if (f->flags & (_IORD | _IOSTRING)) // fail file write immediately after file read or on read-only files
     return EOF;
   f->flags |= _IOWR; // last operation was a write
-- 
2.43.0


From 1ba2610b6c61ce30517d3fd21499f6169d86897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:31 +0000
Subject: [PATCH 19/26] fix: libc: __ftell: do not seek by the caller's
 uninitialised position (16-bit model)

---
 v0100/srclib/ftell16.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/srclib/ftell16.c b/v0100/srclib/ftell16.c
index abf234a..cc0c120 100644
--- a/v0100/srclib/ftell16.c
+++ b/v0100/srclib/ftell16.c
@@ -9,6 +9,7 @@
 
 int __ftell(FILE* f, fpos_t* pos)
 {
+  __lngFromUnsigned(pos, 0); // __lseekp() takes the distance to seek by in *pos
   if (__lseekp(f->fd, pos, SEEK_CUR))
   {
 //    errno = EUNKNOWN;
-- 
2.43.0


From e3a2e402e108dc2376533ea4a276e11aef345b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:31 +0000
Subject: [PATCH 20/26] fix: libc: report a failed write of the inserted
 carriage return and failures inside puts()

---
 v0100/srclib/fputc.c | 5 ++++-
 v0100/srclib/puts.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/fputc.c b/v0100/srclib/fputc.c
index a299c54..1357396 100644
--- a/v0100/srclib/fputc.c
+++ b/v0100/srclib/fputc.c
@@ -43,7 +43,10 @@ int fputc(int c, FILE* f)
 {
 #ifndef UNIX_LIKE
   if (c == '\n' && !(f->flags & _IOBINARY))
-    __fputc('\r', f); // insert '\r'
+  {
+    if (__fputc('\r', f) == EOF) // insert '\r'
+      return EOF;
+  }
 #endif
   return __fputc(c, f);
 }
diff --git a/v0100/srclib/puts.c b/v0100/srclib/puts.c
index 0834124..55c1425 100644
--- a/v0100/srclib/puts.c
+++ b/v0100/srclib/puts.c
@@ -8,6 +8,9 @@ int puts(char* s)
 {
   int c;
   while ((c = *s++) != '\0')
-    putchar(c);
+  {
+    if (putchar(c) == EOF)
+      return EOF;
+  }
   return putchar('\n');
 }
-- 
2.43.0


From ebad1ee30ce75f227998210d2ec34335a2bd864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 21/26] fix: smlrc: floating constants with more than 112
 significant digits were scaled wrongly

---
 v0100/smlrc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 4a28169..dd36f16 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1626,8 +1626,7 @@ int GetNumber(void)
       while (isdigit((ch = *p) & 0xFFu))
       {
         if (mcnt < MAX_CONST_DIGITS)
-          ConstDigits[mcnt++] = ch - '0';
-        mexp--; // TBD??? overflow
+          ConstDigits[mcnt++] = ch - '0', mexp--; // TBD??? overflow
         ShiftCharN(1);
       }
     }
-- 
2.43.0


From 300ba8687931a49f24f9b38f9d17c3596de37247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 22/26] fix: smlrc: #define must not drop spaces and comment
 look-alikes inside strings

---
 v0100/smlrc.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index dd36f16..7634512 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2214,6 +2214,8 @@ int GetToken(void)
 #ifndef NO_PREPROCESSOR
       if (!strcmp(TokenIdentName, "define"))
       {
+        int quot;
+
         // Skip space and get macro name
         SkipSpace(0);
         GetIdent();
@@ -2237,11 +2239,25 @@ int GetToken(void)
         SkipSpace(0);
 
         // accumulate the macro expansion text
+        quot = '\0';
         while (!strchr("\r\n", *p))
         {
+          // don't touch spaces and comment look-alikes in strings and characters
+          if (quot)
+          {
+            if (*p == '\\' && !strchr("\r\n", p[1]))
+            {
+              AddMacroExpansionChar(*p);
+              ShiftCharN(1);
+            }
+            else if (*p == quot)
+              quot = '\0';
+          }
+          else if (*p == '"' || *p == '\'')
+            quot = *p;
           AddMacroExpansionChar(*p);
           ShiftCharN(1);
-          if (*p != '\0' && (strchr(" \t", *p) || (*p == '/' && (p[1] == '/' || p[1] == '*'))))
+          if (!quot && *p != '\0' && (strchr(" \t", *p) || (*p == '/' && (p[1] == '/' || p[1] == '*'))))
           {
             SkipSpace(0);
             AddMacroExpansionChar(' ');
-- 
2.43.0


From 70d2c3cc9432eec633344f0adefd446b328c8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 23/26] fix: smlrc: report an #ifdef or #ifndef without #endif
 instead of dropping the rest of the file

---
 v0100/smlrc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 7634512..1fd4511 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1980,7 +1980,13 @@ int GetToken(void)
       // done with the current file, drop its record,
       // pick up the including files (if any) or terminate
       if (EndOfFiles())
+      {
+#ifndef NO_PREPROCESSOR
+        if (PrepSp)
+          error("#if(n)def without #endif\n");
+#endif
         break;
+      }
       continue;
     }
 
-- 
2.43.0


From c66b6048835ca3279b7b1e1e6d23d4e428bf3f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:01 +0000
Subject: [PATCH 24/26] fix: __FILE__ with quotes or backslashes in the file
 name was not a string naming the file

---
 v0100/smlrc.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 1fd4511..1f04f52 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2022,12 +2022,20 @@ int GetToken(void)
       // maybe factor out this piece of code
       if (!strcmp(TokenIdentName, "__FILE__"))
       {
-        char* p = FileNames[FileCnt - 1];
-        int len = strlen(p);
-        Reserve4Expansion(TokenIdentName, len + 2);
-        *CharQueue = '"';
-        memcpy(CharQueue + 1, p, len);
-        CharQueue[len + 1] = '"';
+        char* p;
+        int len = 2;
+        for (p = FileNames[FileCnt - 1]; *p; p++)
+          len += 1 + (*p == '\\' || *p == '"');
+        Reserve4Expansion(TokenIdentName, len);
+        len = 0;
+        CharQueue[len++] = '"';
+        for (p = FileNames[FileCnt - 1]; *p; p++)
+        {
+          if (*p == '\\' || *p == '"')
+            CharQueue[len++] = '\\';
+          CharQueue[len++] = *p;
+        }
+        CharQueue[len] = '"';
         continue;
       }
       else if (!strcmp(TokenIdentName, "__LINE__"))
-- 
2.43.0


From f65bd7a374418cf2cdb4944cf0b0913ce378a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:49 +0000
Subject: [PATCH 25/26] fix: a typedef name did not hide an outer variable in
 expressions

---
 v0100/smlrc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 1f04f52..eae2b4c 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -6254,6 +6254,13 @@ int FindSymbol(char* s)
       return i;
     }
 
+#ifndef NO_TYPEDEF_ENUM
+    // a typedef name hides outer variables and functions
+    if (t == tokTypedef &&
+        !strcmp(IdentTable + SyntaxStack1[i], s))
+      return -1;
+#endif
+
     if (t == ')')
     {
       // Skip over the function params
-- 
2.43.0


From b3c1f2a5e1bdae6dc126c7ff69adefed9dc10dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:50 +0000
Subject: [PATCH 26/26] fix: MIPS: save the hidden structure-result pointer and
 the parameter after it in the prolog

---
 v0100/cgmips.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/v0100/cgmips.c b/v0100/cgmips.c
index 07a9359..03b3750 100644
--- a/v0100/cgmips.c
+++ b/v0100/cgmips.c
@@ -554,9 +554,20 @@ void GenUpdateFrameSize(void)
 STATIC
 void GenFxnProlog(void)
 {
+  int i, cnt = 0;
+
   if (CurFxnParamCntMin && CurFxnParamCntMax)
+    cnt = CurFxnParamCntMax;
+
+#ifndef NO_STRUCT_BY_VAL
+  // the pointer to the structure to return comes as a hidden first parameter
+  if (CurFxnReturnExprTypeSynPtr >= 0 &&
+      SyntaxStack0[CurFxnReturnExprTypeSynPtr] == tokStructPtr)
+    cnt++;
+#endif
+
+  if (cnt)
   {
-    int i, cnt = CurFxnParamCntMax;
     if (cnt > 4)
       cnt = 4;
     // TBD!!! for structure passing use the cumulative parameter size
-- 
2.43.0


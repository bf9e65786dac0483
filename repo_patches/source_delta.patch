From 1d1d9ce5e8d3289714baa3fe64ed96fef533ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 001/102] fix: VERIFY PROOF * no longer claims that all proofs
 were verified when a proof's result does not match its statement

---
 src/mmveri.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmveri.c b/src/mmveri.c
index 792740f..f7498c8 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -195,6 +195,7 @@ char verifyProof(long statemNum) {
             "\" to see the proof attempt.",NULL));
       }
       g_WrkProof.errorCount++;
+      returnFlag = 2; // The proof is wrong
     }
   }
 
-- 
2.43.0


From db9b02ebd3abe1927ba4788830b09e30127ea205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 002/102] fix: don't overwrite a file when its backup copy
 could not be made

fSafeOpen() ignored a failed rename() to the ~1 backup name and then
truncated the file, losing its only copy.
---
 src/mminou.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index e6c8579..2eeab4b 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1089,6 +1089,7 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
   vstring_def(newBakName);
   long v;
   long lastVersion; // Last version before gap
+  flag renameFailed = 0; // A backup file couldn't be made
 
   if (!strcmp(mode, "r")) {
     fp = fopen(fileName, "r");
@@ -1168,11 +1169,17 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
           if (!fp) continue;
           fclose(fp);
           let(&newBakName, cat(prefix, str((double)v + 1), postfix, NULL));
-          rename(bakName /* old */, newBakName /* new */);
+          if (rename(bakName /* old */, newBakName /* new */) != 0) {
+            renameFailed = 1;
+            break; // Don't let the next version overwrite this one
+          }
         }
       }
-      let(&bakName, cat(prefix, str(1), postfix, NULL));
-      rename(fileName, bakName);
+      if (!renameFailed) {
+        let(&bakName, cat(prefix, str(1), postfix, NULL));
+        let(&newBakName, bakName); // For error message
+        if (rename(fileName, bakName) != 0) renameFailed = 1;
+      }
 
       // printLongLine(cat("The file \"", fileName,
       //     "\" already exists.  The old file is being renamed to \"",
@@ -1180,7 +1187,12 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
     } // End if file already exists
    skip_backup:
 
-    if (!strcmp(mode, "w")) {
+    if (renameFailed) {
+      // There is no backup of the file, so don't overwrite or delete it.
+      print2("?Sorry, couldn't make the backup file \"%s\".\n", newBakName);
+      print2("The file \"%s\" was not changed.\n", fileName);
+      fp = NULL;
+    } else if (!strcmp(mode, "w")) {
       fp = fopen(fileName, "w");
       if (!fp) {
         print2("?Sorry, couldn't open the file \"%s\".\n", fileName);
-- 
2.43.0


From d8d0ff249cf4e88b7a2c3db398f4e19ecf5c0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 003/102] fix: WRITE SOURCE that fails or only extracts no
 longer counts as saving the database

Errors of the output file were ignored, and the changed flag was cleared
even when nothing, or only a part of the database, was written; EXIT then
discarded the work without asking.
---
 src/metamath.c |  7 ++++---
 src/mmcmds.c   | 40 ++++++++++++++++++++++++++--------------
 src/mmcmds.h   |  5 +++--
 src/mmpars.c   | 24 ++++++++++++++++++------
 src/mmpars.h   |  5 +++--
 5 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 4850a68..499e053 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2116,13 +2116,14 @@ void command(int argc, char *argv[]) {
         let(&str1, ""); // Empty string means full db
       }
 
-      writeSource((char)r, // Rewrap type
+      if (writeSource((char)r, // Rewrap type
         ((switchPos("SPLIT") > 0) ? 1 : 0),
         ((switchPos("NO_VERSIONING") > 0) ? 1 : 0),
         ((switchPos("KEEP_INCLUDES") > 0) ? 1 : 0),
         str1 // Label list to extract
-          );
-      g_sourceChanged = 0;
+          )) {
+        g_sourceChanged = 0; // Everything has been saved
+      }
 
       free_vstring(str1); // Deallocate
       continue;
diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4844624..3fc038a 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3691,10 +3691,12 @@ void readInput(void)
 } // readInput
 
 // This function implements the WRITE SOURCE command.
+// Returns 1 if the whole database was written, 0 if there was an error or
+// if only a part of it was extracted.
 // Note that the labelSection, mathSection, and proofSection do not
 // contain keywords ($a, $p,...; $=; $.).  The keywords are added
 // by outputStatement.
-void writeSource(
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
@@ -3709,6 +3711,7 @@ void writeSource(
   vstring_def(buffer);
   vstring_def(fullOutput_fn);
   FILE *fp;
+  flag written = 0; // 1 = the database was written successfully
 
   let(&fullOutput_fn, cat(g_rootDirectory, g_output_fn, NULL));
 
@@ -3760,26 +3763,30 @@ void writeSource(
 
     // Note that writeSplitSource requires a file name without path since
     // it is called recursively for file inclusions where path is added.
-    writeSplitSource(&buffer, g_output_fn, noVersioningFlag, keepSplitsFlag);
+    written = writeSplitSource(&buffer, g_output_fn, noVersioningFlag,
+        keepSplitsFlag);
   } else { // Write a non-split version
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
-    if (fp == NULL) {
-      print2("?Error trying to write \"%s\".\n", fp);
-    } else {
-      fprintf(fp, "%s", buffer); // Write the non-split output file
-      fclose(fp);
-      if (keepSplitsFlag == 0) {
-        deleteSplits(&buffer, noVersioningFlag); // Delete any old includes
-      }
+    if (fp != NULL) {
+      // Write the non-split output file
+      written = (fprintf(fp, "%s", buffer) >= 0);
+      if (fclose(fp) != 0) written = 0;
+    }
+    if (written == 0) {
+      print2("?Error trying to write \"%s\".\n", fullOutput_fn);
+    } else if (keepSplitsFlag == 0) {
+      deleteSplits(&buffer, noVersioningFlag); // Delete any old includes
     }
   }
 
-  print2("%ld source statement(s) were written.\n", g_statements);
+  if (written) {
+    print2("%ld source statement(s) were written.\n", g_statements);
+  }
 
  RETURN_POINT:
   free_vstring(buffer); // Deallocate vstring
   free_vstring(fullOutput_fn); // Deallocate vstring
-  return;
+  return written;
 } // writeSource
 
 // Get info for WRITE SOURCE ... / EXTRACT
@@ -4174,7 +4181,7 @@ void writeExtractedSource(
 
   fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
   if (fp == NULL) {
-    print2("?Error trying to write \"%s\".\n", fp);
+    print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     goto EXTRACT_RETURN;
   }
 
@@ -4310,7 +4317,12 @@ void writeExtractedSource(
   }
 
   // Write the non-split output file
-  fclose(fp);
+  p1 = ferror(fp);
+  if (fclose(fp) != 0) p1 = 1;
+  if (p1) {
+    print2("?Error trying to write \"%s\".\n", fullOutput_fn);
+    goto EXTRACT_RETURN;
+  }
   j = 0; p1 = 0; p2 = 0; p3 = 0; p4 = 0;
   for (stmt = 1; stmt <= g_statements; stmt++) {
     if (extractNeeded[stmt] == 'Y') {
diff --git a/src/mmcmds.h b/src/mmcmds.h
index d1b2974..e3dba0a 100644
--- a/src/mmcmds.h
+++ b/src/mmcmds.h
@@ -67,8 +67,9 @@ vstring htmlDummyVars(long showStmt);
 vstring htmlAllowedSubst(long showStmt);
 
 void readInput(void);
-/*! WRITE SOURCE command */
-void writeSource(
+/*! WRITE SOURCE command.  Returns 1 if the whole database was written, 0 if
+   there was an error or if only a part of it was extracted. */
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
diff --git a/src/mmpars.c b/src/mmpars.c
index 12c4043..90a06e7 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5187,7 +5187,8 @@ vstring writeSourceToBuffer(void) {
 // caller decide whether to say re-use fileBuf to create an unsplit version
 // of the .mm file in case the split version generation encounters an error.
 //                                     TODO ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
-/* flag(TODO) */ void writeSplitSource(vstring *fileBuf, const char *fileName,
+// Returns 1 if all files were written, 0 if there was an error.
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag) {
   FILE *fp;
   vstring_def(tmpStr1);
@@ -5197,6 +5198,7 @@ vstring writeSourceToBuffer(void) {
   vstring_def(fileNameWithPath);
   long size;
   flag writeFlag;
+  flag written = 1; // 0 = there was an error writing this or an included file
   long startOffset;
   long cmdPos1;
   long cmdPos2;
@@ -5245,7 +5247,11 @@ vstring writeSourceToBuffer(void) {
               // Just rename the ~1 version to the main version
               print2("Recovering \"%s\" from \"%s\"...\n",
                   fileNameWithPath, tmpFileName);
-              rename(tmpFileName /* old */, fileNameWithPath /* new */);
+              if (rename(tmpFileName /* old */, fileNameWithPath /* new */)
+                  != 0) {
+                print2("?Error trying to write \"%s\".\n", fileNameWithPath);
+                written = 0;
+              }
             }
           } // if (tmpStr1 == NULL)
         } else { // tmpStr1 != NULL
@@ -5268,11 +5274,16 @@ vstring writeSourceToBuffer(void) {
           print2("?Error: couldn't create the file \"%s\"\n", fileNameWithPath);
           print2("  Make sure any directories needed have been created.\n");
           print2("  Try WRITE SOURCE without / SPLIT to recover your work.\n");
+          written = 0;
           break;
         } else {
           print2("Writing \"%s\"...\n", fileNameWithPath);
-          fprintf(fp, "%s", *fileBuf);
-          fclose(fp);
+          if (fprintf(fp, "%s", *fileBuf) < 0) writeFlag = 0;
+          if (fclose(fp) != 0) writeFlag = 0;
+          if (writeFlag == 0) {
+            print2("?Error trying to write \"%s\".\n", fileNameWithPath);
+            written = 0;
+          }
           break;
         }
       } // if (writeFlag == 1 )
@@ -5294,8 +5305,8 @@ vstring writeSourceToBuffer(void) {
       let(&includeBuf, seg(*fileBuf, cmdPos2, endPos1 - 1));
       let(&(*fileBuf), cat(left(*fileBuf, cmdPos1 - 1), tmpStr1,
           right(*fileBuf, endPos2), NULL));
-      // TODO: intercept error from deeper calls?
-      writeSplitSource(&includeBuf, includeFn, noVersioningFlag, noDeleteFlag);
+      if (!writeSplitSource(&includeBuf, includeFn, noVersioningFlag,
+          noDeleteFlag)) written = 0;
       continue;
     } else if (cmdType == 'I') {
       bug(1752); // Any real $[ $] should have been converted to comment.
@@ -5321,6 +5332,7 @@ vstring writeSourceToBuffer(void) {
   free_vstring(includeFn);
   free_vstring(includeBuf);
   free_vstring(fileNameWithPath);
+  return written;
 } // writeSplitSource
 
 // When "write source" does not have the "/split" qualifier, by default
diff --git a/src/mmpars.h b/src/mmpars.h
index bb22709..98678a2 100644
--- a/src/mmpars.h
+++ b/src/mmpars.h
@@ -171,8 +171,9 @@ vstring writeSourceToBuffer(void);
 /*! This function creates split files containing $[ $] inclusions, from
    an unsplit source with $( Begin $[... etc. inclusions
   \note that *fileBuf is assigned to the empty string upon return, to
-   conserve memory */
-void writeSplitSource(vstring *fileBuf, const char *fileName,
+   conserve memory.
+  Returns 1 if all files were written, 0 if there was an error. */
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag);
 
 /*! When "write source" does not have the "/split" qualifier, by default
-- 
2.43.0


From 23df68d8707242e7c2b907e943829030993de3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 004/102] fix: reading an empty file no longer reads before the
 start of the buffer

---
 src/mminou.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 2eeab4b..853b641 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1323,6 +1323,7 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
     if (verbose) print2(
         "?Sorry, \"%s\" doesn't seem to be a regular file.\n",
         fileName);
+    fclose(inputFp);
     return NULL;
   }
   fileBufSize = ftell(inputFp);
@@ -1428,7 +1429,7 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
   }
 
   // Make sure the last line is not a partial line
-  if (fileBuf[(*charCount) - 1] != '\n') {
+  if ((*charCount) == 0 || fileBuf[(*charCount) - 1] != '\n') {
     if (verbose) print2(
         "?Warning: the last line in file \"%s\" is incomplete.\n",
         fileName);
-- 
2.43.0


From 9c9f08d78077c123a7fe58554f81bf9f66aad102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 005/102] fix: SAVE PROOF no longer writes the contribution
 date into a file inclusion marker

---
 src/metamath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 499e053..70f6a32 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3763,6 +3763,13 @@ void command(int argc, char *argv[]) {
               memcpy(str3, g_Statement[outStatement].labelSectionPtr,
                   (size_t)(g_Statement[outStatement].labelSectionLen));
               i = rinstr(str3, "$)"); // The last "$)" occurrence
+              // A marker left by READ for a file inclusion isn't a
+              // description; it must not be changed
+              let(&str5, edit(seg(str3, rinstr(str3, "$(") + 2, i - 1),
+                  8 /* discard leading blanks */));
+              if (instr(1, str5, "Begin $[") == 1
+                  || instr(1, str5, "End $[") == 1
+                  || instr(1, str5, "Skip $[") == 1) i = 0;
               if (i != 0 // A description comment exists
                   && saveFlag) { // and we are saving the proof
                 // This isn't a perfect wrapping but we assume
-- 
2.43.0


From 71cb733f8473076e9372f2b567c58549023b0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 006/102] fix: a file that includes the main file no longer
 triggers bug check 1765

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 90a06e7..9b0cfa0 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5782,7 +5782,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
       // This file has already been included. Change Begin and $[ $] to
       // Skip. alreadyInclBy is the index of the previous g_IncludeCall that
       // included it.
-      if (!(alreadyInclBy > 0)) bug(1765);
+      if (!(alreadyInclBy >= 0)) bug(1765); // 0 is the main file
       switch (cmdType) {
         case 'B':
           // Save the included source temporarily
-- 
2.43.0


From 632d968acd535d455041beee8d1252649d7cb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 007/102] fix: file line numbers after a file inclusion are no
 longer off by one or more

---
 src/mmpars.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 9b0cfa0..7ca0234 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5622,13 +5622,15 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum - 1;
+          // The offset of this entry is that of the prefix's last character
+          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum
+              - countLines(newFileBuf + cmdPos2 - 2, 1);
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 - 1) + 1;
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              + cmdPos2 - 1 /* start at cmdPos2-th character */,
+              endPos2 - cmdPos2);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           // Call recursively to expand any includes in the included source.
@@ -5680,7 +5682,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // Get the parent line number up to the inclusion.
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum.
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
@@ -5744,7 +5746,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
@@ -5809,12 +5811,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 /* - 1 */);
+              + cmdPos2 - 1 /* start at cmdPos2-th character */,
+              endPos2 - cmdPos2);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5839,12 +5841,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
               + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
+              cmdPos2 - cmdPos1 - 1);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5869,13 +5871,13 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
               + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              cmdPos2 - cmdPos1 - 1);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           let(&inclSource, ""); // Final source to be stored - none
-- 
2.43.0


From 0283e19f7a00b4fde258f4784f6be54003b5d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 008/102] fix: UNDO and REDO restore the working variable
 counter along with the proof

---
 src/metamath.c | 6 +++---
 src/mmpfas.c   | 8 +++++++-
 src/mmpfas.h   | 1 +
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 70f6a32..2381bfd 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -873,7 +873,7 @@ void command(int argc, char *argv[]) {
   flag overrideFlag; // For discouraged statement /OVERRIDE
   // For MINIMIZE_WITH
   struct pip_struct saveProofForReverting = {
-       NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING };                         
+       NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, 0 };                         
   long origCompressedLength; // For MINIMIZE_WITH
   long oldCompressedLength = 0; // For MINIMIZE_WITH
   long newCompressedLength = 0; // For MINIMIZE_WITH
@@ -884,10 +884,10 @@ void command(int argc, char *argv[]) {
   flag saveZappedProofSectionChanged; // For MINIMIZE_WITH
   // For MINIMIZE_WITH
   struct pip_struct saveOrigProof = {
-       NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING };
+       NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, 0 };
   // For MINIMIZE_WITH
   struct pip_struct save1stPassProof = {
-       NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING };             
+       NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, 0 };             
   long forwRevPass; // 1 = forward pass
 
   long sourceStatement; // For EXPAND
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 14f0b0b..1195897 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -36,7 +36,7 @@ long g_pipDummyVars = 0; // Number of dummy variables used by proof in progress
 // Structure for holding a proof in progress.
 // This structure should be deallocated after use.
 struct pip_struct g_ProofInProgress = {
-    NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING };
+    NULL_NMBRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, NULL_PNTRSTRING, 0 };
 
 // Interactively select statement assignments that match.
 // maxEssential is the maximum number of essential hypotheses that a
@@ -3329,6 +3329,7 @@ long processUndoStack(struct pip_struct *proofStruct,
           proofStack[i].target = proofStack[i + 1].target;
           proofStack[i].source = proofStack[i + 1].source;
           proofStack[i].user = proofStack[i + 1].user;
+          proofStack[i].dummyVars = proofStack[i + 1].dummyVars;
           infoStack[i] = infoStack[i + 1];
         }
         // Now initialize the top of the stack pointers (don't deallocate since
@@ -3348,6 +3349,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackEnd++;
       if (stackPtr != stackEnd) bug(1863);
       copyProofStruct(&(proofStack[stackPtr]), *proofStruct);
+      proofStack[stackPtr].dummyVars = g_pipDummyVars;
       let((vstring *)(&(infoStack[stackPtr])), info);
       break;
 
@@ -3371,6 +3373,9 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr--;
       // Restore the version of the proof before that action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      // Some commands (e.g. INITIALIZE ALL) restart the numbering of working
+      // variables, so a number used in the restored proof could be reused
+      g_pipDummyVars = proofStack[stackPtr].dummyVars;
       break;
 
     case PUS_REDO:
@@ -3383,6 +3388,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr++;
       // Restore the last undo and print the message for its action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      g_pipDummyVars = proofStack[stackPtr].dummyVars;
       printLongLine(cat("Redid:  ", infoStack[stackPtr],
               NULL), "", " ");
       break;
diff --git a/src/mmpfas.h b/src/mmpfas.h
index 7d73a2c..bc4d724 100644
--- a/src/mmpfas.h
+++ b/src/mmpfas.h
@@ -27,6 +27,7 @@ struct pip_struct {
   pntrString *target; /*!< Left hand side of = in display */
   pntrString *source; /*!< Right hand side of = in display */
   pntrString *user; /*!< User-specified math string assignments to step */
+  long dummyVars; /*!< g_pipDummyVars for this proof (in UNDO stack only) */
 };
 extern struct pip_struct g_ProofInProgress;
 
-- 
2.43.0


From f095aa93895de9df22ec193bf5fba1690837c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 009/102] fix: DELETE STEP checks the step number before using
 it

---
 src/metamath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 2381bfd..eb16089 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5593,15 +5593,15 @@ void command(int argc, char *argv[]) {
       } else {
         s = nmbrLen(g_ProofInProgress.proof);
       }
-      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
-        print2("?Step %ld is unknown and cannot be deleted.\n", s);
-        continue;
-      }
       m = nmbrLen(g_ProofInProgress.proof); // Original proof length
       if (s > m || s < 1) {
         print2("?The step must be in the range from 1 to %ld.\n", m);
         continue;
       }
+      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
+        print2("?Step %ld is unknown and cannot be deleted.\n", s);
+        continue;
+      }
 
       deleteSubProof(s - 1);
       n = nmbrLen(g_ProofInProgress.proof); // New proof length
-- 
2.43.0


From 9a832aa41cbc500e971bcea2ad32f2e9ef27ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 010/102] fix: LET VARIABLE that fails no longer discards the
 REDO history

---
 src/metamath.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index eb16089..bbfdf2f 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4378,7 +4378,9 @@ void command(int argc, char *argv[]) {
           continue;
         }
 
+        g_proofChangedFlag = 0;
         replaceDummyVar(n, nmbrTmp);
+        if (!g_proofChangedFlag) continue; // Error message was provided already
 
         autoUnify(1);
 
-- 
2.43.0


From 4ea9a989646b2ca190f5850d1e3ee68c2545d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 011/102] fix: the MATCH and UNIFY questions no longer loop
 forever at the end of the input

---
 src/mmpfas.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 1195897..8cb386b 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -172,7 +172,8 @@ void interactiveMatch(long step, long maxEssential)
       tmpStr2 = cmdInput1(tmpStr3);
       free_vstring(tmpStr3);
 
-      if (tmpStr2[0] == 0) {
+      // (At the end of the input, cmdInput1() answers EXIT from then on)
+      if (tmpStr2[0] == 0 || (!strcmp(tmpStr2, "EXIT") && feof(stdin))) {
         free_vstring(tmpStr1);
         free_vstring(tmpStr4);
         free_vstring(tmpStr2);
@@ -2652,6 +2653,11 @@ char interactiveUnify(const nmbrString *schemeA, const nmbrString *schemeB,
             break;
           }
         }
+        // (At the end of the input, cmdInput1() answers EXIT from then on)
+        if (!strcmp(tmpStr, "EXIT") && feof(stdin)) {
+          returnValue = 3;
+          goto returnPoint;
+        }
         if (tmpStr[0] == 'Q' || tmpStr[0] == 'q') {
           if (!tmpStr[1]) {
             // return (3);
-- 
2.43.0


From cbf03ed5f3d1168e3c525e05b3bdd82b8763656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 012/102] fix: an answer to MATCH that names several choices no
 longer triggers bug check 1801 A choice among the statements with a
 unification timeout was looked up in the wrong list, too.

---
 src/mmpfas.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 8cb386b..7512f20 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -183,7 +183,8 @@ void interactiveMatch(long step, long maxEssential)
         free_nmbrString(timeoutList);
         return;
       }
-      if (!instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
+      if (instr(1, tmpStr2, " ") ||
+          !instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
            cat(" ", tmpStr2, " ", NULL))) {
         print2("\"%s\" is not one of the choices.  Try again.\n", tmpStr2);
       } else {
@@ -211,7 +212,7 @@ void interactiveMatch(long step, long maxEssential)
   } // End if matchCount == 1
 
   // Add to statement to the proof
-  assignStatement(matchList[matchListPos], step);
+  assignStatement(stmt, step);
   g_proofChangedFlag = 1; // Flag for 'undo' stack
 
   free_vstring(tmpStr1);
-- 
2.43.0


From 9b88c53e78032ea5e187e9e875f8a21b38181e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 013/102] fix: MATCH no longer offers statements whose usage is
 discouraged

---
 src/mmpfas.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 7512f20..a6df965 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -87,6 +87,11 @@ void interactiveMatch(long step, long maxEssential)
       if (essHypCount > maxEssential) continue;
     }
 
+    // Don't offer a statement whose usage is discouraged (there is no /OVERRIDE)
+    if (g_globalDiscouragement != 0 && getMarkupFlag(stmt, USAGE_DISCOURAGED)) {
+      continue;
+    }
+
     unifFlag = checkStmtMatch(stmt, step);
     if (unifFlag) {
       if (unifFlag == 1) {
-- 
2.43.0


From 0067ba90e68ec3dd8dcc9c777e619bcad38f376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 014/102] fix: a proof whose steps could not be unified is no
 longer shown as complete and consistent

---
 src/mmpfas.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index a6df965..350a928 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2261,6 +2261,7 @@ void assignKnownSteps(long startStep, long sbProofLen)
   nmbrString_def(assertion);
   long pos, stmt, reqHyps, instLen, instPos, schemeLen, schemePos, hypLen,
       hypPos, hyp, reqVars, var, assLen, assPos;
+  long errorStep = startStep + sbProofLen; // First step not assigned
   flag tmpFlag;
   pntrString_def(stateVector);
 
@@ -2380,6 +2381,7 @@ void assignKnownSteps(long startStep, long sbProofLen)
             "\n(This may take a while; please wait...)",
             NULL), "", " ");
         purgeStateVector(&stateVector);
+        errorStep = pos;
         goto returnPoint;
       }
       // Substitute and assign assertion to proof in progress
@@ -2405,6 +2407,10 @@ void assignKnownSteps(long startStep, long sbProofLen)
     nmbrLet((nmbrString **)(&((g_ProofInProgress.target)[pos])),
         (g_ProofInProgress.source)[pos]);
   }
+  // Don't let former assignments of the steps not reached hide the error
+  for (pos = errorStep; pos < startStep + sbProofLen; pos++) {
+    initStep(pos);
+  }
 
   // Deallocate (stateVector was deallocated by 2nd unif. call)
   free_nmbrString(stack);
-- 
2.43.0


From 9dc7c505d43a04ae5ad00156eab7f7224c0b0051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 015/102] fix: a compressed label reference with many digits is
 reported instead of overflowing

---
 src/mmpars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 7ca0234..0311891 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3184,8 +3184,12 @@ char parseCompressedProof(long statemNum)
           labelMapIndex = chrWeight[(long)(fbPtr[0])] + 1;
           labelStart = fbPtr; // Save label start for error msg
         } else {
-          labelMapIndex = labelMapIndex * digitsLen +
-              chrWeight[(long)(fbPtr[0])] + 1;
+          // Don't let the label number overflow; this large a number will be
+          // out of range in any case.
+          if (labelMapIndex < 10000000) {
+            labelMapIndex = labelMapIndex * digitsLen +
+                chrWeight[(long)(fbPtr[0])] + 1;
+          }
           if (bggyAlgo) labelMapIndex--; // Adjust for buggy algorithm
         }
         break;
-- 
2.43.0


From 4f9dc553fa59b15733ff796f29df56a2355286d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 016/102] fix: a step of a compressed proof that exhausts the
 stack is read only once

---
 src/mmpars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 0311891..1c0d677 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3164,7 +3164,9 @@ char parseCompressedProof(long statemNum)
             g_WrkProof.RPNStack[g_WrkProof.RPNStackPtr] = g_WrkProof.numSteps;
             g_WrkProof.RPNStackPtr++;
             if (returnFlag < 3) returnFlag = 3;
-            continue;
+            g_WrkProof.numSteps++;
+            labelMapIndex = 0; // Reset it for next label
+            break;
           } // End if stack exhausted
 
           numReqHyp = g_Statement[stmt].numReqHyp;
-- 
2.43.0


From 0a00eb395d79e1117d3e5ac7acbfde2b51e6e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 017/102] fix: a non-ASCII character in a compressed proof no
 longer indexes before a table

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 1c0d677..f583c00 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3084,7 +3084,7 @@ char parseCompressedProof(long statemNum)
   breakFlag = 0;
   labelMapIndex = 0;
   while (1) {
-    switch (chrType[(long)(fbPtr[0])]) {
+    switch (chrType[(unsigned char)(fbPtr[0])]) {
       case 0: // "Letter" (i.e. A...T)
         if (!labelMapIndex) labelStart = fbPtr; // Save for error msg
 
-- 
2.43.0


From 6359f962ae94239536843eebfad69e2eb733a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 018/102] fix: a compressed proof without any labels no longer
 uses an unassigned label

---
 src/mmpars.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index f583c00..78d26ce 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3114,7 +3114,11 @@ char parseCompressedProof(long statemNum)
           labelMapIndex = 0; // Make it something legal to avoid side effects
         }
 
-        stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
+        if (labelMapIndex < g_WrkProof.compressedPfNumLabels) {
+          stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
+        } else {
+          stmt = -(long)'?'; // The label list is empty
+        }
         g_WrkProof.proofString[g_WrkProof.numSteps] = stmt;
 
         // Update stack
-- 
2.43.0


From ecbdf993a7afc09b53a123a6cddb13e0b85c9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 019/102] fix: an undeclared math symbol longer than all
 declared ones no longer reads beyond a table

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 78d26ce..ef20188 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1093,7 +1093,7 @@ void parseStatements(void) {
           for (; symbolLen > 0; symbolLen = 0) {
 
             // symbolLenExists means a symbol of this length was declared
-            if (!symbolLenExists[symbolLen]) continue;
+            if (symbolLen > maxSymbolLen || !symbolLenExists[symbolLen]) continue;
             wrkStrPtr[symbolLen] = 0; // Define end of trial token to look up
             g_mathKeyPtr = (void *)bsearch(wrkStrPtr, g_mathKey, (size_t)g_mathTokens,
                 sizeof(long), mathSrchCmp);
-- 
2.43.0


From 9348e9cf2b3c17a931f432be78114271f424f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 020/102] fix: SAVE PROOF /COMPRESSED no longer loops forever
 on a label longer than a line

---
 src/mmdata.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 8583bd7..edb1d0b 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -2192,6 +2192,8 @@ temp_vstring compressProof(const nmbrString *proof, long statemNum,
       // far in the future.  Here we will just put the labels in the order
       // that will cause it to wrap at the desired place.
       explWidth = g_screenWidth - indentation - explOffset + 1;
+      // The indentation or a label too long for any line can exceed the width
+      if (explWidth < 0) explWidth = 0;
 
       // Fill in the label list output line with labels that fit best.
       // The knapsack01() call below is always given the entire set of
@@ -2207,6 +2209,15 @@ temp_vstring compressProof(const nmbrString *proof, long statemNum,
       // on the rest of the line (such as if the line only has 1 space left
       // i.e. explWidth=1).
       if (j < 0) bug(1383);
+      if (j == 0 && explOffset == 0) {
+        // Nothing fits even on an empty line, so let one label exceed it
+        for (k = 0; k < explLabels; k++) {
+          if (explWorth[k] != -1) {
+            explIncluded[k] = 'y';
+            break;
+          }
+        }
+      }
 
       // Accumulate the labels selected by knapsack01() into the output list,
       // in the same order as they appeared in the original explicit label list.
-- 
2.43.0


From 580afe2af5931c6ac6e5ae8958c47adc6b923613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 021/102] fix: an included file whose name begins with
 another's is split and merged correctly

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index ef20188..58beac7 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4962,7 +4962,8 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
           let(&(*fileName), left(fbPtr, j));
         } else {
           // It's an End command
-          if (strncmp(*fileName, fbPtr, (size_t)j)) {
+          if ((long)strlen(*fileName) != j
+              || strncmp(*fileName, fbPtr, (size_t)j)) {
             // But the file name didn't match, so it's not a matching End.
             // Find end of comment and continue.
             goto GET_PASSED_END_OF_COMMENT;
-- 
2.43.0


From 72b98c56711eac20ecd4f9995f0219b16670e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 022/102] fix: the scrolling prompt no longer repeats forever
 at the end of the input

---
 src/mminou.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 853b641..0595778 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -244,6 +244,10 @@ flag print2(const char* fmt, ...) {
 #endif
       }
       c = (char)(getchar());
+      if (feof(stdin)) { // End of input; nobody can answer
+        if (!backFromCmdInput) localScrollMode = 0; // Continuous scroll
+        break;
+      }
       if (c == '\n') {
         if (backBufferPos == pntrLen(backBuffer)) {
           // Normal output
@@ -297,7 +301,7 @@ flag print2(const char* fmt, ...) {
 #endif
         continue;
       }
-      while (c != '\n') c = (char)(getchar());
+      while (c != '\n' && !feof(stdin)) c = (char)(getchar());
     } // While 1
 
     if (backFromCmdInput)
-- 
2.43.0


From e0b4a9a6153e0084eebbdc0fabf0f5533e025d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 023/102] fix: a file inclusion inside a merged (Begin/End) one
 is expanded in place

---
 src/mmpars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 58beac7..02e58bb 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5656,8 +5656,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // newInclSize = oldInclSize; // Includes new prefix and suffix
           newInclSize = (long)strlen(inclPrefix) + inclSize +
                 (long)strlen(inclSuffix); // Includes new prefix and suffix
-          // It is already a Begin comment, so leave it alone
-          // *size = *size;
+          // It is already a Begin comment, so leave it alone, but put in the
+          // expansion of any inclusions inside of it
+          let(&newFileBuf, cat(left(newFileBuf, cmdPos1 - 1),
+              inclPrefix, inclSource, inclSuffix,
+              right(newFileBuf, endPos2), NULL));
+          *size = *size - oldInclSize + newInclSize;
           // Adjust starting position for next inclusion search
           // -1 since startOffset is 0-based but cmdPos2 is 1-based
           startOffset = cmdPos1 + newInclSize - 1;
-- 
2.43.0


From 876b7e3f85c0b56a25653d80502555584b83c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 024/102] fix: a repeated Begin region inside a file that it
 includes no longer crashes READ

---
 src/mmpars.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 02e58bb..aabbbc1 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5599,6 +5599,8 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
     g_IncludeCall[saveInclCalls].included_fn = "";
     let(&g_IncludeCall[saveInclCalls].included_fn,
         sourceFileName); // Continuation of parent file after this include
+    // A deeper inclusion of the same file may look at it before it is assigned
+    g_IncludeCall[saveInclCalls - 1].current_includeSource = "";
 
     // See if includeFn file has already been included
     alreadyInclBy = -1;
-- 
2.43.0


From 701217090a3841caeaaefc7bbbea97898bf18e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 025/102] fix: an error on an empty source line no longer reads
 before the line's start

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 0595778..2623c83 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1001,7 +1001,7 @@ void errorMessage(vstring line, long lineNum, long column, long tokenLength,
 
   // Add a newline to line1 if there is none
   if (line) {
-    if (line[strlen(line) - 1] != '\n') {
+    if (line[0] == 0 || line[strlen(line) - 1] != '\n') {
       let(&line1, line);
     } else {
       bug(1509);
-- 
2.43.0


From ecaec8dca1291420568bac9319708af42a22b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 026/102] fix: '$$' before a keyword no longer makes READ
 overrun the statement table

---
 src/mmpars.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index aabbbc1..00a3f14 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -273,9 +273,6 @@ void parseKeywords(void)
     }
     fbPtr++;
     switch (fbPtr[0]) {
-      case '$': // "$$" means literal "$"
-        fbPtr++;
-        continue;
       case '(': // Start of comment
         insideComment = 1;
         continue;
-- 
2.43.0


From ecac83054ede842bcba8f9a073225dca73e4a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 027/102] fix: a file with a null character is an error instead
 of an internal bug

---
 src/mminou.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 2623c83..5e0173e 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1452,12 +1452,14 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
   if ((*charCount) != i) {
     if (verbose) {
       print2(
-          "?Warning: the file \"%s\" is not an ASCII file.\n",
+          "?Sorry, the file \"%s\" is not an ASCII file.\n",
           fileName);
       print2(
           "Its size is %ld characters with null at character %ld.\n",
-          (*charCount), strlen(fileBuf));
+          (*charCount), i);
     }
+    free(fileBuf);
+    return NULL;
   }
 /*E*/db = db + i; // For memory usage tracking (ignore stuff after null)
 
-- 
2.43.0


From ad5f13d44eb714cbbd9b3716f96c5b04d37a7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 028/102] fix: malformed local and target labels in a proof no
 longer corrupt memory

---
 src/mmpars.c | 52 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 00a3f14..ffcedd5 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2107,6 +2107,23 @@ char parseProof(long statemNum)
     g_WrkProof.numSteps++;
     if (fbPtr[0] != ':') continue;
 
+    // The token before the colon must have been counted as a step; otherwise
+    // there is no label
+    if (g_WrkProof.numSteps < 2
+        || g_WrkProof.stepSrcPtrPntr[g_WrkProof.numSteps - 2]
+            != g_WrkProof.tokenSrcPtrPntr[tok - 1]) {
+      if (!g_WrkProof.errorCount) {
+        sourceError(fbPtr, 1, statemNum, cat("The colon at proof step ",
+            str((double)(g_WrkProof.numSteps)),
+            " must be preceded by a local label.", NULL));
+      }
+      if (returnFlag < 2) returnFlag = 2;
+      g_WrkProof.errorCount++;
+      g_WrkProof.stepSrcPtrPntr[g_WrkProof.numSteps - 1] = "?";
+      g_WrkProof.stepSrcPtrNmbr[g_WrkProof.numSteps - 1] = 1; // Length
+      continue;
+    }
+
     // Colon found -- previous token is a label
     labelFlag = 1;
 
@@ -2192,6 +2209,23 @@ char parseProof(long statemNum)
     g_WrkProof.localLabelPoolPtr = &g_WrkProof.localLabelPoolPtr[tokLength + 1];
   } // Next i
 
+  // If there are only "=" and target tokens, the proof has no steps; make it
+  // a "?" like an empty proof
+  if (!g_WrkProof.numSteps) {
+    if (!g_WrkProof.errorCount) {
+      sourceError(g_WrkProof.tokenSrcPtrPntr[0],
+          g_WrkProof.tokenSrcPtrNmbr[0], statemNum,
+          "The proof has no steps.  If you don't know the proof, make it a \"?\".");
+    }
+    g_WrkProof.errorCount++;
+    if (returnFlag < 2) returnFlag = 2;
+    g_WrkProof.stepSrcPtrPntr[0] = "?";
+    g_WrkProof.stepSrcPtrNmbr[0] = 1; // Length
+    g_WrkProof.localLabelFlag[0] = 0;
+    g_WrkProof.numSteps = 1;
+    explicitTargets = 0;
+  }
+
   // Collect all target labels in /EXPLICIT format.
   // I decided not to make targetPntr, targetNmbr part of the g_WrkProof
   // structure since other proof formats don't assign it, so we can't
@@ -2265,10 +2299,14 @@ char parseProof(long statemNum)
           k = m; // Larger step number
         }
         // Find the token - back up a step then move forward to loc label
-        fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
-        fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
-        fbPtr = fbPtr + whiteSpaceLen(fbPtr);
         if (!g_WrkProof.errorCount) {
+          if (k > 0) {
+            fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
+            fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
+            fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+          } else {
+            fbPtr = g_WrkProof.tokenSrcPtrPntr[0];
+          }
           sourceError(fbPtr,
               proofTokenLen(fbPtr), statemNum,
               cat("The local label at proof step ", str((double)k + 1),
@@ -2462,7 +2500,9 @@ char parseProof(long statemNum)
     // For proofs saved with /EXPLICIT, the user may have changed the order
     // of hypotheses.  First, get the subproofs for the hypotheses.  Then
     // reassemble them in the right order.
-    if (explicitTargets == 1) {
+    // (If there is an error, the targets may not be usable and the order
+    // doesn't matter anymore.)
+    if (explicitTargets == 1 && returnFlag < 2) {
       // nmbrString to rearrange proof then when done reassign to
       // g_WrkProof.proofString structure component.
       nmbrLet(&wrkProofString, g_WrkProof.proofString);
@@ -2591,7 +2631,7 @@ char parseProof(long statemNum)
     if (returnFlag < 3) returnFlag = 3;
   }
 
-  if (explicitTargets) {
+  if (explicitTargets && returnFlag < 2) {
     // Correct the local label refs in the rearranged proof
     for (step = 0; step < g_WrkProof.numSteps; step++) {
       // This is slow lookup with n^2 behavior, but should be ok since
@@ -2715,7 +2755,9 @@ char parseProof(long statemNum)
         } // if k<= -1000
       } // next step
     } while (subProofMoved);
+  } // if (explicitTargets && returnFlag < 2)
 
+  if (explicitTargets) {
     // Deallocate
     free_pntrString(targetPntr);
     free_nmbrString(targetNmbr);
-- 
2.43.0


From dde48879265651222b709cb34cac8b16d59f5fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 029/102] fix: a proof that uses the illegal label of a $c, $v
 or $d statement is an error, not an internal bug

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index ffcedd5..bbe815c 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1836,7 +1836,7 @@ void parseStatements(void) {
 /*E*/if(db5)print2("Number of label keys before filter: %ld",g_numLabelKeys);
   for (i = 0; i < g_numLabelKeys; i++) {
     type = g_Statement[g_labelKeyBase[i]].type;
-    if (type == e_ || type == f_) {
+    if (type != a_ && type != p_) { // ($c etc. may have an illegal label)
       j++;
     } else {
       g_labelKeyBase[i - j] = g_labelKeyBase[i];
-- 
2.43.0


From d0ebb01c122d07c22a7dc62625130e1b702e35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 030/102] fix: section headings are found after the text of a
 statement was changed

---
 src/mmwtex.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 484acf0..fccccba 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -4416,12 +4416,19 @@ flag getSectionHeadings(long stmt,
     pos3 = stmt;
   }
   if (pos3 == 0 || pos3 > stmt) bug(2241);
-  pos4 = (g_Statement[stmt].labelSectionPtr
-        - g_Statement[pos3].labelSectionPtr)
-        + g_Statement[stmt].labelSectionLen; // Length of the header area
+  // The label sections may no longer be next to each other in memory if the
+  // text of a statement was changed, so collect them one by one
+  pos4 = 0; // Length of the header area
+  for (pos = pos3; pos <= stmt; pos++) {
+    pos4 += g_Statement[pos].labelSectionLen + 1;
+  }
   let(&labelStr, space(pos4));
-  memcpy(labelStr, g_Statement[pos3].labelSectionPtr,
-      (size_t)(pos4));
+  pos4 = 0;
+  for (pos = pos3; pos <= stmt; pos++) {
+    memcpy(labelStr + pos4, g_Statement[pos].labelSectionPtr,
+        (size_t)(g_Statement[pos].labelSectionLen));
+    pos4 += g_Statement[pos].labelSectionLen + 1; // 1 for separating space
+  }
 
   pos = 0;
   pos2 = 0;
-- 
2.43.0


From cb967b4524b59fba000e1250a6366c23b62b4ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 031/102] fix: rinstr() with an empty search string no longer
 loops forever

---
 src/mmvstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index c0d6836..f0a2b70 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -668,7 +668,7 @@ long rinstr(const char *string1, const char *string2) {
 
   while (1) { // Scan until substring no longer found
     pos = instr(pos + 1, string1, string2);
-    if (!pos) break;
+    if (pos <= savePos) break; // Not found, or string2 is empty
     savePos = pos;
   }
   return savePos;
-- 
2.43.0


From 480c329c032fc2b34ed72415a370f1e2ca52b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 032/102] fix: WRITE THEOREM_LIST works for a database with an
 extended section but no mathboxes

---
 src/mmwtex.c | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index fccccba..d4cff57 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3791,9 +3791,14 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
       print2("&nbsp;Hilbert Space Explorer</A>\n");
 
       free_vstring(str3);
-      if (g_Statement[g_mathboxStmt].pinkNumber <= 0) bug(2333);
-      str3 = pinkRangeHTML(g_extHtmlStmt,
-         nmbrStmtNmbr[g_Statement[g_mathboxStmt].pinkNumber - 1]);
+      if (g_mathboxStmt > g_statements) {
+        // There are no mathboxes:  the section goes to the end
+        str3 = pinkRangeHTML(g_extHtmlStmt, nmbrStmtNmbr[assertions]);
+      } else {
+        if (g_Statement[g_mathboxStmt].pinkNumber <= 0) bug(2333);
+        str3 = pinkRangeHTML(g_extHtmlStmt,
+           nmbrStmtNmbr[g_Statement[g_mathboxStmt].pinkNumber - 1]);
+      }
       printLongLine(cat("<BR>(", str3, ")", NULL),
         " ", // Start continuation line with space
         "\""); // Don't break inside quotes e.g. "Arial Narrow"
@@ -3804,21 +3809,23 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
       print2("\n");
 
       // Mathbox stuff
-      print2("<TD BGCOLOR=%s NOWRAP><A\n", SANDBOX_COLOR);
-      print2(" HREF=\"mathbox.html\"><IMG SRC=\"_sandbox.gif\"\n");
-      print2("BORDER=0 ALT=\"Users' Mathboxes\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
-      print2("&nbsp;Users' Mathboxes</A>\n");
-
-      free_vstring(str3);
-      str3 = pinkRangeHTML(g_mathboxStmt, nmbrStmtNmbr[assertions]);
-      printLongLine(cat("<BR>(", str3, ")", NULL),
-        " ", // Start continuation line with space
-        "\""); // Don't break inside quotes e.g. "Arial Narrow"
+      if (g_mathboxStmt <= g_statements) {
+        print2("<TD BGCOLOR=%s NOWRAP><A\n", SANDBOX_COLOR);
+        print2(" HREF=\"mathbox.html\"><IMG SRC=\"_sandbox.gif\"\n");
+        print2("BORDER=0 ALT=\"Users' Mathboxes\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
+        print2("&nbsp;Users' Mathboxes</A>\n");
+
+        free_vstring(str3);
+        str3 = pinkRangeHTML(g_mathboxStmt, nmbrStmtNmbr[assertions]);
+        printLongLine(cat("<BR>(", str3, ")", NULL),
+          " ", // Start continuation line with space
+          "\""); // Don't break inside quotes e.g. "Arial Narrow"
 
-      print2("</TD>\n");
-      print2("\n");
-      print2("<TD WIDTH=10>&nbsp;</TD>\n");
-      print2("\n");
+        print2("</TD>\n");
+        print2("\n");
+        print2("<TD WIDTH=10>&nbsp;</TD>\n");
+        print2("\n");
+      }
 
       print2("</TR></TABLE></CENTER>\n");
     } // if (g_extHtmlStmt < g_mathboxStmt)
-- 
2.43.0


From 6b5006951f0f3ca8e335b325145cbd95f20a38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 033/102] fix: WRITE THEOREM_LIST / THEOREMS_PER_PAGE 0 no
 longer divides by zero

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index bbfdf2f..af2df74 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2142,6 +2142,10 @@ void command(int argc, char *argv[]) {
       } else {
         theoremsPerPage = THEOREMS_PER_PAGE; // Use the default value
       }
+      if (theoremsPerPage < 1) {
+        print2("?The number of theorems per page must be at least 1.\n");
+        continue;
+      }
       showLemmas = (switchPos("SHOW_LEMMAS") != 0);
       noVersioning = (switchPos("NO_VERSIONING") != 0);
 
-- 
2.43.0


From dcd7dcde41f4129f4a2017b46a16722d86d4a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 034/102] fix: a prompt on a screen narrower than 11 columns no
 longer reads before its text

---
 src/mminou.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 5e0173e..e4e767f 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -892,8 +892,8 @@ vstring cmdInput1(const char *ask) {
   // Allow 10 characters for answer
   if ((signed)(strlen(ask1)) > g_screenWidth - 10) {
     p = g_screenWidth - 11;
-    while (ask1[p] != ' ' && p > 0) p--;
-    if (p) { // (Give up if no spaces)
+    while (p > 0 && ask1[p] != ' ') p--;
+    if (p > 0) { // (Give up if no spaces)
       print2("%s\n", left(ask1, p));
       let(&ask1, right(ask1, p + 1));
     }
-- 
2.43.0


From ba401a0f7a48613781b66f094f9fa9c2d2570a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 035/102] fix: expanding tabs in edit() no longer writes beyond
 the allocated string

---
 src/mmvstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index f0a2b70..f3fe146 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,7 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 7; // Allow for max possible length
+  if (untab_flag) i = i * 8; // Allow for max possible length
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
@@ -560,7 +560,7 @@ temp_vstring edit(const char *sin, long control) {
       for (j = i; j < i + 8 - ((m - 1) & 7); j++) {
         sout[j - 1] = ' ';
       }
-      k = k + 8 - ((m - 1) & 7);
+      k = k + 7 - ((m - 1) & 7);
     }
   }
 
-- 
2.43.0


From 0288ecf3a0ca042a9bce5c6526b6231f4a04efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 036/102] fix: TOOLS BREAK with many delimiters no longer
 overflows the temporary string stack

---
 src/metamath.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index af2df74..09c7909 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1552,8 +1552,9 @@ void command(int argc, char *argv[]) {
               for (i = 0; i < (signed)(strlen(g_fullArg[2])); i++) {
                 p = 0;
                 while (1) {
-                  p = instr(p + 1, str2, chr(((vstring)(g_fullArg[2]))[i]));
-                  if (!p) break;
+                  char *delim = strchr(str2 + p, ((vstring)(g_fullArg[2]))[i]);
+                  if (!delim) break;
+                  p = delim - str2 + 1;
                   // Put spaces around special one-char tokens
                   let(&str2, cat(left(str2, p - 1), " ",
                       mid(str2, p, 1),
-- 
2.43.0


From 97a324545ce965f308ef0367324db99f7dcf0b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 037/102] fix: TOOLS commands with a one-character file name no
 longer read before the name

---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 09c7909..5f36eac 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1350,7 +1350,8 @@ void command(int argc, char *argv[]) {
           rewind(list1_fp);
         }
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) >= 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)(strlen(list2_fname)) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
@@ -1702,7 +1703,8 @@ void command(int argc, char *argv[]) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) >= 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)strlen(list2_fname) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
-- 
2.43.0


From e7e4fe291cf35adfbce336435f2dc7dae87a1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 038/102] fix: TOOLS NUMBER with an increment below 1 no longer
 writes without end

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 5f36eac..783c067 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1879,6 +1879,10 @@ void command(int argc, char *argv[]) {
       }
 
       if (cmdMatches("NUMBER")) {
+        if ((long)val(g_fullArg[4]) < 1) {
+          print2("?The increment must be at least 1.\n");
+          continue;
+        }
         list1_fp = fSafeOpen(g_fullArg[1], "w", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         j = (long)strlen(str(val(g_fullArg[2])));
-- 
2.43.0


From a2f829c1976e97fb3ba3d3b92f95f7658723f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 039/102] fix: LET rejects malformed working variables and
 empty math strings instead of corrupting memory

---
 src/metamath.c |  5 +++++
 src/mmpars.c   | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 783c067..1a6d2de 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4406,6 +4406,11 @@ void command(int argc, char *argv[]) {
             0); // ALL not allowed
         if (s == -1) continue; // Error; message was provided already
 
+        if (nmbrLen(nmbrTmp) == 0) {
+          print2("?The math string must have at least one symbol.\n");
+          continue;
+        }
+
         // Check to see if the statement selected is allowed
         if (!checkMStringMatch(nmbrTmp, s - 1)) {
           printLongLine(cat("?Step ", str((double)s), " cannot be unified with \"",
diff --git a/src/mmpars.c b/src/mmpars.c
index bbe815c..01f4141 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3743,7 +3743,7 @@ long whiteSpaceLen(char *ptr) {
       } else {
         if (ptr[i + 1] == '!') {
           ptr1 = strchr(ptr + i + 2, '\n');
-          if (!ptr1) bug(1716);
+          if (!ptr1) return i + (long)strlen(&ptr[i]); // Last line
           i = ptr1 - ptr + 1;
           continue;
         }
@@ -4721,7 +4721,13 @@ nmbrString *parseMathTokens(vstring userText, long statemNum)
         while (1) {
           fbPtr = fbPtr + whiteSpaceLen(fbPtr);
           origSymbolLen = tokenLen(fbPtr);
-          if (!origSymbolLen) break; // Done scanning source line
+          if (!origSymbolLen) {
+            if (fbPtr[0] != 0 && errCount == 0) { // "$" not followed by a number
+              sourceError(fbPtr, 1, /* stmt */ 0,
+                  "A math symbol was expected here.");
+            }
+            break; // Done scanning source line
+          }
 
          // Scan for largest matching token from the left
          nextAdjToken:
@@ -4804,9 +4810,15 @@ nmbrString *parseMathTokens(vstring userText, long statemNum)
                 memcpy(wrkStrPtr, fbPtr + 1, (size_t)i - 1);
                 wrkStrPtr[i - 1] = 0; // End of string
                 tokenNum = (long)(val(wrkStrPtr)) + g_mathTokens;
+                // The name of a working variable is a positive number of
+                // reasonable size
+                if (i > 7 || tokenNum == g_mathTokens) symbolLen = 0;
+              }
+              if (symbolLen != 0) {
                 // See if dummy var has been declared; if not, declare it
                 if (tokenNum > g_pipDummyVars + g_mathTokens) {
                   declareDummyVars(tokenNum - g_pipDummyVars - g_mathTokens);
+                  g_pipDummyVars = tokenNum - g_mathTokens; // It is in use now
                 }
               }
             } // End if fbPtr == '$'
-- 
2.43.0


From 1a697a484bd7b8c4be6d86ad9a944da457627a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:04 +0000
Subject: [PATCH 040/102] fix: edit() that inserts tabs no longer reads and
 writes outside the string

---
 src/mmvstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index f3fe146..e5e5304 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,7 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 8; // Allow for max possible length
+  if (untab_flag || tab_flag) i = i * 8; // Allow for max possible length
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
@@ -594,7 +594,7 @@ temp_vstring edit(const char *sin, long control) {
       // error message returns.
       m = i - 2;
 
-      while (sout[j - 1] == ' ' && j > i - 8) j--;
+      while (j > i - 8 && sout[j - 1] == ' ') j--;
       if (j <= m) {
         sout[j] = '\t';
         j = i;
-- 
2.43.0


From cadc6bc0b2acaa92097b760d25a6497edaf0eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 041/102] fix: a question broken over several lines no longer
 repeats forever at the end of the input

---
 src/mminou.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index e4e767f..abc43d5 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -878,6 +878,8 @@ vstring cmdInput1(const char *ask) {
   vstring_def(commandLn);
   vstring_def(ask1);
   long p, i;
+  // "Do you want to EXIT anyway" etc. (below, ask1 may be only its last part)
+  flag exitQuestion = !strncmp(ask, "Do", 2);
   // In case ask is temporarily allocated (i.e in case it will
   // become deallocated at next let().
   let(&ask1, ask);
@@ -909,7 +911,7 @@ vstring cmdInput1(const char *ask) {
       if (!commandLn) {
         commandLn = ""; // Init vstring (was NULL)
         // Allow ^D to exit
-        if (strcmp(left(ask1, 2), "Do")) {
+        if (!exitQuestion) {
           // ^Z or ^D found at MM>, MM-PA>, or TOOLS> prompt
           let(&commandLn, "EXIT");
         } else {
-- 
2.43.0


From 245d846ba11f9bc5459b28b4c102bbdbd1731c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 042/102] fix: SHOW USAGE no longer misses uses in compressed
 proofs with comments in the label list

---
 src/mmcmds.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 3fc038a..7f3a60d 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3601,16 +3601,17 @@ vstring traceUsage(long statemNum,
         continue; // Don't bother
       }
       fbPtr = fbPtr + whiteSpaceLen(fbPtr); // Get past white space
-      if (fbPtr[0] == '(') { // "(" is flag for compressed proof
-        fbPtr2 = fbPtr;
-        while (fbPtr2[0] != ')') {
-          fbPtr2++;
-          if (fbPtr2[0] == 0) bug(217); // Didn't find closing ')'
+      fbPtr2 = g_Statement[stmt].proofSectionPtr +
+          g_Statement[stmt].proofSectionLen;
+      // Search only the label list of a compressed proof (up to the ")", which
+      // may be preceded by comments) and the whole of any other proof.
+      if (fbPtr < fbPtr2 && fbPtr[0] == '(') {
+        char *fbPtr3 = fbPtr;
+        while (fbPtr3 < fbPtr2 && fbPtr3[0] != ')') {
+          fbPtr3++;
+          fbPtr3 = fbPtr3 + whiteSpaceLen(fbPtr3); // Skip comments
         }
-      } else {
-        // A non-compressed proof; use whole proof
-        fbPtr2 = g_Statement[stmt].proofSectionPtr +
-            g_Statement[stmt].proofSectionLen;
+        if (fbPtr3 < fbPtr2) fbPtr2 = fbPtr3;
       }
       zapSave = fbPtr2[0];
       fbPtr2[0] = 0; // Zap source for character string termination
-- 
2.43.0


From 47d2e55ad78ec535389e168365275c44f7103b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:54 +0000
Subject: [PATCH 043/102] fix: str() no longer writes beyond its buffer for
 numbers of more than 42 digits

---
 src/mmvstr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index e5e5304..48c7a11 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -11,6 +11,7 @@ This is an emulation of the string functions available in VMS BASIC.
 
 /*** See the comments in mmvstr.h for an explanation of these functions ******/
 
+#include <float.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -804,7 +805,8 @@ temp_vstring str(double f) {
   // the one after the decimal point are stripped; e.g., it returns 7.
   // instead of 7.000000000000000.
   long i;
-  temp_vstring s = tempAlloc(50);
+  const long size = DBL_MAX_10_EXP + 20; // Holds any double printed with %f
+  temp_vstring s = tempAlloc(size);
   sprintf(s,"%f", f);
   if (strchr(s, '.') != 0) { // The string has a period in it
     for (i = (long)strlen(s) - 1; i > 0; i--) { // Scan string backwards
@@ -812,7 +814,7 @@ temp_vstring str(double f) {
       s[i] = 0; // Delete the trailing 0
     }
     if (s[i] == '.') s[i] = 0; // Delete trailing period
-/*E*/INCDB1(-(49 - (long)strlen(s)));
+/*E*/INCDB1(-(size - 1 - (long)strlen(s)));
   }
   return s;
 } // str
-- 
2.43.0


From 4689d662c455819d24bfcf26aa248d96b785f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 044/102] fix: SUBSTITUTE no longer loses an empty line after a
 line it could not join

---
 src/metamath.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 1a6d2de..3ab65b2 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -913,6 +913,7 @@ void command(int argc, char *argv[]) {
   flag cmdMode, changedFlag, outMsgFlag;
   double sum;
   vstring_def(bufferedLine);
+  flag lineIsBuffered = 0; // bufferedLine holds the next input line
   vstring_def(tagStartMatch);  // For TAG command
   long tagStartCount = 0;      // For TAG command
   vstring_def(tagEndMatch);    // For TAG command
@@ -1429,13 +1430,15 @@ void command(int argc, char *argv[]) {
             outMsgFlag = 1;
         } // End switch
         free_vstring(bufferedLine);
-  
+        lineIsBuffered = 0;
+
         // while (linput(list1_fp, NULL, &str1)) {
         while (1) {
-          if (bufferedLine[0]) {
+          if (lineIsBuffered) {
             // Get input from buffered line (from rejected \n replacement)
             let(&str1, bufferedLine);
             free_vstring(bufferedLine);
+            lineIsBuffered = 0;
           } else {
             if (!linput(list1_fp, NULL, &str1)) break;
           }
@@ -1501,6 +1504,7 @@ void command(int argc, char *argv[]) {
                     free_vstring(bufferedLine);
                   } else {
                     k = 0; // No match - leave bufferedLine for next pass
+                    lineIsBuffered = 1; // (It may be empty)
                   }
                 } else { // EOF reached
                   print2("Warning: file %s has an odd number of lines\n",
-- 
2.43.0


From 2bbf1fcc776c06537972bff08a5c1998d8af53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 045/102] fix: edit() and CLEAN no longer reduce blanks inside
 quotes that are to be left alone

---
 src/mmvstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 48c7a11..5af24fe 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -504,8 +504,11 @@ temp_vstring edit(const char *sin, long control) {
   // Reduce multiple space/tab to a single space
   if (reduce_flag) {
     i = j = last_char_is_blank = 0;
+    processing_inside_quote = 0;
     while (i <= k - 1) {
-      if (!isblank_(sout[i])) {
+      if (quote_flag && ((sout[i] == '"') || (sout[i] == '\'')))
+        processing_inside_quote = ~ processing_inside_quote;
+      if (processing_inside_quote || !isblank_(sout[i])) {
         sout[j++] = sout[i++];
         last_char_is_blank = 0;
       } else {
-- 
2.43.0


From afb61020ab4fa82a20eaba8af270cdecbf51863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 046/102] fix: linput() no longer reads outside its buffer when
 a line starts with a NUL character

---
 src/mmvstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 5af24fe..82127eb 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -278,12 +278,12 @@ int linput(FILE *stream, const char* ask, vstring *target) {
   if (stream == NULL) stream = stdin;
   while (!eol_found && fgets(f, sizeof(f), stream))
   {
-    size_t endpos = strlen(f) - 1;
-    eol_found = (f[endpos] == '\n');
+    size_t length = strlen(f); // 0 if the line starts with a NUL character
+    eol_found = (length > 0 && f[length - 1] == '\n');
     // If the last line in the file has no newline, eol_found will be 0 here.
     // The fgets() above will return 0 and prevent another loop iteration.
     if (eol_found)
-      f[endpos] = 0; // The return string will have any newline stripped.
+      f[length - 1] = 0; // The return string will have any newline stripped.
     if (result)
       // Append additional parts of the line to *target.
       // The let() reallocates *target and copies the concatenation of the
-- 
2.43.0


From 2aef915f61b37cddc8fcc54b0e01470a36b0c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 047/102] fix: COPY leaves no temporary file behind when an
 input file is missing

---
 src/metamath.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 3ab65b2..5b0b498 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2032,8 +2032,11 @@ void command(int argc, char *argv[]) {
           }
           fclose(list1_fp);
         }
-        if (j) continue; // One of the input files couldn't be opened
         fclose(list2_fp);
+        if (j) { // One of the input files couldn't be opened
+          remove(list2_ftmpname);
+          continue;
+        }
         print2("The output file \"%s\" has %ld lines.\n", g_fullArg[2], lines);
         fSafeRename(list2_ftmpname, g_fullArg[2]);
         continue;
-- 
2.43.0


From ac152836dadfc4230fa63c9db9b53235c0ea7d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 048/102] fix: SAVE PROOF inside the Proof Assistant no longer
 marks the proof in progress as saved

---
 src/metamath.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 5b0b498..8cebea8 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3818,12 +3818,14 @@ void command(int argc, char *argv[]) {
 
           if (saveFlag) {
             g_sourceChanged = 1;
-            g_proofChanged = 0;
-            if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
-              // The UNDO stack may not be empty.
-              // UNDO stack empty no longer reliably indicates that
-              // proof hasn't changed.
-              proofSavedFlag = 1; 
+            if (pipFlag) { // SAVE PROOF doesn't save the proof in progress
+              g_proofChanged = 0;
+              if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
+                // The UNDO stack may not be empty.
+                // UNDO stack empty no longer reliably indicates that
+                // proof hasn't changed.
+                proofSavedFlag = 1; 
+              }
             }
 
             // Add an initial \n which will go after the "$=" and the
-- 
2.43.0


From d16ae9e6ce529a2b68eb69b1aeee6c4df0acaeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 049/102] fix: UNDO and REDO that change nothing no longer mark
 the proof as changed

---
 src/metamath.c | 6 ++++--
 src/mmpfas.c   | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 8cebea8..ba318ec 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4160,8 +4160,9 @@ void command(int argc, char *argv[]) {
     }
 
     if (cmdMatches("UNDO")) {
+      g_proofChangedFlag = 0;
       processUndoStack(&g_ProofInProgress, PUS_UNDO, "", 0);
-      g_proofChanged = 1; // Maybe make this more intelligent some day
+      if (g_proofChangedFlag) g_proofChanged = 1; // Cumulative flag
       // Automatically display new unknown steps
       // ???Future - add switch to enable/defeat this
       typeProof(g_proveStatement,
@@ -4183,8 +4184,9 @@ void command(int argc, char *argv[]) {
     }
 
     if (cmdMatches("REDO")) {
+      g_proofChangedFlag = 0;
       processUndoStack(&g_ProofInProgress, PUS_REDO, "", 0);
-      g_proofChanged = 1; // Maybe make this more intelligent some day
+      if (g_proofChangedFlag) g_proofChanged = 1; // Cumulative flag
       // Automatically display new unknown steps
       // ???Future - add switch to enable/defeat this
       typeProof(g_proveStatement,
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 350a928..decc93d 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -3394,6 +3394,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       // Some commands (e.g. INITIALIZE ALL) restart the numbering of working
       // variables, so a number used in the restored proof could be reused
       g_pipDummyVars = proofStack[stackPtr].dummyVars;
+      g_proofChangedFlag = 1; // The proof may be different now
       break;
 
     case PUS_REDO:
@@ -3409,6 +3410,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       g_pipDummyVars = proofStack[stackPtr].dummyVars;
       printLongLine(cat("Redid:  ", infoStack[stackPtr],
               NULL), "", " ");
+      g_proofChangedFlag = 1; // The proof may be different now
       break;
 
     default:
-- 
2.43.0


From f8b0a140ca4a6d34160689c14b03d6233f5801fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 050/102] fix: HTML output no longer reports program bug #1505
 when the screen width is small

---
 src/mminou.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index abc43d5..94c2a49 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -458,7 +458,8 @@ flag print2(const char* fmt, ...) {
   }
 
   // Check for lines too long
-  if (lineLen > g_screenWidth + 1) { // The +1 ignores \n
+  if (lineLen > g_screenWidth + 1 // The +1 ignores \n
+         && !g_outputToString /* for HTML */ ) {
     // Warning:  Do not call bug(), because it calls print2.
     // If this bug occurs, the calling function should be fixed.
     printf("*** PROGRAM BUG #1505 (not serious, but please report it)\n");
-- 
2.43.0


From 85b2105b86fdffcb4868c820d068c8a7f827e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 051/102] fix: the SUBMIT nesting error goes to the log file
 and is subject to / SILENT

---
 src/metamath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index ba318ec..3b8faee 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1286,7 +1286,7 @@ void command(int argc, char *argv[]) {
 
     if (cmdMatches("SUBMIT")) {
       if (g_commandFileNestingLevel == MAX_COMMAND_FILE_NESTING) {
-        printf("?The SUBMIT nesting level has been exceeded.\n");
+        print2("?The SUBMIT nesting level has been exceeded.\n");
         continue;
       }
       g_commandFilePtr[g_commandFileNestingLevel + 1] = fSafeOpen(g_fullArg[1], "r",
-- 
2.43.0


From 022a94b8a08e0fb03210bf4eccce373cf32f05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 052/102] fix: the note about a header in VERIFY MARKUP goes to
 the log file

---
 src/mmcmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 7f3a60d..25a7547 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -5219,7 +5219,7 @@ void verifyMarkup(vstring labelMatch,
           PROCESS_EVERYTHING + ERRORS_ONLY, // actionBits
           fileCheck));
 
-    if (f != 0) printf(
+    if (f != 0) print2(
 "    (The warning above refers to a header above the referenced statement.)\n");
     if (f != 0) errFound = 1;
   } // next stmtNum
-- 
2.43.0


From 5a0d8606d12b20703e4820afd4d2065e7a056b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 053/102] fix: a LaTeX file that is open survives commands that
 write HTML files or check markup

---
 src/metamath.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 3b8faee..2bec2ad 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -927,6 +927,9 @@ void command(int argc, char *argv[]) {
 
   flag defaultScrollMode = 1; // Default to prompted mode
 
+  FILE *openTexFilePtr = NULL; // The file opened by OPEN TEX, if any
+  vstring_def(openTexFileName); // Its name
+
   // Initialization to avoid compiler warning (should not be theoretically
   // necessary).
   p = 0;
@@ -951,6 +954,14 @@ void command(int argc, char *argv[]) {
 
     g_errorCount = 0; // Reset error count before each read or proof parse
 
+    if (openTexFilePtr) {
+      // Commands that write HTML files or check markup use the same globals
+      g_texFilePtr = openTexFilePtr;
+      let(&g_texFileName, openTexFileName);
+      g_texFileOpenFlag = 1;
+      g_htmlFlag = 0;
+    }
+
     // Deallocate stuff that may have been used in previous pass
     free_vstring(str1);
     free_vstring(str2);
@@ -1261,6 +1272,8 @@ void command(int argc, char *argv[]) {
           printTexTrailer(texHeaderFlag);
           fclose(g_texFilePtr);
           g_texFileOpenFlag = 0;
+          openTexFilePtr = NULL;
+          free_vstring(openTexFileName);
         }
         if (g_logFileOpenFlag) {
           print2("The log file \"%s\" was closed %s %s.\n",g_logFileName,
@@ -6199,6 +6212,8 @@ void command(int argc, char *argv[]) {
       g_texFilePtr = fSafeOpen(g_texFileName, "w", 0 /* noVersioningFlag */);
       if (!g_texFilePtr) continue; // Couldn't open it (err msg was provided)
       g_texFileOpenFlag = 1;
+      openTexFilePtr = g_texFilePtr;
+      let(&openTexFileName, g_texFileName);
       print2("Created %s output file \"%s\".\n",
           g_htmlFlag ? "HTML" : "LaTeX", g_texFileName);
       printTexHeader(texHeaderFlag);
@@ -6216,6 +6231,8 @@ void command(int argc, char *argv[]) {
         printTexTrailer(texHeaderFlag);
         fclose(g_texFilePtr);
         g_texFileOpenFlag = 0;
+        openTexFilePtr = NULL;
+        free_vstring(openTexFileName);
       }
       free_vstring(g_texFileName);
       continue;
-- 
2.43.0


From e87e0eb8de0cb8b8e703214a2bf61d63e9967593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 054/102] fix: the token "wff" is looked up again after another
 source has been read

---
 src/mmcmds.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 25a7547..71f3a32 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -73,9 +73,9 @@ void typeStatement(long showStmt,
 
   // For syntax breakdown of definitions in HTML page
   long zapStatement1stToken;
-  // Array index of the hard-coded token "wff" - static so we only
-  // have to look it up once - set to -2 if not found.
-  static long wffToken = -1;
+  // Array index of the hard-coded token "wff" - set to -2 if not found.
+  // (Not static:  the token's index changes when another source is read.)
+  long wffToken = -1;
   subType = 0; // Assign to prevent compiler warnings - not theoretically necessary
 
   if (!showStmt) bug(225); // Must be 1 or greater
@@ -1971,9 +1971,9 @@ void typeProof(long statemNum,
       // list in the HTML pages, parse the wffs comprising the hypotheses
       // and the statement, and add their syntax to the hints list.
 
-      // Array index of the hard-coded token "wff" - static so we only have
-      // to look it up once - set to -2 if not found.
-      static long wffToken = -1;
+      // Array index of the hard-coded token "wff" - set to -2 if not found.
+      // (Not static:  the token's index changes when another source is read.)
+      long wffToken = -1;
       // Look up the token "wff" (hard-coded) if we haven't found it before
       if (wffToken == -1) { // First time
         // In case it's not found because the user's source used a convention
-- 
2.43.0


From 5845e6ca95e335b26c65a8780f1949bb1a078e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 055/102] fix: SHOW PROOF / TEX / STATEMENT_SUMMARY no longer
 prints the name of the file from freed memory

---
 src/mmcmds.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 71f3a32..2feda19 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2657,22 +2657,22 @@ void proofStmtSumm(long statemNum, flag essentialFlag, flag texFlag) {
           "\".",NULL), "", " ");
       } else {
         g_outputToString = 1; // Flag for print2 to add to g_printString
+        // (Not asciiToTt_temp():  the second call would deallocate the
+        // result of the first.)
+        free_vstring(str2);
+        str2 = asciiToTt(g_Statement[stmt].labelName);
+        free_vstring(str3);
+        str3 = asciiToTt(g_Statement[stmt].fileName);
         if (!g_htmlFlag) {
           print2("\n");
           print2("\n");
           print2("\\vspace{1ex} %%4\n");
-          printLongLine(cat("Statement {\\tt ",
-              asciiToTt_temp(g_Statement[stmt].labelName), "} ",
-              str1, "{\\tt ",
-              asciiToTt_temp(g_Statement[stmt].fileName),
-              "}.", NULL), "", " ");
+          printLongLine(cat("Statement {\\tt ", str2, "} ",
+              str1, "{\\tt ", str3, "}.", NULL), "", " ");
           print2("\n");
         } else {
-          printLongLine(cat("Statement <B>",
-              asciiToTt_temp(g_Statement[stmt].labelName), "</B> ",
-              str1, " <B>",
-              asciiToTt_temp(g_Statement[stmt].fileName),
-              "</B> ", NULL), "", "\"");
+          printLongLine(cat("Statement <B>", str2, "</B> ",
+              str1, " <B>", str3, "</B> ", NULL), "", "\"");
         }
         g_outputToString = 0;
         fprintf(g_texFilePtr, "%s", g_printString);
-- 
2.43.0


From 600cc13874713ee87d1710be90079c6fdffbda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 056/102] fix: VERIFY MARKUP no longer reads outside the source
 after WRITE SOURCE / FORMAT or / REWRAP

---
 src/mmcmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 2feda19..e088b2b 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4947,7 +4947,9 @@ void verifyMarkup(vstring labelMatch,
     // TODO - handle $[...$]
     // g_includeCalls is always nonzero now - but check
     // anyway; line numbers may be off if there are >1 files.
-    str1 = g_Statement[1].labelSectionPtr; // Start of input file
+    // (Not g_Statement[1].labelSectionPtr, which WRITE SOURCE / FORMAT and
+    // / REWRAP replace.)
+    str1 = g_sourcePtr; // Start of input file
     str2 = g_Statement[g_statements + 1].labelSectionPtr
        // g_statements + 1 is dummy statement to hold text after last statement
        + g_Statement[g_statements + 1].labelSectionLen; // End of input file
-- 
2.43.0


From 4694df8c6dadc102f6620ab62b8ebf87ab51bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:33 +0000
Subject: [PATCH 057/102] fix: wrapped output is no wider than SET WIDTH 3

With a width of 3 the length of the prefix of continuation lines became -1, so
that these lines were one character too wide.
---
 src/mminou.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 94c2a49..b526306 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -616,8 +616,8 @@ void printLongLine(const char *line, const char *startNextLine, const char *brea
     startNextLineLen = (long)strlen(startNextLine1);
     // Prevent infinite loop if next line prefix is longer than screen
     if (startNextLineLen > g_screenWidth - 4) {
-      startNextLineLen = g_screenWidth - 4;
-      let(&startNextLine1, left(startNextLine1, g_screenWidth - 4));
+      startNextLineLen = g_screenWidth > 4 ? g_screenWidth - 4 : 0;
+      let(&startNextLine1, left(startNextLine1, startNextLineLen));
     }
 
     // If startNextLine starts with "~" means add tilde
-- 
2.43.0


From e9e0b88780f83afa418573826f268b23f493605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 058/102] fix: SHOW PROOF / DETAILED_STEP names the step a
 local label refers to

It printed the step number minus one, and numbered the local labels unlike
the listing of the proof.
---
 src/mmcmds.c | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index e088b2b..f4e7de4 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2267,8 +2267,6 @@ void showDetailStep(long statemNum, long detailStep) {
   nmbrString_def(localLabels);
   nmbrString_def(localLabelNames);
   nmbrString_def(targetHyps);
-  long nextLocLabNum = 1; // Next number to be used for a local label
-  void *voidPtr; // bsearch result
   char type;
 
   // Error check
@@ -2315,20 +2313,9 @@ void showDetailStep(long statemNum, long detailStep) {
     stmt = proof[step];
     if (stmt >= 0) {
       if (nmbrElementIn(1, localLabels, step)) {
-        // This statement declares a local label.
-        // First, get a name for the local label, using the next integer that
-        // does not match any integer used for a statement label.
-        let(&tmpStr1, str((double)nextLocLabNum));
-        while (1) {
-          voidPtr = (void *)bsearch(tmpStr,
-              g_allLabelKeyBase, (size_t)g_numAllLabelKeys,
-              sizeof(long), labelSrchCmp);
-          if (!voidPtr) break; // It does not conflict
-          nextLocLabNum++; // Try the next one
-          let(&tmpStr1, str((double)nextLocLabNum));
-        }
-        localLabelNames[step] = nextLocLabNum;
-        nextLocLabNum++; // Prepare for next local label
+        // This statement declares a local label.  It is named after the
+        // step number, as in the listing of the proof by typeProof().
+        localLabelNames[step] = step + 1;
       }
     }
   } // Next step
@@ -2381,7 +2368,7 @@ void showDetailStep(long statemNum, long detailStep) {
     if (stmt <= -1000) {
       stmt = -1000 - stmt;
       // stmt is now the step number a local label refers to
-      let(&tmpStr, cat(tmpStr, "step ", str((double)stmt),
+      let(&tmpStr, cat(tmpStr, "step ", str((double)(stmt + 1)),
           " (via local label reference \"",
           str((double)(localLabelNames[stmt])), "\") to ", NULL));
     } else {
-- 
2.43.0


From 9346562ab164dbf1b0621aabbcd4d45588724280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:11 +0000
Subject: [PATCH 059/102] fix: a ? in SEARCH matches one character of a symbol,
 not a space between symbols

---
 src/mmdata.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index edb1d0b..35114c6 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -929,7 +929,8 @@ flag matches(const char *testString, const char *pattern, char wildCard,
   // Get to first wild card character
   ppos = 0;
   while ((pattern[ppos] == testString[ppos] ||
-          (pattern[ppos] == oneCharWildCard && testString[ppos] != 0))
+          (pattern[ppos] == oneCharWildCard && testString[ppos] != 0
+              && testString[ppos] != ' '))
       && pattern[ppos] != 0) ppos++;
   if (pattern[ppos] == 0) {
     if (testString[ppos] != 0) {
@@ -956,7 +957,8 @@ flag matches(const char *testString, const char *pattern, char wildCard,
     }
     if (pattern[ppos + 1 + i] != testString[tpos + pctr + i]
           && (pattern[ppos + 1 + i] != oneCharWildCard
-              || testString[tpos + pctr + i] == 0)) {
+              || testString[tpos + pctr + i] == 0
+              || testString[tpos + pctr + i] == ' ')) {
       if (testString[tpos + pctr + i] == 0) {
         return (0);
       }
-- 
2.43.0


From 7176fa61545c4d971e8ca6ad972191dba856ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:11 +0000
Subject: [PATCH 060/102] fix: $* at the beginning or end of a SEARCH string
 also matches no symbols

---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 2bec2ad..1eb77c9 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5843,7 +5843,9 @@ void command(int argc, char *argv[]) {
             str3[p + s] = str1[p];
           }
         }
-        let(&str1, left(str3, q + s));
+        // The spaces around the pattern let "$*" at its beginning or end
+        // match 0 tokens, as it does between two tokens.
+        let(&str1, cat(" ", left(str3, q + s), " ", NULL));
 
         // Find single-character-match wildcard argument "$?"
         // (or "?" for convenience).  Use ASCII 3 for the exactly-1-char
@@ -5896,7 +5898,7 @@ void command(int argc, char *argv[]) {
         }
 
         // Add wildcards to beginning and end to match middle of any string
-        let(&str1, cat(chr(2), " ", str1, " ", chr(2), NULL));
+        let(&str1, cat(chr(2), str1, chr(2), NULL));
       } // End no COMMENTS switch
 
       for (i = 1; i <= g_statements; i++) {
-- 
2.43.0


From f660d69d88e2d53cbb5c1377fd1e89823cb394b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:11 +0000
Subject: [PATCH 061/102] fix: SEARCH / COMMENTS takes a line feed in a comment
 as white space

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 1eb77c9..ccd5bd7 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5912,6 +5912,10 @@ void command(int argc, char *argv[]) {
         if (n) { // COMMENTS switch
           free_vstring(str2);
           str2 = getDescription(i); // str2 must be deallocated here
+          // A line feed separates words like a space does.
+          for (j = 0; str2[j] != 0; j++) {
+            if (str2[j] == '\n') str2[j] = ' ';
+          }
           // Strip linefeeds and reduce spaces; cvt to uppercase
           j = instr(1, edit(str2, 4 + 8 + 16 + 128 + 32), str1);
           if (!j) { // No match
-- 
2.43.0


From e2f21473b8fae233df3ab06e96419bc70c4d479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 062/102] fix: a mathbox header on the last line of a comment
 is no longer an internal bug

---
 src/mmwtex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index d4cff57..0b57e5b 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5658,7 +5658,8 @@ long getMathboxLoc(nmbrString **mathboxStart, nmbrString **mathboxEnd,
     // Found a mathbox; assign user and start statement
     mathboxes++;
     q = instr(p, comment, "\n");
-    if (q == 0) bug(2350); // No end of line
+    if (q == 0) q = instr(p, comment, "$)"); // Header with no end of line
+    if (q == 0) bug(2350); // No end of comment
     let(&user, seg(comment, p + tagLen, q - 1));
     pntrLet(&(*mathboxUser), pntrAddElement(*mathboxUser));
     (*mathboxUser)[mathboxes - 1] = "";
-- 
2.43.0


From 053705e4bd1bf0fe104ccd168d3676167cf8bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 063/102] fix: statements between the label mathbox and the
 first mathbox are in no mathbox

---
 src/metamath.c | 38 ++++++++++++++++----------------------
 src/mmcmds.c   |  2 +-
 src/mmpfas.c   | 14 ++++++--------
 3 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index ccd5bd7..c9a0f96 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4543,14 +4543,12 @@ void command(int argc, char *argv[]) {
 
       // See if it's in another mathbox; if so, let user know
       assignMathboxInfo();
-      if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-        if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-          printLongLine(cat("\"", g_Statement[k].labelName,
-                "\" is in the mathbox for ",
-                g_mathboxUser[getMathboxNum(k) - 1], ".",
-                NULL),
-              "", " ");
-        }
+      if (inDiffMathboxes(k, g_proveStatement)) {
+        printLongLine(cat("\"", g_Statement[k].labelName,
+              "\" is in the mathbox for ",
+              g_mathboxUser[getMathboxNum(k) - 1], ".",
+              NULL),
+            "", " ");
       }
 
       // Automatically display new unknown steps
@@ -4753,10 +4751,9 @@ void command(int argc, char *argv[]) {
 
       mathboxFlag = (switchPos("INCLUDE_MATHBOXES") != 0);
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      i = getMathboxNum(g_proveStatement);
+      if (i > 0) {
         // We're in a mathbox
-        i = getMathboxNum(g_proveStatement);
-        if (i <= 0) bug(1130);
         thisMathboxStartStmt = g_mathboxStart[i - 1];
       } else {
         thisMathboxStartStmt = g_mathboxStmt;
@@ -5116,10 +5113,9 @@ void command(int argc, char *argv[]) {
       // "/ INCLUDE_MATHBOXES" is omitted.
 
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      i = getMathboxNum(g_proveStatement);
+      if (i > 0) {
         // We're in a mathbox
-        i = getMathboxNum(g_proveStatement);
-        if (i <= 0) bug(1130);
         thisMathboxStartStmt = g_mathboxStart[i - 1];
       } else {
         thisMathboxStartStmt = g_mathboxStmt;
@@ -5490,14 +5486,12 @@ void command(int argc, char *argv[]) {
 
             // See if it's in another mathbox; if so, let user know
             assignMathboxInfo();
-            if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-              if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-                printLongLine(cat("\"", g_Statement[k].labelName,
-                      "\" is in the mathbox for ",
-                      g_mathboxUser[getMathboxNum(k) - 1], ".",
-                      NULL),
-                    "  ", " ");
-              }
+            if (inDiffMathboxes(k, g_proveStatement)) {
+              printLongLine(cat("\"", g_Statement[k].labelName,
+                    "\" is in the mathbox for ",
+                    g_mathboxUser[getMathboxNum(k) - 1], ".",
+                    NULL),
+                  "  ", " ");
             }
 
             prntStatus = 2; // Found one
diff --git a/src/mmcmds.c b/src/mmcmds.c
index f4e7de4..6b6d1d1 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -5244,7 +5244,7 @@ void verifyMarkup(vstring labelMatch,
           stmt = proof[step];
           if (stmt < 0) continue; // Local step or '?' step
           if (stmt == 0) bug(266);
-          if (stmt > g_mathboxStmt && stmt < g_mathboxStart[pmbox - 1]) {
+          if (stmt >= g_mathboxStart[0] && stmt < g_mathboxStart[pmbox - 1]) {
             // A statement in another mathbox is referenced
 
             // Eliminate duplicate error messages:
diff --git a/src/mmpfas.c b/src/mmpfas.c
index decc93d..c7fe61c 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -1877,14 +1877,12 @@ nmbrString *proveFloating(const nmbrString *mString, long statemNum, long maxEDe
       if (mathboxFlag != 0) { // Skip unless /INCLUDE_MATHBOXES was specified
         // See if it's in another mathbox; if so, let user know
         assignMathboxInfo();
-        if (stmt > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-          if (stmt < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-            printLongLine(cat("Used \"", g_Statement[stmt].labelName,
-                  "\" from the mathbox for ",
-                  g_mathboxUser[getMathboxNum(stmt) - 1], ".",
-                  NULL),
-                "  ", " ");
-          }
+        if (inDiffMathboxes(stmt, g_proveStatement)) {
+          printLongLine(cat("Used \"", g_Statement[stmt].labelName,
+                "\" from the mathbox for ",
+                g_mathboxUser[getMathboxNum(stmt) - 1], ".",
+                NULL),
+              "  ", " ");
         }
       }
 
-- 
2.43.0


From 8494ae90474a7bade317b446a075650a1caf1f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 064/102] fix: a mark of discouragement is recognised when a
 line of its comment starts in the first column

---
 src/mmdata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 35114c6..1017dc8 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3111,6 +3111,7 @@ flag getMarkupFlag(long statemNum, flag mode) {
   static vstring_def(proofFlags); // Y if proof discouragement, else N
   static vstring_def(usageFlags); // Y if usage discouragement, else N
   vstring_def(str1);
+  long i;
 
   if (mode == RESET) { // Deallocate // Should be called by ERASE command
     free_vstring(commentSearchedFlags);
@@ -3150,6 +3151,10 @@ flag getMarkupFlag(long statemNum, flag mode) {
         bug(1393);
       }
       str1 = getDescription(statemNum); // str1 must be deallocated here
+      // A line feed separates words like a space does.
+      for (i = 0; str1[i] != 0; i++) {
+        if (str1[i] == '\n') str1[i] = ' ';
+      }
       // Strip linefeeds and reduce spaces
       let(&str1, edit(str1, 4 + 8 + 16 + 128));
       if (instr(1, str1, g_proofDiscouragedMarkup)) {
-- 
2.43.0


From 80b491005556930dc26e58a095a966881d83d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:27 +0000
Subject: [PATCH 065/102] fix: MINIMIZE_WITH proves floating hypotheses without
 discouraged statements and those of other mathboxes

---
 src/metamath.c | 4 +++-
 src/mmpfas.c   | 8 +++++---
 src/mmpfas.h   | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index c9a0f96..5ce0239 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5207,7 +5207,9 @@ void command(int argc, char *argv[]) {
           nmbrLet(&nmbrTmp, g_ProofInProgress.proof);
           minimizeProof(k, // trial statement
               g_proveStatement, // statement being proved in MM-PA
-              (char)mayGrowFlag); // mayGrowFlag
+              (char)mayGrowFlag, // mayGrowFlag
+              overrideFlag,
+              mathboxFlag);
 
           n = nmbrLen(g_ProofInProgress.proof); // New proof length
           if (!nmbrEq(nmbrTmp, g_ProofInProgress.proof)) {
diff --git a/src/mmpfas.c b/src/mmpfas.c
index c7fe61c..2fa8104 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2019,13 +2019,15 @@ INLINE flag quickMatchFilter(long trialStmt, const nmbrString *mString,
 
 // Shorten proof by using specified statement.
 void minimizeProof(long repStatemNum, long prvStatemNum,
-    flag allowGrowthFlag)
+    flag allowGrowthFlag, flag overrideFlag, flag mathboxFlag)
 {
   // repStatemNum is the statement number we're trying to use
   // in the proof to shorten it.
   // prvStatemNum is the statement number we're proving.
   // allowGrowthFlag means to make the replacement when possible,
   // even if it doesn't shorten the proof length.
+  // overrideFlag and mathboxFlag say whether the floating hypotheses may be
+  // proved with discouraged statements and those of other mathboxes.
 
   long plen, step, mlen, sym, sublen;
   long startingPlen = 0;
@@ -2075,8 +2077,8 @@ void minimizeProof(long repStatemNum, long prvStatemNum,
             0, // noDistinct=0 OK since searchMethod=0 will only call proveFloating for $f's
             0, // searchMethod=0: call proveFloating only for $f's
             0, // improveDepth=0 OK since we call proveFloating only for $f's
-            2, // overrideFlag=2(silent) OK since MINIMIZE_WITH checked it
-            1 // mathboxFlag=1 since MINIMIZE_WITH has checked it before here
+            overrideFlag ? 2 : 0, // MINIMIZE_WITH has checked repStatemNum
+            mathboxFlag
             );
       }
       // Replacement was not successful
diff --git a/src/mmpfas.h b/src/mmpfas.h
index bc4d724..b10b788 100644
--- a/src/mmpfas.h
+++ b/src/mmpfas.h
@@ -130,7 +130,8 @@ char quickMatchFilter(long trialStmt, const nmbrString *mString,
     long dummyVarFlag /*!< 0 if no dummy vars in mString */);
 
 /*! Shorten proof by using specified statement. */
-void minimizeProof(long repStatemNum, long prvStatemNum, flag allowGrowthFlag);
+void minimizeProof(long repStatemNum, long prvStatemNum, flag allowGrowthFlag,
+    flag overrideFlag, flag mathboxFlag);
 
 /*! Initialize g_ProofInProgress.source of the step, and .target of all
    hypotheses, to schemes using new dummy variables. */
-- 
2.43.0


From 283e95f2bcf512464293d3860abbb37001c8beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 066/102] fix: WRITE SOURCE /EXTRACT separates a statement from
 what it writes before it

---
 src/mmcmds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 6b6d1d1..59f2aae 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4248,6 +4248,9 @@ void writeExtractedSource(
 
       fixUndefinedLabels(extractNeeded, &buf);
 
+      // The statement may have been at the very beginning of the input file
+      // or its comment may have followed another one after a tab
+      if (!isspace((unsigned char)(buf[0]))) fprintf(fp, "\n");
       fprintf(fp, "%s", buf);
       // Text below last statement isn't (currently) used - do we need it?
       if (stmt == g_statements + 1) bug(272);
-- 
2.43.0


From 5a1ef803c83acd2658ce8283c341f45705150c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 067/102] fix: WRITE SOURCE /EXTRACT takes only the first
 comment of the first line into its header

---
 src/mmcmds.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 59f2aae..b604ba0 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4186,8 +4186,11 @@ void writeExtractedSource(
     // Prevent "Extracted from:" accumulation if sent through /EXTRACT again
     let(&buf, right(buf, j + 1));
   }
+  // Ignore what follows the first comment, such as the start of another one
+  p1 = instr(1, buf, "$)");
+  if (p1 != 0) let(&buf, left(buf, p1 + 1));
   fprintf(fp, "$( Extracted from: %s", buf);
-  if (instr(1, buf, "$)") == 0) fprintf(fp, " $)");
+  if (p1 == 0) fprintf(fp, " $)");
   fprintf(fp,
       "\n$( Created %s %s using \"READ '%s'\" then\n",
       date(), time_(), g_input_fn);
-- 
2.43.0


From 88900f3de647bf71d3e2fcb6d932aae4d2cecb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 068/102] fix: WRITE SOURCE /EXTRACT writes the $t comment only
 once

---
 src/mmdata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 1017dc8..34a414b 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3080,6 +3080,11 @@ vstring getDescriptionAndLabel(long stmt) {
     dontUseComment = 1;
   }
 
+  // Remove comments with $t markup (the $t comment is written separately)
+  if (instr(1, descriptionAndLabel, "$t") != 0) {
+    dontUseComment = 1;
+  }
+
   // Remove comments with $j markup
   if (instr(1, descriptionAndLabel, "$j") != 0) {
     dontUseComment = 1;
-- 
2.43.0


From 30b006b7e8e67854fb733af03138afb33f261328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 069/102] fix: WRITE SOURCE /EXTRACT keeps a label followed by
 a comment

---
 src/mmdata.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 34a414b..18494c7 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3048,6 +3048,7 @@ vstring getDescriptionAndLabel(long stmt) {
   vstring_def(descriptionAndLabel);
   long p1, p2;
   flag dontUseComment = 0;
+  vstring_def(labelBefore);
 
   let(&descriptionAndLabel, space(g_Statement[stmt].labelSectionLen));
   memcpy(descriptionAndLabel, g_Statement[stmt].labelSectionPtr,
@@ -3062,10 +3063,14 @@ vstring getDescriptionAndLabel(long stmt) {
   // Search backwards for non-space or beginning of string
   p1--;
   while (p1 != 0) {
-    if (descriptionAndLabel[p1 - 1] != ' '
-          && descriptionAndLabel[p1 - 1] != '\n') break;
+    if (!isspace((unsigned char)(descriptionAndLabel[p1 - 1]))) break;
     p1--;
   }
+  // If the label is before the last comment, keep it
+  if (g_Statement[stmt].labelName[0] != 0
+      && edit(right(descriptionAndLabel, p2 + 2), 2 + 4)[0] == 0) {
+    let(&labelBefore, cat("\n", g_Statement[stmt].labelName, NULL));
+  }
   let(&descriptionAndLabel, right(descriptionAndLabel, p1 + 1));
   // Ignore descriptionAndLabels that are section headers.
   // TODO: make this more precise here and in mmwtex.c - use 79-char decorations?
@@ -3097,6 +3102,10 @@ vstring getDescriptionAndLabel(long stmt) {
     let(&descriptionAndLabel, right(descriptionAndLabel, p2 + 2));
   }
 
+  if (labelBefore[0] != 0) {
+    let(&descriptionAndLabel, cat(labelBefore, descriptionAndLabel, NULL));
+    free_vstring(labelBefore);
+  }
   return descriptionAndLabel;
 } // getDescriptionAndLabel
 
-- 
2.43.0


From a9e440133b67599c9d5d502bc2e2cc627451671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 070/102] fix: WRITE SOURCE /EXTRACT includes statements that a
 compressed proof lists without using them

---
 src/mmcmds.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index b604ba0..66fb56e 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3859,6 +3859,30 @@ void writeExtractedSource(
     }
   } // next stmt
 
+  // A compressed proof may list labels that it doesn't use but that must exist
+  for (stmt = g_statements; stmt >= 1; stmt--) {
+    if (extractNeeded[stmt] != 'Y' || g_Statement[stmt].type != (char)p_) {
+      continue;
+    }
+    tmpPtr = g_Statement[stmt].proofSectionPtr;
+    tmpPtr = tmpPtr + whiteSpaceLen(tmpPtr);
+    if (tmpPtr[0] != '(') continue; // Not a compressed proof
+    while (1) {
+      tmpPtr = tmpPtr + proofTokenLen(tmpPtr);
+      tmpPtr = tmpPtr + whiteSpaceLen(tmpPtr);
+      j = proofTokenLen(tmpPtr);
+      if (j == 0 || tmpPtr[0] == ')') break;
+      let(&buf, space(j));
+      memcpy(buf, tmpPtr, (size_t)j);
+      scpStmt = lookupLabel(buf);
+      if (scpStmt == -1 || extractNeeded[scpStmt] == 'Y') continue;
+      traceProofWork(scpStmt, 0, "", &statementUsedFlags, &unprovedList);
+      for (stmtj = 1; stmtj <= scpStmt; stmtj++) {
+        if (statementUsedFlags[stmtj] == 'Y') extractNeeded[stmtj] = 'Y';
+      }
+    }
+  } // next stmt
+
   // Next, we add in all necessary  ${ $} scoping statements
   print2("Determining which ${ and $} scoping statements are needed...\n");
   for (stmt = 1; stmt <= g_statements; stmt++) {
-- 
2.43.0


From 961e82379242530005022063579735506a3c304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 071/102] fix: WRITE SOURCE /EXTRACT leaves the word after an
 escaped ~ alone

---
 src/mmcmds.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 66fb56e..8f3e9f5 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4416,10 +4416,9 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
   while (1) {
     p1 = instr(p1 + 1, *buf, "~");
     if (p1 == 0) break;
-    if (p1 - 2 >= 0) { // Prevent out-of-bounds access
-      if ((*buf)[p1 - 2] == '~') {
-        continue; // it is a ~~ escape; don't process
-      }
+    if ((*buf)[p1] == '~') {
+      p1++;
+      continue; // it is a ~~ escape; don't process
     }
     while (1) {
       // Get beyond any whitespace between ~ and label
-- 
2.43.0


From e5c2965dc6ed5bef996ddb833c5a2e2525816b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:43 +0000
Subject: [PATCH 072/102] fix: WRITE SOURCE /EXTRACT replaces the ~ of a label
 that is not directly after it

---
 src/mmcmds.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 8f3e9f5..d3fa496 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4390,7 +4390,7 @@ void writeExtractedSource(
 void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
     vstring *buf) // header comment
 {
-  long p1, p2, p3;
+  long p1, p2, p3, tildePos;
   vstring_def(label);
   vstring_def(newLabelWithTilde);
   vstring_def(restOfComment);
@@ -4420,6 +4420,7 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
       p1++;
       continue; // it is a ~~ escape; don't process
     }
+    tildePos = p1;
     while (1) {
       // Get beyond any whitespace between ~ and label
       if ((*buf)[p1 + 1] == 0) break; // end of string
@@ -4442,10 +4443,9 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
     let(&newLabelWithTilde, cat(label,
         "\n ~ http://us.metamath.org/mpeuni/",
         label, ".html", NULL));
-    let(&(*buf), cat(left(*buf, p1 - 1), newLabelWithTilde, NULL));
+    let(&(*buf), cat(left(*buf, tildePos - 1), newLabelWithTilde, NULL));
     // Adjust pointer to go past the modified label
-    p1 = p1 + (long)strlen(newLabelWithTilde)
-          - ((long)strlen(label) + 2); // for "~ "
+    p1 = tildePos - 1 + (long)strlen(newLabelWithTilde);
     // Put newline if not at end of line - assumes no trailing spaces in .mm!
     // We do this to prevent too-long lines.  But if we're already at end
     // of line, we don't want to create a paragraph, so we don't add newline.
-- 
2.43.0


From c989abd9838acd8337c672cbacdc509ffa2b9039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 073/102] fix: /FORMAT and /REWRAP handle labels followed by a
 comment or named in one

---
 src/mmpars.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 01f4141..8597099 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3977,6 +3977,15 @@ vstring outputStatement(long stmt, flag reformatFlag) {
 
     // Reformat the label section
 
+    // Remove the label, which is added below.  Comments after it are kept.
+    if (g_Statement[stmt].labelName[0] != 0) {
+      pos = whiteSpaceLen(labelSection); // Spaces and comments before the label
+      let(&str1, right(labelSection, pos + 1
+          + (long)strlen(g_Statement[stmt].labelName)));
+      if (instr(1, str1, "$(") == 0) let(&str1, "");
+      let(&labelSection, cat(left(labelSection, pos), str1, NULL));
+    }
+
     // Remove spaces a end of line.
     // This is a pretty inefficient loop, but hopefully lots of spaces
     // at end of lines is a rare occurrence.
@@ -4203,8 +4212,6 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         break; // End of $a, $p cases
       case e_: // $e
       case f_: // $f
-        pos = rinstr(labelSection, g_Statement[stmt].labelName);
-        let(&labelSection, left(labelSection, pos - 1));
         pos = rinstr(labelSection, "\n");
         // If there is none, insert it (unless first line in file)
         if (pos == 0 && stmt > 1) {
-- 
2.43.0


From 60bf655e7462a1b56075d5227eb29f5410fd2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 074/102] fix: /FORMAT and /REWRAP keep comments on the line of
 a label or description

---
 src/mmpars.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 8597099..2700f5f 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4122,8 +4122,10 @@ vstring outputStatement(long stmt, flag reformatFlag) {
           pos = 1;
         }
 
-        // If there is no '\n', insert it (unless first line in file)
-        if (pos == 0 && stmt > 1) {
+        // If there is no '\n', insert it (unless first line in file).  Also
+        // insert it after another comment.
+        if (stmt > 1 && (pos == 0
+            || edit(right(labelSection, pos + 1), 2)[0] != 0)) {
           let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
               "\n", NULL));
           pos = (long)strlen(labelSection) + 1;
@@ -4213,8 +4215,10 @@ vstring outputStatement(long stmt, flag reformatFlag) {
       case e_: // $e
       case f_: // $f
         pos = rinstr(labelSection, "\n");
-        // If there is none, insert it (unless first line in file)
-        if (pos == 0 && stmt > 1) {
+        // If there is none, insert it (unless first line in file).  Also insert
+        // it after a comment.
+        if (stmt > 1 && (pos == 0
+            || edit(right(labelSection, pos + 1), 2)[0] != 0)) {
           let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
               "\n", NULL));
           pos = (long)strlen(labelSection) + 1;
-- 
2.43.0


From 055ae6030604cdd3604071ce9dbf5a42a6f07560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:30 +0000
Subject: [PATCH 075/102] fix: /FORMAT adds no blank line before a line of a
 comment that starts with a long word

---
 src/mmpars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 2700f5f..d8aeac6 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4165,9 +4165,13 @@ vstring outputStatement(long stmt, flag reformatFlag) {
             }
             // Add back indent+3 spaces to beginning of line in comment
             let(&comment, cat(left(comment, pos),
-                (comment[pos + length] != '\n')
+                (comment[pos + length] != '\n'
+                    && indent + 3 + (long)strcspn(comment + pos + length, " \n")
+                        <= g_screenWidth)
                     ? space(indent + 3)
-                    : "", // Don't add indentation if line is blank
+                    : "", // Don't add indentation if line is blank or if its
+                          // first word is too long (which would be put after a
+                          // blank line i.e. in another paragraph)
                 right(comment, pos + length + 1), NULL));
           }
 
-- 
2.43.0


From 48c33dcb9335bb1589ac044322c9555671010015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 076/102] fix: /FORMAT and /REWRAP leave section headers, $t,
 $j and file inclusion comments as they are

---
 src/mmpars.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index d8aeac6..9440051 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -15,6 +15,7 @@
 #include "mmpfas.h" // Needed for g_pipDummyVars, subproofLen()
 #include "mmunif.h" // Needed for g_minSubstLen
 #include "mmcmdl.h" // Needed for g_rootDirectory
+#include "mmwtex.h" // Needed for SMALL_DECORATION etc.
 // Potential statements in source file (upper limit) for
 // memory allocation purposes.
 long potentialStatements;
@@ -4107,12 +4108,27 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         }
         if (commentStart != 0) {
           let(&comment, seg(labelSection, commentStart, commentEnd));
+          // Section headers and comments with $t, $j or file inclusion markup
+          // aren't descriptions; leave them alone since their lines and
+          // quoted strings matter
+          if (instr(1, comment, "\n" HUGE_DECORATION) != 0
+              || instr(1, comment, "\n" BIG_DECORATION) != 0
+              || instr(1, comment, "\n" SMALL_DECORATION) != 0
+              || instr(1, comment, "\n" TINY_DECORATION) != 0
+              || instr(1, comment, "$t") != 0
+              || instr(1, comment, "$j") != 0
+              || instr(1, comment, "$[") != 0) {
+            commentStart = 0;
+          }
+        }
+        if (commentStart != 0) {
+          let(&labelSection, left(labelSection, commentStart - 1));
         } else {
           // If there is no comment before $a or $p, add dummy comment
           let(&comment, "$( PLEASE PUT DESCRIPTION HERE. $)");
+          let(&labelSection, left(labelSection, commentEnd));
         }
 
-        let(&labelSection, left(labelSection, commentStart - 1));
         // Get the last newline before the comment
         pos = rinstr(labelSection, "\n");
 
-- 
2.43.0


From 0e90bf52d2d022defd19b1a1c7e75aee499c0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 077/102] fix: /REWRAP no longer aborts on a comment that ends
 in a blank line

---
 src/mmpars.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 9440051..6a07998 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4468,14 +4468,8 @@ vstring rewrapComment(const char *comment1) {
   let(&comment, edit(comment, 16 /* reduce spaces */));
 
   // Remove spaces and blank lines at end of comment
-  while (1) {
-    length = (long)strlen(comment);
-    // Should have been syntax err (no space before "$)")
-    if (comment[length - 3] != ' ') bug(1730);
-    if (comment[length - 4] != ' ' && comment[length - 4] != '\n') break;
-    let(&comment, cat(left(comment, length - 4),
-        right(comment, length - 2), NULL));
-  }
+  let(&comment, cat(edit(left(comment, (long)strlen(comment) - 2),
+      16384 /* trailing spaces and newlines */), " $)", NULL));
 
   // Put period at end of comment ending with lowercase letter.
   // Note:  This will not detect a '~ label' at end of comment.
-- 
2.43.0


From 0230d4846d4225e1ae0c4e642107c514a329817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 078/102] fix: /REWRAP does not add a space to punctuation at
 the beginning of a paragraph each time

---
 src/mmpars.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 6a07998..20429cc 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4467,6 +4467,14 @@ vstring rewrapComment(const char *comment1) {
   }
   let(&comment, edit(comment, 16 /* reduce spaces */));
 
+  // Remove the space at the beginning of a line, so that it isn't taken for
+  // one that should not be broken
+  while (1) {
+    pos = instr(1, comment, "\n ");
+    if (pos == 0) break;
+    let(&comment, cat(left(comment, pos), right(comment, pos + 2), NULL));
+  }
+
   // Remove spaces and blank lines at end of comment
   let(&comment, cat(edit(left(comment, (long)strlen(comment) - 2),
       16384 /* trailing spaces and newlines */), " $)", NULL));
-- 
2.43.0


From 8a747850328e7d839fcaf3c4b91716947d91582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 079/102] fix: VERIFY MARKUP checks reserved labels after the
 first axiom too

---
 src/mmcmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index d3fa496..1a00476 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4807,8 +4807,8 @@ void verifyMarkup(vstring labelMatch,
     if (g_Statement[stmtNum].type == (char)a_) {
       if (!strcmp("|-", g_MathToken[
           (g_Statement[stmtNum].mathString)[0]].tokenName)) {
-        let(&str1, left(g_Statement[stmtNum].labelName, 3));
-        if (strcmp("ax-", str1) && strcmp("df-", str1)) {
+        let(&str2, left(g_Statement[stmtNum].labelName, 3));
+        if (strcmp("ax-", str2) && strcmp("df-", str2)) {
           assignStmtFileAndLineNum(stmtNum);
           printLongLine(cat("?Warning: In the $a statement \"",
               g_Statement[stmtNum].labelName, "\" at line ",
-- 
2.43.0


From eb84a7b285692b7658bfc3c557e8b3a4ad432146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 080/102] fix: a new line separates the words of contributor
 and date markup

---
 src/mmdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 18494c7..6e5cdb6 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3355,6 +3355,10 @@ vstring getContrib(long stmtNum, char mode) {
 
     free_vstring(description);
     description = getDescription(stmtNum);
+    // A new line separates words like a space
+    for (p = 0; description[p] != 0; p++) {
+      if (description[p] == '\n') description[p] = ' ';
+    }
     let(&description, edit(description,
         4 // ctrl 
         + 8 // leading 
-- 
2.43.0


From 8debdab607c05da8df2a0d9fa5d06c93bc920588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:38 +0000
Subject: [PATCH 081/102] fix: a date with an unknown month is not valid

---
 src/mmdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 6e5cdb6..24dbd0b 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3785,7 +3785,8 @@ flag parseDate(vstring dateStr, long *dd, long *mmm, long *yyyy) {
   j = instr(1, dateStr, "-");
   *dd = (long)val(left(dateStr, j - 1)); // Day
 #define MONTHS "JanFebMarAprMayJunJulAugSepOctNovDec"
-  *mmm = ((instr(1, MONTHS, mid(dateStr, j + 1, 3)) - 1) / 3) + 1; // 1 = Jan
+  *mmm = instr(1, MONTHS, mid(dateStr, j + 1, 3));
+  *mmm = (*mmm % 3 == 1) ? (*mmm - 1) / 3 + 1 : 0; // 1 = Jan, 0 = not a month
   j = instr(j + 1, dateStr, "-");
   *yyyy = (long)val(right(dateStr, j + 1));
   if (*yyyy < 100) { // 2-digit year (obsolete)
-- 
2.43.0


From 6fb183a589e7d7a743118fd0e8241e535fe5e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 082/102] fix: a date without a year is not valid

---
 src/mmdata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 24dbd0b..ea75ef3 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3788,6 +3788,7 @@ flag parseDate(vstring dateStr, long *dd, long *mmm, long *yyyy) {
   *mmm = instr(1, MONTHS, mid(dateStr, j + 1, 3));
   *mmm = (*mmm % 3 == 1) ? (*mmm - 1) / 3 + 1 : 0; // 1 = Jan, 0 = not a month
   j = instr(j + 1, dateStr, "-");
+  if (j == 0) err = 1; // There is no year
   *yyyy = (long)val(right(dateStr, j + 1));
   if (*yyyy < 100) { // 2-digit year (obsolete)
 #define START_YEAR 93 // Earliest 19xx year in set.mm database
-- 
2.43.0


From ba49b1826a397faf9426b5c58f342c2442eec1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 083/102] fix: VERIFY MARKUP reports contributor dates with a
 day that does not exist

---
 src/mmdata.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index ea75ef3..961795b 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3634,9 +3634,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (contribDate[0] != 0) {
-    parseDate(contribDate, &dd, &mmm, &yyyy);
+    p = parseDate(contribDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(contribDate, tmpDate0)) {
+    if (p != 0 || strcmp(contribDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3651,9 +3651,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (reviseDate[0] != 0) {
-    parseDate(reviseDate, &dd, &mmm, &yyyy);
+    p = parseDate(reviseDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(reviseDate, tmpDate0)) {
+    if (p != 0 || strcmp(reviseDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3668,9 +3668,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (shortenDate[0] != 0) {
-    parseDate(shortenDate, &dd, &mmm, &yyyy);
+    p = parseDate(shortenDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(shortenDate, tmpDate0)) {
+    if (p != 0 || strcmp(shortenDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
-- 
2.43.0


From 0941fd4854b0c172cf220051136688a22aa594c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 084/102] fix: VERIFY MARKUP does not claim success after a
 warning about a math symbol in a comment

---
 src/mmwtex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 0b57e5b..b19994f 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1014,6 +1014,8 @@ temp_vstring asciiToTt_temp(vstring s) {
   return makeTempAlloc(asciiToTt(s));
 }
 
+static flag texTokenWarning = 0; // Set when tokenToTex() has given a warning
+
 // Convert ascii token to LaTeX equivalent.
 // The "$" math delimiter is not placed around the returned arg. here
 // *** Note: The caller must deallocate the returned string.
@@ -1035,6 +1037,7 @@ vstring tokenToTex(vstring mtoken, long statemNum /* for error msgs */)
     let(&tex, ((struct texDef_struct *)texDefsPtr)->texEquiv);
   } else {
     // If it wasn't found, give user a warning...
+    texTokenWarning = 1;
     saveOutputToString = g_outputToString;
     g_outputToString = 0;
     // It is possible for statemNum to be 0 when
@@ -2617,7 +2620,9 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
           }
 
           free_vstring(tmpStr);
+          texTokenWarning = 0;
           tmpStr = asciiMathToTex(modeSection, g_showStatement);
+          if (texTokenWarning) returnVal = 1; // Error/warning printed
           if (!g_htmlFlag) {
             if (displayMode) {
               // It the user's responsibility to establish equation environment
-- 
2.43.0


From 45a80a3824d36c2b5969f37b6118bb4d60eeb940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 085/102] fix: no character of a label is skipped when the
 space before it is removed

---
 src/mmwtex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index b19994f..2674f37 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2389,6 +2389,7 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
         if (!strcmp("( ", tmp) || !strcmp("[ ", tmp)) {
           let(&cmt, cat(left(cmt, i - 2), right(cmt, i), NULL));
           clen = clen - 1;
+          i = i - 1;
         }
         free_vstring(tmp);
       }
-- 
2.43.0


From 9001a768799d82cd843ebbdcf60b8d57b51ba42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 086/102] fix: a quote in a math symbol is not taken for a
 quotation mark in LaTeX comments

---
 src/mmwtex.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 2674f37..128960e 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1869,6 +1869,19 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
     } // while (1)
   } // if g_htmlFlag
 
+  // Replace math symbols with spaces in cmtMasked for LaTeX (this was done
+  // above for HTML).
+  if (!g_htmlFlag) { // LaTeX
+    mode = 1; // 1 normal, -1 math token
+    for (i = 0; cmtMasked[i] != 0; i++) {
+      if (cmtMasked[i] == '`') {
+        mode = (char)(-mode);
+      } else if (mode == -1) {
+        cmtMasked[i] = ' ';
+      }
+    }
+  }
+
   // Handle dollar signs in comments converted to LaTeX.
   // This section is independent and can be removed without side effects.
   // This must be done before the underscores below so subscript $'s.
-- 
2.43.0


From 91467630b653fb8c12549941d7eb0371dc0e580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:29 +0000
Subject: [PATCH 087/102] fix: labels and URLs in comments are not changed in
 LaTeX output

---
 src/mmwtex.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 128960e..54a5bd4 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1921,6 +1921,17 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
       // (imperfect - only works if `...` is not split across lines?).
       if (cmt[pos1 - 1] == '`') tmpMathMode = (flag)(1 - tmpMathMode);
       if (tmpMathMode) continue;
+      if (cmt[pos1 - 1] == '~') {
+        // Don't modify labels and URLs
+        if (cmt[pos1] == '~') {
+          pos1++; // Skip ~~ escape
+          continue;
+        }
+        while (isspace((unsigned char)(cmt[pos1]))) pos1++;
+        while (cmt[pos1] != 0 && !isspace((unsigned char)(cmt[pos1]))
+            && cmt[pos1] != '`') pos1++;
+        continue;
+      }
       if (pos1 > 1) {
         if (cmt[pos1 - 1] == '_' && cmt[pos1 - 2] == '$') {
           // The _ is part of "$_{...}$" earlier conversion
@@ -2580,19 +2591,14 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
             } else {
 
               // Generate LaTeX version of the URL
-              i = instr(1, tmpStr, "\\char`\\~");
-              // The url{} function automatically converts ~ to LaTeX
-              if (i != 0) {
-                let(&tmpStr, cat(left(tmpStr, i - 1), right(tmpStr, i + 7),
-                    NULL));
-              }
-              let(&outputLine, cat(outputLine, "\\url{", tmpStr,
-                  "}", tmp, NULL));
+              // The url{} function automatically converts ~ etc. to LaTeX
+              let(&outputLine, cat(outputLine, "\\url{", modeSection,
+                  "}", NULL));
             }
           } else {
             // Do binary search through just $a's and $p's (there
             // are no html pages for local labels).
-            i = lookupLabel(tmpStr);
+            i = lookupLabel(modeSection);
             if (i < 0) {
               g_outputToString = 0;
               printLongLine(cat("?Warning: The label token \"", tmpStr,
-- 
2.43.0


From 166b14e833e3f5294fc95e66fdd9328df00a09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:29 +0000
Subject: [PATCH 088/102] fix: words of a description on different lines are
 kept apart in tooltips

---
 src/mmwtex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 54a5bd4..dc3436d 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3026,6 +3026,9 @@ void printTexLongMath(nmbrString *mathString,
           // Get description for mod below
           free_vstring(descr); // Deallocate previous description
           descr = getDescription(hypStmt);
+          for (i = 0; descr[i] != 0; i++) { // A new line separates words
+            if (descr[i] == '\n') descr[i] = ' ';
+          }
           let(&descr, edit(descr, 4 + 16)); // Discard lf/cr; reduce spaces
 #define MAX_DESCR_LEN 87
           if (strlen(descr) > MAX_DESCR_LEN) { // Truncate long lines
-- 
2.43.0


From d543867e95fd57675be01048eab1141fcb343744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 089/102] fix: a subscript at the end of a description does not
 extend over the markup after it

---
 src/mmwtex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index dc3436d..c3d34a2 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2036,6 +2036,8 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
               if (isspace((unsigned char)(cmt[pos2]))
                   || strchr(OPENING_PUNCTUATION, cmt[pos2]) != NULL
                   || strchr(CLOSING_PUNCTUATION, cmt[pos2]) != NULL) break;
+              // Don't include the markup after the end of the description
+              if (!strncmp(cmt + pos2, "</TD>", 5)) break;
               pos2++; // Move forward through subscript
             }
             pos2++; // Adjust for left, seg, etc. that start at 1 not 0
-- 
2.43.0


From cb39042a2ed1faa4776582e9343c8506884030b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 090/102] fix: MARKUP without /SYMBOLS does not take an escaped
 backquote for a delimiter

---
 src/mmwtex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index c3d34a2..0131f14 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2306,6 +2306,8 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
           // Escaped ` = actual `
           let(&cmt, cat(left(cmt, i + 1), right(cmt, i + 3), NULL));
           clen--;
+        } else {
+          i++; // The second ` doesn't delimit math symbols
         }
       } else {
         // We will still enter and exit math mode when
-- 
2.43.0


From 9f0b3ae39d41d6711424b8c8d8291f7fa684160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 091/102] fix: an underscore at the very end of a description
 is shown, not taken for a subscript

---
 src/mmwtex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 0131f14..7fac2e3 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2021,7 +2021,9 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
             && strchr(OPENING_PUNCTUATION, cmt[pos1 - 2]) == NULL) {
           // Check for not whitespace and not closing punctuation
           if (!isspace((unsigned char)(cmt[pos1]))
-            && strchr(CLOSING_PUNCTUATION, cmt[pos1]) == NULL) {
+            && strchr(CLOSING_PUNCTUATION, cmt[pos1]) == NULL
+            // The description ends with "_" if markup follows
+            && strncmp(cmt + pos1, "</TD>", 5)) {
 
             // Found <nonwhitespace>_<nonwhitespace> - assume subscript.
             // Locate the whitespace (or end of string) that closes subscript.
-- 
2.43.0


From fa3c6b7b0b16e6fe89e59f39cc6f3a69cb506424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:25 +0000
Subject: [PATCH 092/102] fix: the page number of a bibliographic reference may
 be any alphanumeric string

---
 src/mmwtex.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 7fac2e3..346734e 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5285,18 +5285,14 @@ flag writeBibliography(vstring bibFile,
       while (1) {
         j = instr(j + 1, str1, " p. "); // Heuristic - match " p. "
         if (!j) break;
-        if (j) {
-          for (k = j + 4; k <= (signed)(strlen(str1)) + 1; k++) {
-            if (!isdigit((unsigned char)(str1[k - 1]))) {
-              let(&str1, cat(left(str1, j + 2),
-                  space(4 - (k - (j + 4))), right(str1, j + 3), NULL));
-              // Add ### after page number as marker
-              let(&str1, cat(left(str1, j + 7), "###", right(str1, j + 8),
-                  NULL));
-              break;
-            }
-          }
-        }
+        k = j + 4; // First character of the page number
+        while (isdigit((unsigned char)(str1[k - 1]))) k++;
+        p = (k - (j + 4) < 4) ? 4 - (k - (j + 4)) : 0;
+        // The page number may be any alphanumeric string, e.g. "xii"
+        while (isalnum((unsigned char)(str1[k - 1]))) k++;
+        // Add ### after page number as marker
+        let(&str1, cat(left(str1, j + 2), space(p), seg(str1, j + 3, k - 1),
+            "###", right(str1, k), NULL));
       }
       // Process any bibliographic references in comment
       j = 0;
-- 
2.43.0


From 53036366b7b3d8a51f074b68a8e340dae9c3038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:25 +0000
Subject: [PATCH 093/102] fix: WRITE BIBLIOGRAPHY shows the keyword Subsection
 in full, not as Section

---
 src/mmwtex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 346734e..f05a597 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5380,6 +5380,9 @@ flag writeBibliography(vstring bibFile,
               || !strcmp(mid(str2, k, (long)strlen("TABLE")), "TABLE")
               ) {
             m = k;
+            // "SECTION" may be the end of the keyword "SUBSECTION"
+            if (k > 3 && !strcmp(mid(str2, k - 3,
+                (long)strlen("SUBSECTION")), "SUBSECTION")) m = k - 3;
             break;
           }
           freeTempAlloc(); // Clear tmp alloc stack created by "mid"
-- 
2.43.0


From 9cdfc9c542ba5db17559032c6efc4b5d4b418d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:25 +0000
Subject: [PATCH 094/102] fix: a subsection and a subsubsection header before
 one statement have anchors of their own

---
 src/mmwtex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index f05a597..1abb0a9 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3757,7 +3757,7 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
                 printLongLine(cat(
                     "&nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; ",
                     hdrCommentAnchor,
-                    "<A HREF=\"", str3, "s\">",
+                    "<A HREF=\"", str3, "t\">",
                     hdrCommentMarker,
                     tinyHdr, "</A>",
                     " &nbsp; <A HREF=\"",
@@ -4125,7 +4125,7 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
                  "<TR BGCOLOR=\"#FFFFF2\"><TD COLSPAN=3",
                  "><CENTER><B>",
                  "<A NAME=\"mm", str((double)(g_Statement[s].pinkNumber)),
-                     "s\"></A>", // Anchor for table of contents
+                     "t\"></A>", // Anchor for table of contents
                  (vstring)(pntrTinyHdr[s]),
                  "</B></CENTER>",
                  NULL),
-- 
2.43.0


From 937c4b731b1e9e532efdb732bd018fd0893aea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:15 +0000
Subject: [PATCH 095/102] fix: a small header before a larger one is ignored
 also when a header in between is missing

---
 src/mmwtex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 1abb0a9..4ecce6f 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -4422,6 +4422,7 @@ flag getSectionHeadings(long stmt,
   // for table of contents
   vstring_def(labelStr);
   long pos, pos1, pos2, pos3, pos4;
+  long startPos; // Position of the last larger header, or 0 if none
   flag errorFound = 0;
   flag saveOutputToString;
 
@@ -4536,6 +4537,7 @@ flag getSectionHeadings(long stmt,
   // pos = 0; // Leave pos alone so that we start with "huge" header pos,
   // to ignore any earlier "tiny" or "small" or "big" header.
   pos2 = 0;
+  startPos = pos;
   while (1) { // Find last "big" header, if any
     pos1 = pos;
     pos = instr(pos + 1, labelStr, "$(\n" BIG_DECORATION);
@@ -4545,6 +4547,7 @@ flag getSectionHeadings(long stmt,
     if (!pos) break;
     if (pos) pos2 = pos;
   }
+  if (!pos2) pos = startPos; // None found
   if (pos2) { // Extract "big" header
     pos1 = pos2; // Save "$(" position
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of #*#* line
@@ -4588,6 +4591,7 @@ flag getSectionHeadings(long stmt,
   // pos = 0; // Leave pos alone so that we start with "big" header pos,
   // to ignore any earlier "tiny" or "small" header
   pos2 = 0;
+  startPos = pos;
   while (1) { // Find last "small" header, if any
     pos1 = pos;
     pos = instr(pos + 1, labelStr, "$(\n" SMALL_DECORATION);
@@ -4597,6 +4601,7 @@ flag getSectionHeadings(long stmt,
     if (!pos) break;
     if (pos) pos2 = pos;
   }
+  if (!pos2) pos = startPos; // None found
   if (pos2) { // Extract "small" header
     pos1 = pos2; // Save "$(" position
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of =-=- line
-- 
2.43.0


From c4f5cdf128810364796113ef5f3a16c72f68bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 096/102] fix: IMPROVE ALL / 2 leaves assigned steps alone in
 its repeated pass 1 too

---
 src/metamath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 5ce0239..52df084 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4904,7 +4904,7 @@ void command(int argc, char *argv[]) {
 
             // I think this is really too conservative, even
             // with the old algorithm, but keep it to imitate the old one.
-            if (improveAllIter == 1 || searchAlg == 1) {
+            if (improveAllIter == 1 || improveAllIter == 4 || searchAlg == 1) {
               // If the step is known and unified, don't do it, since nothing
               // would be accomplished.
               if (!proofStepUnk) {
-- 
2.43.0


From 852ec50b04f7b5158bc65814ff2afbec7e48f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 097/102] fix: UNDO and REDO restore the state after the
 unification done by MATCH ALL

---
 src/metamath.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 52df084..0714f3d 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4380,11 +4380,14 @@ void command(int argc, char *argv[]) {
         }
         if (k) {
           g_proofChangedFlag = 1; // Restore it
-          g_proofChanged = 1; // Cumulative flag
-          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
           print2("Steps %ld and above have been renumbered.\n", k);
         }
         autoUnify(1);
+        // (What autoUnify() did belongs to the state to be restored by REDO)
+        if (g_proofChangedFlag) {
+          g_proofChanged = 1; // Cumulative flag
+          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
+        }
 
         continue;
       } // End if MATCH ALL
-- 
2.43.0


From 1c7dc1fc63620498daac544c0aff2be2e2887b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:21 +0000
Subject: [PATCH 098/102] fix: a misplaced "=" in an /EXPLICIT proof is an
 error

---
 src/mmpars.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 20429cc..658fd52 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2082,6 +2082,22 @@ char parseProof(long statemNum)
     g_WrkProof.errorCount++;
     g_WrkProof.numTokens--;
   }
+  // An "=" must stand between a target label and the step assigned to it
+  for (tok = 0; tok < g_WrkProof.numTokens; tok++) {
+    fbPtr = g_WrkProof.tokenSrcPtrPntr[tok];
+    if (fbPtr[0] != '=') continue;
+    if (tok > 0 && tok < g_WrkProof.numTokens - 1
+        && !strchr("=:?", ((char *)(g_WrkProof.tokenSrcPtrPntr[tok - 1]))[0])
+        && !strchr("=:", ((char *)(g_WrkProof.tokenSrcPtrPntr[tok + 1]))[0])) {
+      continue;
+    }
+    if (!g_WrkProof.errorCount) {
+      sourceError(fbPtr, 1, statemNum,
+          "The \"=\" must be preceded by a target label and followed by a label.");
+    }
+    if (returnFlag < 2) returnFlag = 2;
+    g_WrkProof.errorCount++;
+  }
   labelFlag = 0;
   for (tok = 0; tok < g_WrkProof.numTokens; tok++) {
     fbPtr = g_WrkProof.tokenSrcPtrPntr[tok];
-- 
2.43.0


From bb207bf8552b5ced01c0c2db7d778c9f64476118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:58 +0000
Subject: [PATCH 099/102] fix: SET ROOT_DIRECTORY keeps the spaces inside a
 directory name

---
 src/metamath.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 0714f3d..82aefc8 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6111,7 +6111,9 @@ void command(int argc, char *argv[]) {
 
     if (cmdMatches("SET ROOT_DIRECTORY")) {
       let(&str1, g_rootDirectory); // Save previous one
-      let(&g_rootDirectory, edit(g_fullArg[2], 2 /* discard spaces, tabs */));
+      // Discard leading and trailing spaces and tabs (but not those inside
+      // of a directory name)
+      let(&g_rootDirectory, edit(g_fullArg[2], 8 + 128));
       if (g_rootDirectory[0] != 0) { // Not an empty directory path
         // Add trailing "/" to g_rootDirectory if missing
         if (instr(1, g_rootDirectory, "\\") != 0
-- 
2.43.0


From dab19b5baf78ad73df72e43bf5a7152db3f8bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:58 +0000
Subject: [PATCH 100/102] fix: the prompts of SET WIDTH and SET HEIGHT offer
 the current value

---
 src/mmcmdl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmdl.c b/src/mmcmdl.c
index 476a423..5f830ef 100644
--- a/src/mmcmdl.c
+++ b/src/mmcmdl.c
@@ -1124,7 +1124,7 @@ flag processCommandLine(void) {
       if (cmdMatches("SET WIDTH")) {
         if (!getFullArg(2, cat(
            "# What is maximum line length on your screen <",
-            str((double)g_screenHeight), ">? ", NULL)))
+            str((double)g_screenWidth), ">? ", NULL)))
           goto pclbad;
         goto pclgood;
       }
@@ -1132,7 +1132,7 @@ flag processCommandLine(void) {
       if (cmdMatches("SET HEIGHT")) {
         if (!getFullArg(2, cat(
            "# What is number of lines your screen displays <",
-            str((double)g_screenHeight), ">? ", NULL)))
+            str((double)(g_screenHeight + 1)), ">? ", NULL)))
           goto pclbad;
         goto pclgood;
       }
-- 
2.43.0


From 1100b223bab6e2a5778142042e19a3e8318ee20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:45 +0000
Subject: [PATCH 101/102] fix: getSourceIndentation() ran off the buffer after
 WRITE SOURCE / REWRAP

---
 src/mmdata.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 961795b..7a7c1ce 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -2999,10 +2999,12 @@ long getSourceIndentation(long statemNum) {
   char *startLabel;
   long indentation = 0;
 
-  fbPtr = g_Statement[statemNum].mathSectionPtr;
-  if (fbPtr[0] == 0) return 0;
+  if (g_Statement[statemNum].mathSectionPtr[0] == 0) return 0;
   startLabel = g_Statement[statemNum].labelSectionPtr;
   if (startLabel[0] == 0) return 0;
+  // Start at the end of the label section.  (Don't start in the math section:
+  // the two are in different memory areas after WRITE SOURCE / REWRAP.)
+  fbPtr = startLabel + g_Statement[statemNum].labelSectionLen;
   while (1) { // Go back to first line feed prior to the label
     if (fbPtr <= startLabel) break;
     if (fbPtr[0] == '\n') break;
-- 
2.43.0


From 30f6f66c7e59eaa74dbf0e2a4a0ffe27bad1afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:45 +0000
Subject: [PATCH 102/102] fix: a word much longer than the screen overflowed
 the temporary string stack

---
 src/mminou.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mminou.c b/src/mminou.c
index b526306..6969427 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -664,6 +664,9 @@ void printLongLine(const char *line, const char *startNextLine, const char *brea
             // The line couldn't be broken.  Since it's an HTML line, we
             // can increase g_screenWidth until it will fit.
             g_screenWidth++;
+            // Empty the temporary string stack; it would overflow after many
+            // restarts otherwise.
+            free_vstring(prefix);
             // If this bug happens, we'll have to increase PRINTBUFFERSIZE
             // or change the HTML code being printed.
             // Ugly but another while loop nesting would be even more confusing.
-- 
2.43.0


From f2b3f050d2d6429cbe0425c244bfa177aece7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 01/56] fix: ignore an inclusion of the top-level file instead
 of reporting bug 1765

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 12c4043..0ea3e0b 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5770,7 +5770,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
       // This file has already been included. Change Begin and $[ $] to
       // Skip. alreadyInclBy is the index of the previous g_IncludeCall that
       // included it.
-      if (!(alreadyInclBy > 0)) bug(1765);
+      if (!(alreadyInclBy >= 0)) bug(1765);
       switch (cmdType) {
         case 'B':
           // Save the included source temporarily
-- 
2.43.0


From 4647705d37da7d5144294f97a415caf680ba755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 02/56] fix: WRITE SOURCE forgot unsaved changes when the
 source was not written

---
 src/metamath.c |  8 +++++---
 src/mmcmds.c   | 27 ++++++++++++++++++---------
 src/mmcmds.h   |  2 +-
 src/mmpars.c   | 20 +++++++++++++++-----
 src/mmpars.h   |  2 +-
 5 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 4850a68..eccd6f5 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2116,13 +2116,15 @@ void command(int argc, char *argv[]) {
         let(&str1, ""); // Empty string means full db
       }
 
-      writeSource((char)r, // Rewrap type
+      if (writeSource((char)r, // Rewrap type
         ((switchPos("SPLIT") > 0) ? 1 : 0),
         ((switchPos("NO_VERSIONING") > 0) ? 1 : 0),
         ((switchPos("KEEP_INCLUDES") > 0) ? 1 : 0),
         str1 // Label list to extract
-          );
-      g_sourceChanged = 0;
+          )) {
+        // Only a complete source on disk makes up for the changes
+        g_sourceChanged = 0;
+      }
 
       free_vstring(str1); // Deallocate
       continue;
diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4844624..4c092c9 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3694,7 +3694,9 @@ void readInput(void)
 // Note that the labelSection, mathSection, and proofSection do not
 // contain keywords ($a, $p,...; $=; $.).  The keywords are added
 // by outputStatement.
-void writeSource(
+// Returns 1 if all of the source was written, 0 otherwise (including when
+// only a part of it was asked for with / EXTRACT).
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
@@ -3709,6 +3711,7 @@ void writeSource(
   vstring_def(buffer);
   vstring_def(fullOutput_fn);
   FILE *fp;
+  flag written = 0;
 
   let(&fullOutput_fn, cat(g_rootDirectory, g_output_fn, NULL));
 
@@ -3760,26 +3763,32 @@ void writeSource(
 
     // Note that writeSplitSource requires a file name without path since
     // it is called recursively for file inclusions where path is added.
-    writeSplitSource(&buffer, g_output_fn, noVersioningFlag, keepSplitsFlag);
+    written = writeSplitSource(&buffer, g_output_fn, noVersioningFlag,
+        keepSplitsFlag);
   } else { // Write a non-split version
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
     if (fp == NULL) {
-      print2("?Error trying to write \"%s\".\n", fp);
+      print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     } else {
-      fprintf(fp, "%s", buffer); // Write the non-split output file
-      fclose(fp);
-      if (keepSplitsFlag == 0) {
+      // Write the non-split output file
+      written = (flag)(fprintf(fp, "%s", buffer) >= 0);
+      if (fclose(fp) != 0) written = 0; // Some of the text was not written
+      if (written == 0) {
+        print2("?Error trying to write \"%s\".\n", fullOutput_fn);
+      } else if (keepSplitsFlag == 0) {
         deleteSplits(&buffer, noVersioningFlag); // Delete any old includes
       }
     }
   }
 
-  print2("%ld source statement(s) were written.\n", g_statements);
+  if (written == 1) {
+    print2("%ld source statement(s) were written.\n", g_statements);
+  }
 
  RETURN_POINT:
   free_vstring(buffer); // Deallocate vstring
   free_vstring(fullOutput_fn); // Deallocate vstring
-  return;
+  return written;
 } // writeSource
 
 // Get info for WRITE SOURCE ... / EXTRACT
@@ -4174,7 +4183,7 @@ void writeExtractedSource(
 
   fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
   if (fp == NULL) {
-    print2("?Error trying to write \"%s\".\n", fp);
+    print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     goto EXTRACT_RETURN;
   }
 
diff --git a/src/mmcmds.h b/src/mmcmds.h
index d1b2974..4c18ce3 100644
--- a/src/mmcmds.h
+++ b/src/mmcmds.h
@@ -68,7 +68,7 @@ vstring htmlAllowedSubst(long showStmt);
 
 void readInput(void);
 /*! WRITE SOURCE command */
-void writeSource(
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
diff --git a/src/mmpars.c b/src/mmpars.c
index 0ea3e0b..3f87e66 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5187,7 +5187,9 @@ vstring writeSourceToBuffer(void) {
 // caller decide whether to say re-use fileBuf to create an unsplit version
 // of the .mm file in case the split version generation encounters an error.
 //                                     TODO ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
-/* flag(TODO) */ void writeSplitSource(vstring *fileBuf, const char *fileName,
+// Returns 1 if the file and all its inclusions are up to date on disk,
+// 0 if one of them could not be written.
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag) {
   FILE *fp;
   vstring_def(tmpStr1);
@@ -5203,6 +5205,7 @@ vstring writeSourceToBuffer(void) {
   long endPos1;
   long endPos2;
   char cmdType;
+  flag written = 1;
   startOffset = 0;
   let(&fileNameWithPath, cat(g_rootDirectory, fileName, NULL));
   while (1) {
@@ -5268,11 +5271,15 @@ vstring writeSourceToBuffer(void) {
           print2("?Error: couldn't create the file \"%s\"\n", fileNameWithPath);
           print2("  Make sure any directories needed have been created.\n");
           print2("  Try WRITE SOURCE without / SPLIT to recover your work.\n");
+          written = 0;
           break;
         } else {
           print2("Writing \"%s\"...\n", fileNameWithPath);
-          fprintf(fp, "%s", *fileBuf);
-          fclose(fp);
+          if (fprintf(fp, "%s", *fileBuf) < 0) written = 0;
+          if (fclose(fp) != 0) written = 0; // Some of the text was not written
+          if (written == 0) {
+            print2("?Error trying to write \"%s\".\n", fileNameWithPath);
+          }
           break;
         }
       } // if (writeFlag == 1 )
@@ -5294,8 +5301,10 @@ vstring writeSourceToBuffer(void) {
       let(&includeBuf, seg(*fileBuf, cmdPos2, endPos1 - 1));
       let(&(*fileBuf), cat(left(*fileBuf, cmdPos1 - 1), tmpStr1,
           right(*fileBuf, endPos2), NULL));
-      // TODO: intercept error from deeper calls?
-      writeSplitSource(&includeBuf, includeFn, noVersioningFlag, noDeleteFlag);
+      if (!writeSplitSource(&includeBuf, includeFn, noVersioningFlag,
+          noDeleteFlag)) {
+        written = 0;
+      }
       continue;
     } else if (cmdType == 'I') {
       bug(1752); // Any real $[ $] should have been converted to comment.
@@ -5321,6 +5330,7 @@ vstring writeSourceToBuffer(void) {
   free_vstring(includeFn);
   free_vstring(includeBuf);
   free_vstring(fileNameWithPath);
+  return written;
 } // writeSplitSource
 
 // When "write source" does not have the "/split" qualifier, by default
diff --git a/src/mmpars.h b/src/mmpars.h
index bb22709..015252c 100644
--- a/src/mmpars.h
+++ b/src/mmpars.h
@@ -172,7 +172,7 @@ vstring writeSourceToBuffer(void);
    an unsplit source with $( Begin $[... etc. inclusions
   \note that *fileBuf is assigned to the empty string upon return, to
    conserve memory */
-void writeSplitSource(vstring *fileBuf, const char *fileName,
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag);
 
 /*! When "write source" does not have the "/split" qualifier, by default
-- 
2.43.0


From abb4b7a27933fdb1e81764047b8dfce467f0bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 03/56] fix: a failed backup rename must not lead to
 overwriting the only copy of a file

---
 src/mminou.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index e6c8579..5e7276d 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1089,6 +1089,7 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
   vstring_def(newBakName);
   long v;
   long lastVersion; // Last version before gap
+  flag renameFailed = 0;
 
   if (!strcmp(mode, "r")) {
     fp = fopen(fileName, "r");
@@ -1168,11 +1169,22 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
           if (!fp) continue;
           fclose(fp);
           let(&newBakName, cat(prefix, str((double)v + 1), postfix, NULL));
-          rename(bakName /* old */, newBakName /* new */);
+          if (rename(bakName /* old */, newBakName /* new */)) {
+            renameFailed = 1;
+            break;
+          }
         }
       }
       let(&bakName, cat(prefix, str(1), postfix, NULL));
-      rename(fileName, bakName);
+      if (renameFailed || rename(fileName, bakName)) {
+        // Going on would overwrite a version that has no other copy
+        print2("?Sorry, couldn't make a backup of the file \"%s\".\n", fileName);
+        free_vstring(prefix);
+        free_vstring(postfix);
+        free_vstring(bakName);
+        free_vstring(newBakName);
+        return NULL;
+      }
 
       // printLongLine(cat("The file \"", fileName,
       //     "\" already exists.  The old file is being renamed to \"",
-- 
2.43.0


From 15829f497ee4f821148f0390d94cf46004b4680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 04/56] fix: do not take "End $[ f $]" of a file whose name is
 a prefix for the end of another inclusion

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 3f87e66..39aa839 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4952,7 +4952,7 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
           let(&(*fileName), left(fbPtr, j));
         } else {
           // It's an End command
-          if (strncmp(*fileName, fbPtr, (size_t)j)) {
+          if (strncmp(*fileName, fbPtr, (size_t)j) || (*fileName)[j] != 0) {
             // But the file name didn't match, so it's not a matching End.
             // Find end of comment and continue.
             goto GET_PASSED_END_OF_COMMENT;
-- 
2.43.0


From 66a44ee576faddc41f050e722e583415acb77087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 05/56] fix: READ could crash on a nested Begin mark of the
 file being included

---
 src/mmpars.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 39aa839..bd663d7 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5581,6 +5581,8 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
     saveInclCalls = g_includeCalls;
 
     g_IncludeCall[saveInclCalls - 1].included_fn = ""; // Initialize string
+    // A deeper inclusion may look at this before it is assigned below
+    g_IncludeCall[saveInclCalls - 1].current_includeSource = "";
     // Name of the file in the inclusion statement e.g. "$( Begin $[ included_fn..."
     let(&(g_IncludeCall[saveInclCalls - 1].included_fn), includeFn);
     g_IncludeCall[saveInclCalls].included_fn = "";
-- 
2.43.0


From 1a750c67a819d3e9bac629e0a871451b2c72f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 06/56] fix: READ lost expanded inclusions inside of a
 Begin...End marked text and read beyond the buffer

---
 src/mmpars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index bd663d7..218617a 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5643,8 +5643,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // newInclSize = oldInclSize; // Includes new prefix and suffix
           newInclSize = (long)strlen(inclPrefix) + inclSize +
                 (long)strlen(inclSuffix); // Includes new prefix and suffix
-          // It is already a Begin comment, so leave it alone
-          // *size = *size;
+          // It is already a Begin comment, so leave it alone; but inclusions
+          // inside of it may have been expanded or changed to Skip.
+          let(&newFileBuf, cat(left(newFileBuf, cmdPos1 - 1),
+              inclPrefix, inclSource, inclSuffix,
+              right(newFileBuf, endPos2), NULL));
+          *size = *size - oldInclSize + newInclSize;
           // Adjust starting position for next inclusion search
           // -1 since startOffset is 0-based but cmdPos2 is 1-based
           startOffset = cmdPos1 + newInclSize - 1;
-- 
2.43.0


From 7119fec8150422edbcb67ccf30915482971ef796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 07/56] fix: SHOW USAGE missed uses listed after a comment in a
 compressed proof

The search for the label stopped at the first ")", also inside a comment.
---
 src/mmcmds.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4c092c9..b0d3d4f 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3604,7 +3604,9 @@ vstring traceUsage(long statemNum,
       if (fbPtr[0] == '(') { // "(" is flag for compressed proof
         fbPtr2 = fbPtr;
         while (fbPtr2[0] != ')') {
-          fbPtr2++;
+          // Skip comments as a whole, since they may contain ")"
+          slen = whiteSpaceLen(fbPtr2);
+          fbPtr2 = fbPtr2 + (slen > 0 ? slen : 1);
           if (fbPtr2[0] == 0) bug(217); // Didn't find closing ')'
         }
       } else {
-- 
2.43.0


From b9107509ff2b0e67c7bd3cac1762e4bc984722d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 08/56] fix: a compressed proof with a reference but nothing to
 refer to could crash

With no mandatory hypotheses and an empty label list the label map was read
although it is empty.
---
 src/mmpars.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 218617a..3ea771b 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3114,7 +3114,11 @@ char parseCompressedProof(long statemNum)
           labelMapIndex = 0; // Make it something legal to avoid side effects
         }
 
-        stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
+        if (g_WrkProof.compressedPfNumLabels == 0) {
+          stmt = -(long)'?'; // The label map is empty (error reported above)
+        } else {
+          stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
+        }
         g_WrkProof.proofString[g_WrkProof.numSteps] = stmt;
 
         // Update stack
-- 
2.43.0


From fcee10ef0a113f5e64e03b1485f93854f1637417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 09/56] fix: SEARCH with a leading or trailing $* did not match
 zero tokens

"x $*" found no statement ending in x although $* stands for zero or more
tokens (HELP SEARCH).
---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index eccd6f5..0e1f902 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5795,7 +5795,9 @@ void command(int argc, char *argv[]) {
             str3[p + s] = str1[p];
           }
         }
-        let(&str1, left(str3, q + s));
+        // The surrounding spaces are needed here so that a leading or
+        // trailing "$*" can match zero tokens below
+        let(&str1, cat(" ", left(str3, q + s), " ", NULL));
 
         // Find single-character-match wildcard argument "$?"
         // (or "?" for convenience).  Use ASCII 3 for the exactly-1-char
@@ -5848,7 +5850,7 @@ void command(int argc, char *argv[]) {
         }
 
         // Add wildcards to beginning and end to match middle of any string
-        let(&str1, cat(chr(2), " ", str1, " ", chr(2), NULL));
+        let(&str1, cat(chr(2), str1, chr(2), NULL));
       } // End no COMMENTS switch
 
       for (i = 1; i <= g_statements; i++) {
-- 
2.43.0


From 1000b7b56a934364b1b7b8562c1ea798d1127b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 10/56] fix: DELETE STEP read outside the proof before checking
 the step number

---
 src/metamath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 0e1f902..86168ec 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5587,15 +5587,15 @@ void command(int argc, char *argv[]) {
       } else {
         s = nmbrLen(g_ProofInProgress.proof);
       }
-      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
-        print2("?Step %ld is unknown and cannot be deleted.\n", s);
-        continue;
-      }
       m = nmbrLen(g_ProofInProgress.proof); // Original proof length
       if (s > m || s < 1) {
         print2("?The step must be in the range from 1 to %ld.\n", m);
         continue;
       }
+      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
+        print2("?Step %ld is unknown and cannot be deleted.\n", s);
+        continue;
+      }
 
       deleteSubProof(s - 1);
       n = nmbrLen(g_ProofInProgress.proof); // New proof length
-- 
2.43.0


From 1c15c4b99c81e90948eefff9528c2bc0ff51ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 11/56] fix: MATCH ALL saved the proof for REDO before unifying
 it

---
 src/metamath.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 86168ec..5bbc14e 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4340,10 +4340,13 @@ void command(int argc, char *argv[]) {
         if (k) {
           g_proofChangedFlag = 1; // Restore it
           g_proofChanged = 1; // Cumulative flag
-          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
           print2("Steps %ld and above have been renumbered.\n", k);
         }
         autoUnify(1);
+        if (k) {
+          // This must follow autoUnify(), so that REDO restores the result
+          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
+        }
 
         continue;
       } // End if MATCH ALL
-- 
2.43.0


From 73ca8d20e094f784b3e223214b8758bf0f5609c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 12/56] fix: a work variable still in use could be given out as
 a new one

---
 src/metamath.c | 12 +++++++++++-
 src/mmpars.c   |  6 +++++-
 src/mmpfas.c   | 24 ++++++++++++++++++++++++
 src/mmpfas.h   |  4 ++++
 4 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 5bbc14e..c16c7b3 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5707,8 +5707,18 @@ void command(int argc, char *argv[]) {
       if (cmdMatches("INITIALIZE ALL")) {
         i = nmbrLen(g_ProofInProgress.proof);
 
-        // Reset the dummy variable counter (all will be refreshed)
+        // Reset the dummy variable counter (all will be refreshed, except
+        // those in user assignments)
         g_pipDummyVars = 0;
+        for (j = 0; j < i; j++) {
+          nmbrLet((nmbrString **)(&((g_ProofInProgress.source)[j])),
+              NULL_NMBRSTRING);
+          if (j < i - 1) {
+            nmbrLet((nmbrString **)(&((g_ProofInProgress.target)[j])),
+                NULL_NMBRSTRING);
+          }
+        }
+        reserveDummyVars(&g_ProofInProgress);
 
         // Initialize all steps
         for (j = 0; j < i; j++) {
diff --git a/src/mmpars.c b/src/mmpars.c
index 3ea771b..3cfc2a5 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4760,8 +4760,12 @@ nmbrString *parseMathTokens(vstring userText, long statemNum)
                 wrkStrPtr[i - 1] = 0; // End of string
                 tokenNum = (long)(val(wrkStrPtr)) + g_mathTokens;
                 // See if dummy var has been declared; if not, declare it
+                if (tokenNum > g_dummyVars + g_mathTokens) {
+                  declareDummyVars(tokenNum - g_dummyVars - g_mathTokens);
+                }
+                // It is now in use
                 if (tokenNum > g_pipDummyVars + g_mathTokens) {
-                  declareDummyVars(tokenNum - g_pipDummyVars - g_mathTokens);
+                  g_pipDummyVars = tokenNum - g_mathTokens;
                 }
               }
             } // End if fbPtr == '$'
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 14f0b0b..7ef0a60 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -3073,6 +3073,28 @@ void declareDummyVars(long numNewVars)
   return;
 } // declareDummyVars
 
+// Make sure that the next work variable to be used, numbered
+// g_pipDummyVars + 1, is not in use anywhere in the proof structure.
+void reserveDummyVars(const struct pip_struct *proofStruct)
+{
+  const nmbrString *mString;
+  long steps, step, field, i;
+
+  steps = nmbrLen((*proofStruct).proof);
+  for (step = 0; step < steps; step++) {
+    for (field = 0; field < 3; field++) {
+      mString = (field == 0) ? ((*proofStruct).target)[step] :
+          (field == 1) ? ((*proofStruct).source)[step] :
+          ((*proofStruct).user)[step];
+      for (i = 0; mString[i] != -1; i++) {
+        if (mString[i] - g_mathTokens > g_pipDummyVars) {
+          g_pipDummyVars = mString[i] - g_mathTokens;
+        }
+      }
+    }
+  }
+} // reserveDummyVars
+
 // Copy inProofStruct to outProofStruct.  A proof structure contains
 // the state of the proof in the Proof Assistant MM-PA.  The one
 // used by MM-PA is the global g_ProofInProgress.  This function lets
@@ -3371,6 +3393,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr--;
       // Restore the version of the proof before that action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       break;
 
     case PUS_REDO:
@@ -3383,6 +3406,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr++;
       // Restore the last undo and print the message for its action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       printLongLine(cat("Redid:  ", infoStack[stackPtr],
               NULL), "", " ");
       break;
diff --git a/src/mmpfas.h b/src/mmpfas.h
index 7d73a2c..50e48ef 100644
--- a/src/mmpfas.h
+++ b/src/mmpfas.h
@@ -185,6 +185,10 @@ long getParentStep(long startStep /*! < 0=1st step, 1=2nd, etc. */);
   \note it now grows forever, but purging it might worsen fragmentation */
 void declareDummyVars(long numNewVars);
 
+// Make sure that no work variable in use in the proof structure is taken for
+// a new one.
+void reserveDummyVars(const struct pip_struct *proofStruct);
+
 /*! Copies the Proof Assistant proof state */
 void copyProofStruct(struct pip_struct *outProofStruct,
     struct pip_struct inProofStruct);
-- 
2.43.0


From 28e59f92f53e54a0dc071340949880474dc2f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 13/56] fix: a wrong known subproof could be reported as
 complete after REPLACE

---
 src/mmpfas.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 7ef0a60..b12232a 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2373,7 +2373,11 @@ void assignKnownSteps(long startStep, long sbProofLen)
             "\n(This may take a while; please wait...)",
             NULL), "", " ");
         purgeStateVector(&stateVector);
-        goto returnPoint;
+        // Initialize the steps, so that the error stays visible
+        for (pos = startStep; pos < startStep + sbProofLen; pos++) {
+          initStep(pos);
+        }
+        goto deallocate;
       }
       // Substitute and assign assertion to proof in progress
       free_nmbrString(*(nmbrString **)(&g_ProofInProgress.source[pos]));
@@ -2392,13 +2396,13 @@ void assignKnownSteps(long startStep, long sbProofLen)
 
   if (stackPtr != 1) bug(1816); // Make sure stack emptied
 
- returnPoint:
   // Assign .target field for all but last step
   for (pos = startStep; pos < startStep + sbProofLen - 1; pos++) {
     nmbrLet((nmbrString **)(&((g_ProofInProgress.target)[pos])),
         (g_ProofInProgress.source)[pos]);
   }
 
+ deallocate:
   // Deallocate (stateVector was deallocated by 2nd unif. call)
   free_nmbrString(stack);
   free_nmbrString(instance);
-- 
2.43.0


From 2fe43fd764a56c547f2c74d989654f4849de482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 14/56] fix: end of input at a page pause sent the program into
 an endless loop

---
 src/mminou.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 5e7276d..06d4f0e 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -186,6 +186,7 @@ flag print2(const char* fmt, ...) {
   // open, the characters will also be printed to the log file.
   // Also, scrolling is paused at each page if in scroll-prompted mode.
   va_list ap;
+  int ch;
   char c;
   long nlpos, lineLen, charsPrinted;
   long i;
@@ -243,7 +244,14 @@ flag print2(const char* fmt, ...) {
         fflush(stdout);
 #endif
       }
-      c = (char)(getchar());
+      ch = getchar();
+      if (ch == EOF) {
+        // Nobody is there to answer; let the output scroll to the end
+        if (!backFromCmdInput)
+          localScrollMode = 0; // Continuous scroll
+        break;
+      }
+      c = (char)ch;
       if (c == '\n') {
         if (backBufferPos == pntrLen(backBuffer)) {
           // Normal output
@@ -297,7 +305,7 @@ flag print2(const char* fmt, ...) {
 #endif
         continue;
       }
-      while (c != '\n') c = (char)(getchar());
+      while (ch != '\n' && ch != EOF) ch = getchar();
     } // While 1
 
     if (backFromCmdInput)
-- 
2.43.0


From fc0416ecd06d75acc81ac0b428f8b524c9f559ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 15/56] fix: MATCH read past its list when a timed-out
 statement was chosen

---
 src/mmpfas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index b12232a..b18bd1f 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -210,7 +210,7 @@ void interactiveMatch(long step, long maxEssential)
   } // End if matchCount == 1
 
   // Add to statement to the proof
-  assignStatement(matchList[matchListPos], step);
+  assignStatement(stmt, step);
   g_proofChangedFlag = 1; // Flag for 'undo' stack
 
   free_vstring(tmpStr1);
-- 
2.43.0


From 5b394a8608e6750ee524a5ca4123dfb8cee65e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 16/56] fix: SAVE PROOF in the Proof Assistant made EXIT drop
 unsaved changes without a warning

---
 src/metamath.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index c16c7b3..f022e06 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3794,12 +3794,15 @@ void command(int argc, char *argv[]) {
 
           if (saveFlag) {
             g_sourceChanged = 1;
-            g_proofChanged = 0;
-            if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
-              // The UNDO stack may not be empty.
-              // UNDO stack empty no longer reliably indicates that
-              // proof hasn't changed.
-              proofSavedFlag = 1; 
+            // (SAVE PROOF does not save the changes to the proof in progress)
+            if (pipFlag) {
+              g_proofChanged = 0;
+              if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
+                // The UNDO stack may not be empty.
+                // UNDO stack empty no longer reliably indicates that
+                // proof hasn't changed.
+                proofSavedFlag = 1;
+              }
             }
 
             // Add an initial \n which will go after the "$=" and the
-- 
2.43.0


From 17f8034028fd47fa503a908f7b4650d3a781ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 17/56] fix: REPLACE and IMPROVE could retry a hypothesis with
 state left over from an earlier unification

---
 src/mmpfas.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index b18bd1f..084e281 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -526,6 +526,13 @@ nmbrString *replaceStatement(long replStatemNum, long prfStep,
     // hypothesis.
     free_nmbrString(proof);
     noHypMatch = 0;
+    // Start each hypothesis afresh:  the hypotheses of the previous
+    // unification may have been abandoned without backtracking through them
+    // (see "Force breakout below").
+    for (hyp = 0; hyp < schReqHyps; hyp++) {
+      purgeStateVector((pntrString **)(&(hypStateVectorList[hyp])));
+      hypReEntryFlagList[hyp] = 1;
+    }
     for (hyp = 0; hyp < schReqHyps; hyp++) {
 
       // Make substitutions from replacement statement's stateVector
-- 
2.43.0


From 372db5b24c0823407e6877b59fa38fd63d2f41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 18/56] fix: IMPROVE could stop with bug 1849 when a
 substitution contained work variables

---
 src/mmpfas.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 084e281..de5740d 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -567,6 +567,18 @@ nmbrString *replaceStatement(long replStatemNum, long prfStep,
         hypMakeSubstList[hypSortMap[hyp]] = makeSubstPtr;
       }
 
+      // See if the result has dummy variables.  (makeSubstUnif() only flags
+      // those it didn't substitute, not those in the substitutions it made.)
+      dummyVarFlag = 0;
+      hypLen = nmbrLen(hypMakeSubstList[hypSortMap[hyp]]);
+      for (sym = 0; sym < hypLen; sym++) {
+        k = ((nmbrString *)(hypMakeSubstList[hypSortMap[hyp]]))[sym];
+        if (k > g_mathTokens /* global */) {
+          dummyVarFlag = 1;
+          break;
+        }
+      }
+
       if (hyp < schEHyps) {
         // It's a $e hypothesis
         if (g_Statement[g_Statement[replStatemNum].reqHypList[hypSortMap[hyp]]
-- 
2.43.0


From 56d0ade989434c3de51527b0441cf647fd853168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 19/56] fix: MATCH assigned statements whose new usage is
 discouraged

MATCH STEP and MATCH ALL, which have no / OVERRIDE, assigned a statement
marked "(New usage is discouraged.)" - even without asking, when it was
the only match.  HELP SET DISCOURAGEMENT says such statements are blocked.
They are still listed, but left to ASSIGN ... / OVERRIDE.
---
 src/mmpfas.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index de5740d..33f222c 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -161,9 +161,6 @@ void interactiveMatch(long step, long maxEssential)
     // Assign it automatically
     matchListPos = 0;
     stmt = matchList[matchListPos];
-    print2("Step %ld was assigned statement %s since it is the only match.\n",
-        (long)(step + 1),
-        g_Statement[stmt].labelName);
   } else {
 
     while (1) {
@@ -204,14 +201,24 @@ void interactiveMatch(long step, long maxEssential)
       if (timeoutListPos == timeoutCount) bug(1801);
       stmt = timeoutList[timeoutListPos];
     }
-    print2("Step %ld was assigned statement %s.\n",
-        (long)(step + 1),
-        g_Statement[stmt].labelName);
   } // End if matchCount == 1
 
-  // Add to statement to the proof
-  assignStatement(stmt, step);
-  g_proofChangedFlag = 1; // Flag for 'undo' stack
+  if (g_globalDiscouragement && getMarkupFlag(stmt, USAGE_DISCOURAGED)) {
+    print2(
+">>> ?Error: The usage of statement \"%s\" is discouraged.\n",
+        g_Statement[stmt].labelName);
+    print2(
+">>> Use ASSIGN ... / OVERRIDE if you really want to assign it.\n");
+  } else {
+    print2("Step %ld was assigned statement %s%s.\n",
+        (long)(step + 1),
+        g_Statement[stmt].labelName,
+        tmpStr2[0] == 0 ? " since it is the only match" : "");
+
+    // Add to statement to the proof
+    assignStatement(stmt, step);
+    g_proofChangedFlag = 1; // Flag for 'undo' stack
+  }
 
   free_vstring(tmpStr1);
   free_vstring(tmpStr4);
-- 
2.43.0


From acc4d68aaee713975d10232f86cf08f4d6e2659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 20/56] fix: WRITE SOURCE /FORMAT and /REWRAP keep every
 comment before and after a label

---
 src/mmpars.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 3cfc2a5..58fc4e7 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3884,6 +3884,7 @@ vstring outputStatement(long stmt, flag reformatFlag) {
   long commentStart;
   long commentEnd;
   vstring_def(comment);
+  vstring_def(afterLabel); // What separates the label from the keyword
   vstring_def(str1);
   long length;
   flag nowrapHtml;
@@ -3952,6 +3953,22 @@ vstring outputStatement(long stmt, flag reformatFlag) {
           right(labelSection, pos + 1), NULL));
     }
 
+    // Separate the label and what follows it from the text before the label
+    let(&afterLabel, " ");
+    switch (g_Statement[stmt].type) {
+      case a_: // $a
+      case p_: // $p
+      case e_: // $e
+      case f_: // $f
+        pos = whiteSpaceLen(labelSection);
+        length = (long)strlen(g_Statement[stmt].labelName);
+        if (instr(pos + length + 1, labelSection, "$(") != 0) {
+          // Keep a comment between the label and the keyword
+          let(&afterLabel, right(labelSection, pos + length + 1));
+        }
+        let(&labelSection, left(labelSection, pos));
+    }
+
     switch (g_Statement[stmt].type) {
       case lb_: // ${
       case rb_: // $}
@@ -4085,7 +4102,13 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         if (nowrapHtml == 0) {
           // This strips off leading spaces before $( (start of comment).  Don't
           // do it for <HTML>, since spacing before $( is manual.
-          let(&labelSection, left(labelSection, pos));
+          if (edit(right(labelSection, pos + 1), 2 /* discard spaces */)[0] == 0) {
+            let(&labelSection, left(labelSection, pos));
+          } else {
+            // There is another comment on the line, so start a new one.
+            let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
+                "\n", NULL));
+          }
 
           if (reformatFlag == 2) {
             // If / REWRAP was specified, unwrap and rewrap the line
@@ -4154,12 +4177,10 @@ vstring outputStatement(long stmt, flag reformatFlag) {
 
         // Complete the label section
         let(&labelSection, cat(labelSection, comment,
-            space(indent), g_Statement[stmt].labelName, " ", NULL));
+            space(indent), g_Statement[stmt].labelName, afterLabel, NULL));
         break; // End of $a, $p cases
       case e_: // $e
       case f_: // $f
-        pos = rinstr(labelSection, g_Statement[stmt].labelName);
-        let(&labelSection, left(labelSection, pos - 1));
         pos = rinstr(labelSection, "\n");
         // If there is none, insert it (unless first line in file)
         if (pos == 0 && stmt > 1) {
@@ -4167,7 +4188,13 @@ vstring outputStatement(long stmt, flag reformatFlag) {
               "\n", NULL));
           pos = (long)strlen(labelSection) + 1;
         }
-        let(&labelSection, left(labelSection, pos));
+        if (edit(right(labelSection, pos + 1), 2 /* discard spaces */)[0] == 0) {
+          let(&labelSection, left(labelSection, pos));
+        } else {
+          // There is a comment on the line, so start a new one.
+          let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
+              "\n", NULL));
+        }
         // If previous statement is $d or $e and there is no comment after it,
         // discard entire rest of label to get rid of redundant blank lines.
         if ((previousType == d_ || previousType == e_)
@@ -4176,7 +4203,7 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         }
         // Complete the label section
         let(&labelSection, cat(labelSection,
-            space(indent), g_Statement[stmt].labelName, " ", NULL));
+            space(indent), g_Statement[stmt].labelName, afterLabel, NULL));
         break; // End of $e, $f cases
       default: bug(1727);
     } // switch (g_Statement[stmt].type)
@@ -4306,6 +4333,7 @@ vstring outputStatement(long stmt, flag reformatFlag) {
   free_vstring(mathSectionSave);
   free_vstring(proofSectionSave);
   free_vstring(comment);
+  free_vstring(afterLabel);
   free_vstring(str1);
   return output; // The calling routine must deallocate this vstring
 } // outputStatement
-- 
2.43.0


From 6c3ac5da725274082b8577d45ba40ed4c02c14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 21/56] fix: WRITE SOURCE /REWRAP accepts a blank line at the
 end of a comment

---
 src/mmpars.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 58fc4e7..51df438 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4422,6 +4422,8 @@ vstring rewrapComment(const char *comment1) {
   // Remove spaces and blank lines at end of comment
   while (1) {
     length = (long)strlen(comment);
+    // A blank line before "$)"
+    if (comment[length - 3] == '\n') comment[length - 3] = ' ';
     // Should have been syntax err (no space before "$)")
     if (comment[length - 3] != ' ') bug(1730);
     if (comment[length - 4] != ' ' && comment[length - 4] != '\n') break;
-- 
2.43.0


From 70a7d52d53d718536ff452e525997bd522c174cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 22/56] fix: damaged explicit or labelled proofs no longer
 crash VERIFY PROOF or pass with a stray equal sign

---
 src/mmpars.c | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 51df438..ffc24ad 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2096,7 +2096,19 @@ char parseProof(long statemNum)
         continue;
       }
     }
-    if (fbPtr[0] == '=') continue; // Skip the = token
+    if (fbPtr[0] == '=') { // Skip the = token
+      if (tok == 0 || tok == g_WrkProof.numTokens - 1
+          || ((char *)((g_WrkProof.tokenSrcPtrPntr)[tok - 1]))[0] == ':'
+          || ((char *)((g_WrkProof.tokenSrcPtrPntr)[tok - 1]))[0] == '=') {
+        if (!g_WrkProof.errorCount) {
+          sourceError(fbPtr, 1, statemNum,
+      "The \"=\" must be preceded by a target label and followed by a label.");
+        }
+        if (returnFlag < 2) returnFlag = 2;
+        g_WrkProof.errorCount++;
+      }
+      continue;
+    }
 
     // Save pointer to source file vs. step for error messages
     g_WrkProof.stepSrcPtrNmbr[g_WrkProof.numSteps] =
@@ -2111,6 +2123,16 @@ char parseProof(long statemNum)
     if (fbPtr[0] != ':') continue;
 
     // Colon found -- previous token is a label
+    if (g_WrkProof.numSteps < 2) {
+      if (!g_WrkProof.errorCount) {
+        sourceError(fbPtr, 1, statemNum,
+            "The colon at proof step 1 must be preceded by a local label.");
+      }
+      if (returnFlag < 2) returnFlag = 2;
+      g_WrkProof.errorCount++;
+      g_WrkProof.numSteps--; // Ignore the colon
+      continue;
+    }
     labelFlag = 1;
 
     g_WrkProof.numSteps = g_WrkProof.numSteps - 2;
@@ -2195,6 +2217,19 @@ char parseProof(long statemNum)
     g_WrkProof.localLabelPoolPtr = &g_WrkProof.localLabelPoolPtr[tokLength + 1];
   } // Next i
 
+  if (g_WrkProof.numSteps == 0) { // There were only colons and equal signs
+    if (!g_WrkProof.errorCount) {
+      sourceError(g_WrkProof.tokenSrcPtrPntr[0], g_WrkProof.tokenSrcPtrNmbr[0],
+          statemNum, "The proof has no steps.");
+    }
+    if (returnFlag < 2) returnFlag = 2;
+    g_WrkProof.errorCount++;
+    g_WrkProof.stepSrcPtrPntr[0] = "?";
+    g_WrkProof.stepSrcPtrNmbr[0] = 1; // Length
+    g_WrkProof.localLabelFlag[0] = 0;
+    g_WrkProof.numSteps = 1;
+  }
+
   // Collect all target labels in /EXPLICIT format.
   // I decided not to make targetPntr, targetNmbr part of the g_WrkProof
   // structure since other proof formats don't assign it, so we can't
@@ -2247,6 +2282,8 @@ char parseProof(long statemNum)
       g_WrkProof.errorCount++;
       if (returnFlag < 2) returnFlag = 2;
     }
+    // Without a target for every step, the hypotheses can't be rearranged.
+    if (returnFlag > 1) explicitTargets = 0;
   } // if explicitTargets == 1
 
   if (g_WrkProof.numHypAndLoc > numActiveHyp) { // There were local labels
@@ -2268,9 +2305,13 @@ char parseProof(long statemNum)
           k = m; // Larger step number
         }
         // Find the token - back up a step then move forward to loc label
-        fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
-        fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
-        fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        if (k == 0) { // There are two labels on the first step
+          fbPtr = g_WrkProof.tokenSrcPtrPntr[0];
+        } else {
+          fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
+          fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
+          fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        }
         if (!g_WrkProof.errorCount) {
           sourceError(fbPtr,
               proofTokenLen(fbPtr), statemNum,
-- 
2.43.0


From 247dc3746859de7e6e07eb54c59c68ae5858faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:32 +0000
Subject: [PATCH 23/56] fix: end of input at a unification or MATCH question,
 or at a question broken by a narrow screen, no longer loops forever

---
 src/mminou.c |  5 ++++-
 src/mmpfas.c | 11 +++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 06d4f0e..886907e 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -882,9 +882,12 @@ vstring cmdInput1(const char *ask) {
   vstring_def(commandLn);
   vstring_def(ask1);
   long p, i;
+  flag yesNoFlag;
   // In case ask is temporarily allocated (i.e in case it will
   // become deallocated at next let().
   let(&ask1, ask);
+  // See if it's a "Do you want to..." question (before it is broken up below)
+  yesNoFlag = !strcmp(left(ask1, 2), "Do");
   // Look for lines too long
   while ((signed)(strlen(ask1)) > g_screenWidth) {
     p = g_screenWidth - 1;
@@ -913,7 +916,7 @@ vstring cmdInput1(const char *ask) {
       if (!commandLn) {
         commandLn = ""; // Init vstring (was NULL)
         // Allow ^D to exit
-        if (strcmp(left(ask1, 2), "Do")) {
+        if (!yesNoFlag) {
           // ^Z or ^D found at MM>, MM-PA>, or TOOLS> prompt
           let(&commandLn, "EXIT");
         } else {
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 33f222c..08433cd 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -169,6 +169,12 @@ void interactiveMatch(long step, long maxEssential)
       tmpStr2 = cmdInput1(tmpStr3);
       free_vstring(tmpStr3);
 
+      if (!instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
+           cat(" ", tmpStr2, " ", NULL)) && !strcmp(tmpStr2, "EXIT")) {
+        // End of input (see cmdInput1()); bypass, to prevent infinite loop
+        let(&tmpStr2, "");
+      }
+
       if (tmpStr2[0] == 0) {
         free_vstring(tmpStr1);
         free_vstring(tmpStr4);
@@ -2682,6 +2688,11 @@ char interactiveUnify(const nmbrString *schemeA, const nmbrString *schemeB,
             break;
           }
         }
+        if (!strcmp(tmpStr, "EXIT")) {
+          // End of input (see cmdInput1()); quit, to prevent infinite loop
+          returnValue = 3;
+          goto returnPoint;
+        }
         if (tmpStr[0] == 'Q' || tmpStr[0] == 'q') {
           if (!tmpStr[1]) {
             // return (3);
-- 
2.43.0


From 35627896358b07dce0cea5e17e920c9b954e142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:48 +0000
Subject: [PATCH 24/56] fix: SHOW PROOF lists the steps that listed steps refer
 to, instead of step 0 or bug 223

---
 src/mmcmds.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index b0d3d4f..2bce242 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -1483,6 +1483,16 @@ void typeProof(long statemNum,
     nmbrLet(&essentialFlags, NULL_NMBRSTRING);
   }
 
+  // A step that an essential step refers back to must be displayed as well,
+  // even if it was first used for a $f hypothesis.
+  if (essentialFlag) {
+    for (long step = 0; step < plen; step++) {
+      if (essentialFlags[step] && proof[step] <= -1000) {
+        essentialFlags[-1000 - proof[step]] = 1;
+      }
+    }
+  }
+
   // We now have enough information for the MIDI output, so do it
   if (g_midiFlag) {
     outputMidi(plen, indentationLevel,
-- 
2.43.0


From faed1d40b089109e932e619347de30f73ffda048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:53 +0000
Subject: [PATCH 25/56] fix: SHOW PROOF /DETAILED_STEP names the referenced
 step by its number and avoids labels

---
 src/mmcmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 2bce242..d2badaa 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2330,7 +2330,7 @@ void showDetailStep(long statemNum, long detailStep) {
         // does not match any integer used for a statement label.
         let(&tmpStr1, str((double)nextLocLabNum));
         while (1) {
-          voidPtr = (void *)bsearch(tmpStr,
+          voidPtr = (void *)bsearch(tmpStr1,
               g_allLabelKeyBase, (size_t)g_numAllLabelKeys,
               sizeof(long), labelSrchCmp);
           if (!voidPtr) break; // It does not conflict
@@ -2391,7 +2391,7 @@ void showDetailStep(long statemNum, long detailStep) {
     if (stmt <= -1000) {
       stmt = -1000 - stmt;
       // stmt is now the step number a local label refers to
-      let(&tmpStr, cat(tmpStr, "step ", str((double)stmt),
+      let(&tmpStr, cat(tmpStr, "step ", str((double)(stmt + 1)),
           " (via local label reference \"",
           str((double)(localLabelNames[stmt])), "\") to ", NULL));
     } else {
-- 
2.43.0


From b649ee4026a1d8c9a364db3aa027458acfd4b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 26/56] fix: SHOW PROOF /NO_REPEATED_STEPS resolves a local
 label whose step is itself a repetition

---
 src/mmcmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index d2badaa..01e0342 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -1434,6 +1434,10 @@ void typeProof(long statemNum,
   if (skipRepeatedSteps) {
     for (long step = 0; step < plen; step++) {
       long stmt = proof[step];
+      if (stmt <= -1000 && proof[-1000 - stmt] <= -1000) {
+        // The step referred to has itself become a back-reference
+        proof[step] = proof[-1000 - stmt];
+      }
       if (stmt < 0) continue;  // Unknown or label ref
       char type = g_Statement[stmt].type;
       if (type == f_ || type == e_  // It's a hypothesis
-- 
2.43.0


From bb9879e288ed2a2fcf312859b4f7d6b792549bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 27/56] fix: look up the "wff" token anew for each web page, as
 another database may have been read

---
 src/mmcmds.c | 44 ++++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 01e0342..f077508 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -73,9 +73,8 @@ void typeStatement(long showStmt,
 
   // For syntax breakdown of definitions in HTML page
   long zapStatement1stToken;
-  // Array index of the hard-coded token "wff" - static so we only
-  // have to look it up once - set to -2 if not found.
-  static long wffToken = -1;
+  // Array index of the hard-coded token "wff" - set to -2 if not found.
+  long wffToken;
   subType = 0; // Assign to prevent compiler warnings - not theoretically necessary
 
   if (!showStmt) bug(225); // Must be 1 or greater
@@ -737,16 +736,14 @@ void typeStatement(long showStmt,
     // a wff, then we print the wff construction proof to the HTML file.
     if (subType == DEFINITION || subType == AXIOM) {
 
-      // Look up the token "wff" if we haven't found it before
-      if (wffToken == -1) { // First time
-        // In case it's not found because the user's source used a convention
-        // different for "wff" for wffs.
-        wffToken = -2;
-        for (i = 0; i < g_mathTokens; i++) {
-          if (!strcmp("wff", g_MathToken[i].tokenName)) {
-            wffToken = i;
-            break;
-          }
+      // Look up the token "wff" (its index changes with the database).
+      // In case it's not found because the user's source used a convention
+      // different for "wff" for wffs.
+      wffToken = -2;
+      for (i = 0; i < g_mathTokens; i++) {
+        if (!strcmp("wff", g_MathToken[i].tokenName)) {
+          wffToken = i;
+          break;
         }
       }
 
@@ -1985,19 +1982,14 @@ void typeProof(long statemNum,
       // list in the HTML pages, parse the wffs comprising the hypotheses
       // and the statement, and add their syntax to the hints list.
 
-      // Array index of the hard-coded token "wff" - static so we only have
-      // to look it up once - set to -2 if not found.
-      static long wffToken = -1;
-      // Look up the token "wff" (hard-coded) if we haven't found it before
-      if (wffToken == -1) { // First time
-        // In case it's not found because the user's source used a convention
-        // different for "wff" for wffs.
-        wffToken = -2;
-        for (i = 0; i < g_mathTokens; i++) {
-          if (!strcmp("wff", g_MathToken[i].tokenName)) {
-            wffToken = i;
-            break;
-          }
+      // Look up the hard-coded token "wff" (its index changes with the
+      // database).  In case it's not found because the user's source used a
+      // convention different for "wff" for wffs.
+      long wffToken = -2;
+      for (i = 0; i < g_mathTokens; i++) {
+        if (!strcmp("wff", g_MathToken[i].tokenName)) {
+          wffToken = i;
+          break;
         }
       }
 
-- 
2.43.0


From 3b9f135e1b04c850321a64e90dbdbab96dad959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 28/56] fix: allocate the proof workspace before the first
 proof even when it is a single character long

SHOW STATEMENT /HTML of an axiom whose syntax breakdown is a single label crashed when no proof had been parsed before.
---
 src/mmpars.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index ffc24ad..0bc27a0 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1941,8 +1941,9 @@ char parseProof(long statemNum)
   // plus the number of active hypotheses.
 
   numOptHyp = nmbrLen(g_Statement[statemNum].optHypList);
-  if (g_Statement[statemNum].proofSectionLen + g_Statement[statemNum].numReqHyp
-      + numOptHyp > g_wrkProofMaxSize) {
+  if (g_wrkProofMaxSize == 0 // Nothing is allocated yet
+      || g_Statement[statemNum].proofSectionLen
+      + g_Statement[statemNum].numReqHyp + numOptHyp > g_wrkProofMaxSize) {
     if (g_wrkProofMaxSize) { // Not the first allocation
       free(g_WrkProof.tokenSrcPtrNmbr);
       free(g_WrkProof.tokenSrcPtrPntr);
-- 
2.43.0


From 4c0537b97372dbe1651ffb3985479301105b6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 29/56] fix: the markup around a description must not take part
 in the handling of underscores

A description starting with _text_ was not put in italics but made a subscript, and a subscript at its end swallowed the closing tags of its table.
---
 src/mmwtex.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 484acf0..58feb6b 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1818,17 +1818,6 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
     free_vstring(tmpStr); // Deallocate
     free_vstring(tmpStrMasked);
 
-    // Add leading and trailing HTML markup to comment here
-    // (instead of in caller).  Also convert special characters.
-    // This used to be done in mmcmds.c
-    if (htmlCenterFlag) { // Note:  this should be 0 in MARKUP command
-      let(&cmt, cat("<CENTER><TABLE><TR><TD ALIGN=LEFT><B>Description: </B>",
-          cmt, "</TD></TR></TABLE></CENTER>", NULL));
-      let(&cmtMasked,
-          cat("<CENTER><TABLE><TR><TD ALIGN=LEFT><B>Description: </B>",
-          cmtMasked, "</TD></TR></TABLE></CENTER>", NULL));
-    }
-
     // Mask out _ (underscore) in labels so they will not become subscripts.
     // This section is independent and can be removed without side effects.
     pos1 = 0;
@@ -2068,6 +2057,18 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
     } // while (1)
   } // if (g_htmlFlag && processUnderscores)
 
+  // Add leading and trailing HTML markup to comment here
+  // (instead of in caller).  This comes after the underscore handling above,
+  // which looks for the beginning and the end of the comment itself.
+  // This used to be done in mmcmds.c
+  if (g_htmlFlag && htmlCenterFlag) { // Note:  htmlCenterFlag should be 0 in MARKUP command
+    let(&cmt, cat("<CENTER><TABLE><TR><TD ALIGN=LEFT><B>Description: </B>",
+        cmt, "</TD></TR></TABLE></CENTER>", NULL));
+    let(&cmtMasked,
+        cat("<CENTER><TABLE><TR><TD ALIGN=LEFT><B>Description: </B>",
+        cmtMasked, "</TD></TR></TABLE></CENTER>", NULL));
+  }
+
   // Convert opening double quote to `` for LaTeX.
   // This section is independent and can be removed without side effects
   if (!g_htmlFlag) { // LaTeX
-- 
2.43.0


From 0ea74c44359d7f3d6d9159946e43ea8ff3107fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:32 +0000
Subject: [PATCH 30/56] fix: WRITE SOURCE /EXTRACT must not mangle ~~ escapes
 and label links written with more than one space

---
 src/mmcmds.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index f077508..a667547 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4378,6 +4378,7 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
     vstring *buf) // header comment
 {
   long p1, p2, p3;
+  long tildePos; // Position of the ~ in front of the label
   vstring_def(label);
   vstring_def(newLabelWithTilde);
   vstring_def(restOfComment);
@@ -4403,25 +4404,25 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
   while (1) {
     p1 = instr(p1 + 1, *buf, "~");
     if (p1 == 0) break;
-    if (p1 - 2 >= 0) { // Prevent out-of-bounds access
-      if ((*buf)[p1 - 2] == '~') {
-        continue; // it is a ~~ escape; don't process
-      }
+    if ((*buf)[p1] == '~') {
+      p1++;
+      continue; // it is a ~~ escape; don't process
     }
+    tildePos = p1;
     while (1) {
       // Get beyond any whitespace between ~ and label
-      if ((*buf)[p1 + 1] == 0) break; // end of string
-      if ((*buf)[p1 + 1] != ' ' && (*buf)[p1 + 1] != '\n') {
+      if ((*buf)[p1] == 0) break; // end of string
+      if ((*buf)[p1] != ' ' && (*buf)[p1] != '\n') {
         // Found a non-space character, assume it is start of label
         break;
       }
       p1++; // Move past the whitespace
     }
-    if ((*buf)[p1 + 1] == 0) break; // Ignore stray ~ at end of comment
-    p2 = instr(p1 + 2, *buf, " ");
-    p3 = instr(p1 + 2, *buf, "\n");
+    if ((*buf)[p1] == 0) break; // Ignore stray ~ at end of comment
+    p2 = instr(p1 + 1, *buf, " ");
+    p3 = instr(p1 + 1, *buf, "\n");
     if (p3 < p2) p2 = p3; // p2 is end of label
-    let(&label, seg(*buf, p1 + 2, p2 - 1));
+    let(&label, seg(*buf, p1 + 1, p2 - 1));
     let(&restOfComment, right(*buf, p2));
     p3 = lookupLabel(label);
     if (p3 == -1) continue; // Not a statement label (e.g. ~ http://...)
@@ -4430,10 +4431,9 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
     let(&newLabelWithTilde, cat(label,
         "\n ~ http://us.metamath.org/mpeuni/",
         label, ".html", NULL));
-    let(&(*buf), cat(left(*buf, p1 - 1), newLabelWithTilde, NULL));
+    let(&(*buf), cat(left(*buf, tildePos - 1), newLabelWithTilde, NULL));
     // Adjust pointer to go past the modified label
-    p1 = p1 + (long)strlen(newLabelWithTilde)
-          - ((long)strlen(label) + 2); // for "~ "
+    p1 = (long)strlen(*buf);
     // Put newline if not at end of line - assumes no trailing spaces in .mm!
     // We do this to prevent too-long lines.  But if we're already at end
     // of line, we don't want to create a paragraph, so we don't add newline.
-- 
2.43.0


From 827646c754d7cd9c68e07779b3e38be300ed7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:54 +0000
Subject: [PATCH 31/56] fix: a section heading followed by a heading of a
 higher level is to be ignored at all levels

---
 src/mmwtex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 58feb6b..6f317e2 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -4381,7 +4381,7 @@ flag getSectionHeadings(long stmt,
 
   // for table of contents
   vstring_def(labelStr);
-  long pos, pos1, pos2, pos3, pos4;
+  long pos, pos1, pos2, pos3, pos4, startPos;
   flag errorFound = 0;
   flag saveOutputToString;
 
@@ -4488,6 +4488,7 @@ flag getSectionHeadings(long stmt,
   }
   // pos = 0; // Leave pos alone so that we start with "huge" header pos,
   // to ignore any earlier "tiny" or "small" or "big" header.
+  startPos = pos;
   pos2 = 0;
   while (1) { // Find last "big" header, if any
     pos1 = pos;
@@ -4498,6 +4499,7 @@ flag getSectionHeadings(long stmt,
     if (!pos) break;
     if (pos) pos2 = pos;
   }
+  if (!pos2) pos = startPos; // No such header; keep ignoring earlier ones
   if (pos2) { // Extract "big" header
     pos1 = pos2; // Save "$(" position
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of #*#* line
@@ -4540,6 +4542,7 @@ flag getSectionHeadings(long stmt,
   }
   // pos = 0; // Leave pos alone so that we start with "big" header pos,
   // to ignore any earlier "tiny" or "small" header
+  startPos = pos;
   pos2 = 0;
   while (1) { // Find last "small" header, if any
     pos1 = pos;
@@ -4550,6 +4553,7 @@ flag getSectionHeadings(long stmt,
     if (!pos) break;
     if (pos) pos2 = pos;
   }
+  if (!pos2) pos = startPos; // No such header; keep ignoring earlier ones
   if (pos2) { // Extract "small" header
     pos1 = pos2; // Save "$(" position
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of =-=- line
@@ -4593,6 +4597,7 @@ flag getSectionHeadings(long stmt,
 
   // pos = 0; // Leave pos alone so that we start with "small" header pos,
   // to ignore any earlier "tiny" header.
+  startPos = pos;
   pos2 = 0;
   while (1) { // Find last "tiny" header, if any
     pos1 = pos;
@@ -4603,6 +4608,7 @@ flag getSectionHeadings(long stmt,
     if (!pos) break;
     if (pos) pos2 = pos;
   }
+  if (!pos2) pos = startPos; // No such header; keep ignoring earlier ones
   if (pos2) { // Extract "tiny" header
     pos1 = pos2; // Save "$(" position
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of -.-. line
-- 
2.43.0


From e7c2a4d3475edf992f962fb601996f89386da529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:54 +0000
Subject: [PATCH 32/56] fix: WRITE SOURCE /EXTRACT must not write the $t
 comment twice

---
 src/mmdata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 8583bd7..a7fb472 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3067,6 +3067,11 @@ vstring getDescriptionAndLabel(long stmt) {
     dontUseComment = 1;
   }
 
+  // Remove the $t comment, which the caller writes by itself
+  if (instr(1, descriptionAndLabel, "$t") != 0) {
+    dontUseComment = 1;
+  }
+
   // Remove comments with $j markup
   if (instr(1, descriptionAndLabel, "$j") != 0) {
     dontUseComment = 1;
-- 
2.43.0


From f6e156d65f9300338dfb86b2397df48453281e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:30 +0000
Subject: [PATCH 33/56] fix: WRITE SOURCE /EXTRACT must not drop a label that
 is followed by a comment

---
 src/mmdata.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index a7fb472..b2c4772 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3084,6 +3084,15 @@ vstring getDescriptionAndLabel(long stmt) {
     let(&descriptionAndLabel, right(descriptionAndLabel, p2 + 2));
   }
 
+  // If the label precedes the comment, it was removed with everything else
+  // before the comment, so put it after the comment.
+  p2 = rinstr(descriptionAndLabel, "$)");
+  if (g_Statement[stmt].labelName[0] != 0
+      && instr(p2 + 1, descriptionAndLabel, g_Statement[stmt].labelName) == 0) {
+    let(&descriptionAndLabel, cat(descriptionAndLabel,
+        g_Statement[stmt].labelName, " ", NULL));
+  }
+
   return descriptionAndLabel;
 } // getDescriptionAndLabel
 
-- 
2.43.0


From c3612d6730165b52701a5b461aaf1912570df537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:37 +0000
Subject: [PATCH 34/56] fix: WRITE SOURCE /EXTRACT must keep the tab in front
 of a comment as a separator

---
 src/mmdata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index b2c4772..85ec807 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3050,6 +3050,8 @@ vstring getDescriptionAndLabel(long stmt) {
   p1--;
   while (p1 != 0) {
     if (descriptionAndLabel[p1 - 1] != ' '
+          && descriptionAndLabel[p1 - 1] != '\t'
+          && descriptionAndLabel[p1 - 1] != '\f'
           && descriptionAndLabel[p1 - 1] != '\n') break;
     p1--;
   }
-- 
2.43.0


From a28f69cb9c5b6ce640ec46ee56bc51d32b3a8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:44 +0000
Subject: [PATCH 35/56] fix: WRITE SOURCE /EXTRACT must not quote a part of a
 comment in its first line

---
 src/mmcmds.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index a667547..ecd7e58 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4208,8 +4208,13 @@ void writeExtractedSource(
     // Prevent "Extracted from:" accumulation if sent through /EXTRACT again
     let(&buf, right(buf, j + 1));
   }
+  // Another comment on the first line could continue on the next line, so
+  // take only the first one.
+  j = instr(1, buf, "$)");
+  if (j != 0) let(&buf, left(buf, j - 1));
   fprintf(fp, "$( Extracted from: %s", buf);
-  if (instr(1, buf, "$)") == 0) fprintf(fp, " $)");
+  if (j == 0) fprintf(fp, " ");
+  fprintf(fp, "$)");
   fprintf(fp,
       "\n$( Created %s %s using \"READ '%s'\" then\n",
       date(), time_(), g_input_fn);
-- 
2.43.0


From 65d7b02e39f3704787332f10629fbe97b49f17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:38 +0000
Subject: [PATCH 36/56] fix: WRITE SOURCE /EXTRACT must separate its first line
 from a source that starts without white space

---
 src/mmcmds.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index ecd7e58..af17d95 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3799,6 +3799,14 @@ flag writeSource(
   return written;
 } // writeSource
 
+// Write the text in front of a statement for WRITE SOURCE ... / EXTRACT.  It
+// starts with white space, except at the very beginning of the input file,
+// where it must be separated from the comment that now precedes it.
+static void writeExtractedText(FILE *fp, const char *text) {
+  if (strchr(" \t\f\n", text[0]) == NULL || text[0] == 0) fprintf(fp, "\n");
+  fprintf(fp, "%s", text);
+} // writeExtractedText
+
 // Get info for WRITE SOURCE ... / EXTRACT
 void writeExtractedSource(
     vstring extractLabelList, // EXTRACT argument provided by user
@@ -4247,19 +4255,19 @@ void writeExtractedSource(
       freeTempAlloc();
       if (hugeHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &hugeHdrComment);
-        fprintf(fp, "%s", cat(hugeHdr, hugeHdrComment, hdrSuffix, NULL));
+        writeExtractedText(fp, cat(hugeHdr, hugeHdrComment, hdrSuffix, NULL));
       }
       if (bigHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &bigHdrComment);
-        fprintf(fp, "%s", cat(bigHdr, bigHdrComment, hdrSuffix, NULL));
+        writeExtractedText(fp, cat(bigHdr, bigHdrComment, hdrSuffix, NULL));
       }
       if (smallHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &smallHdrComment);
-        fprintf(fp, "%s", cat(smallHdr, smallHdrComment, hdrSuffix, NULL));
+        writeExtractedText(fp, cat(smallHdr, smallHdrComment, hdrSuffix, NULL));
       }
       if (tinyHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &tinyHdrComment);
-        fprintf(fp, "%s", cat(tinyHdr, tinyHdrComment, hdrSuffix, NULL));
+        writeExtractedText(fp, cat(tinyHdr, tinyHdrComment, hdrSuffix, NULL));
       }
     } // if header(s) needed
 
@@ -4275,7 +4283,7 @@ void writeExtractedSource(
 
       fixUndefinedLabels(extractNeeded, &buf);
 
-      fprintf(fp, "%s", buf);
+      writeExtractedText(fp, buf);
       // Text below last statement isn't (currently) used - do we need it?
       if (stmt == g_statements + 1) bug(272);
       if (stmt != g_statements + 1) {
-- 
2.43.0


From ce6e153c7b0e04ad1370166d9c42ba51619beb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:07 +0000
Subject: [PATCH 37/56] fix: WRITE SOURCE /EXTRACT must declare all variables
 of the $d statements it keeps

---
 src/mmcmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index af17d95..5931786 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3958,11 +3958,12 @@ void writeExtractedSource(
   print2("Determining which $c and $v statements are needed...\n");
   for (stmt = 1; stmt <= g_statements; stmt++) {
     if (extractNeeded[stmt] == 'Y'
-        // All $a, $p, $f, $e
+        // All $a, $p, $f, $e, $d
         && (g_Statement[stmt].type == a_
              || g_Statement[stmt].type == p_
              || g_Statement[stmt].type == e_
              || g_Statement[stmt].type == f_
+             || g_Statement[stmt].type == d_
            )) {
       nmbrLet(&mstring, g_Statement[stmt].mathString);
       mtkns = g_Statement[stmt].mathStringLen;
-- 
2.43.0


From 0da7ee31a9d20b40ae71b31c157bc1cf5167f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:39 +0000
Subject: [PATCH 38/56] fix: VERIFY PROOF must not fail when an unknown step
 leaves the last variables of the hypotheses empty

---
 src/mmveri.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmveri.c b/src/mmveri.c
index 792740f..7352842 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -767,7 +767,8 @@ ambiguityCheck: // Re-entry point to see if unification is unique
       p = substSchemeFrstVarOcc[v] + 1;
       q = substInstFrstVarOcc[v] + varAssLen[v];
       if (bigSubstInstAss[q - 1] != g_mathTokens) break;
-      if (q >= bigSubstInstLen) bug(2110);
+      // The variable ran into the end of its hypothesis (which may be the last
+      // one); try the variable before it.
     }
     ambiguityCheckFlag = 1;
     goto ambiguityCheck;
-- 
2.43.0


From a0fd77c306694dc91d8b279eb8d5e30750c32950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:04 +0000
Subject: [PATCH 39/56] fix: WRITE SOURCE /EXTRACT must not repeat markup of
 the first comment in its first line

---
 src/mmcmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 5931786..edf2797 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4221,6 +4221,8 @@ void writeExtractedSource(
   // take only the first one.
   j = instr(1, buf, "$)");
   if (j != 0) let(&buf, left(buf, j - 1));
+  // Don't repeat markup such as $t
+  if (instr(1, buf, "$") != 0) let(&buf, " ");
   fprintf(fp, "$( Extracted from: %s", buf);
   if (j == 0) fprintf(fp, " ");
   fprintf(fp, "$)");
-- 
2.43.0


From 51b37c2b64ef17612b2a9420237d1f840063c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:18 +0000
Subject: [PATCH 40/56] fix: SET WIDTH offers the current width as its default

---
 src/mmcmdl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmcmdl.c b/src/mmcmdl.c
index 476a423..64999d9 100644
--- a/src/mmcmdl.c
+++ b/src/mmcmdl.c
@@ -1124,7 +1124,7 @@ flag processCommandLine(void) {
       if (cmdMatches("SET WIDTH")) {
         if (!getFullArg(2, cat(
            "# What is maximum line length on your screen <",
-            str((double)g_screenHeight), ">? ", NULL)))
+            str((double)g_screenWidth), ">? ", NULL)))
           goto pclbad;
         goto pclgood;
       }
-- 
2.43.0


From 8105a7eb1fd39dd5ae7cae919f7e8c6c81771970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:18 +0000
Subject: [PATCH 41/56] fix: the SUBMIT nesting complaint is logged and
 silenced like any other

---
 src/metamath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index f022e06..0905563 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1285,7 +1285,7 @@ void command(int argc, char *argv[]) {
 
     if (cmdMatches("SUBMIT")) {
       if (g_commandFileNestingLevel == MAX_COMMAND_FILE_NESTING) {
-        printf("?The SUBMIT nesting level has been exceeded.\n");
+        print2("?The SUBMIT nesting level has been exceeded.\n");
         continue;
       }
       g_commandFilePtr[g_commandFileNestingLevel + 1] = fSafeOpen(g_fullArg[1], "r",
-- 
2.43.0


From b3bf5bf424732cf7de004a215471e361b38c13b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:29 +0000
Subject: [PATCH 42/56] fix: "nothing" is an answer only where it is offered

---
 src/mmcmdl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmcmdl.c b/src/mmcmdl.c
index 64999d9..cd9e51d 100644
--- a/src/mmcmdl.c
+++ b/src/mmcmdl.c
@@ -1835,7 +1835,8 @@ static flag getFullArg(long arg, const char *cmdList1) {
       let(&tmpArg, seg(defaultCmd, 2, len(defaultCmd) - 1));
     }
 
-    if (strcmp(tmpArg, "nothing")) {
+    // "nothing" is an answer only if it is one of the choices
+    if (strcmp(tmpArg, "nothing") || strcmp(possCmd[possCmds - 1], "nothing")) {
       pntrLet(&g_rawArgPntr, pntrAddElement(g_rawArgPntr));
       nmbrLet(&g_rawArgNmbr, nmbrAddElement(g_rawArgNmbr, 0));
       g_rawArgs++;
-- 
2.43.0


From 3767d330b8e1e1ba1b61c1691c035a273729787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:29 +0000
Subject: [PATCH 43/56] fix: a fraction or a negative number is not accepted
 where a whole number is expected

---
 src/mmcmdl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmcmdl.c b/src/mmcmdl.c
index cd9e51d..45abda6 100644
--- a/src/mmcmdl.c
+++ b/src/mmcmdl.c
@@ -1666,7 +1666,7 @@ static flag getFullArg(long arg, const char *cmdList1) {
     vstring_def(tmpStr);
     let(&tmpStr, str(val(tmpArg)));
     let(&tmpStr, cat(string(len(tmpArg)-len(tmpStr),'0'), tmpStr, NULL));
-    if (strcmp(tmpStr, tmpArg)) {
+    if (strcmp(tmpStr, tmpArg) || strspn(tmpArg, "0123456789") != strlen(tmpArg)) {
       printCommandError(errorLine, arg, "?A number was expected here.");
       ret = 0;
     } else {
-- 
2.43.0


From 4b7150d2ef4e058a332bf364aba3858b38d275da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:26 +0000
Subject: [PATCH 44/56] fix: SET HEIGHT offers the current height as its
 default

---
 src/mmcmdl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmcmdl.c b/src/mmcmdl.c
index 45abda6..f929cf0 100644
--- a/src/mmcmdl.c
+++ b/src/mmcmdl.c
@@ -1132,7 +1132,7 @@ flag processCommandLine(void) {
       if (cmdMatches("SET HEIGHT")) {
         if (!getFullArg(2, cat(
            "# What is number of lines your screen displays <",
-            str((double)g_screenHeight), ">? ", NULL)))
+            str((double)(g_screenHeight + 1)), ">? ", NULL)))
           goto pclbad;
         goto pclgood;
       }
-- 
2.43.0


From ed2cd1c0deff92eb72e8c7d334daa6fc575e9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:39 +0000
Subject: [PATCH 45/56] fix: SUBSTITUTE of "\n" keeps an empty line that is not
 joined

---
 src/metamath.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 0905563..12a8968 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1428,13 +1428,15 @@ void command(int argc, char *argv[]) {
             outMsgFlag = 1;
         } // End switch
         free_vstring(bufferedLine);
+        j = 0; // Flag that bufferedLine (which may be empty) is pending
   
         // while (linput(list1_fp, NULL, &str1)) {
         while (1) {
-          if (bufferedLine[0]) {
+          if (j) {
             // Get input from buffered line (from rejected \n replacement)
             let(&str1, bufferedLine);
             free_vstring(bufferedLine);
+            j = 0;
           } else {
             if (!linput(list1_fp, NULL, &str1)) break;
           }
@@ -1500,6 +1502,7 @@ void command(int argc, char *argv[]) {
                     free_vstring(bufferedLine);
                   } else {
                     k = 0; // No match - leave bufferedLine for next pass
+                    j = 1;
                   }
                 } else { // EOF reached
                   print2("Warning: file %s has an odd number of lines\n",
-- 
2.43.0


From 15e6a9d01baff7f0963643f614e660b38c7ff742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:39 +0000
Subject: [PATCH 46/56] fix: NUMBER with a zero increment does not fill the
 disk

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 12a8968..c00b1e3 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1879,6 +1879,10 @@ void command(int argc, char *argv[]) {
       }
 
       if (cmdMatches("NUMBER")) {
+        if ((long)val(g_fullArg[4]) <= 0) {
+          print2("?The increment must be greater than 0.\n");
+          continue;
+        }
         list1_fp = fSafeOpen(g_fullArg[1], "w", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         j = (long)strlen(str(val(g_fullArg[2])));
-- 
2.43.0


From 7c57000b074cf43d1740672a814fd15a51f65014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:39 +0000
Subject: [PATCH 47/56] fix: COPY of a missing file leaves no temporary file
 behind

---
 src/metamath.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index c00b1e3..c95eba4 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2028,8 +2028,11 @@ void command(int argc, char *argv[]) {
           }
           fclose(list1_fp);
         }
-        if (j) continue; // One of the input files couldn't be opened
         fclose(list2_fp);
+        if (j) { // One of the input files couldn't be opened
+          remove(list2_ftmpname);
+          continue;
+        }
         print2("The output file \"%s\" has %ld lines.\n", g_fullArg[2], lines);
         fSafeRename(list2_ftmpname, g_fullArg[2]);
         continue;
-- 
2.43.0


From 62132fd0c0470673edb90869286eab11e803bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:39 +0000
Subject: [PATCH 48/56] fix: a one-character file name is not looked at before
 its beginning

---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index c95eba4..3de8dc1 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1350,7 +1350,8 @@ void command(int argc, char *argv[]) {
           rewind(list1_fp);
         }
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)(strlen(list2_fname)) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
@@ -1704,7 +1705,8 @@ void command(int argc, char *argv[]) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)strlen(list2_fname) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
-- 
2.43.0


From d8f3952d418587c25552f23a174ce9442bca8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:39 +0000
Subject: [PATCH 49/56] fix: CLEAN with T or U allocates enough room for lines
 of tabs

---
 src/mmvstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index c0d6836..ffe244a 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,7 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 7; // Allow for max possible length
+  if (untab_flag || tab_flag) i = i * 8; // Allow for max possible length
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
@@ -594,7 +594,7 @@ temp_vstring edit(const char *sin, long control) {
       // error message returns.
       m = i - 2;
 
-      while (sout[j - 1] == ' ' && j > i - 8) j--;
+      while (j > i - 8 && sout[j - 1] == ' ') j--;
       if (j <= m) {
         sout[j] = '\t';
         j = i;
-- 
2.43.0


From cc201ba5fb34135b94b646685423d41cd4ebf218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:53 +0000
Subject: [PATCH 50/56] fix: COUNT names the first longest line of a file of
 empty lines

---
 src/metamath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 3de8dc1..f0d07d6 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1910,11 +1910,12 @@ void command(int argc, char *argv[]) {
         j = 0; // Number of longest lines
         sum = 0.0; // Sum of numeric content of lines
         firstChangedLine = 0;
+        free_vstring(str4); // Text of the first longest line
         while (linput(list1_fp, NULL, &str1)) {
           lines++;
 
           // Longest line
-          if (q < (signed)(strlen(str1))) {
+          if (lines == 1 || q < (signed)(strlen(str1))) {
             q = (long)strlen(str1);
             let(&str4, str1);
             i = lines;
-- 
2.43.0


From 2a029471fd88d0cfa3e5924dffa792d5b1545b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:53 +0000
Subject: [PATCH 51/56] fix: TYPE shows 10 lines when the number is given as ""

---
 src/metamath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index f0d07d6..6a62081 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1963,7 +1963,7 @@ void command(int argc, char *argv[]) {
       if (cmdMatches("TYPE") || cmdMatches("T")) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
-        if (g_rawArgs == 2) {
+        if (g_rawArgs == 2 || !strcmp(g_fullArg[2], "$")) {
           n = 10;
         } else {
           if (((vstring)(g_fullArg[2]))[0] == 'A' ||
-- 
2.43.0


From e3cb7366ae05f35a3a04d7cd13a2bfa7fc8fdb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:34 +0000
Subject: [PATCH 52/56] fix: VERIFY MARKUP checks reserved label names after
 the first axiom too

---
 src/mmcmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index edf2797..14aa0b4 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4811,8 +4811,9 @@ void verifyMarkup(vstring labelMatch,
     if (g_Statement[stmtNum].type == (char)a_) {
       if (!strcmp("|-", g_MathToken[
           (g_Statement[stmtNum].mathString)[0]].tokenName)) {
-        let(&str1, left(g_Statement[stmtNum].labelName, 3));
-        if (strcmp("ax-", str1) && strcmp("df-", str1)) {
+        // (str1 must keep the list of reserved words.)
+        let(&str2, left(g_Statement[stmtNum].labelName, 3));
+        if (strcmp("ax-", str2) && strcmp("df-", str2)) {
           assignStmtFileAndLineNum(stmtNum);
           printLongLine(cat("?Warning: In the $a statement \"",
               g_Statement[stmtNum].labelName, "\" at line ",
-- 
2.43.0


From f12b25cd5c58facec4fc601ab25ba5bc25ebaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:38 +0000
Subject: [PATCH 53/56] fix: VERIFY MARKUP / TOP_DATE_CHECK refuses a version
 date with a month that does not exist

---
 src/mmdata.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 85ec807..55cfef9 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3760,12 +3760,13 @@ void getProofDate(long stmtNum, vstring *date1, vstring *date2) {
 // where dd may be 1 or 2 digits, mmm is 1st 3 letters of month,
 // and yyyy is 2 or 4 digits.  A 1 is returned if an error was detected.
 flag parseDate(vstring dateStr, long *dd, long *mmm, long *yyyy) {
-  long j;
+  long j, m;
   flag err = 0;
   j = instr(1, dateStr, "-");
   *dd = (long)val(left(dateStr, j - 1)); // Day
 #define MONTHS "JanFebMarAprMayJunJulAugSepOctNovDec"
-  *mmm = ((instr(1, MONTHS, mid(dateStr, j + 1, 3)) - 1) / 3) + 1; // 1 = Jan
+  m = instr(1, MONTHS, mid(dateStr, j + 1, 3)); // 0 = no such month
+  *mmm = ((m - 1) / 3) + 1; // 1 = Jan
   j = instr(j + 1, dateStr, "-");
   *yyyy = (long)val(right(dateStr, j + 1));
   if (*yyyy < 100) { // 2-digit year (obsolete)
@@ -3776,7 +3777,7 @@ flag parseDate(vstring dateStr, long *dd, long *mmm, long *yyyy) {
       *yyyy = *yyyy + 1900;
     }
   }
-  if (*dd < 1 || *dd > 31 || *mmm < 1 || *mmm > 12) err = 1;
+  if (*dd < 1 || *dd > 31 || m % 3 != 1 || *mmm > 12) err = 1;
   return err;
 } // parseDate
 
-- 
2.43.0


From e53bc2b3dcdc960da9f11fa28eb4b9dea7309f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:49 +0000
Subject: [PATCH 54/56] fix: VERIFY MARKUP accepts references to statements
 before the first mathbox header

---
 src/mmcmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 14aa0b4..7fc52a1 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -5276,7 +5276,8 @@ void verifyMarkup(vstring labelMatch,
           stmt = proof[step];
           if (stmt < 0) continue; // Local step or '?' step
           if (stmt == 0) bug(266);
-          if (stmt > g_mathboxStmt && stmt < g_mathboxStart[pmbox - 1]) {
+          // (What precedes the first mathbox header belongs to no mathbox.)
+          if (stmt >= g_mathboxStart[0] && stmt < g_mathboxStart[pmbox - 1]) {
             // A statement in another mathbox is referenced
 
             // Eliminate duplicate error messages:
-- 
2.43.0


From 671e70a60945916e113575c8ea3c62a24733de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:15 +0000
Subject: [PATCH 55/56] fix: Proof Assistant with statements between "mathbox"
 and the first mathbox header

ASSIGN, IMPROVE, MINIMIZE_WITH and the mathbox notices read
g_mathboxStart[-1] or g_mathboxUser[-1] (and crashed or stopped with bug
1130) when the theorem being proved, or the statement used, follows the
statement called "mathbox" but no "Mathbox for" header comes before it.
---
 src/metamath.c | 8 ++++----
 src/mmpfas.c   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 6a62081..1802751 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4514,7 +4514,7 @@ void command(int argc, char *argv[]) {
 
       // See if it's in another mathbox; if so, let user know
       assignMathboxInfo();
-      if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
+      if (getMathboxNum(k) > 0 && getMathboxNum(g_proveStatement) > 0) {
         if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
           printLongLine(cat("\"", g_Statement[k].labelName,
                 "\" is in the mathbox for ",
@@ -4724,7 +4724,7 @@ void command(int argc, char *argv[]) {
 
       mathboxFlag = (switchPos("INCLUDE_MATHBOXES") != 0);
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      if (getMathboxNum(g_proveStatement) > 0) {
         // We're in a mathbox
         i = getMathboxNum(g_proveStatement);
         if (i <= 0) bug(1130);
@@ -5087,7 +5087,7 @@ void command(int argc, char *argv[]) {
       // "/ INCLUDE_MATHBOXES" is omitted.
 
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      if (getMathboxNum(g_proveStatement) > 0) {
         // We're in a mathbox
         i = getMathboxNum(g_proveStatement);
         if (i <= 0) bug(1130);
@@ -5461,7 +5461,7 @@ void command(int argc, char *argv[]) {
 
             // See if it's in another mathbox; if so, let user know
             assignMathboxInfo();
-            if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
+            if (getMathboxNum(k) > 0 && getMathboxNum(g_proveStatement) > 0) {
               if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
                 printLongLine(cat("\"", g_Statement[k].labelName,
                       "\" is in the mathbox for ",
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 08433cd..c9d8c6e 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -1902,7 +1902,7 @@ nmbrString *proveFloating(const nmbrString *mString, long statemNum, long maxEDe
       if (mathboxFlag != 0) { // Skip unless /INCLUDE_MATHBOXES was specified
         // See if it's in another mathbox; if so, let user know
         assignMathboxInfo();
-        if (stmt > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
+        if (getMathboxNum(stmt) > 0 && getMathboxNum(g_proveStatement) > 0) {
           if (stmt < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
             printLongLine(cat("Used \"", g_Statement[stmt].labelName,
                   "\" from the mathbox for ",
-- 
2.43.0


From e8a2f8fcb5eea65918133398d162e3364d59362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:49 +0000
Subject: [PATCH 56/56] fix: input lines of 2000 characters and more are split
 into several commands

cmdInput() read at most 1999 characters of a line (from the terminal or a
command file); the rest of the line was carried out as another command, so
that the end of a long remark was executed.  Read the line in pieces.
---
 src/mminou.c | 13 ++++++++++++-
 src/mminou.h |  7 +++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 886907e..0f3c540 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -756,7 +756,8 @@ vstring cmdInput(FILE *stream, const char *ask) {
   // New memory is allocated each time linput is called. This space must
   // be freed by the caller.
   vstring_def(g); // Always init vstrings to "" for let(&...) to work
-  long i;
+  vstring_def(piece);
+  long i, n;
 
   while (1) { // For "B" backup loop
     if (ask != NULL && !g_commandFileSilentFlag) {
@@ -790,6 +791,16 @@ vstring cmdInput(FILE *stream, const char *ask) {
       fflush(stdout);
 #endif
     } else {
+      // A line that does not fit in the buffer comes in pieces
+      n = i;
+      while (n == CMD_BUFFER_SIZE - 1 && g[i - 1] != '\n') {
+        let(&piece, space(CMD_BUFFER_SIZE));
+        if (!fgets(piece, CMD_BUFFER_SIZE, stream)) break; // End of file
+        n = (long)strlen(piece);
+        let(&g, cat(g, piece, NULL));
+        i += n;
+      }
+      free_vstring(piece);
       // The last line in the file has no new-line
       if (g[i - 1] != '\n') {
         // Warning:  Don't call bug() - it calls print2 which may call this.
diff --git a/src/mminou.h b/src/mminou.h
index 7e1586d..f2de97b 100644
--- a/src/mminou.h
+++ b/src/mminou.h
@@ -547,8 +547,8 @@ void printLongLine(const char *line, const char *startNextLine, const char *brea
  * Returns the first not interpreted line as a \ref vstring.
  *
  * A line in the \p stream is terminated by a LF character (0x0D) character
- * alone.  It is read, but removed from the result.  The maximum line length
- * without the LF is \ref CMD_BUFFER_SIZE - 1.  Reaching EOF (end of file,
+ * alone.  It is read, but removed from the result.  A line longer than
+ * \ref CMD_BUFFER_SIZE is read in pieces and returned as a whole.  Reaching EOF (end of file,
  * CTRL-D) is equivalent to reading LF, if at least 1 byte was read before.
  * Note that the NUL character can be part of the line.  Reading a NUL is not
  * sufficiently supported in the current implementation and may or may not
@@ -556,8 +556,7 @@ void printLongLine(const char *line, const char *startNextLine, const char *brea
  *
  * Reading from an empty \p stream (or one that is at EOF position, on the
  * console CTRL-D) returns NULL, not the empty string, and is formally
- * signalled as an error.  Overflowing the buffer is also an error.  No
- * truncated value is returned.
+ * signalled as an error.  No truncated value is returned.
  *
  * This routine interprets some input without returning it to the caller under
  * following two conditions:
-- 
2.43.0


From bf3d3561ebc4f58ba01233eace2125ec99bc48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 01/26] fix: sync archive path when archive-push finds an
 existing identical WAL segment

A push interrupted after the segment was renamed into place but before the path was synced leaves a
segment that is not durable. The retried push found the segment, skipped the copy, and reported
success without syncing the path, so a power loss could lose WAL that PostgreSQL was told is archived.
---
 src/command/archive/push/file.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/command/archive/push/file.c b/src/command/archive/push/file.c
index bf745df..a224aa6 100644
--- a/src/command/archive/push/file.c
+++ b/src/command/archive/push/file.c
@@ -179,6 +179,16 @@ archivePushFile(
                 TRY_BEGIN()
                 {
                     walSegmentFile = walSegmentFindOne(storageRepoIdx(repoData->repoIdx), repoData->archiveId, archiveFile, 0);
+
+                    // Sync the path when the segment exists since it may have been left by a push that was interrupted after the
+                    // segment was renamed but before the path was synced. Otherwise a segment that is not durable would be acked.
+                    if (walSegmentFile != NULL)
+                    {
+                        storagePathSyncP(
+                            storageRepoIdxWrite(repoData->repoIdx),
+                            strNewFmt(
+                                STORAGE_REPO_ARCHIVE "/%s/%s", strZ(repoData->archiveId), strZ(strSubN(archiveFile, 0, 16))));
+                    }
                 }
                 CATCH_ANY()
                 {
-- 
2.43.0


From 541125f471b2d38ad11c85b14da70de7bc36b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:31 +0000
Subject: [PATCH 02/26] fix: sync bundle path at the end of a bundled backup

---
 src/command/backup/process.c.inc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/command/backup/process.c.inc b/src/command/backup/process.c.inc
index 29b9456..58b2510 100644
--- a/src/command/backup/process.c.inc
+++ b/src/command/backup/process.c.inc
@@ -990,6 +990,15 @@ backupProcess(const BackupData *const backupData, Manifest *const manifest, cons
                 if ((backupType == backupTypeFull && !jobData.bundle) || hardLink || storagePathExistsP(storageRepo(), path))
                     storagePathSyncP(storageRepoWrite(), path);
             }
+
+            // Also sync the bundle path (which is not in the manifest) if any bundles were created
+            if (jobData.bundle)
+            {
+                const String *const path = strNewFmt("%s/" MANIFEST_PATH_BUNDLE, strZ(backupPathExp));
+
+                if (storagePathExistsP(storageRepo(), path))
+                    storagePathSyncP(storageRepoWrite(), path);
+            }
         }
     }
     MEM_CONTEXT_TEMP_END();
-- 
2.43.0


From 40a956dc1429cab5c3e76c3579ae33206df0c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 03/26] fix: sync archive-get queue file before it is renamed
 into the queue

---
 src/command/archive/get/file.c     | 6 ++++--
 src/command/archive/get/file.h     | 2 +-
 src/command/archive/get/get.c      | 2 +-
 src/command/archive/get/protocol.c | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/command/archive/get/file.c b/src/command/archive/get/file.c
index 990c563..bcf3ff3 100644
--- a/src/command/archive/get/file.c
+++ b/src/command/archive/get/file.c
@@ -19,13 +19,15 @@ Archive Get File
 /**********************************************************************************************************************************/
 FN_EXTERN ArchiveGetFileResult
 archiveGetFile(
-    const Storage *const storage, const String *const request, const List *const actualList, const String *const walDestination)
+    const Storage *const storage, const String *const request, const List *const actualList, const String *const walDestination,
+    const bool syncFile)
 {
     FUNCTION_LOG_BEGIN(logLevelDebug);
         FUNCTION_LOG_PARAM(STORAGE, storage);
         FUNCTION_LOG_PARAM(STRING, request);
         FUNCTION_LOG_PARAM(LIST, actualList);
         FUNCTION_LOG_PARAM(STRING, walDestination);
+        FUNCTION_LOG_PARAM(BOOL, syncFile);
     FUNCTION_LOG_END();
 
     FUNCTION_AUDIT_STRUCT();
@@ -51,7 +53,7 @@ archiveGetFile(
             MEM_CONTEXT_TEMP_BEGIN()
             {
                 StorageWrite *const destination = storageNewWriteP(
-                    storage, walDestination, .noCreatePath = true, .noSyncFile = true, .noSyncPath = true, .noAtomic = true);
+                    storage, walDestination, .noCreatePath = true, .noSyncFile = !syncFile, .noSyncPath = true, .noAtomic = true);
 
                 // If there is a cipher then add the decrypt filter
                 if (cipherSpecType(actual->cipherSpecArchive) != cipherTypeNone)
diff --git a/src/command/archive/get/file.h b/src/command/archive/get/file.h
index f804564..1ff015b 100644
--- a/src/command/archive/get/file.h
+++ b/src/command/archive/get/file.h
@@ -27,6 +27,6 @@ typedef struct ArchiveGetFileResult
 } ArchiveGetFileResult;
 
 FN_EXTERN ArchiveGetFileResult archiveGetFile(
-    const Storage *storage, const String *request, const List *actualList, const String *walDestination);
+    const Storage *storage, const String *request, const List *actualList, const String *walDestination, bool syncFile);
 
 #endif
diff --git a/src/command/archive/get/get.c b/src/command/archive/get/get.c
index 8357ae4..2708b00 100644
--- a/src/command/archive/get/get.c
+++ b/src/command/archive/get/get.c
@@ -642,7 +642,7 @@ archiveGetSingle(const String *const walSegment, const String *const walDestinat
 
             // Get the file
             const ArchiveGetFileResult fileResult = archiveGetFile(
-                storageLocalWrite(), fileMap->request, fileMap->actualList, walDestination);
+                storageLocalWrite(), fileMap->request, fileMap->actualList, walDestination, false);
 
             // Output file warnings
             for (unsigned int warnIdx = 0; warnIdx < strLstSize(fileResult.warnList); warnIdx++)
diff --git a/src/command/archive/get/protocol.c b/src/command/archive/get/protocol.c
index 9def227..9d2e82b 100644
--- a/src/command/archive/get/protocol.c
+++ b/src/command/archive/get/protocol.c
@@ -43,10 +43,10 @@ archiveGetFileProtocol(PackRead *const param)
             lstAdd(actualList, &actual);
         }
 
-        // Get file
+        // Get file. Sync the file since it will be renamed into the queue and must not be used after a crash unless it is complete.
         const ArchiveGetFileResult fileResult = archiveGetFile(
             storageSpoolWrite(), request, actualList,
-            strNewFmt(STORAGE_SPOOL_ARCHIVE_IN "/%s." STORAGE_FILE_TEMP_EXT, strZ(request)));
+            strNewFmt(STORAGE_SPOOL_ARCHIVE_IN "/%s." STORAGE_FILE_TEMP_EXT, strZ(request)), true);
 
         // Return result
         PackWrite *const data = protocolServerResultData(result);
-- 
2.43.0


From 6671d892c9ba65eaceff15594ea142a69653e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:59 +0000
Subject: [PATCH 04/26] fix: release locks already acquired when a later lock
 is not available

---
 src/command/lock.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/command/lock.c b/src/command/lock.c
index 68622e4..3155558 100644
--- a/src/command/lock.c
+++ b/src/command/lock.c
@@ -102,7 +102,16 @@ cmdLockAcquire(const LockAcquireParam param)
         const StringList *const lockList = cfgOptionTest(cfgOptLock) ? strLstNewVarLst(cfgOptionLst(cfgOptLock)) : cmdLockList();
 
         for (unsigned int lockListIdx = 0; lockListIdx < strLstSize(lockList); lockListIdx++)
+        {
             result = lockAcquire(strLstGet(lockList, lockListIdx), param);
+
+            // If a lock could not be acquired then release the locks that were acquired before it. Either all locks are held or none.
+            if (!result)
+            {
+                lockReleaseP(.returnOnNoLock = true);
+                break;
+            }
+        }
     }
     MEM_CONTEXT_TEMP_END();
 
-- 
2.43.0


From 6aec3d7675108c7a02d7a89074ad40b70616e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:37 +0000
Subject: [PATCH 05/26] fix: segfault when a signal arrives before the
 configuration is loaded

---
 src/command/exit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/command/exit.c b/src/command/exit.c
index 1913a61..496662b 100644
--- a/src/command/exit.c
+++ b/src/command/exit.c
@@ -70,8 +70,10 @@ exitOnSignal(const int signalType)
     {
         exitInProgress = true;
 
+        // The log level is not available when the signal arrives before the configuration has been loaded
         logSignal(
-            cfgLogLevelDefault(), signalType == signalTypeNone ? "from child process" : exitSignalName((SignalType)signalType));
+            cfgInited() ? cfgLogLevelDefault() : logLevelInfo,
+            signalType == signalTypeNone ? "from child process" : exitSignalName((SignalType)signalType));
         exit(errorTypeCode(&TermError));
     }
 
-- 
2.43.0


From c8bdc1629eaff792988b063df2ccffc13f2c9ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:21 +0000
Subject: [PATCH 06/26] fix: double free when a destructor errors while
 cleaning up after an error

---
 src/common/memContext.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/memContext.c b/src/common/memContext.c
index ced6045..cb3d82e 100644
--- a/src/common/memContext.c
+++ b/src/common/memContext.c
@@ -1398,8 +1398,13 @@ memContextClean(const unsigned int tryDepth, const bool fatal)
         // mask the original error.
         if (memContextStack[memContextMaxStackIdx].type == memContextStackTypeNew)
         {
+            // Remove the context from the stack before it is freed. If a callback errors then the try that is being cleaned up will
+            // be cleaned up again and the context must not be freed twice.
+            MemContext *const memContext = memContextStack[memContextMaxStackIdx].memContext;
+            memContextMaxStackIdx--;
+
             if (!fatal)
-                memContextFree(memContextStack[memContextMaxStackIdx].memContext);
+                memContextFree(memContext);
         }
         // Else find the prior context and make it the current context
         else
@@ -1408,9 +1413,9 @@ memContextClean(const unsigned int tryDepth, const bool fatal)
 
             while (memContextStack[memContextCurrentStackIdx].type == memContextStackTypeNew)
                 memContextCurrentStackIdx--;
-        }
 
-        memContextMaxStackIdx--;
+            memContextMaxStackIdx--;
+        }
     }
 
     FUNCTION_TEST_RETURN_VOID();
-- 
2.43.0


From 4cbc7a246b1517498091bf6d7ff018755bc9b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:14 +0000
Subject: [PATCH 07/26] fix: lock acquired on a lock file that its prior owner
 already removed

---
 src/common/lock.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/common/lock.c b/src/common/lock.c
index bc5d83e..41e9fdc 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -7,6 +7,7 @@ Lock Handler
 #include <fcntl.h>
 #include <string.h>
 #include <sys/file.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "common/debug.h"
@@ -238,6 +239,23 @@ lockAcquire(const String *const lockFileName, const LockAcquireParam param)
                     else
                         fd = -1;
                 }
+                // Else make sure the path still refers to the file that was locked. The prior owner of the lock removes the file
+                // before releasing the lock, so the file may have been removed (and perhaps created again and locked by another
+                // process) after it was opened above. In that case the lock excludes nobody so try again.
+                else
+                {
+                    struct stat statFd;
+                    struct stat statPath;
+
+                    if (fstat(fd, &statFd) == 0 &&
+                        (stat(strZ(lockFilePath), &statPath) == -1 ?
+                            errno == ENOENT : statFd.st_ino != statPath.st_ino || statFd.st_dev != statPath.st_dev))
+                    {
+                        close(fd);
+                        fd = -1;
+                        retry = true;
+                    }
+                }
             }
         }
         while (fd == -1 && retry);
-- 
2.43.0


From 96d3c18d03636a01df392a59cd052f238b842004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:36 +0000
Subject: [PATCH 08/26] fix: use after free when a remote session errors while
 being freed

---
 src/protocol/client.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/protocol/client.c b/src/protocol/client.c
index 23e9d13..7614b00 100644
--- a/src/protocol/client.c
+++ b/src/protocol/client.c
@@ -475,29 +475,35 @@ protocolClientSessionFreeResource(THIS_VOID)
 
     ASSERT(this != NULL);
 
-    // If a result is queued then read it before sending cancel
-    if (protocolClientSessionQueued(this))
+    TRY_BEGIN()
     {
-        // Free stored result
-        if (this->stored)
+        // If a result is queued then read it before sending cancel
+        if (protocolClientSessionQueued(this))
         {
-            pckReadFree(this->packRead);
+            // Free stored result
+            if (this->stored)
+            {
+                pckReadFree(this->packRead);
+            }
+            // Else read and free result
+            else
+                pckReadFree(protocolClientResponseInternal(this));
         }
-        // Else read and free result
-        else
-            pckReadFree(protocolClientResponseInternal(this));
-    }
 
-    // If open then cancel
-    if (this->pub.open)
+        // If open then cancel
+        if (this->pub.open)
+        {
+            protocolClientRequestInternal(this, protocolCommandTypeCancel, NULL);
+            protocolClientResponseInternal(this);
+            ASSERT(!this->pub.open);
+        }
+    }
+    // Remove from session list even if there is an error since the session will be freed in any case
+    FINALLY()
     {
-        protocolClientRequestInternal(this, protocolCommandTypeCancel, NULL);
-        protocolClientResponseInternal(this);
-        ASSERT(!this->pub.open);
+        lstRemoveIdx(this->client->sessionList, protocolClientSessionFindIdx(this->client, this->sessionId));
     }
-
-    // Remove from session list
-    lstRemoveIdx(this->client->sessionList, protocolClientSessionFindIdx(this->client, this->sessionId));
+    TRY_END();
 
     FUNCTION_LOG_RETURN_VOID();
 }
-- 
2.43.0


From 52ce1ad54db711a67a77f04f9a1d7f018de15f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:19 +0000
Subject: [PATCH 09/26] fix: history manifests of other repositories were
 listed from the default repository during expire

---
 src/command/expire/expire.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index eb78104..e6232e5 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -957,7 +957,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
             // Get all history years
             const StringList *const historyYearList = strLstSort(
                 storageListP(
-                    storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY), .expression = STRDEF("^2[0-9]{3}$")),
+                    storageRepoIdx(repoIdx), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY),
+                    .expression = STRDEF("^2[0-9]{3}$")),
                 sortOrderAsc);
 
             for (unsigned int historyYearIdx = 0; historyYearIdx < strLstSize(historyYearList); historyYearIdx++)
@@ -984,7 +985,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-                            storageRepo(), strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
+                            storageRepoIdx(repoIdx),
+                            strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
                             .expression = strNewFmt(
                                 "%s\\.manifest\\.%s$",
                                 strZ(backupRegExpP(.full = true, .differential = true, .incremental = true, .noAnchorEnd = true)),
-- 
2.43.0


From 566a09ba43c319356c949702b507741142949092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:04 +0000
Subject: [PATCH 10/26] fix: backup history of unexpired backups removed with
 an expired year during expire

---
 src/command/expire/expire.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index e6232e5..ad4f9bd 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -965,9 +965,17 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
             {
                 // Get all the backup history manifests
                 const String *const historyYear = strLstGet(historyYearList, historyYearIdx);
+                const int historyYearCmp = strCmp(historyYear, strSubN(minBackupLabel, 0, 4));
 
-                // If the entire year is less than the year of the minimum backup to retain, then remove completely the directory
-                if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) < 0)
+                // The history of unexpired backups is always kept so check if there are any for this year
+                bool historyYearCurrent = false;
+
+                for (unsigned int backupIdx = 0; backupIdx < strLstSize(currentBackupList); backupIdx++)
+                    historyYearCurrent |= strBeginsWith(strLstGet(currentBackupList, backupIdx), historyYear);
+
+                // If the entire year is less than the year of the minimum backup to retain and the year does not contain unexpired
+                // backups, then remove completely the directory
+                if (historyYearCmp < 0 && !historyYearCurrent)
                 {
                     LOG_INFO_FMT(
                         "%s: remove expired backup history path %s", cfgOptionGroupName(cfgOptGrpRepo, repoIdx), strZ(historyYear));
@@ -981,7 +989,7 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                     }
                 }
                 // Else find and remove individual files
-                else if (strEq(historyYear, strSubN(minBackupLabel, 0, 4)))
+                else if (historyYearCmp <= 0)
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-- 
2.43.0


From 6bdae0ac7586a4ac8f526fe9eb8573aaf5b7dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:09 +0000
Subject: [PATCH 11/26] fix: file truncated to zero during block incremental
 backup stored an unreadable block map

---
 src/command/backup/file.c.inc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/command/backup/file.c.inc b/src/command/backup/file.c.inc
index 7a2caf4..6bcfed1 100644
--- a/src/command/backup/file.c.inc
+++ b/src/command/backup/file.c.inc
@@ -430,8 +430,10 @@ backupFile(
                                 ioFilterGroupResultP(ioReadFilterGroup(readIo), SIZE_FILTER_TYPE, .idx = 0));
 
                             // If file is zero-length then it was truncated during the backup. When bundling we can simply mark it
-                            // as truncated since no file needs to be stored.
-                            if (bundleId != 0 && fileResult->copySize == 0)
+                            // as truncated since no file needs to be stored. The same is true for block incremental (which requires
+                            // bundling) even if the file is too large to be bundled. An empty block map must not be stored since it
+                            // cannot be read by a subsequent backup.
+                            if ((bundleId != 0 || file->blockIncrSize != 0) && fileResult->copySize == 0)
                             {
                                 fileResult->backupCopyResult = backupCopyResultTruncate;
                                 fileResult->copyChecksum = HASH_TYPE_SHA1_ZERO_BUF;
-- 
2.43.0


From c43fa25bed444733a9ccb2866c656579ee948626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:27 +0000
Subject: [PATCH 12/26] fix: remove files that cannot be resumed when
 bundle/block options have changed.

A full backup interrupted without bundling (or with a smaller bundle limit) could not be resumed after bundling was enabled: the
files found in the partial backup were marked for resume but are looked up in the new bundle, which does not exist yet, so every
retry failed with a missing file. The same happened to block incremental files when block incremental was disabled.
---
 src/command/backup/resume.c.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/command/backup/resume.c.inc b/src/command/backup/resume.c.inc
index 520d870..a335e57 100644
--- a/src/command/backup/resume.c.inc
+++ b/src/command/backup/resume.c.inc
@@ -108,6 +108,12 @@ backupResumeClean(
                             else if (file.size == 0)
                                 // ??? don't resume zero size files because Perl wouldn't -- can be removed after the migration)
                                 removeReason = "zero size";
+                            // A file that will be stored in a bundle cannot be resumed from a file that is not in a bundle
+                            else if (cfgOptionBool(cfgOptRepoBundle) && file.size <= cfgOptionUInt64(cfgOptRepoBundleLimit))
+                                removeReason = "file will be bundled";
+                            // A block incremental file cannot be resumed when block incremental is disabled
+                            else if (blockIncr && !cfgOptionBool(cfgOptRepoBlock))
+                                removeReason = "block incremental is disabled";
                             else
                             {
                                 ASSERT(file.copy);
-- 
2.43.0


From 84a7e6bca71418b28343d7de3198c631c43acea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:54 +0000
Subject: [PATCH 13/26] fix: load copy of info/manifest file when the
 PostgreSQL version in the main file is damaged.

pgVersionFromStr() throws an assertion when the format of the version is invalid. Assertions are fatal so they are not caught when
loading an info file or manifest, i.e. the intact copy was never tried.
---
 src/info/infoPg.c                 |  7 +++++--
 src/info/manifest/serialize.c.inc |  8 +++++++-
 src/postgres/interface.c          | 15 +++++++++++++--
 src/postgres/interface.h          |  3 +++
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/info/infoPg.c b/src/info/infoPg.c
index 1ff542b..a6fe859 100644
--- a/src/info/infoPg.c
+++ b/src/info/infoPg.c
@@ -141,8 +141,11 @@ infoPgLoadCallback(void *const data, const String *const section, const String *
         infoPgData.systemId = jsonReadUInt64(
             jsonReadKeyRequireZ(json, loadData->infoPg->type == infoPgArchive ? INFO_KEY_DB_ID : INFO_KEY_DB_SYSTEM_ID));
 
-        // PostgreSQL version
-        infoPgData.version = pgVersionFromStr(jsonReadStr(jsonReadKeyRequireZ(json, INFO_KEY_DB_VERSION)));
+        // PostgreSQL version. An invalid format means the file is damaged, which must not be fatal so the copy can be loaded.
+        const String *const version = jsonReadStr(jsonReadKeyRequireZ(json, INFO_KEY_DB_VERSION));
+
+        CHECK(FormatError, pgVersionFormatValid(version), "version format is invalid");
+        infoPgData.version = pgVersionFromStr(version);
 
         // Insert at beginning of list so the history is reverse ordered
         lstInsert(loadData->infoPg->pub.history, 0, &infoPgData);
diff --git a/src/info/manifest/serialize.c.inc b/src/info/manifest/serialize.c.inc
index 64bf889..d4b5608 100644
--- a/src/info/manifest/serialize.c.inc
+++ b/src/info/manifest/serialize.c.inc
@@ -502,7 +502,13 @@ manifestLoadCallback(void *const callbackData, const String *const section, cons
         else if (strEqZ(key, MANIFEST_KEY_DB_CATALOG_VERSION))
             manifest->pub.data.pgCatalogVersion = jsonReadUInt(json);
         else if (strEqZ(key, MANIFEST_KEY_DB_VERSION))
-            manifest->pub.data.pgVersion = pgVersionFromStr(jsonReadStr(json));
+        {
+            // An invalid format means the file is damaged, which must not be fatal so the copy can be loaded
+            const String *const version = jsonReadStr(json);
+
+            CHECK(FormatError, pgVersionFormatValid(version), "version format is invalid");
+            manifest->pub.data.pgVersion = pgVersionFromStr(version);
+        }
     }
     // -----------------------------------------------------------------------------------------------------------------------------
     else if (strEqZ(section, MANIFEST_SECTION_BACKUP_OPTION))
diff --git a/src/postgres/interface.c b/src/postgres/interface.c
index 5b402e8..971af8e 100644
--- a/src/postgres/interface.c
+++ b/src/postgres/interface.c
@@ -731,6 +731,18 @@ pgXactPath(const unsigned int pgVersion)
     FUNCTION_TEST_RETURN_CONST(STRING, pgVersion >= PG_VERSION_WAL_RENAME ? PG_PATH_PGXACT_STR : PG_PATH_PGCLOG_STR);
 }
 
+/**********************************************************************************************************************************/
+FN_EXTERN bool
+pgVersionFormatValid(const String *const version)
+{
+    FUNCTION_TEST_BEGIN();
+        FUNCTION_TEST_PARAM(STRING, version);
+    FUNCTION_TEST_END();
+
+    // Format must be number.number (9.6) or number only (10). No check for valid/supported PG version is on purpose.
+    FUNCTION_TEST_RETURN(BOOL, version != NULL && regExpMatchOne(STRDEF("^[0-9]+[.]*[0-9]+$"), version));
+}
+
 /**********************************************************************************************************************************/
 FN_EXTERN unsigned int
 pgVersionFromStr(const String *const version)
@@ -741,8 +753,7 @@ pgVersionFromStr(const String *const version)
 
     ASSERT(version != NULL);
 
-    // If format not number.number (9.6) or number only (10) then error. No check for valid/supported PG version is on purpose.
-    if (!regExpMatchOne(STRDEF("^[0-9]+[.]*[0-9]+$"), version))
+    if (!pgVersionFormatValid(version))
         THROW_FMT(AssertError, "version %s format is invalid", strZ(version));
 
     // If there is no dot then only the major version is needed
diff --git a/src/postgres/interface.h b/src/postgres/interface.h
index 9ec94b1..11785d2 100644
--- a/src/postgres/interface.h
+++ b/src/postgres/interface.h
@@ -141,6 +141,9 @@ FN_EXTERN void pgControlCheckpointInvalidate(Buffer *buffer, const String *pgVer
 // Get the control version for a PostgreSQL version
 FN_EXTERN uint32_t pgControlVersion(unsigned int pgVersion);
 
+// Is the version string in a valid format, i.e. can it be converted to a version number?
+FN_EXTERN bool pgVersionFormatValid(const String *version);
+
 // Convert version string to version number and vice versa
 FN_EXTERN unsigned int pgVersionFromStr(const String *version);
 FN_EXTERN String *pgVersionToStr(unsigned int version);
-- 
2.43.0


From 8149a39d0a917aa9aa49c284cd4960c505122ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 14/26] fix: do not hardlink files that the prior backup stored
 in a bundle or as block incremental.

When hardlinking was enabled for a diff/incr backup based on a bundled backup the backup failed because there is no separate file to
link. Reference these files, as is done when hardlinking is not enabled.
---
 src/command/backup/process.c.inc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/command/backup/process.c.inc b/src/command/backup/process.c.inc
index 58b2510..a3f3f7b 100644
--- a/src/command/backup/process.c.inc
+++ b/src/command/backup/process.c.inc
@@ -958,16 +958,20 @@ backupProcess(const BackupData *const backupData, Manifest *const manifest, cons
             // if hardlinking is enabled the link will need to be created.
             if (file.reference != NULL)
             {
-                // If hardlinking is enabled then create a hardlink for files that have not changed since the last backup
-                if (hardLink)
+                const String *const linkDestination = storagePathP(
+                    storageRepo(),
+                    strNewFmt(STORAGE_REPO_BACKUP "/%s/%s%s", strZ(file.reference), strZ(file.name), compressExt));
+
+                // If hardlinking is enabled then create a hardlink for files that have not changed since the last backup. There is
+                // nothing to link when the prior backup stored the file in a bundle, as a block incremental, or did not store it
+                // because it is zero-length.
+                if (hardLink && file.bundleId == 0 && file.blockIncrMapSize == 0 &&
+                    (file.size != 0 || storageExistsP(storageRepo(), linkDestination)))
                 {
                     LOG_DETAIL_FMT("hardlink %s to %s", strZ(file.name), strZ(file.reference));
 
                     const String *const linkName = storagePathP(
                         storageRepo(), strNewFmt("%s/%s%s", strZ(backupPathExp), strZ(file.name), compressExt));
-                    const String *const linkDestination = storagePathP(
-                        storageRepo(),
-                        strNewFmt(STORAGE_REPO_BACKUP "/%s/%s%s", strZ(file.reference), strZ(file.name), compressExt));
 
                     storageLinkCreateP(storageRepoWrite(), linkDestination, linkName, .linkType = storageLinkHard);
                 }
-- 
2.43.0


From 353875fafa12c7b65eb848952d58bec06db2d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 15/26] fix: estimate the archive-push queue size from a WAL
 segment

The queue size was estimated from the size of the first ready file times the number of ready files. When that file was not a
segment, e.g. a backup history file, the queue was never considered to exceed archive-push-queue-max.
---
 src/command/archive/push/push.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/command/archive/push/push.c b/src/command/archive/push/push.c
index 67f8a88..b196026 100644
--- a/src/command/archive/push/push.c
+++ b/src/command/archive/push/push.c
@@ -77,10 +77,18 @@ archivePushDrop(const String *const walPath, const StringList *const processList
 
     MEM_CONTEXT_TEMP_BEGIN()
     {
-        if (!strLstEmpty(processList))
+        // Estimate the queue size from the size of the first WAL segment. Do not use other files that might be ready, e.g. backup
+        // history, since they are far smaller than a segment and the queue would never be considered large enough to drop.
+        for (unsigned int processIdx = 0; processIdx < strLstSize(processList); processIdx++)
         {
-            queueSize = storageInfoP(
-                storagePg(), strNewFmt("%s/%s", strZ(walPath), strZ(strLstGet(processList, 0)))).size * strLstSize(processList);
+            const String *const walFile = strLstGet(processList, processIdx);
+
+            if (walIsSegment(walFile))
+            {
+                queueSize = storageInfoP(
+                    storagePg(), strNewFmt("%s/%s", strZ(walPath), strZ(walFile))).size * strLstSize(processList);
+                break;
+            }
         }
     }
     MEM_CONTEXT_TEMP_END();
-- 
2.43.0


From 9a5ec8f729e1e909eb6d3f66cb257f289ff2ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 16/26] fix: restore must not preserve a file that could not be
 synced

When the sync of a file failed during a delta restore the job was retried, and the retry found the expected checksum in the page
cache and preserved the file. The kernel may have dropped the contents, so the restore reported success for a file that was not
durable. Truncate the file when it cannot be synced so it is copied again.
---
 src/command/restore/file.c.inc | 55 +++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/command/restore/file.c.inc b/src/command/restore/file.c.inc
index fd98327..7cafb2d 100644
--- a/src/command/restore/file.c.inc
+++ b/src/command/restore/file.c.inc
@@ -27,6 +27,40 @@ typedef struct RestoreFileResult
     uint64_t blockIncrDeltaSize;                                    // Size restored by block incremental delta
 } RestoreFileResult;
 
+/***********************************************************************************************************************************
+Close a pg file. If the file cannot be synced then truncate it since the kernel may drop contents that could not be written and yet
+still return them from cache. Leaving the contents would allow a retry (or later restore) to preserve the file based on the cache.
+***********************************************************************************************************************************/
+static void
+restoreFileClose(StorageWrite *const pgFileWrite, const String *const name)
+{
+    FUNCTION_TEST_BEGIN();
+        FUNCTION_TEST_PARAM(STORAGE_WRITE, pgFileWrite);
+        FUNCTION_TEST_PARAM(STRING, name);
+    FUNCTION_TEST_END();
+
+    ASSERT(pgFileWrite != NULL);
+    ASSERT(name != NULL);
+
+    TRY_BEGIN()
+    {
+        ioWriteClose(storageWriteIo(pgFileWrite));
+    }
+    CATCH(FileSyncError)
+    {
+        StorageWrite *const pgFileTruncate = storageNewWriteP(
+            storagePgWrite(), name, .noAtomic = true, .noCreatePath = true, .noSyncPath = true);
+
+        ioWriteOpen(storageWriteIo(pgFileTruncate));
+        ioWriteClose(storageWriteIo(pgFileTruncate));
+
+        RETHROW();
+    }
+    TRY_END();
+
+    FUNCTION_TEST_RETURN_VOID();
+}
+
 static List *
 restoreFile(
     const String *const repoFile, const unsigned int repoIdx, const CompressType repoFileCompressType, const time_t copyTimeBegin,
@@ -102,19 +136,18 @@ restoreFile(
                                 if (info.size > file->size)
                                 {
                                     // Open file for write
-                                    IoWrite *const pgWriteTruncate = storageWriteIo(
-                                        storageNewWriteP(
-                                            storagePgWrite(), file->name, .noAtomic = true, .noCreatePath = true,
-                                            .noSyncPath = true, .noTruncate = true));
-                                    ioWriteOpen(pgWriteTruncate);
+                                    StorageWrite *const pgWriteTruncate = storageNewWriteP(
+                                        storagePgWrite(), file->name, .noAtomic = true, .noCreatePath = true,
+                                        .noSyncPath = true, .noTruncate = true);
+                                    ioWriteOpen(storageWriteIo(pgWriteTruncate));
 
                                     // Truncate to original size
                                     THROW_ON_SYS_ERROR_FMT(
-                                        ftruncate(ioWriteFd(pgWriteTruncate), (off_t)file->size) == -1, FileWriteError,
-                                        "unable to truncate file '%s'", fileName);
+                                        ftruncate(ioWriteFd(storageWriteIo(pgWriteTruncate)), (off_t)file->size) == -1,
+                                        FileWriteError, "unable to truncate file '%s'", fileName);
 
                                     // Close file
-                                    ioWriteClose(pgWriteTruncate);
+                                    restoreFileClose(pgWriteTruncate, file->name);
 
                                     // Update info
                                     info = storageInfoP(storagePg(), file->name, .followLink = true);
@@ -210,7 +243,7 @@ restoreFile(
                             "unable to truncate '%s'", strZ(file->name));
                     }
 
-                    ioWriteClose(storageWriteIo(pgFileWrite));
+                    restoreFileClose(pgFileWrite, file->name);
 
                     // Report the file as zeroed or zero-length
                     fileResult->result = restoreResultZero;
@@ -316,7 +349,7 @@ restoreFile(
                         }
 
                         // Close the file to complete the update
-                        ioWriteClose(storageWriteIo(pgFileWrite));
+                        restoreFileClose(pgFileWrite, file->name);
 
                         // Calculate checksum. In theory this is not needed because the file should always be reconstructed
                         // correctly. However, it seems better to check and the pages should still be buffered making the operation
@@ -352,7 +385,7 @@ restoreFile(
                         // Copy file
                         ioWriteOpen(storageWriteIo(pgFileWrite));
                         ioCopyP(storageReadMultiIo(repoFileRead), storageWriteIo(pgFileWrite), .limit = file->limit);
-                        ioWriteClose(storageWriteIo(pgFileWrite));
+                        restoreFileClose(pgFileWrite, file->name);
 
                         // Get checksum result
                         checksum = pckReadBinP(ioFilterGroupResultP(filterGroup, CRYPTO_HASH_FILTER_TYPE));
-- 
2.43.0


From 74aa6e1cc3ba25df72a349d6f393b24372cd8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:45 +0000
Subject: [PATCH 17/26] fix: require --repo for stanza-delete only in the main
 process

---
 src/config/load.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config/load.c b/src/config/load.c
index 667351c..cc8bf01 100644
--- a/src/config/load.c
+++ b/src/config/load.c
@@ -82,8 +82,9 @@ cfgLoadUpdateOption(void)
     FUNCTION_AUDIT_HELPER();
 
     // Make sure the repo option is set for the stanza-delete command when more than one repo is configured or the first configured
-    // repo is not key 1.
-    if (!cfgCommandHelp() && cfgOptionValid(cfgOptRepo) && cfgCommand() == cfgCmdStanzaDelete &&
+    // repo is not key 1. This only applies to the main role since the option is not passed to a remote on a pg host, which does not
+    // operate on a repository.
+    if (!cfgCommandHelp() && cfgOptionValid(cfgOptRepo) && cfgCommand() == cfgCmdStanzaDelete && cfgCommandRole() == cfgCmdRoleMain &&
         !cfgOptionTest(cfgOptRepo) && (cfgOptionGroupIdxTotal(cfgOptGrpRepo) > 1 || cfgOptionGroupIdxToKey(cfgOptGrpRepo, 0) != 1))
     {
         THROW_FMT(
-- 
2.43.0


From b3581bd2a73b1a75476982137b17c0d79a33ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:01 +0000
Subject: [PATCH 18/26] fix: stop --force must not terminate processes of other
 stanzas

---
 src/command/control/stop.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/command/control/stop.c b/src/command/control/stop.c
index e720d9b..eb959a2 100644
--- a/src/command/control/stop.c
+++ b/src/command/control/stop.c
@@ -14,6 +14,7 @@ Stop Command
 #include "command/control/stop.h"
 #include "common/debug.h"
 #include "common/lock.h"
+#include "common/regExp.h"
 #include "common/type/convert.h"
 #include "config/config.h"
 #include "storage/helper.h"
@@ -57,9 +58,18 @@ cmdStop(void)
                 {
                     const String *const lockFile = strLstGet(lockPathFileList, lockPathFileIdx);
 
-                    // Skip any file that is not a lock file. Skip lock files for other stanzas if a stanza is provided.
-                    if (!strEndsWithZ(lockFile, LOCK_FILE_EXT) || (stanzaPrefix != NULL && !strBeginsWith(lockFile, stanzaPrefix)))
+                    // Skip any file that is not a lock file. Skip lock files for other stanzas if a stanza is provided. A lock file
+                    // may belong to another stanza even if it begins with the prefix, e.g. stanza db-archive when the prefix is db-,
+                    // so make sure only the lock type and repo follow the prefix.
+                    if (!strEndsWithZ(lockFile, LOCK_FILE_EXT) ||
+                        (stanzaPrefix != NULL &&
+                         (!strBeginsWith(lockFile, stanzaPrefix) ||
+                          !regExpMatchOne(
+                              STRDEF("^(archive|backup|restore)(-[0-9]+){0,1}\\" LOCK_FILE_EXT "$"),
+                              strSub(lockFile, strSize(stanzaPrefix))))))
+                    {
                         continue;
+                    }
 
                     // Read the lock file
                     const LockReadResult lockResult = lockReadP(lockFile, .remove = true);
-- 
2.43.0


From d24b2e5fc99e413e3e2d5d9f2e0ac24d64489ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:11 +0000
Subject: [PATCH 19/26] fix: never leave a lock file empty while it is updated

---
 src/common/lock.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/lock.c b/src/common/lock.c
index 41e9fdc..2893b18 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -419,17 +419,23 @@ lockWrite(const String *const lockFileName, const LockWriteParam param)
             // Seek to beginning of lock file
             THROW_ON_SYS_ERROR_FMT(
                 lseek(lockFile->fd, 0, SEEK_SET) == -1, FileOpenError, STORAGE_ERROR_READ_SEEK, (uint64_t)0, strZ(lockFilePath));
-
-            // In case the current write is shorter than before
-            THROW_ON_SYS_ERROR_FMT(ftruncate(lockFile->fd, 0) == -1, FileWriteError, "unable to truncate '%s'", strZ(lockFilePath));
         }
 
         // Write lock file data
+        const String *const data = jsonWriteResult(json);
         IoWrite *const write = ioFdWriteNewOpen(lockFilePath, lockFile->fd, 0);
 
-        ioCopyP(ioBufferReadNewOpen(BUFSTR(jsonWriteResult(json))), write);
+        ioCopyP(ioBufferReadNewOpen(BUFSTR(data)), write);
         ioWriteClose(write);
 
+        // In case the current write is shorter than before. Do this after the write so another process reading the file, e.g. the
+        // stop command, never finds it empty.
+        if (lockFile->written)
+        {
+            THROW_ON_SYS_ERROR_FMT(
+                ftruncate(lockFile->fd, (off_t)strSize(data)) == -1, FileWriteError, "unable to truncate '%s'", strZ(lockFilePath));
+        }
+
         lockFile->written = true;
     }
     MEM_CONTEXT_TEMP_END();
-- 
2.43.0


From ce7a56a04d27c0a2ff27be5b6027cd5f330a1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:09 +0000
Subject: [PATCH 20/26] fix: check for stop in a remote after the lock has been
 acquired

---
 src/command/remote/remote.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/command/remote/remote.c b/src/command/remote/remote.c
index 5a8ab64..d244a7c 100644
--- a/src/command/remote/remote.c
+++ b/src/command/remote/remote.c
@@ -79,11 +79,12 @@ cmdRemote(ProtocolServer *const server)
                 // Acquire a lock if this command requires a lock
                 if (cfgLockRemoteRequired())
                 {
-                    // Make sure the local host is not stopped
-                    lockStopTest();
-
                     // Acquire the lock
                     cmdLockAcquireP();
+
+                    // Make sure the local host is not stopped. This must be done with the lock held, as in the main process, because
+                    // the stop command creates the stop file and then terminates the processes that hold a lock.
+                    lockStopTest();
                 }
             }
 
-- 
2.43.0


From 9242056572bd2c5fb6e52ed7b285148c53c75f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:07 +0000
Subject: [PATCH 21/26] fix: search the history of the full backup set's year
 when creating a diff/incr label

History manifests are stored by the year of the full backup. The label of a new
diff/incr backup was only compared with the newest year, so a label used by a
removed backup of an older set could be used again after the clock moved back.
---
 src/command/backup/label.c.inc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/command/backup/label.c.inc b/src/command/backup/label.c.inc
index 0d4b4c0..ccd0383 100644
--- a/src/command/backup/label.c.inc
+++ b/src/command/backup/label.c.inc
@@ -38,9 +38,13 @@ backupLabelCreate(const BackupType type, const String *const backupLabelPrior, c
         if (!strLstEmpty(backupList))
             backupLabelLatest = strLstGet(backupList, 0);
 
-        // Get the newest history
+        // Get the newest history. History is stored by the year of the full backup so for other backup types the year must be that
+        // of the full backup set, which might not be the newest year.
         const StringList *const historyYearList = strLstSort(
-            storageListP(storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY), .expression = STRDEF("^2[0-9]{3}$")),
+            storageListP(
+                storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY),
+                .expression =
+                    type == backupTypeFull ? STRDEF("^2[0-9]{3}$") : strNewFmt("^%s$", strZ(strSubN(backupLabelPrior, 0, 4)))),
             sortOrderDesc);
 
         if (!strLstEmpty(historyYearList))
-- 
2.43.0


From 4aa13d0c5ab4dcee0c2318bd1a6de8b91ecfa16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 22/26] fix: check every file link against all others in the
 same path

A file link into a path that already had a file link was only compared with the first one and never recorded, so a third link to the
file of the second was accepted and two links were restored onto one file.
---
 src/info/manifest/link.c.inc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/info/manifest/link.c.inc b/src/info/manifest/link.c.inc
index e82d833..6f3d7de 100644
--- a/src/info/manifest/link.c.inc
+++ b/src/info/manifest/link.c.inc
@@ -86,16 +86,28 @@ manifestLinkCheckOne(const Manifest *const this, ManifestLinkCheck *const linkCh
                 // If both links are files make sure they don't link to the same file
                 if (target1->file != NULL && link->file != NULL)
                 {
-                    if (strEq(target1->file, link->file))
+                    // Check all the file links in the path since any number of files may be linked in the same path
+                    for (unsigned int linkIdx = 0; linkIdx < lstSize(linkCheck->linkList); linkIdx++)
                     {
-                        const ManifestTarget *const target2 = manifestTarget(this, link->targetIdx);
+                        const ManifestLinkCheckItem *const fileLink = lstGet(linkCheck->linkList, linkIdx);
 
-                        THROW_FMT(
-                            LinkDestinationError,
-                            "link '%s' (%s/%s) destination is the same file as link '%s' (%s/%s)",
-                            strZ(manifestPathPg(target1->name)), strZ(manifestTargetPath(this, target1)), strZ(target1->file),
-                            strZ(manifestPathPg(target2->name)), strZ(manifestTargetPath(this, target2)), strZ(target2->file));
+                        if (fileLink->file != NULL && strEq(fileLink->path, path) && strEq(fileLink->file, target1->file))
+                        {
+                            const ManifestTarget *const target2 = manifestTarget(this, fileLink->targetIdx);
+
+                            THROW_FMT(
+                                LinkDestinationError,
+                                "link '%s' (%s/%s) destination is the same file as link '%s' (%s/%s)",
+                                strZ(manifestPathPg(target1->name)), strZ(manifestTargetPath(this, target1)), strZ(target1->file),
+                                strZ(manifestPathPg(target2->name)), strZ(manifestTargetPath(this, target2)), strZ(target2->file));
+                        }
                     }
+
+                    // Add the file link so that later file links are checked against it
+                    lstAdd(
+                        linkCheck->linkList,
+                        &(ManifestLinkCheckItem){.path = path, .file = target1->file, .targetIdx = targetIdx});
+                    lstSort(linkCheck->linkList, sortOrderAsc);
                 }
                 // Else error because one of the links is a path and cannot link to the same path as another file/path link
                 else
-- 
2.43.0


From e5f7f6fef365cacc3f58998bf48ec8ff9adf29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:38 +0000
Subject: [PATCH 23/26] fix: compare files modified since the start of a prior
 backup made from a standby

Timestamps have a resolution of one second and come from the primary. When a file is modified again in the same second after it was copied from the standby the timestamp and size are equal in the next diff/incr so the change was silently missed.
---
 src/info/manifest/manifest.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/info/manifest/manifest.c b/src/info/manifest/manifest.c
index d3759f5..b9dcf2e 100644
--- a/src/info/manifest/manifest.c
+++ b/src/info/manifest/manifest.c
@@ -479,6 +479,8 @@ manifestBuildIncr(
 
         // Find files to (possibly) reference in the prior manifest
         const bool delta = varBool(this->pub.data.backupOptionDelta);
+        const bool priorStandby =
+            manifestPrior->pub.data.backupOptionStandby != NULL && varBool(manifestPrior->pub.data.backupOptionStandby);
 
         for (unsigned int fileIdx = 0; fileIdx < lstSize(this->pub.fileList); fileIdx++)
         {
@@ -519,7 +521,15 @@ manifestBuildIncr(
 
                 // If delta is disabled and size/timestamp are equal then the file is not copied
                 if (!file.delta && fileSizeEqual && file.timestamp == filePrior.timestamp)
-                    file.copy = false;
+                {
+                    // However, timestamps have a resolution of one second and come from the primary, so if the prior backup was
+                    // made from a standby then a file modified since that backup started may have been modified again in the same
+                    // second without the change having reached the standby when the file was copied. Perform a delta in this case.
+                    if (priorStandby && file.size != 0 && file.timestamp >= manifestPrior->pub.data.backupTimestampStart)
+                        file.delta = true;
+                    else
+                        file.copy = false;
+                }
 
                 ASSERT(file.copy || !file.delta);
                 ASSERT(file.copy || fileSizeEqual);
-- 
2.43.0


From 2e23e768408773e5bcfb897fad3c8724376eb8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:33 +0000
Subject: [PATCH 24/26] fix: error when the standby is not a standby of the
 primary

If a PostgreSQL cluster in recovery that belongs to another cluster was configured then the files copied from it were silently mixed with the files of the primary.
---
 src/command/backup/backup.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/command/backup/backup.c b/src/command/backup/backup.c
index e3170c5..86fd67b 100644
--- a/src/command/backup/backup.c
+++ b/src/command/backup/backup.c
@@ -118,6 +118,19 @@ backupInit(const InfoBackup *const infoBackup)
 
         // Get pg_control info from the primary
         pgControl = dbPgControl(result->dbPrimary);
+
+        // Error if the standby is not a standby of the primary since the files of two clusters would be mixed in the backup
+        if (result->dbStandby != NULL &&
+            (dbPgControl(result->dbStandby).version != pgControl.version ||
+             dbPgControl(result->dbStandby).systemId != pgControl.systemId))
+        {
+            THROW_FMT(
+                BackupMismatchError,
+                "standby version %s, system-id %" PRIu64 " do not match primary version %s, system-id %" PRIu64 "\n"
+                "HINT: is the standby configured for this stanza a standby of the primary?",
+                strZ(pgVersionToStr(dbPgControl(result->dbStandby).version)), dbPgControl(result->dbStandby).systemId,
+                strZ(pgVersionToStr(pgControl.version)), pgControl.systemId);
+        }
     }
     // Else get pg_control info directly from the file
     else
-- 
2.43.0


From eab96cb31ba290e631ef173571e7e2b23bd4d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:18 +0000
Subject: [PATCH 25/26] fix: relation not backed up when its number is that of
 an unlogged relation in the previous path

Whether a relation is unlogged was remembered by relation file id alone. When the last relation of a path was unlogged and the
first relation of the next path (another database or tablespace) had the same file id, it was also considered to be unlogged and
silently left out of the backup. Remember the path as well.
---
 src/info/manifest/manifest.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/info/manifest/manifest.c b/src/info/manifest/manifest.c
index b9dcf2e..46fadfe 100644
--- a/src/info/manifest/manifest.c
+++ b/src/info/manifest/manifest.c
@@ -233,6 +233,7 @@ manifestNewBuild(
             RegExp *relationExp = regExpNew(strNewFmt("^" DB_PATH_EXP "/" RELATION_EXP "$", strZ(buildData.tablespaceId)));
             unsigned int fileIdx = 0;
             char lastRelationFileId[21] = "";                   // Large enough for a 64-bit unsigned integer
+            String *const lastRelationPath = strNew();          // Relation file ids are only unique within a path
             bool lastRelationFileIdUnlogged = false;
 
 #ifdef DEBUG_MEM
@@ -269,16 +270,20 @@ manifestNewBuild(
                     ASSERT(relationFileId[0] != '\0');
 
                     // Store the last relation so it does not need to be found every time
-                    if (strcmp(lastRelationFileId, relationFileId) != 0)
+                    const size_t relationPathSize = strSize(filePathName) - fileNameSize;
+
+                    if (strcmp(lastRelationFileId, relationFileId) != 0 || strSize(lastRelationPath) != relationPathSize ||
+                        strncmp(strZ(lastRelationPath), strZ(filePathName), relationPathSize) != 0)
                     {
                         // Determine if the relation is unlogged
                         String *const relationInit = strNewFmt(
-                            "%.*s%s_init", (int)(strSize(filePathName) - fileNameSize), strZ(filePathName), relationFileId);
+                            "%.*s%s_init", (int)relationPathSize, strZ(filePathName), relationFileId);
                         lastRelationFileIdUnlogged = manifestFileExists(this, relationInit);
                         strFree(relationInit);
 
-                        // Save the file id so we don't need to do the lookup next time if it doesn't change
+                        // Save the file id and path so we don't need to do the lookup next time if it doesn't change
                         memcpy(lastRelationFileId, relationFileId, nameIdx + 1);
+                        strCatZN(strTrunc(lastRelationPath), strZ(filePathName), relationPathSize);
                     }
 
                     // If relation is unlogged then remove it
-- 
2.43.0


From ddc28a2659dd5daf41fc6ed963a4e52ac7d3249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 26/26] fix: error when a directory cannot be read completely

readdir() returns NULL at the end of a directory and also on error. Errors were ignored so an I/O error while reading a directory
silently shortened the list, e.g. a backup succeeded without the remaining files of the directory and archive-get reported archived WAL
segments as not found.
---
 src/storage/posix/storage.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/storage/posix/storage.c b/src/storage/posix/storage.c
index b9a535c..d3e913c 100644
--- a/src/storage/posix/storage.c
+++ b/src/storage/posix/storage.c
@@ -187,6 +187,29 @@ storagePosixListEntry(
     FUNCTION_TEST_RETURN_VOID();
 }
 
+// Helper to read the next directory entry. readdir() returns NULL both at the end of the directory and on error so use errno to
+// distinguish them. An incomplete list must never be mistaken for a complete one.
+static const struct dirent *
+storagePosixListRead(DIR *const dir, const String *const path)
+{
+    FUNCTION_TEST_BEGIN();
+        FUNCTION_TEST_PARAM_P(VOID, dir);
+        FUNCTION_TEST_PARAM(STRING, path);
+    FUNCTION_TEST_END();
+
+    ASSERT(dir != NULL);
+    ASSERT(path != NULL);
+
+    errno = 0;
+
+    const struct dirent *const result = readdir(dir);
+
+    if (result == NULL && errno != 0)                                                                               // {vm_covered}
+        THROW_SYS_ERROR_FMT(PathOpenError, STORAGE_ERROR_LIST_INFO, strZ(path));                                    // {vm_covered}
+
+    FUNCTION_TEST_RETURN_TYPE_CONST_P(struct dirent, result);
+}
+
 static StorageList *
 storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel level, const StorageInterfaceListParam param)
 {
@@ -224,7 +247,7 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
             MEM_CONTEXT_TEMP_RESET_BEGIN()
             {
                 // Read the directory entries
-                const struct dirent *dirEntry = readdir(dir);
+                const struct dirent *dirEntry = storagePosixListRead(dir, path);
 
                 while (dirEntry != NULL)
                 {
@@ -250,7 +273,7 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
                     }
 
                     // Get next entry
-                    dirEntry = readdir(dir);
+                    dirEntry = storagePosixListRead(dir, path);
 
                     // Reset the memory context occasionally so we don't use too much memory or slow down processing
                     MEM_CONTEXT_TEMP_RESET(1000);
-- 
2.43.0


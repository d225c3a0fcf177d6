# Further properties (executed by props.py)
PROPS += [
 P("C07", "Expire removes exactly what retention allows and keeps what remains restorable",
   "For every history of backups and every retention configuration, expire (run by itself, with a set or oldest selection, or after a backup) removes exactly the backups that the configured retention says are expired, always keeps at least the newest full backup and every backup that a kept backup depends on, and every backup still listed restores. Interrupted at any point, it leaves a repository where the next commands work and no backup outside retention's choice is lost; a dry run changes nothing; history manifests of unexpired backups are kept.",
   ["histories", "crash_points", "configurations", "fault_sequences"], "all sequences of full, differential and incremental backups over simulated days, all retention options per repository, all crash points and power-loss outcomes during expire",
   "expire is tested on hand-written backup.info files that never existed as backups, and is never interrupted.",
   ["src/command/expire/expire.c", "src/info/infoBackup.c"],
   [("retention by count, by time and by type", "src/command/expire/expire.c"), ("dependents of an expired backup", "src/info/infoBackup.c"), ("reconstruction of backup.info from manifests", "src/info/infoBackup.c")],
   ["info output before and after", "files below backup/ and backup.history/", "exit code of restore"]),
 P("C08", "Archive expiration never removes WAL that a kept backup needs",
   "Whatever the archive retention, type and history (several timelines, several PostgreSQL versions, WAL crossing directory boundaries, archive-expire-before), expire never removes a segment needed to make a kept backup consistent, nor any segment after the start of the oldest backup in archive retention, nor WAL of the current cluster while there is too little retention to decide; segments that retention has made obsolete are removed.",
   ["histories", "configurations", "crash_points", "fault_sequences"], "all histories of backups, WAL, timeline switches and upgrades; all archive retention options; interruptions anywhere",
   "WAL files in the tests are hand-made names without content, and nothing is ever replayed from what is left.",
   ["src/command/expire/expire.c"],
   [("ranges of WAL kept per backup", "src/command/expire/expire.c")],
   ["archive directory before and after", "recovery of every kept backup with archive-get"]),
]

PROPS += [
 P("C10", "A resumed backup is as good as one that was never interrupted",
   "After a full backup is interrupted at any point (error, kill, power loss, full disk) any number of times, and whatever happened meanwhile to the cluster, to the partial files in the repository (truncated, altered, deleted, added) or to the backup options (compression, bundling, block incremental, delta), the next backup succeeds once faults stop, restores to exactly the state a fresh backup would give, and verify finds no error in the repository.",
   ["crash_points", "histories", "fault_sequences", "configurations", "schedules"], "all interruption points and repetitions, all changes to cluster and options between attempts, all damage to partial files",
   "resume is tested with hand-placed files in a partial directory, never with one left by a real interruption.",
   ["src/command/backup/backup.c", "src/command/backup/resume.c.inc", "src/command/backup/file.c.inc", "src/info/manifest/manifest.c"],
   [("choice and cleaning of the partial backup", "src/command/backup/resume.c.inc"), ("checksum of resumed files", "src/command/backup/file.c.inc")],
   ["exit code", "restore and recovery of every listed backup", "output of verify"]),
 P("C11", "Delta restore gives the same cluster as a restore into an empty directory",
   "Restoring a backup with --delta (or --force) over any earlier content of the target directory - another backup, files truncated, grown, altered with or without a new time stamp, deleted, extra files, directories and links, changed modes - gives exactly the content a restore into an empty directory gives, with tablespaces; a directory that is not recognizably a cluster is refused and left unchanged.",
   ["histories", "fault_sequences", "schedules"], "all prior contents of the target, all backups, all schedules of the restore workers",
   "the tests restore over a few hand-made directories.",
   ["src/command/restore/restore.c", "src/command/restore/clean.c.inc", "src/command/restore/file.c.inc", "src/command/restore/blockDelta.c"],
   [("removal of what is not in the manifest", "src/command/restore/clean.c.inc"), ("comparison of existing files and blocks", "src/command/restore/file.c.inc")],
   ["content, mode and owner of every file in the restored directory"]),
 P("C12", "An interrupted restore is never mistaken for a complete cluster",
   "A restore interrupted at any point, by error, kill, full disk or power loss, never leaves a directory with pg_control whose content is not a complete restored (or untouched) cluster; repeating it with --delta completes; a restore that returned success survives a power loss at any later time and recovers.",
   ["crash_points", "fault_sequences", "schedules"], "all interruption points and power-loss outcomes of restores into empty, old and damaged directories",
   "tests never interrupt a restore nor lose power after it.",
   ["src/command/restore/restore.c", "src/command/restore/clean.c.inc", "src/storage/posix/write.c"],
   [("pg_control removed first and restored last", "src/command/restore/restore.c"), ("sync of files and paths", "src/storage/posix/write.c")],
   ["presence of global/pg_control", "restored content and recovery result", "exit code of the repeated restore"]),
 P("C13", "Corruption at rest is never restored silently and verify reports it",
   "If stored backup files or archived WAL segments are altered, truncated, extended, swapped or lost after they were written, a restore that returns success still has exactly the right content, no command crashes or hangs, and verify reports an error whenever a backup can no longer be restored or a segment no longer be fetched; verify reports no error for an undamaged repository.",
   ["fault_sequences", "histories", "configurations"], "all files, all positions and kinds of damage, all repository formats (compression, encryption, bundles, block incremental)",
   "tests corrupt a handful of hand-made files.",
   ["src/command/verify/verify.c", "src/command/verify/file.c", "src/command/restore/file.c.inc"],
   [("checksum of every restored file", "src/command/restore/file.c.inc"), ("verification of backups and WAL", "src/command/verify/verify.c")],
   ["exit code and content of restore", "verify output", "exit code and content of archive-get"]),
 P("C14", "Damage to one copy of an info or manifest file loses nothing",
   "If either the main file or the copy of backup.info, archive.info or a backup manifest is damaged or (for the info files) missing, every command keeps working from the other: all backups stay listed and restorable, WAL is archived and fetched, the next backup and expire succeed, and nothing is lost afterwards.",
   ["fault_sequences", "histories"], "all damage to one of the two copies, for all repository formats",
   "tests damage a copy in fixed ways only and do not run the whole life cycle on it.",
   ["src/info/info.c", "src/info/infoBackup.c", "src/info/infoArchive.c", "src/info/manifest/manifest.c"],
   [("load of the main file or its copy", "src/info/info.c")],
   ["exit codes", "info output", "restored content"]),
]

PROPS += [
 P("C15", "A backup or check that succeeds has its WAL in the repository",
   "When backup returns success (with archive checking on), every WAL segment from its start to its stop is, at that moment, stored in that repository with the right content, and with archive-copy also inside the backup so that a restore puts it in pg_wal; when check returns success, the segment it switched is stored in every repository checked. If archiving is off, is too late, goes to another repository or leaves out one segment, backup and check report failure within a bounded time instead of success; if every segment arrives in time they succeed.",
   ["schedules", "histories", "configurations", "fault_sequences"], "all arrival orders and delays of segments while backup and check run, any one segment missing, any number of segments per backup, all archive options",
   "tests place the WAL files by hand before the command runs; no segment ever arrives, or fails to arrive, while it waits.",
   ["src/command/backup/complete.c.inc", "src/command/backup/backup.c", "src/command/check/check.c", "src/command/archive/find.c", "src/command/archive/common.c"],
   [("wait for and check of every segment of the backup", "src/command/backup/complete.c.inc"), ("search of a segment in the archive", "src/command/archive/find.c")],
   ["exit codes", "archive directory at the moment of return", "content given by archive-get", "pg_wal after restore"]),
 P("C16", "A repository that fails does not take the others with it",
   "With several repositories, while one is unavailable: archive-push does not report success for a segment until every repository has it, yet the healthy repositories still get the oldest waiting segment; info, verify, expire, backup (without archive check) and restore on a healthy repository, and archive-get of segments it holds, succeed with the right content. When the repository is back, archiving catches up everywhere with nothing lost, and backups to it succeed.",
   ["fault_sequences", "schedules", "histories"], "any of two or three repositories failing, wholly or in its archive, before or during any command, with additional faults",
   "tests of multiple repositories do not make one fail while commands run, and never let it return.",
   ["src/command/archive/push/file.c", "src/command/archive/push/push.c", "src/command/archive/get/get.c", "src/command/info/info.c", "src/command/restore/restore.c"],
   [("push to all repositories with errors collected", "src/command/archive/push/file.c"), ("get from the first repository that has the segment", "src/command/archive/get/get.c")],
   ["exit codes", "archive directories of every repository", "restored content"]),
 P("C23", "archive-push-queue-max bounds the queue and drops WAL only beyond it",
   "With archive-push-queue-max set and the archive unavailable, the amount of WAL waiting to be archived returns below the limit within a bounded time whatever else is in the queue (history files, backup history files, several timelines); a segment is reported archived without being stored only with a warning naming it as dropped, only when the queue exceeded the limit, and never without the option. Segments not dropped are archived once the archive returns, and a backup whose WAL was dropped does not report success.",
   ["schedules", "fault_sequences", "histories"], "all outage lengths, WAL rates, queue limits and queue contents, synchronous and asynchronous",
   "the limit is tested with a fixed directory of files and one call.",
   ["src/command/archive/push/push.c"],
   [("estimate of the queue size and drop", "src/command/archive/push/push.c")],
   ["exit codes and warnings of archive-push", "archive_status directory", "archive directory"]),
]

PROPS += [
 P("C17", "An encrypted repository reveals nothing and cannot be used without its passphrase",
   "With repo-cipher-type set, at every moment (also after a kill, error or power loss in any command) no file in that repository - data, bundles, block maps, WAL, history files, backup labels, manifests, manifest history, info files and their temporary files - contains stored content or metadata in clear or merely compressed, no two different files share key stream and salt, and the passphrase appears in no file, argument or output. With a wrong passphrase or the encryption not configured, info, restore, backup, expire, verify, check, archive-get, archive-push and the stanza commands do not succeed in reading or writing it and leave it unchanged; with the right one everything restores.",
   ["configurations", "crash_points", "fault_sequences", "schedules"], "all formats (compression, bundles, block incremental, page checksums), all commands, all interruption points",
   "tests check a few encrypted files by hand; none scans everything a real command left behind.",
   ["src/common/crypto/cipherBlock.c", "src/command/backup/backup.c", "src/command/archive/push/file.c", "src/info/info.c", "src/info/manifest/manifest.c", "src/config/exec.c"],
   [("encrypt filter of every file written", "src/common/crypto/cipherBlock.c"), ("info files and manifests", "src/info/info.c"), ("options passed to subprocesses", "src/config/exec.c")],
   ["bytes of every file in the repository", "arguments and output of every process", "exit codes and repository tree with the wrong passphrase"]),
 P("C19", "stop stops a stanza, only that stanza, until start",
   "Once stop has returned for a stanza (or for all), every backup, expire, archive-push (synchronous or asynchronous), stanza-create and stanza-upgrade of it that is started afterwards on that host, or from another host using that host, is refused with the stop error and changes nothing in the repositories, also after a power loss; info, restore and archive-get keep working. stop --force ends the running processes of that stanza within seconds, and stop never ends, refuses or disturbs those of other stanzas whatever their names; without --force running processes are not ended. start of the same scope (and no other) lifts it: waiting WAL is archived with nothing lost and backups succeed.",
   ["schedules", "histories", "fault_sequences", "configurations"], "all moments of stop and start relative to running commands on one or two hosts, all scopes and stanza names",
   "tests place stop and lock files by hand in one process.",
   ["src/command/control/stop.c", "src/command/control/start.c", "src/command/control/common.c", "src/command/remote/remote.c", "src/common/lock.c", "src/command/archive/push/push.c"],
   [("stop file and termination of lock holders", "src/command/control/stop.c"), ("stop test of remotes", "src/command/remote/remote.c"), ("stop test of commands", "src/command/control/common.c")],
   ["exit codes", "repository trees", "processes alive after stop --force", "state of a second stanza"]),
 P("C20", "stanza-create, stanza-upgrade and stanza-delete are safe to interrupt and repeat and touch only their stanza",
   "Interrupted at any point, stanza-create can be repeated, or is refused without changing anything and works after stop and stanza-delete; a stanza it reported as created has all info files, survives a power loss and can be archived and backed up to at once. It never initializes over existing backups or WAL, never accepts an archive.info without backup.info (or the reverse) or another cluster, and restores a missing copy of an info file. An interrupted stanza-upgrade completes when repeated, refuses the new cluster until then, and keeps all earlier backups and WAL. stanza-delete needs stop of that stanza, and a stopped cluster or --force; interrupted, it completes when repeated, leaving nothing of the stanza in that repository. None of them changes another stanza or another repository.",
   ["crash_points", "fault_sequences", "histories", "configurations"], "all interruption points and power-loss outcomes, one to three repositories, local and remote, with a second stanza of similar name",
   "tests run each command once over hand-made files, without interruption or a second stanza.",
   ["src/command/stanza/create.c", "src/command/stanza/upgrade.c", "src/command/stanza/delete.c", "src/command/check/common.c", "src/config/load.c"],
   [("creation of info files", "src/command/stanza/create.c"), ("separate update of archive.info and backup.info", "src/command/stanza/upgrade.c"), ("conditions and order of deletion", "src/command/stanza/delete.c")],
   ["exit codes", "trees of both stanzas in all repositories", "archiving, backup and restore afterwards"]),
 P("C22", "Page checksum errors are reported exactly for corrupt pages",
   "When a cluster with page checksums is backed up, every page that is corrupt at rest is reported by the backup (a warning naming file and page, and the error flag in info and the manifest), for all segments of a relation, for bundled, block incremental and resumed files, and for a file carried over unchanged from a prior backup; no page that PostgreSQL considers valid (including new pages, pages being written during the backup and pages changed since its start) is reported; after repair the next backup that copies the file reports none. The file content is backed up unchanged either way.",
   ["histories", "schedules", "fault_sequences", "configurations"], "all positions of corrupt pages in all segments, concurrent torn reads and writes, interruption and resume, all backup types and formats",
   "tests check single buffers and fixed files; none has PostgreSQL write pages while they are read.",
   ["src/command/backup/pageChecksum.c", "src/command/backup/file.c.inc", "src/command/backup/backup.c", "src/info/manifest/manifest.c"],
   [("validation and retry of pages", "src/command/backup/pageChecksum.c"), ("result carried in the manifest", "src/info/manifest/manifest.c")],
   ["backup warnings", "error flag in info", "checksum-page-error of the manifest", "restored content"]),
]

PROPS += [
 P("C21", "Backup labels are unique and ordered whatever the clocks do",
   "However the clocks of the PostgreSQL and repository hosts move (back, forward, by milliseconds, days or over a new year) and whatever was expired, interrupted or resumed before: the label of a new full backup sorts after the label of every backup in that repository and its history; the label of a diff or incr backup starts with the label of an existing full backup on which it depends, and sorts after every label of that set, including removed ones found only in the history; no label is ever used twice. A backup is refused because of its label only if the clock is behind a label in use, and then nothing is lost; type, prior and time stamp shown for the backup match its label.",
   ["schedules", "histories", "fault_sequences", "crash_points"], "all clock movements between and during backups, all backup types, expiration and interruption between them, one to three repositories",
   "tests create labels from fixed times and directories; no clock ever moves while commands run.",
   ["src/command/backup/label.c.inc", "src/command/backup/common.c", "src/command/backup/db.c.inc"],
   [("choice of the label", "src/command/backup/label.c.inc"), ("wait for the next second", "src/command/backup/db.c.inc")],
   ["directories and history of the repository", "info output", "exit code"]),
 P("C25", "restore picks the right backup and asks PostgreSQL for exactly the requested target",
   "Without --set, restore --type=time (in any accepted time format and time zone) uses the newest backup that stopped before the target, and --type=lsn the newest whose stop LSN is not after it, in the first repository, in key order and skipping unreadable or empty ones (or only the one given with --repo), that has such a backup; other types use the latest backup of the first usable repository, and are refused when it belongs to a prior cluster version. --set is found in whichever repository has it. If nothing qualifies, or the requested (by default the latest) timeline does not contain the backup, restore fails and leaves the target directory untouched. After success the active settings are exactly those requested (target, exclusive, action, timeline, recovery options, archive mode), recovery settings left from before are inactive, others kept, and the right signal file exists; preserve leaves the existing file alone. Recovery with them reaches exactly the state at the target.",
   ["histories", "configurations", "fault_sequences", "schedules"], "all histories of backups over several repositories, timelines and cluster versions, all targets around them, all recovery options, with a repository failing",
   "tests use backup.info files made by hand, a few targets, and never recover the result.",
   ["src/command/restore/select.c.inc", "src/command/restore/config.c.inc", "src/command/restore/timeline.c", "src/command/restore/restore.c", "src/common/type/convert.c"],
   [("selection of repository and backup", "src/command/restore/select.c.inc"), ("recovery settings", "src/command/restore/config.c.inc"), ("check of the target timeline", "src/command/restore/timeline.c")],
   ["backup_label, settings and signal files of the restored cluster", "exit code", "state after recovery to the target"]),
]

PROPS += [
 P("C24", "Every command writes and removes only where it is meant to",
   "Whatever a command meets (errors, kills, power loss, a second stanza of similar name, unrelated files and directories beside its own, symbolic links in a restore target or a stanza directory pointing elsewhere): backup changes only its stanza in the repository it backs up to; expire only removes and rewrites info files of its stanza, only in the repositories selected; archive-push only adds to the stanza's archive and to its spool; archive-get writes only the requested file and its spool; restore changes only the target directory, the destinations of links it restores, of tablespaces only the directory of the PostgreSQL version, and empties its stanza's spool, and never follows another link found in the target; stanza-create and stanza-upgrade write only info files, stanza-delete removes only its stanza from one repository, stop and start touch only stop and lock files; info, check and verify change nothing. No command ever changes the data directory of the running cluster, another stanza, another repository, locks of another stanza, or files beside them; restore into a directory in use, or non-empty without --delta, or with --delta but not a cluster, is refused without changing it.",
   ["fault_sequences", "histories", "configurations", "crash_points"], "all commands in random order over real histories, with planted links, neighbours and sibling stanzas, local and remote repositories, interrupted at any point",
   "tests compare expected trees of each command alone; nothing watches every write for its location.",
   ["src/command/restore/clean.c.inc", "src/command/expire/expire.c", "src/command/stanza/delete.c", "src/storage/posix/storage.c", "src/common/lock.c", "src/command/archive/get/get.c", "src/command/archive/push/push.c"],
   [("cleaning of restore targets", "src/command/restore/clean.c.inc"), ("recursive removal", "src/storage/posix/storage.c"), ("paths of stanza, spool and locks", "src/storage/helper.c")],
   ["every mutating file system call with process, command and real path", "content of unrelated files"]),
]

PROPS += [
 P("C26", "Links, tablespaces, modes and time stamps are restored as they were or as asked",
   "A cluster whose directories and files are links (absolute or relative, also in sub-directories and pg_wal) and that has tablespaces is backed up with everything they point to. Restore puts each where asked: in place as a plain directory or file by default, as a link to the original destination with --link-all, to the mapped place with --link-map (also for a path or file that was no link), a tablespace at its original place or that given by id or name with --tablespace-map, or below --tablespace-map-all. Content, modes of files and directories, ownership and time stamps are as in the source (only the mode of a file that already exists behind a file link stays). With --delta over any earlier layout the links are corrected and the places they pointed to before are left untouched. An unknown link or tablespace, a destination inside the data directory, two links to one file or directory or one below another, a tablespace mapped as a link, an existing file or non-empty directory without --delta are refused without any change; a backup of a cluster with such links, a link to a link or to nothing is refused. An interrupted restore repeated with --delta gives the same result.",
   ["configurations", "histories", "fault_sequences", "crash_points"], "all combinations of links, tablespaces, group modes and mappings over real histories, restored anew, again and in place, interrupted at any point",
   "tests use hand-made manifests with a few mappings; no chain of restores with changing layouts, never recovered.",
   ["src/command/restore/remap.c.inc", "src/command/restore/clean.c.inc", "src/command/restore/file.c.inc", "src/info/manifest/build.c.inc", "src/info/manifest/link.c.inc", "src/storage/posix/write.c"],
   [("mapping of links and tablespaces", "src/command/restore/remap.c.inc"), ("links and their targets in the manifest", "src/info/manifest/build.c.inc"), ("checks of link destinations", "src/info/manifest/link.c.inc"), ("correction of an existing layout", "src/command/restore/clean.c.inc")],
   ["links, modes, owners and time stamps of the restored tree", "content of former places", "state after recovery", "exit code"]),
 P("C27", "Selective restore leaves out exactly the databases it was told to",
   "Restore with --db-include and/or --db-exclude (databases given by name or id) writes the files of the databases left out, in base/ and in every tablespace, as zeros of the right size (PG_VERSION kept), and everything else exactly as an unselective restore of the same backup would: included databases, shared files, and the system databases -- also when they were recreated and have a user id -- unless they are excluded explicitly. Recovery then reproduces every database that was not left out. With --db-include every database not named is left out. Databases that do not exist in the backup, system databases among the included ones, and databases both included and excluded are refused without changing the target. A restore that was interrupted and is repeated with --delta ends the same way; a later restore with --delta without selection, or with another one, brings back what had been left out. info --set lists the databases to choose from.",
   ["configurations", "histories", "fault_sequences", "crash_points"], "any set of databases and tablespaces, any selection, over real histories of full, differential, incremental, bundled, block-incremental and encrypted backups, interrupted at any point and repeated",
   "tests use manifests written by hand with two databases; nothing is recovered, repeated or interrupted.",
   ["src/command/restore/select.c.inc", "src/command/restore/file.c", "src/command/restore/restore.c", "src/command/backup/backup.c", "src/command/info/info.c"],
   [("which databases are zeroed", "src/command/restore/select.c.inc"), ("writing of zeroed files", "src/command/restore/file.c"), ("databases recorded at backup", "src/info/manifest/manifest.c")],
   ["content and size of every restored file against an unselective restore", "state after recovery", "exit code", "info output"]),
]

PROPS += [
 P("C28", "A backup from a standby is as good as one from the primary",
   "With --backup-standby=y or prefer the relation files (base, global except pg_control, tablespaces) and transaction status files are copied from a standby, with y never from the primary; all other files come from the primary. The backup, and every diff or incr backup on top of it (whether from the standby or the primary, interrupted, resumed or repeated), restores and recovers exactly like one made from the primary, however far the standby is behind and whichever of its writes have reached its disk. Backup waits for the standby to replay up to the start of the backup as long as it makes progress (when the standby has replayed the start but is held up before the checkpoint record that follows it the backup may give up, but never copies files the standby has not written). A standby that stops replaying before that, is ahead of the primary, is on another timeline, or belongs to another cluster makes the backup fail; a standby that is promoted or goes away during the backup makes it fail, or the backup is complete and valid; a failed backup is never listed. With y and no standby reachable the backup is refused, prefer falls back to the primary, n reads nothing from the standby. The order in which the hosts are configured does not matter. check refuses a standby of another cluster.",
   ["schedules", "fault_sequences", "histories", "configurations"], "primary and one or two standbys with asynchronous, stalled, slow or broken replay, on the same or another host, over histories that mix backups from the primary and the standby, interrupted at any point",
   "tests answer the queries of a standby from a script and copy both sides from prepared directories; nothing is replayed, restored or recovered.",
   ["src/command/backup/backup.c", "src/command/backup/process.c.inc", "src/db/db.c", "src/db/helper.c", "src/info/manifest/manifest.c", "src/command/check/check.c"],
   [("waiting for the standby", "src/db/db.c"), ("which files come from which host", "src/command/backup/process.c.inc"), ("finding primary and standby", "src/db/helper.c"), ("files modified in the second of the copy", "src/info/manifest/manifest.c")],
   ["files read from primary and standby", "state after restore and recovery", "exit code", "list of backups"]),
]

PROPS += [
 P("C29", "Commands that only read give right answers while others write",
   "info (text, json, --set), restore, verify, archive-get and repo-ls started at any moment while one backup, expire, annotate, stanza-create, stanza-upgrade or the archiver works on the same repository, on the same or another host, neither disturb it nor are misled by it. info always succeeds, lists every backup that exists all the time with the same data, lists no backup that is not complete and none without the backups it depends on. Restore of a backup that is not removed succeeds and the restored cluster recovers; of one that is being removed it fails without leaving a cluster that could be started, or succeeds. verify reports no error in a repository in which something is only added, a backup in progress included. archive-get returns exactly the archived content, and never misses a segment that was archived before it was asked for and is not removed. It also holds when the writing command (other than expire) is interrupted.",
   ["schedules", "histories", "configurations", "fault_sequences"], "readers of all kinds started at seeded moments of a writing command, all interleavings of their system calls",
   "tests run one command at a time against a repository that does not change.",
   ["src/command/info/info.c", "src/command/verify/verify.c", "src/command/restore/restore.c", "src/command/archive/get/get.c", "src/info/infoBackup.c", "src/command/expire/expire.c", "src/storage/posix/storage.c"],
   [("atomic replacement of info files and manifests", "src/storage/posix/write.c"), ("order of removal", "src/command/expire/expire.c"), ("backup in progress", "src/command/verify/verify.c"), ("list of complete backups", "src/info/infoBackup.c")],
   ["output and exit code of the reading commands", "restored cluster and its recovery", "exit code of the writing command"]),
]

PROPS += [
 P("C30", "A backup holds exactly the files it should",
   "Every file of the cluster is in the backup and restored with its content, except: pgsql_tmp* files and directories; temporary relations (tN_N with forks and segments) and relation cache files (pg_internal.init, pg_internal.init.N) in database directories and global; all forks and segments of unlogged relations except the _init fork; what is in pg_dynshmem, pg_notify, pg_replslot, pg_serial, pg_snapshots, pg_stat_tmp and pg_subtrans of the data directory, and in pg_wal; recovery.signal/standby.signal, postgresql.auto.conf.tmp, backup_label (replaced by that of the backup), backup_label.old, postmaster.pid, postmaster.opts, and from version 13 backup_manifest and backup_manifest.tmp; and what --exclude names (a file, a directory, or with a trailing / the contents of a directory). Files with similar names or in other places are kept. Whether a relation is unlogged is decided for each relation of each database and tablespace by itself. It holds for every backup of a history -- diff and incr backups over ones made while other files existed, relations were changed from logged to unlogged or back, or other exclusions were given, and backups resumed after an interruption -- and files that must not be in a backup may come and go while it runs without making it fail.",
   ["histories", "configurations", "fault_sequences", "schedules"], "any set of such files in any database and tablespace, changing between and during full, diff, incr and resumed backups with any exclusions",
   "tests build manifests from one prepared directory with a few of these names; nothing changes between backups and nothing is restored.",
   ["src/info/manifest/manifest.c", "src/command/backup/backup.c", "src/command/backup/resume.c.inc", "src/command/backup/incr.c.inc"],
   [("what is excluded", "src/info/manifest/build.c.inc"), ("unlogged relations", "src/info/manifest/manifest.c"), ("files of the prior backup", "src/command/backup/incr.c.inc"), ("files of the interrupted backup", "src/command/backup/resume.c.inc")],
   ["files in a restore of the backup and their content", "exit code", "state after recovery"]),
]

#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The unit tests run one command at a time against hand-made repositories, with scripted protocol peers, no scheduler, no crash and no durability model; "

def P(id, title, statement, over, text, why, files, mech, observe, level="exploration", note=""):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=TESTS + why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), _level=level, _note=note)

PROPS = [
 P("C01", "A restored backup plus archived WAL reproduces the cluster",
   "Every backup that the backup command reported as successful, of any type, can be restored, and recovery from the archive brings the restored cluster to exactly the state the source cluster had at the end of the replayed WAL: every relation page, every non-relation file, every tablespace link and the control file. It holds while the cluster keeps writing (including torn pages, created, dropped, truncated and extended relations) during the backup.",
   ["schedules", "histories", "configurations", "inputs"], "all histories of backups and cluster activity, all interleavings of the backup's processes with each other and with the cluster, all storage configurations (compression, encryption, bundling, block incremental, hardlinks, remote, several repositories)",
   "a restore is compared with fixed expected files, never with a cluster that changes while the backup's workers read it.",
   ["src/command/backup", "src/command/restore", "src/info/manifest.c", "src/command/archive"],
   [("manifest built between start and stop of the backup", "src/command/backup/backup.c"), ("block incremental maps and references to prior backups", "src/command/backup/file.c"), ("restore reads through references, bundles and block maps", "src/command/restore/file.c")],
   ["exit code of backup and restore", "restored files", "content returned by archive-get during recovery"]),
 P("C02", "An interrupted backup never appears complete and harms no other backup",
   "If a backup command is killed, loses power, loses its connections or meets I/O errors at any point, the repository afterwards lists only backups that restore correctly, every backup completed earlier is still listed and restorable, and the next backup succeeds and restores correctly.",
   ["crash_points", "fault_sequences", "schedules", "configurations"], "every point at which any process of the backup dies, the hosts lose power or a call fails",
   "they never stop a backup part way and then look at the repository with another command.",
   ["src/command/backup/backup.c", "src/command/backup/process.c.inc", "src/info/infoBackup.c", "src/info/manifest.c"],
   [("manifest.copy first, manifest last, backup.info after it", "src/command/backup/backup.c"), ("resume cleans partial files", "src/command/backup/backup.c")],
   ["info output", "exit code and files of later restores and backups"]),
 P("C03", "A successful backup survives power loss right after it returns",
   "Once the backup command has returned success, losing power on any host (losing everything not made durable, in any combination the file system allows) loses neither the backup's place in the list of backups nor any file needed to restore it and the WAL needed to make it consistent.",
   ["crash_points", "configurations", "fault_sequences"], "all subsets of unsynced data and directory entries lost at the moment of power loss, over all storage configurations",
   "the test storage is always durable, so a missing sync cannot fail a test.",
   ["src/storage/posix", "src/command/backup", "src/info/info.c"],
   [("fsync of files and paths", "src/storage/posix/write.c"), ("path sync at the end of the backup", "src/command/backup/process.c.inc")],
   ["info and restore after the crash"]),
 P("C04", "WAL acknowledged by archive-push is stored in every repository for good",
   "When archive-push returns success for a file, that file can be retrieved with its exact content from every configured repository, and stays so after any crash or power loss that follows; when faults stop, archiving of the remaining files completes.",
   ["crash_points", "schedules", "fault_sequences", "configurations"], "all crash points, power-loss outcomes and I/O errors during synchronous and asynchronous pushes to one or more repositories",
   "pushes are made to healthy storage or with one scripted error, and what the storage holds after a crash is not modelled.",
   ["src/command/archive/push", "src/storage/posix"],
   [("copy to every repository before success", "src/command/archive/push/file.c"), ("status files of the asynchronous process", "src/command/archive/common.c")],
   ["exit code of archive-push", "archive-get from each repository"]),
 P("C05", "archive-push never overwrites archived WAL and rejects foreign WAL",
   "A segment once acknowledged keeps its content: pushing the same content again succeeds, pushing different content under the same name fails, and WAL of another cluster or another PostgreSQL version is rejected, whatever faults interrupted earlier pushes and also when identical pushes run concurrently.",
   ["histories", "fault_sequences", "schedules"], "all sequences of equal, conflicting and foreign pushes with crashes and errors between and during them",
   "single pushes against prepared archives are tested, not histories with interrupted pushes.",
   ["src/command/archive/push", "src/command/archive/common.c"],
   [("checksum in the archived name, duplicate check", "src/command/archive/push/file.c"), ("system id and version check", "src/command/archive/push/push.c")],
   ["exit code of archive-push", "archive-get"]),
 P("C06", "archive-get returns exact content or an honest answer",
   "archive-get either returns success with exactly the archived content, or reports not found, or fails; it never reports not found for a file held by a repository it could read, and never returns wrong, torn or stale content, in synchronous and asynchronous mode, with several repositories, and after any interruption of earlier calls.",
   ["schedules", "crash_points", "fault_sequences", "histories"], "all request sequences, interleavings with the asynchronous prefetch process, crashes, power losses and I/O errors",
   "the asynchronous process and the foreground are tested separately with prepared queue contents.",
   ["src/command/archive/get", "src/command/archive/common.c"],
   [("queue with status files and rename into place", "src/command/archive/get/get.c"), ("fallback through repositories with warnings", "src/command/archive/get/file.c")],
   ["exit code, warnings and file produced by archive-get"]),
 P("C09", "Commands that modify one repository's backups never run at the same time",
   "Backups and expirations of the same stanza and repository never modify the repository concurrently: a command that cannot have the lock fails with a lock error and changes nothing, the others are unaffected, and locks left by crashed processes do not block later commands.",
   ["schedules", "crash_points", "fault_sequences"], "all interleavings of several commands started at arbitrary times, with crashes, signals and stalls of their processes",
   "lock tests use two processes in a fixed order.",
   ["src/common/lock.c", "src/command/lock.c", "src/command/exit.c"],
   [("flock on a file per stanza, type and repository", "src/common/lock.c")],
   ["exit codes", "order of modifications of the repository per command"]),
 P("C18", "Failures are reported, never swallowed, and commands always end",
   "Whatever fails while a command runs (I/O error, full disk, short write, signal, death of a worker or remote process, broken connection, database error, stall), the command terminates in bounded time, does not crash, and either returns a non-zero exit code or has really done all that its success promises.",
   ["fault_sequences", "schedules", "crash_points"], "every single fault and pairs of faults at every system call of backup, restore, archive-push, expire and stanza commands",
   "error paths are tested one scripted error at a time, in one process.",
   ["src/common/io", "src/protocol", "src/common/exec.c", "src/main.c", "src/command/exit.c"],
   [("exceptions carried over the protocol to the main process", "src/protocol"), ("timeouts on every blocking read", "src/common/io/fd.c")],
   ["exit codes, termination, and the state of repository and restored cluster"]),
]
# appended by later sections
exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None
NA = globals().get("NA", [])

def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in [x[0] for x in NA]:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier=quick" % p["id"], thorough_cmd="python3 check.py %s --tier=thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique="deterministic simulation with fault injection: seeded search over schedules, faults, crash points and histories of the real code in a simulated OS",
                           level=p["_level"], level_note=(p["_note"] + " " if p["_note"] else "") + "Samples executions: a clean run is evidence, not proof. Trusts the simulated kernel, file system and PostgreSQL model in /verif/sim."))
    m = dict(version=1, setup_cmd="python3 sim/build.py", hooks=dict(guard="none", enable="No hooks are needed: the simulator takes over OS and libpq symbols of the unmodified objects at link time (sim/build.py).", source_commits=[]),
             checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes="Simulator in /verif/sim, orchestration in check.py, replay a reported file with: python3 check.py --replay FILE. Known findings and repaired defects are in known-findings.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()

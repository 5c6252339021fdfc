#!/usr/bin/env python3
"""Writes properties.jsonl. The text of the properties lives here."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


NB = "nb REPO run as a process: exit status, stdout, stderr"
TREE = "the file system below the configured paths"
REPO = "the files inside the repository directory"

prop("C01", "Every retained backup of tracked paths can be restored exactly",
     "For a path with the track policy, restoring it to any backup id the "
     "repository retains yields exactly what the path was when that backup "
     "was confirmed: existence, type, content, symlink target, owner, group, "
     "permission bits and (for files and directories) modification time. "
     "Later backups, removals, re-creations, type changes and garbage "
     "collection do not alter what an older backup restores to. This covers "
     "everything below a tracked directory as long as the directories "
     "leading to the tracked path itself are still there.",
     ["histories", "inputs", "configurations"],
     "all trees, all configurations with tracked paths, all sequences of "
     "file system changes and backups, all backup ids",
     "The tests replay about fifty fixed sequences of two to four backups of "
     "fixed small trees and look at internal nodes; they never take an "
     "arbitrary history and restore every id of it.",
     ["src/backup.c", "src/restore.c", "src/metadata.c",
      "src/backup-helpers.c"],
     [("history points with backup ids", "src/backup.c"),
      ("looking up the state at an id", "src/restore.c: searchPathState"),
      ("renumbering ids on write", "src/metadata.c: metadataWrite")],
     [NB, "the tree after `nb REPO ID PATH`"],
     [("path history", "the states of a path, newest first",
       "src/metadata.h: PathHistory")])

prop("C02", "Copied and mirrored paths keep exactly their latest state",
     "A path with the copy policy restores, for every backup id, to the "
     "state it had in the last backup in which it existed, even if it has "
     "vanished since (unless a recorded directory above it became something "
     "else). A path with the mirror policy restores to its latest state for "
     "every id and, once a backup has been confirmed in which it was gone "
     "while the directories leading to it were still there, neither it nor "
     "anything below it can be restored anymore.",
     ["histories", "inputs", "configurations"],
     "all trees, all configurations with copied and mirrored paths nested in "
     "any way, all sequences of changes and backups",
     "The tests cover single removals and type changes per policy, not "
     "mixtures of nested policies over histories.",
     ["src/backup.c", "src/restore.c"],
     [("single history point for copy and mirror", "src/backup.c"),
      ("wiping of removed mirrored nodes", "src/backup.c")],
     [NB, "the tree after `nb REPO ID PATH`"])

prop("C03", "Changing policies loses exactly the history it announces",
     "When the configured policy of a path changes between backups, the "
     "latest recorded state of the path stays restorable, earlier states are "
     "dropped only when the path leaves the track policy (which the report "
     "shows), and paths that are no longer configured vanish from the "
     "repository and are reported as lost. All other paths keep what they "
     "had.",
     ["histories", "configurations"],
     "all sequences of configurations, file system changes and backups",
     "The tests cover each pair of policies once on fixed trees with one "
     "change at a time.",
     ["src/backup.c"],
     [("policy changes of nodes", "src/backup.c: handlePolicyChanges"),
      ("unneeded nodes", "src/backup.c")],
     [NB, "the tree after `nb REPO ID PATH`"])

prop("C04", "Restoring converges any existing system to the recorded state",
     "After a confirmed restore of a path, the path and everything recorded "
     "below it at that backup equals the recorded state, whatever was there "
     "before (other types, other content, other owners and permissions, "
     "symlinks, missing parents). Nothing else changes: files that the "
     "repository did not record are neither modified nor removed, unless "
     "they are inside a directory that has to become a file or symlink, and "
     "existing directories which are only implicit parents of configured "
     "paths keep their attributes. A symlink that leads to a directory "
     "counts as a directory (as long as such symlinks do not make recorded "
     "paths lead to each other). A restore that has nothing to do asks nothing, and a second restore "
     "right after the first has nothing to do.",
     ["inputs", "histories"],
     "all recorded trees and all states of the target system",
     "The tests restore a dozen fixed situations with one difference each.",
     ["src/restore.c", "src/safe-wrappers.c"],
     [("detecting differences", "src/restore.c: checkAndHandleChanges"),
      ("applying them", "src/restore.c: finishRestoreRecursively")],
     [NB, "the whole tree before and after"])

prop("C05", "The repository stores exactly the referenced contents, once",
     "After every confirmed backup the repository contains one complete file "
     "for each distinct content that some recorded path needs, under the "
     "name given by the content's hash and size, and nothing else besides "
     "config and metadata: no duplicates, no leftovers, no temporary files. "
     "Small contents are kept inside the metadata. A stored file whose "
     "content does not match its name is never taken for the content that "
     "is being backed up.",
     ["histories", "inputs"],
     "all histories; all contents, in particular equal contents under many "
     "paths, contents of equal size and contents around the inline limit",
     "The tests look at selected stored files after fixed backups.",
     ["src/backup.c", "src/repository.c", "src/garbage-collector.c",
      "src/file-hash.c"],
     [("reuse of stored files", "src/backup.c: copyFileIntoRepo"),
      ("unique path of a content", "src/repository.c: buildFilePath")],
     [REPO])

prop("C06", "Garbage collection removes all unneeded data and nothing else",
     "A garbage collection deletes everything inside the repository that no "
     "recorded path needs, whatever its name, type or depth, reports the "
     "size of what it deleted, and keeps config, metadata and all needed "
     "content byte for byte, also where a part of the repository was replaced "
     "by a symlink to a directory elsewhere, so that everything restores as "
     "before. It never "
     "deletes anything outside of the repository, in particular not through "
     "symlinks inside of it. A second run deletes nothing.",
     ["inputs", "histories"],
     "all repositories with arbitrary foreign files, directories, symlinks "
     "and partial data inside",
     "The tests collect two fixed layouts.",
     ["src/garbage-collector.c", "src/safe-wrappers.c"],
     [("set of needed paths", "src/garbage-collector.c"),
      ("recursive conditional removal",
       "src/safe-wrappers.c: sRemoveRecursivelyIf")],
     [NB, REPO, "files outside of the repository"])

prop("C07", "The integrity check reports exactly the damaged paths",
     "The integrity check succeeds if and only if every stored file that a "
     "recorded state needs is present, is a regular file and has exactly the "
     "recorded content. Otherwise it fails and lists each path with such a "
     "state exactly once and no other path. It changes nothing.",
     ["inputs", "fault_sequences"],
     "all repositories and all combinations of damage: flipped bits, "
     "truncation, extension, removal, replacement by other types or other "
     "contents",
     "The tests damage one fixed repository in a few ways.",
     ["src/integrity.c", "src/file-hash.c"],
     [("hash comparison", "src/integrity.c: storedFileIsHealthy"),
      ("result cache", "src/integrity.c: historyPointIsHealthy")],
     [NB, REPO])

prop("C08", "A killed backup or collection never damages the repository",
     "If a backup or a garbage collection is killed at any point, the "
     "repository is usable at once and restores, for every id, either "
     "exactly as before the run or exactly as after its completion. Running "
     "the command again, and a collection, leaves the same repository as "
     "uninterrupted runs.",
     ["crash_points", "histories"],
     "every system call boundary, and partial writes, of every backup and "
     "collection; repeated kills; all histories",
     "No test interrupts the program.",
     ["src/repository.c", "src/backup.c", "src/metadata.c",
      "src/garbage-collector.c"],
     [("temporary file, then rename", "src/repository.c: repoWriterClose"),
      ("metadata written last", "src/nb.c: backup"),
      ("collection after the metadata is final", "src/nb.c: backup")],
     [NB, REPO])

prop("C09", "A power loss never leaves metadata without its data",
     "At every moment of a backup or collection, whatever subset of the not "
     "yet synchronised writes, renames and directory entries a power loss "
     "discards, the repository restores either exactly as before or exactly "
     "as after the run. Once the program has ended successfully, the new "
     "state survives any power loss, even if a system call failed on the "
     "way.",
     ["crash_points", "fault_sequences"],
     "every system call boundary of a run that starts on durable data, and "
     "every combination of lost unsynchronised operations (sampled)",
     "The tests neither crash nor look at synchronisation.",
     ["src/repository.c", "src/safe-wrappers.c", "src/metadata.c"],
     [("sync of file data before the rename",
       "src/repository.c: repoWriterClose"),
      ("sync of every new directory entry",
       "src/safe-wrappers.c: fDatasync")],
     ["the sequence of system calls of nb", REPO])

prop("C10", "Failing system calls never cause silent data loss",
     "If any file system call of a backup, restore, collection or integrity "
     "check fails, the program either ends with a failure status and a "
     "message, or did everything it reports to have done: a backup that "
     "succeeds is complete, a restore that succeeds is exact, an integrity "
     "check that succeeds saw intact data. A failed backup or collection "
     "leaves a repository which restores as before or as after, and works "
     "again once the fault is gone.",
     ["fault_sequences", "inputs"],
     "every file system call of every command, with every plausible error "
     "(no space, I/O error, no permission, interrupted, too many files, "
     "vanished)",
     "The tests provoke a handful of errors with missing or unreadable "
     "files.",
     ["src/safe-wrappers.c", "src/repository.c", "src/file-hash.c"],
     [("checked wrappers of system calls", "src/safe-wrappers.c")],
     [NB, REPO, TREE])

prop("C11", "Concurrent runs on one repository exclude each other",
     "While one process works on a repository, from reading its metadata "
     "until the end of its run, no other process backs up to it, collects "
     "garbage in it, restores from it or checks it: the other one ends with "
     "an error and without effects. The result of any interleaving of runs "
     "equals a sequence of the runs that succeeded, and a process that died "
     "does not block later ones.",
     ["schedules"],
     "all interleavings, at system call granularity, of two or more runs of "
     "any commands, including the start and the end of a run",
     "The tests lock one repository from one other process at one moment.",
     ["src/repository.c", "src/nb.c"],
     [("lock file", "src/repository.c: repoLock, cleanupLockfile")],
     [NB, REPO])

prop("C12", "A backup selects exactly the configured paths",
     "A backup records exactly the files, directories and symlinks that the "
     "configuration selects: the last element of each configured path with "
     "its policy, everything below it recursively except ignored paths, "
     "explicit rules overriding inherited policies and ignore rules, regular "
     "expressions matching single path elements, parents of configured paths "
     "only implicitly, and symlinks followed only where they are parents in "
     "a configured path. Two rules that match the same element are an error, "
     "and sockets, devices and pipes are left out.",
     ["configurations", "inputs"],
     "all file trees, all names and all configurations",
     "The tests search two fixed trees with five configurations.",
     ["src/search.c", "src/search-tree.c"],
     [("search tree", "src/search-tree.c"),
      ("walk of the file system", "src/search.c")],
     [NB, "what can be restored afterwards", "recorded policies"])

prop("C13", "Configurations are accepted exactly as documented",
     "Every config file either has the meaning its documented syntax gives "
     "it or is rejected with an error that names the offending line, before "
     "anything is touched: unknown policies, rules without policy, relative "
     "paths, dot elements, invalid regular expressions, paths defined twice, "
     "null bytes. Comments, blank lines, a byte order mark, trailing slashes "
     "and a missing final newline make no difference.",
     ["configurations", "inputs"],
     "all byte strings as config files",
     "The tests load some twenty fixed config files.",
     ["src/search-tree.c", "src/str.c"],
     [("parser", "src/search-tree.c: searchTreeParse")],
     [NB])

prop("C14", "The change report is exact",
     "Before a backup asks for confirmation, it lists exactly the recorded "
     "paths that were added, removed, lost or changed since the last backup, "
     "each once with the kind of the change, and totals whose counts and "
     "sizes are those of the changes; directories that were added or removed "
     "or match a summarize rule stand for what is below them with the exact "
     "counts (parents of a configured path that matches nothing count as "
     "lost each time). Before a restore asks, it lists in the same way "
     "exactly what it is going to change.",
     ["histories", "inputs", "configurations"],
     "all histories, trees and configurations",
     "The tests compare the printed report of about ten fixed histories.",
     ["src/informations.c", "src/backup.c", "src/nb.c"],
     [("hints collected during the scan", "src/backup.c"),
      ("report", "src/informations.c: printMetadataChanges")],
     [NB])

prop("C15", "Nothing is written without the user's consent",
     "A backup or restore changes neither the repository nor the system "
     "before the user has answered yes. Any other answer, end of input or "
     "a read error ends the program with a failure and without effects or "
     "leads to the same question again. A run that ends with success did "
     "what it was asked to do.",
     ["inputs", "histories"],
     "all answers and sequences of answers, all histories",
     "The tests give six fixed answers in one fixed situation and compare no "
     "files.",
     ["src/nb.c", "src/safe-wrappers.c"],
     [("question", "src/nb.c: ensureUserConsent")],
     [NB, REPO, TREE])

prop("C16", "Damaged metadata is rejected without harm",
     "Whatever bytes the metadata file contains, every command either "
     "rejects it with an error message or works on the state it describes; "
     "it never crashes, hangs, accesses memory outside of its bounds or "
     "writes outside of the restored paths. A truncated or extended metadata "
     "file is always rejected, and a rejected one has no effects on "
     "repository or system.",
     ["inputs"],
     "all byte strings as metadata files, in particular mutations of real "
     "ones",
     "The tests load about a dozen broken metadata files.",
     ["src/metadata.c", "src/restore.c", "src/backup.c", "src/integrity.c"],
     [("bounds checks while reading", "src/metadata.c")],
     [NB, "sanitizer reports", REPO, TREE])

prop("C17", "Files that change during a backup are not recorded wrongly",
     "If files, directories or symlinks change, appear, vanish or are "
     "replaced while a backup runs, the backup either fails without changing "
     "what the repository restores, or every content it records was intact "
     "and is stored under its correct hash. The repository passes the "
     "integrity check afterwards and all earlier backups restore as before. "
     "If the config file changes meanwhile, the backup fails or follows one "
     "of its versions as a whole.",
     ["schedules", "inputs"],
     "all changes at all system call boundaries of a backup",
     "The tests change no file while a backup runs.",
     ["src/backup.c", "src/search.c", "src/repository.c"],
     [("re-checking of size and time after hashing",
       "src/backup.c: addFileToRepository")],
     [NB, REPO])

prop("C18", "Repositories work from anywhere, however they are addressed",
     "A repository can be moved, copied, reached by relative or absolute "
     "paths, through symlinks, with trailing slashes or from another working "
     "directory, and behaves the same: same reports, same stored data, same "
     "restored trees. Restore paths may be relative or have trailing "
     "slashes. Synchronising one repository into another with the documented "
     "copy recipe leaves the older one equal to the newer one.",
     ["inputs", "histories"],
     "all histories, spellings of the repository path and the restore path, "
     "working directories and locations",
     "The tests always use the same relative paths.",
     ["src/nb.c", "src/str.c", "src/repository.c",
      "src/garbage-collector.c"],
     [("building of paths", "src/str.c: strAppendPath"),
      ("stripping of slashes", "src/nb.c")],
     [NB, REPO, TREE])

prop("C19", "Every ineffective configuration rule is pointed out",
     "A backup warns about each configured path element and each ignore rule "
     "that matched nothing, about each element that should be a directory "
     "but is not (only) one, and about each summarize rule that matched no "
     "directory, with the right line, and about nothing else.",
     ["configurations", "inputs"],
     "all trees and configurations",
     "The tests compare the warnings of about twelve fixed configurations on "
     "one tree.",
     ["src/informations.c", "src/search.c"],
     [("match flags", "src/search.c"),
      ("warnings", "src/informations.c: printSearchTreeInfos")],
     [NB])

prop("C20", "Every command stays within its bounds",
     "A backup, an integrity check and a garbage collection never modify, "
     "create or delete anything outside of the repository, in particular "
     "none of the files that are backed up, and a restore never modifies "
     "the repository apart from its lock file and nothing outside of the "
     "restored path and its recorded parents. The config file is never "
     "changed by any command, and no command leaves temporary or lock files "
     "behind unless system calls fail.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of commands, successful, refused or failing",
     "The tests compare no directory listings before and after.",
     ["src/backup.c", "src/restore.c", "src/repository.c",
      "src/garbage-collector.c", "src/integrity.c"],
     [("read-only opening of sources", "src/safe-wrappers.c"),
      ("all repository writes go through one writer",
       "src/repository.c")],
     ["the system calls of nb", REPO, TREE])

prop("C21", "An interrupted restore can simply be repeated",
     "If a restore is killed at any point, or fails at any system call, "
     "running the same restore again brings the system to the recorded state, "
     "as if it had not been interrupted (apart from the attributes of "
     "parents which are only implied by configured paths), and files that "
     "the repository did not record stay untouched. The repository is "
     "unaffected.",
     ["crash_points", "fault_sequences"],
     "every system call boundary and partial write of a restore, any number "
     "of interruptions, all recorded trees and target systems",
     "No test interrupts the program.",
     ["src/restore.c"],
     [("comparison with the actual state on every run",
       "src/restore.c: checkAndHandleChanges"),
      ("timestamps are set last", "src/restore.c: restorePath")],
     [NB, TREE])

prop("C22", "Wrong usage is refused without any effect",
     "Every combination of command line arguments is either one of the "
     "documented commands or is refused with an error, without touching the "
     "repository or the system: unknown commands, surplus arguments, "
     "malformed or too large backup ids, missing or unsuitable repositories, "
     "paths the repository does not know, and ids at which the requested "
     "path did not exist.",
     ["inputs"],
     "all argument lists and kinds of repository paths",
     "The tests try about ten wrong command lines and look only at the "
     "message.",
     ["src/nb.c", "src/safe-math.c", "src/safe-wrappers.c"],
     [("argument handling", "src/nb.c: main"),
      ("number parsing", "src/safe-wrappers.c: sStringToSize")],
     [NB, REPO, TREE])

prop("C23", "No history provokes undefined behaviour",
     "Over all histories of backups, restores, collections and checks, with "
     "all configurations, names and contents, the program performs no "
     "invalid memory access and no other undefined behaviour, and it does "
     "not hang.",
     ["histories", "inputs", "configurations"],
     "all histories of commands",
     "The tests run under sanitizers only for their fixed inputs.",
     ["src/str.c", "src/allocator.c", "src/string-table.c",
      "src/metadata.c", "src/backup.c", "src/restore.c", "src/search.c"],
     [("regions and checked arithmetic", "src/safe-math.c")],
     ["sanitizer reports of an instrumented nb"])

prop("C24", "The metadata file has exactly the documented meaning",
     "After every confirmed backup the metadata file describes, in the "
     "established format, exactly the recorded history: every path with its "
     "policy and the states it had at the retained backups, nothing more. "
     "Metadata in this format written by any other tool or an earlier "
     "version is read with the same meaning, and reading and rewriting it "
     "loses nothing.",
     ["histories", "inputs"],
     "all histories; all well-formed metadata files",
     "The tests write and read a few metadata files with the same code.",
     ["src/metadata.c"],
     [("reader and writer", "src/metadata.c")],
     [REPO, NB])

prop("C25", "Summarize rules change the report and nothing else",
     "Adding, changing or removing summarize rules never changes what a "
     "backup records, stores or loses, nor its totals or whether it asks; "
     "only the lines below matching directories disappear from the report.",
     ["configurations", "histories"],
     "all histories and sets of summarize rules",
     "The tests compare the summarised report of one fixed history.",
     ["src/informations.c", "src/search-tree.c"],
     [("summarising", "src/informations.c: printMetadataChanges")],
     [NB, REPO])

prop("C26", "Backups notice every change and nothing but changes",
     "If every configured path matches something, a backup right after a "
     "confirmed backup finds nothing to do, asks nothing and leaves the "
     "repository untouched (vanished copied paths, which stay recorded, are "
     "listed again each time). Any single change of a "
     "recorded path (content together with size or timestamp, symlink "
     "target, type, owner, group, permissions, timestamp, removal, addition) "
     "makes the next backup ask, and confirming it records the change.",
     ["inputs", "histories"],
     "all recorded trees and policies, all single changes",
     "The tests cover one change of each kind on fixed files.",
     ["src/backup.c", "src/backup-helpers.c", "src/informations.c"],
     [("comparison of states", "src/backup-helpers.c: applyNodeChanges")],
     [NB, REPO])

prop("C27", "Guarantees hold at any scale",
     "Backup, restore, integrity check and garbage collection work exactly "
     "for any number of files and backups, any nesting depth and name length "
     "the file system supports, and any file size, including sizes beyond "
     "32 bits.",
     ["inputs", "histories"],
     "tree sizes up to tens of thousands of entries, depths up to the path "
     "limit, hundreds of backups, sparse files beyond 4 GiB",
     "The tests use trees of some dozens of files.",
     ["src/string-table.c", "src/file-hash.c", "src/repository.c",
      "src/safe-math.c", "src/str.c"],
     [("growing hash table", "src/string-table.c"),
      ("64 bit sizes", "src/metadata.c")],
     [NB, REPO, TREE])

prop("C28", "Unprivileged users get exact results or clean errors",
     "Run by an unprivileged user, a backup that needs anything it cannot "
     "read fails without changing what the repository restores, and one "
     "that can read everything is complete. A restore by that user of files that belong "
     "to it is exact, including read-only files and directories; where it "
     "lacks the permission it fails with an error instead of reporting "
     "success.",
     ["inputs", "configurations"],
     "all trees, permission bits and owners",
     "The tests run as the invoking user on files with usual permissions.",
     ["src/safe-wrappers.c", "src/restore.c", "src/search.c"],
     [("checked system calls", "src/safe-wrappers.c")],
     [NB, REPO, TREE])

prop("C29", "A terminal changes the looks and nothing else",
     "Whether standard input, output and error are terminals or redirected "
     "makes no difference for what a command asks, does, stores, restores "
     "and returns, and what a terminal shows in the end is the text that a "
     "redirected stream gets. Colours are always switched off again and "
     "never reach a redirected stream; progress lines only overwrite "
     "themselves, never move backwards, stay below 100% until the end, and "
     "are exact where the amounts are printed exactly.",
     ["inputs", "configurations"],
     "all histories, commands and combinations of terminals",
     "The tests run with redirected streams, so that nothing of what a "
     "terminal changes is ever executed.",
     ["src/nb.c", "src/colors.c"],
     [("progress and questions", "src/nb.c"),
      ("colours", "src/colors.c")],
     [NB])

prop("C30", "The environment of the process makes no difference",
     "What a command prints, records, stores, restores and returns depends "
     "on its arguments, its input, the repository and the file system, not "
     "on the process it runs in: the file mode creation mask, environment "
     "variables, languages and time zones, the contents of fresh memory, "
     "inherited descriptors, ignored signals, low limits of open files "
     "and of the stack, and a clock that jumps change nothing but the times "
     "of backups, which are those of the clock. Restored files have the recorded "
     "permission bits whatever the mask, while nothing in the repository "
     "is created with permission bits which the mask takes away.",
     ["inputs", "configurations"],
     "all histories and environments with enough descriptors and stack",
     "The tests run once, in the environment of whoever runs them.",
     ["src/nb.c", "src/restore.c", "src/safe-wrappers.c",
      "src/repository.c"],
     [("process entry", "src/nb.c"), ("restoring attributes",
                                      "src/restore.c")],
     [NB, REPO])

prop("C31", "Lack of memory never causes harm",
     "If any memory allocation of a backup, restore, collection or "
     "integrity check fails, also inside of the C library or while "
     "matching a regular expression, the program either ends with a failure status "
     "and a message, or did exactly what it reports. It never crashes, never "
     "records or restores anything else, and works again afterwards.",
     ["inputs", "faults"],
     "all commands and all allocations of their runs",
     "The tests never run out of memory.",
     ["src/allocator.c", "src/safe-wrappers.c", "third-party/CRegion"],
     [("checked allocations", "src/safe-wrappers.c"),
      ("regular expressions", "src/safe-wrappers.c")],
     [NB, REPO, TREE])

prop("C32", "How the file system keeps files makes no difference",
     "What a command prints, records, stores and restores depends on the "
     "paths, types, contents, owners, permissions and modification times of "
     "files, not on how the file system keeps them: the order of entries in "
     "a directory, inodes, hard links between equal files, holes, fractions "
     "of seconds, access times, extended attributes, files held open or "
     "locked by other programs, mount points, the device of the repository. "
     "The same holds for the files of the "
     "repository, which are never modified in place, so that snapshots of it "
     "made of hard links stay as they were. A repository on a file system "
     "that cannot be written to still serves everything that only reads it "
     "(restoring, checking), and commands which would write refuse before "
     "they ask anything. In particular, restoring one path never changes what "
     "another path holds because both are links of one file.",
     ["inputs", "configurations"],
     "all histories and all ways to keep the files of their trees",
     "The tests run on one file system with files they just created.",
     ["src/safe-wrappers.c", "src/search.c", "src/restore.c",
      "src/backup-helpers.c"],
     [("directory order and stat()", "src/safe-wrappers.c"),
      ("restoring in place", "src/restore.c")],
     [NB, REPO])

prop("C33", "No command does more work than it has to",
     "Before it asks, a backup reads only recorded files whose modification "
     "time changed while their size did not; afterwards also the new and "
     "changed ones, no file more than twice. It lists only directories that "
     "are selected, and writes to the repository no more than the contents "
     "that are not stored yet and the metadata. So an unchanged file is never "
     "opened, however many backups are done. An integrity check reads each "
     "stored file once, a collection reads none, and a restore reads and "
     "writes contents only of files that differ from the state to restore.",
     ["histories", "inputs"],
     "all histories and configurations",
     "The tests look at results, not at what was read or written for them.",
     ["src/backup.c", "src/backup-helpers.c", "src/search.c",
      "src/restore.c", "src/integrity.c"],
     [("comparing before hashing", "src/backup-helpers.c: applyNodeChanges"),
      ("deduplication", "src/backup.c: addFileToRepo"),
      ("cache of checked files", "src/integrity.c")],
     [NB, REPO])

prop("C34", "No command needs resources that grow with the data",
     "The number of files a command holds open depends only on how deep "
     "directories are nested, and its memory only on the states that have to "
     "be recorded. Neither grows with the sizes of files, with how many files "
     "are read, hashed, compared, stored, checked or restored, or with how "
     "many entries are examined and ignored, collected as garbage or removed "
     "by a restore. So a backup of files larger than the memory, or of more "
     "files than may be open, is possible and can be restored.",
     ["inputs", "histories"],
     "all trees, file sizes and histories",
     "The tests use few small files and have no limits.",
     ["src/backup.c", "src/restore.c", "src/file-hash.c", "src/search.c",
      "src/repository.c", "src/safe-wrappers.c"],
     [("copying in blocks", "src/backup.c: copyFileIntoRepo"),
      ("hashing in blocks", "src/file-hash.c: fileHash"),
      ("reused buffers", "src/allocator.c, src/search.c"),
      ("closing", "src/safe-wrappers.c: sFclose, sDirClose")],
     [NB, REPO])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")

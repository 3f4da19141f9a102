#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [
            {"name": n, "where": w} for n, w in mech]}})

S = "zielen/commands/sync.py"
FL = "zielen/filelogic.py"
UD = "zielen/userdata.py"
PR = "zielen/profile.py"
FT = "zielen/fstools.py"
CB = "zielen/commandbase.py"
CO = "zielen/containerbase.py"
DA = "zielen/daemon.py"
IN = "zielen/commands/init.py"
RE = "zielen/commands/reset.py"
ET = "zielen/commands/emptytrash.py"

p("C01", "A sync is a three-way merge and clients converge",
  "When a sync completes, the local directory (read through its placeholder links) and the remote directory hold the same files, directories and relative symlinks: exactly the state at this client's previous completed sync with every addition, modification and deletion made on either side since then applied, a modification or addition winning over a deletion of the same path or of a directory above it (a path that changes between file and directory is not covered). Nothing else is created, changed or removed, file contents, modification times and permission bits are carried over, and a further sync with no changes in between changes nothing. Clients that share a remote directory all hold the same tree once each of them has synced after the last change.",
  ["histories", "inputs", "configurations", "schedules"],
  "For every history of user edits (local, through placeholders, or directly in the remote directory), syncs and evictions by one or more clients, every storage limit and setting, in every order.",
  "The tests sync once from a hand-made state with one client; the guarantee is over histories of many syncs, several clients and what earlier syncs and evictions left behind in the two databases.",
  [S, FL, UD, PR], [
   ("change detection against last sync", FL + ":compute_added/compute_modified/compute_deleted"),
   ("order of the merge", S + ":SyncCommand.main"),
   ("transfer in both directions", FL + ":update_remote/update_local"),
   ("file tree databases", "zielen/userdata.py:RemoteDBFile, zielen/profile.py:ProfileDBFile")])

p("C02", "A conflict keeps both versions; the newest keeps the name",
  "When a file was changed on both sides since this client's last sync, after the sync the version with the later modification time has the original name and the other one is kept, intact, beside it under a name made of the original name, the word conflict and the date and time of the sync, on both sides and on every other client. A conflict copy appears only when both sides really changed the file, and there is exactly one for each conflicting change.",
  ["histories", "inputs", "schedules"],
  "For every interleaving of edits and syncs by several clients and direct edits of the remote directory, on files, new files and files behind placeholders, in any directory.",
  "The one existing test has one file modified on both sides once; spurious and missed conflicts depend on timestamps written by earlier syncs, other clients and the daemon.",
  [FL, S], [("conflict detection and renaming", FL + ":handle_conflicts"),
            ("conflict naming", "zielen/utils.py:timestamp_path"),
            ("last-sync bookkeeping", "zielen/profile.py:last_sync; zielen/userdata.py:update_paths")])

p("C03", "An interruption at any instant loses no user data",
  "However init, sync, reset or empty-trash is interrupted (killed outright, or by a termination, hang-up or interrupt signal, at any instant), every version of a file that the user has not deleted or replaced is still there, complete, in a local directory, the remote directory or the remote trash. It also survives everything done afterwards: running the same or another command again, other clients' syncs, and further interruptions.",
  ["crash_points", "histories", "fault_sequences"],
  "For every state reached by a history of edits and commands, every command, every point between two effects of that command on files or databases (and half-way through a write), and every continuation.",
  "No test interrupts anything; the guarantee quantifies over every instant of every command in every state and over what the next command makes of the state left behind.",
  [S, FL, FT, IN, RE, UD, PR], [
   ("copying files into place", FT + ":transfer_tree"),
   ("replacing files by placeholders", FL + ":update_local; " + FT + ":symlink_tree"),
   ("renaming conflicts", FL + ":_rename_files"),
   ("retrieving and deleting remote files", RE + ":ResetCommand.main"),
   ("commit order", S + ":SyncCommand.main")])

p("C04", "After an interruption, running the command again completes it",
  "After init, sync or reset was interrupted at any instant, and however often, running it again completes without an error, and the local and remote directories, what is in the trash and what later syncs do are then the same as if the interruption had not happened, except that a conflict may have left more than one copy of the losing version, that deleted files may also be found in the trash, that a file another client changed or deleted in the meantime may be kept, and that excluded files (with directories that held nothing else) may have left the remote directory earlier or later. A file deleted before the interruption does not come back and no temporary or partial file stays behind.",
  ["crash_points", "fault_sequences", "histories"],
  "For every state, command and instant of interruption, and repeated interruptions of the recovery itself.",
  "No test resumes anything; whether the half-done state is understood depends on which of the two databases, the profile metadata and the file trees had been updated.",
  [S, FL, IN, RE, PR, CO], [
   ("tolerance of half-done work", FL + ":_rm_files/trash_files/update_local"),
   ("resuming initialization", IN + ":InitCommand.main"),
   ("database transactions", CO + ":SyncDBFile"),
   ("profile metadata", "zielen/profile.py:Profile.write")])

p("C05", "A failing or vanishing remote directory is never taken for deletions",
  "If the remote directory is missing or becomes unavailable at any point of a sync, an empty-trash or a reset with retrieval (unmounted, leaving an empty directory or nothing), or reports input/output errors or refused permissions during one of these or an init, the command fails with an error unless it had nothing left to do there, loses no user data, and sync, empty-trash and reset put nothing into the place where the remote directory used to be. Once the remote directory is back, the next sync completes and merges both sides as if the failed attempts had not been made (a change that a failed attempt had already copied counts as known to the other side).",
  ["fault_sequences", "schedules", "histories"],
  "For every state and every point of a sync, init, reset or empty-trash at which the remote directory fails in one of these ways, for one operation or until it is repaired.",
  "Tests always have a healthy remote directory; the guarantee concerns failures arriving between any two file operations.",
  [UD, FL, FT, S], [
   ("access through the util directory", UD + ":RemoteSyncDir.safe_path"),
   ("detecting a missing remote", UD + ":add_exclude_file; " + FL + ":update_remote/update_local/trash_files"),
   ("scanning the remote", UD + ":RemoteSyncDir.scan_paths")])

p("C06", "A full disk loses no data and sync recovers once there is space",
  "If the local, remote or profile disk fills up at any point of a command, that command fails with an error if it needs more space, no version of a file that the user has not deleted or replaced is lost or left truncated under its name on either side, and no later sync spreads a partial file. Once space is available, the next sync completes and merges both sides as if the failed attempts had not been made (a change that a failed attempt had already copied counts as known to the other side).",
  ["fault_sequences", "histories"],
  "For every state, every command, each of the disks involved and every point at which it fills up, including in the middle of a file and during a database write.",
  "No test fills a disk; the outcome depends on the exact write that fails and on how the next sync reads what is left.",
  [FT, FL, IN, RE, PR, CO], [
   ("copying files into place", FT + ":transfer_tree"),
   ("space checks", FL + ":setup_from_local; " + RE + ":ResetCommand.main"),
   ("database transactions", CO + ":SyncDBFile.commit")])

p("C07", "Clients syncing a shared remote at the same time do not harm each other",
  "However the operations of syncs (and of an init beside a sync) by different clients of one remote directory interleave, each of them either completes or, only if it was kept waiting longer than the database timeout, fails with an error, without losing any version of a file that a user has not deleted or replaced, without missing or undoing the other's changes, and without making placeholders or entries for files that do not exist. Once no sync is running, syncing each client twice in turn succeeds and leaves all clients and the remote directory with the merge of everyone's changes; only a file that a killed client was just taking over may come back if it is deleted at that time, or be kept under a conflict name as well.",
  ["schedules", "histories", "fault_sequences"],
  "For every interleaving of two or three concurrently running syncs at the granularity of file system and database operations, including ones in which a client is slow, stalls past the database timeout, or is killed.",
  "Tests run one sync at a time with one client.",
  [S, UD, CO, FL], [
   ("shared database locking", CO + ":SyncDBFile (sqlite transactions)"),
   ("scan, then act", S + ":SyncCommand.main"),
   ("files changed by other clients", UD + ":RemoteDBFile.get_paths(min_lastsync)")])

p("C08", "Only one operation at a time works on a profile",
  "While one init, sync, reset or empty-trash is working on a profile, another one of the same user started for the same profile fails at once with an error without changing anything; operations on different profiles do not disturb each other, and commands that succeed have the same effect as if they had run one after the other. The lock goes away with its holder however that ends, and an operation that starts when no other is running is never refused.",
  ["schedules", "crash_points", "histories"],
  "For every interleaving of two or three commands started on the same or different profiles, with the holder finishing, failing, or being killed at any instant.",
  "Tests never run two commands at once.",
  [CB, IN, S, RE, ET], [
   ("profile lock", CB + ":Command.lock"),
   ("unlock on exit", CB + ":unlock"),
   ("order of reading and locking", CB + ":setup_profile; " + IN + ":InitCommand.main")])

p("C09", "Deleting a placeholder moves the remote file to the trash",
  "With the trash enabled, when the user deletes a placeholder link whose remote file has not changed, the next sync moves that remote file, complete, into the remote trash directory, and it stays there under its own or a numbered name until it is purged: nothing else in the trash is ever overwritten by it. A file that was kept locally in full is removed from the remote directory instead (after an interrupted sync it may also go to the trash), and so is everything when the trash is disabled; a directory deleted as a whole goes to the trash as a whole if a file in it was a placeholder and is removed otherwise.",
  ["histories", "crash_points", "configurations"],
  "For every history of evictions, retrievals, deletions and syncs (interrupted ones included) by one or more clients, equal names in different directories, and every trash setting.",
  "Tests trash one file from a fresh database; whether a file counts as a placeholder depends on flags kept across evictions, retrievals and interrupted syncs.",
  [FL, UD, PR], [
   ("choice between trash and removal", FL + ":compute_deleted"),
   ("moving to the trash without collisions", FL + ":trash_files"),
   ("record of which files are local", FL + ":update_local; zielen/profile.py:_update_local")])

p("C10", "Trash is purged only after its period, and only trash",
  "A file that a sync put into the remote trash is removed by a later sync once it has been there for the configured number of days, not before, whatever its modification time was when it was deleted, its type or its name, and never when the period is negative; empty-trash removes everything in the trash and nothing else. Neither ever fails because of what kind of entry is in the trash (directories, symbolic links, dangling ones, read-only files).",
  ["schedules", "histories", "configurations"],
  "For every time of deletion and sync, every period, and every kind of file that can be put into the trash by a sync or by the user.",
  "Tests never move the clock and put only plain files into the trash.",
  [FL, ET, FT], [
   ("age-based purge", FL + ":cleanup_trash"),
   ("age starts when trashed", FT + ":update_mtime; " + FL + ":trash_files"),
   ("purge on demand", ET + ":EmptyTrashCommand.main")])

p("C11", "Local use stays within the limit, favouring high priority",
  "After a completed sync the disk space that the synced files kept in the local directory take, plus one block for each placeholder and together with the excluded files, does not exceed the storage limit, or what placeholders and excluded files alone take if that is more; if everything fits (counting whole blocks and the directories themselves), everything is kept, and no file is left as a placeholder while it would still fit in the space that remains. Where no file is smaller than a block, a directory is kept as a whole in preference to single files, and among files whose directories are not kept whole, one of higher priority (per byte, if size is taken into account) is never left out while a lower one that takes as much room or more is kept. The choice is the same again if nothing changed.",
  ["histories", "inputs", "configurations"],
  "For every file tree, access history, limit, block size and setting, over repeated syncs in which priorities, sizes and the limit change.",
  "Tests use two or three files with fixed priorities and one sync; the choice depends on priorities built up by the daemon over time and on sizes changed by other clients.",
  [FL, PR, S], [
   ("selection of directories and files", FL + ":prioritize_dirs/prioritize_files"),
   ("eviction and retrieval", FL + ":update_local/compute_stale"),
   ("excluded space", FL + ":get_excluded_size")])

p("C12", "Excluded files stay local and are not synced",
  "A file or directory that matches the client's exclude patterns is never removed or replaced by a placeholder in that client's local directory by init or sync, is changed there at most to take over another client's change of a file that client and remote directory have in common, and is not added to the remote directory by that client. A file in the remote directory that becomes excluded is first copied to the local directory in full, goes on being kept in step while others use it, and is removed from the remote directory only once every client sharing it excludes it as of its last sync and has its copy. Once it is no longer excluded it is synced again like any other file.",
  ["histories", "configurations", "crash_points"],
  "For every pattern set, every history of changes to the patterns and to files on any client, and interrupted syncs.",
  "Tests exclude one file in a fresh profile; removal depends on copies of every client's patterns and on databases written by earlier syncs.",
  [PR, UD, FL, S], [
   ("pattern matching", "zielen/profile.py:ProfileExcludeFile"),
   ("agreement between clients", UD + ":check_excluded/add_exclude_file"),
   ("excluded files in a sync", S + ":SyncCommand.main; " + FL + ":rm_excluded_files/compute_stale")])

p("C13", "Accesses and decay are counted exactly once in priorities",
  "While the daemon runs, each file known at the last sync that is opened or created has its priority raised by one, once for accesses that fall within a second of a counted one, and directories by the sum of what is in them; an access noticed while a sync holds the database is counted once the sync is over, not lost and not counted twice. Every ten minutes all priorities are multiplied once by the factor that halves them in the configured half-life (a daemon killed in between may leave one of these out); new local files start, if so configured, with the highest priority of any file. Accesses of other files and directories change nothing and never stop the daemon.",
  ["schedules", "histories", "configurations"],
  "For every sequence and timing of accesses, daemon wake-ups, syncs running at the same time, database lock conflicts, and restarts of the daemon.",
  "There is no test of the daemon at all; the behaviour is a race between three threads, a timer and other processes.",
  [DA, PR], [
   ("access queue, cooldown, increments", DA + ":Daemon.main"),
   ("decay", DA + ":Daemon._adjust; zielen/profile.py:adjust_all"),
   ("sum over directories", "zielen/profile.py:_update_priority"),
   ("inflation", "zielen/profile.py:add_inflated")])

p("C14", "The daemon keeps syncing on schedule whatever happens",
  "While the daemon runs it starts a sync when the configured interval has passed since its own last attempt, or at its start since the last sync, within a few seconds and never more often, never two at once, and goes on doing so after syncs that fail, are refused because another operation holds the profile, or are killed. The daemon itself keeps running and keeps counting accesses through locked databases, remote failures, a full disk and concurrent syncs of the profile, takes over a changed interval, and stops cleanly when it is told to, leaving a sync in progress to complete.",
  ["schedules", "fault_sequences", "histories"],
  "For every interval, duration and outcome of syncs, failure of the remote directory, and interleaving with syncs started by hand.",
  "There is no test of the daemon.",
  [DA, "zielen/cli.py"], [
   ("sync loop", DA + ":Daemon._sync"),
   ("main loop", DA + ":Daemon.main"),
   ("signal handling", "zielen/cli.py:daemon")])

p("C15", "Profile metadata is never lost, corrupted or rolled back",
  "The profile's record of when it was last synced and last adjusted, its identity and its state is complete and readable at every instant for every other process, whatever is interrupted and whatever disk fills up, and values only ever change to what the command in question means to store: a sync never undoes a priority adjustment, the daemon never undoes the time of a sync, identity and version never change, and the state only moves from begun to initialized to being reset. The time of a sync is stored only once all of its changes to files have been made (so a sync that fails before that leaves it alone), and is not later than the sync's end nor earlier than its start.",
  ["schedules", "crash_points", "fault_sequences"],
  "For every interleaving of the daemon with syncs and other commands of the same profile, and every instant of interruption of either.",
  "Tests use one process and never interrupt it.",
  [PR, CO, DA, S], [
   ("metadata file", CO + ":JSONFile.write; zielen/profile.py:Profile.read/write"),
   ("daemon's read-modify-write", DA + ":Daemon.main/_adjust"),
   ("commit at the end of a sync", S + ":SyncCommand.main")])

p("C16", "Nothing outside the synced directories is ever touched",
  "No command and no daemon creates, changes or deletes anything outside the local directory, the remote directory and the user's program directory, not even through symbolic links inside the local or remote directory, whatever they point to. Symbolic links that are absolute or lead out of the directory (even if back into it) are left alone where they are and neither they nor what would be under them is copied to the other side, and only placeholders and other links into the remote directory are removed by reset; links that stay inside are synced as links, and the file a link points to is never overwritten or removed in place of the link.",
  ["inputs", "histories", "crash_points"],
  "For every arrangement and replacement over time of symbolic links (absolute, relative, dangling, to directories, to files, through placeholders) on either side, and every command, interrupted or not.",
  "Tests have one safe and one unsafe link that never change; links replaced by files and files by links between syncs are not covered.",
  [FT, FL, RE], [
   ("classification of links", FT + ":is_unsafe_symlink"),
   ("copying without following", FT + ":transfer_tree"),
   ("removing placeholders only", RE + ":ResetCommand.main")])

p("C17", "Init makes every file available on both sides or leaves no trace",
  "After a successful init every file of the local directory (or, with an existing remote directory, of the remote one) is in the remote directory complete and reachable under the same name in the local directory, excluded files and links leading out of the directory stay local and untouched, and the profile is listed and can be synced by its name or path. An init refused for invalid arguments, settings or directories (including a local directory that overlaps another profile's or its own remote directory) fails with an error, leaves no profile behind, and does not touch existing files or any existing profile (it may have created missing directories it was given). One that failed or was interrupted later can be completed by running init again with no arguments repeated, what was changed locally meanwhile being on both sides after the next sync, or cancelled with reset.",
  ["inputs", "configurations", "crash_points", "fault_sequences"],
  "For every initial tree, option and template, existing profiles, and every instant of interruption or failure.",
  "Tests run successful and refused inits in a clean home; none is interrupted, resumed or cancelled, or runs beside other profiles.",
  [IN, FL, PR, RE], [
   ("checks, then generation", IN + ":InitCommand.main/_verify_local_dir"),
   ("moving files", FL + ":setup_from_local/setup_from_remote/_setup_dir"),
   ("profile generation", "zielen/profile.py:Profile.generate")])

p("C18", "Reset gives every file back",
  "After a successful reset every file of the remote directory is in the local directory, complete and as a regular file, changes made locally since the last sync included (of a file changed on both sides the newer one has the name and the other a conflict name), no placeholder or temporary file is left, and the profile is gone; the remote directory is then empty except for links leading out of it, or unchanged if it was to be kept. A reset without retrieval only removes the placeholders and the profile. A reset that fails or is interrupted loses no file and can be run again until it completes; other clients' exclude patterns and profiles are unaffected if the remote directory is kept, and the reset client's patterns no longer count there.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "For every state reached by a history of edits and syncs of one or more clients, every option, and every instant of interruption, failure or lack of space.",
  "Tests reset a fresh profile once without failures.",
  [RE, FT], [
   ("retrieval, then removal", RE + ":ResetCommand.main"),
   ("moving files", FT + ":transfer_tree"),
   ("space check", RE + ":ResetCommand.main")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON tidy)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "A saved history version loads back exactly what was saved",
 "Whatever sequence of edits, history saves, loads, switches between documents and program restarts came before, and whatever history options are in force, every history save that reported success can be loaded later, and the loaded document has exactly the contents the document had at the moment of the save: every variable, null and undefined state, list items with their IDs and order, nested lists and references. Saving several versions never changes what an earlier version loads as.",
 ["histories", "inputs", "configurations", "schedules"],
 "every finite sequence of edits/saves/loads/restarts over one or more documents, every data type, every accepted option set (phase count, phase-0 refresh, cumulative limits or none, multi-threaded save/load), every thread schedule",
 "The tests save a handful of fixed documents with one or two option sets and never restart the process between save and load, so the in-memory phase cache hides what is on disk; branches, long cumulative chains and items with many members are not reached.",
 ["dochy_fs/src/imp/history/file_hist/ancestors.rs", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs", "dochy_diff/src/imp/get_diff.rs", "dochy_diff/src/imp/apply_diff.rs", "dochy_core/src/imp/structs/linked_m.rs"],
 [("derive a diff from the recorded base file, or start a new full file", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs"), ("ancestor chain of a file", "dochy_fs/src/imp/history/file_hist/ancestors.rs"), ("diff and its binary encoding", "dochy_diff/src/imp, dochy_compaction/src/enc_dec"), ("phase cache", "dochy_fs/src/imp/history/diff_and_cache")],
 [("tracked base", "which stored file the current document was last saved to or loaded from", "dochy_fs/src/imp/history/current_root_obj_info")],
 ["document contents through the public accessors", "result of save/load"])

prop("C02", "A saved document file loads back exactly what was saved",
 "A document file whose save reported success loads back with exactly the contents the document had when it was saved, in the same process or after any number of restarts. Saving under an existing name replaces the old contents completely when overwriting is requested, and otherwise reports an error and leaves the old file as it was; saving one name never changes another. Saving under or removing one of the names the library uses for its own files is refused with an error and changes nothing.",
 ["histories", "inputs", "schedules"],
 "every sequence of edits, saves (overwriting or not, blocking or not), loads, removals and restarts over any set of names and documents",
 "The tests write one or two files and read them back in the same process; shrinking overwrites, refused overwrites and all value shapes after a restart are not reached.",
 ["dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/filesys/load_dochy_file.rs", "dochy_fs/src/imp/filesys/remove_dochy_file.rs"],
 [("diff against the source defaults", "dochy_fs/src/imp/filesys/save_dochy_file.rs"), ("load through the archived source", "dochy_fs/src/imp/filesys/load_dochy_file.rs")],
 observe=["document contents", "directory listing"])

prop("C03", "A crash never loses or damages an earlier history save",
 "If the process dies at any instant of any history operation, then after a restart every history version whose save had already reported success and was not asked to be removed is still listed and loads with exactly its saved contents. Further saving, listing and loading work after the restart.",
 ["crash_points", "histories", "schedules"],
 "every instant of every operation (between any two system calls of any thread, and inside a write), repeated crashes, every history of saves before it",
 "No test kills the process, so nothing about the on-disk state between two system calls is ever exercised.",
 ["dochy_fs/src/imp/history/fs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs", "dochy_fs/src/imp/history/pub_fn/list_histories.rs"],
 [("new versions go to new files, old files are never rewritten", "dochy_fs/src/imp/history/fs"), ("names tell the ancestor files", "dochy_fs/src/imp/history/file_name")],
 observe=["listing and contents after restart"])

prop("C04", "A crash while saving a document file keeps the old or the new contents",
 "If the process dies at any instant while document files are saved or removed, then after a restart every other file is intact, and a file that was being overwritten loads as either its complete old or its complete new contents. Saving under that name works again after the restart.",
 ["crash_points", "histories", "schedules"],
 "every instant of every operation, including inside a write, for new files and for overwrites",
 "No test kills the process in the middle of a save.",
 ["dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs"],
 [("file replacement on save", "dochy_fs/src/imp/filesys/save_dochy_file.rs")],
 observe=["listing and contents after restart"])

prop("C05", "A failing or full disk during a save is reported and harms nothing",
 "When the operating system refuses a write, file creation, directory creation, rename or read during a save (I/O error, full disk), or transfers only part of the data, the save either still succeeds completely or reports an error to its caller or callback; it never panics, hangs or stops the process. Everything saved before still loads exactly, and as soon as the fault is gone saving the same document works again without a restart.",
 ["fault_sequences", "histories", "schedules"],
 "every sequence of failing/short/interrupted system calls during saves, for histories and document files, blocking and non-blocking",
 "Tests run on a healthy disk; no system call ever fails under them.",
 ["dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs", "dochy_archiver2/src/imp/write_archive.rs"],
 [("error propagation", "dochy_fs/src/error.rs"), ("per-directory lock released on error", "dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs, dochy_fs/src/imp/filesys/dochy_mutex.rs")],
 observe=["returned results", "callback results", "stored contents"])

prop("C06", "An interrupted save leaves a complete version or none at all",
 "After a save was cut short by a crash or by a disk error, every file the listings show can be loaded, and loads as exactly the contents some save call was given; in particular the version reported as newest is usable. A half-written version is never shown as a saved one.",
 ["crash_points", "fault_sequences", "histories"],
 "every crash instant and every failing write of any save, in any history",
 "No test interrupts a save.",
 ["dochy_fs/src/imp/history/fs/write_phase_file.rs", "dochy_fs/src/imp/history/fs/write_phase_0.rs", "dochy_fs/src/imp/filesys/save_dochy_file.rs"],
 [("publishing a file only when complete", "dochy_fs/src/imp/history/fs")],
 observe=["listings", "newest version", "contents"])

prop("C07", "A non-blocking save stores the contents at the call and reports once",
 "A non-blocking save stores the document as it was when the function was called, no matter what the caller does to the document afterwards and how threads are scheduled. Its callback is called exactly once, after the outcome is decided, with the true outcome, and non-blocking history saves of one directory take effect in the order they were requested. The callback may itself list, load and save in the same directory without hanging.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of the caller, background save threads and other callers; with and without disk errors",
 "Tests run one schedule chosen by the OS and mostly sleep until the saves are done.",
 ["dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs", "dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_core/src/imp/structs/root_obj.rs"],
 [("clone before handing over", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs"), ("one-thread queue", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs")],
 observe=["callbacks", "order of listed files", "contents"])

prop("C08", "Save-if-idle is refused exactly while a save is pending, and never lost",
 "For one caller, a save-if-idle request on a history directory is accepted when no earlier operation on that directory is pending, and refused when an accepted non-blocking save has not finished. An accepted request stores the document and calls back exactly once; a refused one stores nothing and never calls back; after the saves finish the directory is reported idle again.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of the caller with the background saver, with and without failing saves",
 "The existing tests see only the schedules where the background thread starts at once.",
 ["dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/history/current_root_obj_info/history_cache_item.rs", "dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs"],
 [("count of queued operations", "dochy_fs/src/imp/history/current_root_obj_info")],
 observe=["return value", "callbacks", "queue count"])

prop("C09", "Concurrent callers never lose, mix up or block each other's saves",
 "When several threads save, load and list in the same and in different directories at the same time, every call returns, every save that reported success is stored under its own name and loads with the contents its caller passed, and no save overwrites another caller's version. Concurrent overwriting saves of one document file leave exactly one caller's complete contents.",
 ["schedules", "histories"],
 "every interleaving of two or more callers and the library's own threads",
 "Two tests start a few threads once; data races and lock-order problems depend on the schedule.",
 ["dochy_fs/src/imp/history/current_root_obj_info", "dochy_fs/src/imp/filesys/save_cache_map.rs", "dochy_fs/src/imp/filesys/dochy_mutex.rs", "dochy_fs/src/imp/common/current_src"],
 [("per-directory mutex", "dochy_fs/src/imp/history/current_root_obj_info/mutex_g.rs"), ("process-wide tables of directories and sources", "dochy_fs/src/imp/common/current_src")],
 observe=["results", "listing", "contents", "termination"])

prop("C10", "Removing old versions never harms the versions that are kept",
 "After asking to keep the latest N versions, or an explicit set of versions, or to remove the directory of one source, while no save is running, each of the versions to be kept is still listed and loads with exactly its saved contents, and keeping none removes all of them. This also holds when the removal is interrupted by a crash or by failing deletions, and saving, listing and loading go on working afterwards, also for documents whose own last version was removed.",
 ["histories", "crash_points", "fault_sequences", "configurations"],
 "every history shape (branches, cumulative chains, several source versions), every N or kept set, every crash point during removal",
 "Tests remove from one or two fixed histories and mostly count files.",
 ["dochy_fs/src/imp/history/remove", "dochy_fs/src/imp/history/file_hist"],
 [("keep a file together with the files it depends on", "dochy_fs/src/imp/history/remove/history_remover.rs")],
 observe=["listing", "contents"])

prop("C11", "Data saved under an old source loads under the current one",
 "After the source definition changed, every earlier history version and document file still loads: modified values of variables that still exist are kept, unmodified ones have their current default, removed variables disappear, added ones have their default, or are undefined if they are marked so, and list items keep their IDs, order and nested lists. A loaded old version can be edited and saved under the new source and then loads back exactly, and the old files stay loadable.",
 ["histories", "inputs", "configurations", "schedules"],
 "every pair of source versions differing by added/removed variables, defaults and lists, every saved document, every sequence of upgrades",
 "The tests convert two or three fixed sources in memory; loading an old history version after an upgrade is not tested at all.",
 ["dochy_core/src/imp/version_adjuster", "dochy_fs/src/imp/filesys/load_dochy_file.rs", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs"],
 [("conversion", "dochy_core/src/imp/version_adjuster"), ("source archive kept beside the saves", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs")],
 observe=["contents after upgrade"])

prop("C12", "Saves always stay readable with the source they were made under",
 "Whatever happens while the first save under a source is made - a crash, a disk error, or an edit of the source files on disk - every save that reports success, then or later, can be read after a restart, also under a newer source. Failing first saves may be repeated until they succeed.",
 ["crash_points", "fault_sequences", "histories"],
 "every crash point and failing call while the per-source directory is prepared, and every moment of editing the source files",
 "Tests prepare the directory once, on a healthy disk, with sources that never change during the run.",
 ["dochy_fs/src/imp/common/path/prepare_hash_dir.rs", "dochy_fs/src/imp/common/current_src", "dochy_archiver2/src/imp/write_archive.rs"],
 [("archived copy of the source in the hash directory", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs")],
 observe=["contents after restart", "contents after upgrade"])

prop("C13", "History listings show exactly the saved versions, in save order",
 "The history listing of a directory contains exactly the versions that were saved and not removed, with the tag each was saved with, in the order of saving within one source version, and the newest one reported is the last one saved under the source used last. Within one source version this does not depend on file timestamps, clock jumps, directory enumeration order or restarts.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of tagged and untagged saves, branches, loads, restarts, clock jumps and enumeration orders",
 "Tests compare a few fixed listings; tagged files are not listed by any test.",
 ["dochy_fs/src/imp/history/file_hist", "dochy_fs/src/imp/history/file_name"],
 [("numbers in the file name", "dochy_fs/src/imp/history/file_name/file_name_props.rs")],
 observe=["listing", "newest", "tags"])

prop("C14", "Stored versions stay within the limits of the options",
 "Loading any history version reads no more stored version files than the history options allow: at most one per phase below the last, plus at most the configured number of cumulative files (one if not cumulative). No version is in a phase behind the last; with update_phase_0 off, a save that continues a saved document does not make a new version of phase 0; with limit_nth n, a version is added to the cumulative phase only while the differences already in it take less space than the n-th largest one among its ancestors. This holds for every sequence of saves, loads, branches and restarts.",
 ["histories", "configurations"],
 "every accepted option set and every history of saves, loads of older versions and restarts",
 "The tests look at file names for one fixed sequence per option set and never count the files read.",
 ["dochy_fs/src/imp/history/algo"],
 [("phase selection", "dochy_fs/src/imp/history/algo/calc_next_phase.rs"), ("ancestor chain", "dochy_fs/src/imp/history/file_hist/ancestors.rs")],
 observe=["version files opened during a load"])

prop("C15", "Copies are independent and list item IDs are never reused",
 "A copy of a document, whether made by the user, by a save or by a load, never changes when another copy is edited, also while background saves are running. In a mutable list an ID once given to an item is never given to another item, across edits, emptying the list, copying, saving, loading and restarts.",
 ["histories", "schedules"],
 "every sequence of edits on several copies interleaved with background saves, loads and restarts",
 "Tests edit one document; aliasing between copies and ID allocation after emptying a list are not covered.",
 ["dochy_core/src/imp/structs/linked_m.rs", "dochy_core/src/imp/structs/root_obj.rs", "dochy_diff/src/imp/apply/apply_list_diff.rs", "dochy_diff/src/imp/apply/diff_to_new_list.rs"],
 [("copy on write", "dochy_core/src/imp/structs"), ("next ID kept with the list", "dochy_core/src/imp/structs/linked_m.rs")],
 observe=["contents of every live copy", "IDs"])

prop("C16", "Unreadable or damaged data gives an error, never a crash or wrong data",
 "When a stored file is truncated or missing, or reading or listing it fails, loading reports an error or gives the exact saved contents; it never panics, hangs, stops the process, or returns other contents, with single- and multi-threaded loading alike. Undamaged versions that do not depend on the damaged file still load, and loading works again once the fault is gone.",
 ["fault_sequences", "schedules", "histories"],
 "every failing/short/interrupted read or open, every truncation point and every missing file, under every schedule",
 "Tests only read back what they just wrote, on a healthy disk.",
 ["dochy_fs/src/imp/common/apply_items.rs", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs", "dochy_fs/src/imp/filesys/load_dochy_file.rs", "dochy_archiver2/src/imp/read_archive.rs", "dochy_compaction/src/enc_dec/decode.rs"],
 [("results passed between loader threads", "dochy_fs/src/imp/common/apply_items.rs"), ("length-checked decoding", "dochy_compaction/src/enc_dec")],
 observe=["results", "termination", "contents"])

prop("C17", "Reading a source gives one result, from files or archive, or an error",
 "Reading one source always gives the same defaults and the same source identity, whatever the thread schedule, the directory enumeration order and the timestamps, and an archive made from it gives the same result as the files. When reading or writing it fails, the call returns an error; it never hangs, panics, stops the process or gives a partial result, and a truncated archive is not accepted.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of reader, parser and hash threads, every enumeration order, every failing or short call, every truncation of the archive",
 "Tests read a few sources once with the schedule of the day on a healthy disk.",
 ["dochy_archiver2/src/imp", "dochy_core/src/imp/json_to_rust/roots"],
 [("ordered collection of parsed files", "dochy_archiver2/src/imp/structs/archiver.rs"), ("hash thread", "dochy_archiver2/src/imp/structs/hash_thread.rs")],
 observe=["defaults", "source identity", "result"])

prop("C18", "Listing, loading and failed saves change nothing that is stored",
 "Listing and loading never create, change or remove any stored file, and a save changes nothing but the one file it saves and, until something is stored there, the per-source directory it prepares. Saved versions stay byte for byte the same until they are overwritten or removed by request, and other directories and the source files are never touched.",
 ["histories", "schedules", "fault_sequences"],
 "every operation in every history, with and without failing system calls",
 "Tests never compare the directory before and after an operation.",
 ["dochy_fs/src/imp/history", "dochy_fs/src/imp/filesys", "dochy_fs/src/imp/common/path"],
 [("one new file per save", "dochy_fs/src/imp/history/fs")],
 observe=["file contents before and after every call"])

prop("C19", "Mutable lists keep their items, order and navigation under every edit",
 "After any sequence of insertions, removals, moves, copies, saves and loads, a mutable list holds exactly the items that were inserted and not removed, in the order asked for, and refused requests change nothing. Walking it with a cursor in either direction, from either end or from any item, and asking for the first, the last, an ID or the length always agree with that order. A copy of a document is reported to have the same contents, and documents that differ in any value, item or item order are not.",
 ["histories", "schedules"],
 "every sequence of list edits, copies, saves and loads on lists and nested lists, with background saves running",
 "Tests make a handful of fixed edits and never walk a list backwards or compare documents that differ.",
 ["dochy_core/src/imp/structs/linked_m.rs", "dochy_core/src/imp/intf", "dochy_core/src/imp/structs/util"],
 [("linked list of raw pointers with copy on write", "dochy_core/src/imp/structs/linked_m.rs")],
 observe=["list contents by walking forwards, backwards and by ID", "result of contents_eq"])

prop("C20", "An archive gives back exactly the files archived, or an error",
 "Archiving a directory takes in exactly the files that the options select by extension and subfolders, with their exact contents, and converts each of them once from its own contents. Writing these to an archive and reading that gives the same paths, contents, converted values and identity, whatever the thread schedule, the directory enumeration order and the sizes of the pieces read and written, and also when several archives are made at the same time; a change of a file changes the identity. When reading or writing fails, the call returns an error; it never hangs, panics, stops the process or gives part of the files, and a truncated archive is not accepted.",
 ["schedules", "fault_sequences", "inputs"],
 "every directory tree and option set, every interleaving of reader, converter, hash and compression threads, every failing, short or interrupted call, every truncation",
 "Tests archive one fixed directory on a healthy disk and read it back once.",
 ["dochy_archiver2/src/imp"],
 [("ordered collection of converted files", "dochy_archiver2/src/imp/structs/archiver.rs"), ("parallel compression collected by path", "dochy_archiver2/src/imp/write_archive.rs")],
 observe=["paths, contents, converted values and identity", "result"])

prop("C21", "Finished operations leave nothing open, running or in use",
 "When an operation of the library and the non-blocking saves it started have ended, whether they succeeded or failed, no file or directory opened by it is still open, and no thread started by it is still there, apart from the worker threads shared by all operations and one thread per history directory. Doing the same operation again and again - listing, loading, saving with or without waiting, removing, reading and archiving sources, copying and editing documents - does not need more memory or more threads each time, also when it fails each time.",
 ["schedules", "fault_sequences", "inputs"],
 "every operation, every failing call in it, every interleaving of the threads it uses, any number of repetitions",
 "Tests run each operation once or twice on a healthy disk and do not look at what is left afterwards.",
 ["dochy_fs/src/imp", "dochy_core/src/imp", "dochy_archiver2/src/imp"],
 [("threads that end when their channel is closed", "dochy_archiver2/src/imp/structs/hash_thread.rs"), ("bounded cache of versions", "dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs"), ("one thread per history directory", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs")],
 observe=["open files and directories", "threads that have not ended", "memory in use"])

prop("C22", "Listing document files shows each of them once, oldest first",
 "Listing the document files of a directory gives every file that was saved and not removed exactly once, with its name, its source, its size and the time of its last save, ordered by that time over all sources, the oldest first; the path calculated from an entry is where that file is. Files with the same name under different sources are all listed. The files the library keeps for itself and leftovers of interrupted saves are not listed. The directory enumeration order, restarts, crashes, clock jumps and saves going on at the same time do not change that, and when a directory cannot be read the call returns an error instead of leaving files out.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of saves, overwrites, removals and source changes, every enumeration order, every crash, every failing call that opens or reads a directory",
 "Tests list a directory with a few files of one source on a healthy disk and do not look at sizes or times.",
 ["dochy_fs/src/imp/common/list", "dochy_fs/src/imp/filesys"],
 [("iterator over the directories of all sources", "dochy_fs/src/imp/common/list/list_files_iterator.rs")],
 observe=["listed names, sources, sizes, times and paths", "result"])

prop("N01", "Source text is parsed according to the JSON5-based source language",
 "Every source text is parsed to the values the source language defines, or rejected with an error.",
 ["inputs"], "every source text", "Tests parse a fixed set of texts.",
 ["dochy_json5/src", "dochy_core/src/imp/json_to_rust"], [("pest grammar", "dochy_json5/src")])
prop("N02", "Generated accessor code reads and writes the variable it is named after",
 "For every source, the generated accessor code compiles and each accessor reads or writes exactly the variable it is named after.",
 ["inputs", "programs"], "every source", "Tests use fixed generated accessors.",
 ["dochy_intf/src"], [("code generator", "dochy_intf/src/imp")])
prop("N03", "Decoding inverts encoding for every storable value",
 "For every value sequence, the compact binary decoder returns exactly what the encoder was given.",
 ["inputs"], "every value sequence", "Tests try chosen and a few random values.",
 ["dochy_compaction/src"], [("encoder and decoder", "dochy_compaction/src/enc_dec")])
prop("N04", "Converting a document to source text and back keeps its contents",
 "Printing a document as source text and reading that text gives a document with the same contents.",
 ["inputs"], "every document", "Tests convert fixed documents.",
 ["dochy_core/src/imp/rust_to_json"], [("printer", "dochy_core/src/imp/rust_to_json")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

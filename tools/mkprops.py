#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HF = "dochy_fs/src/imp/history/"
# ---------------------------------------------------------------- history
prop("H01", "Every history file loads back exactly the document that was saved",
 "For every history file that a save reported and that has not been removed, loading it returns a document equal to the one passed to that save: same values, nulls and undefineds, same list items in the same order with the same ids, same references. This holds whatever saves, loads, branches from older files, new starts, process restarts and prunings happened before or since. It holds for every valid combination of history options, including single- and multi-threaded saving and loading.",
 ["histories", "configurations"], "every interleaving of edit / save / load-old-and-branch / start-new / restart / prune, for every valid HistoryOptions value",
 "The tests in dochy_test/fs_test run one straight-line script with default options (the dochy_fs unit tests do not even compile at this commit); branch shapes, phase shifts after a branch and cache hits after a branch are never reached.",
 [HF+"pub_fn/save_history_file.rs", HF+"pub_fn/load_history_file.rs", HF+"fs/derive_impl.rs", HF+"file_hist/ancestors.rs", HF+"diff_and_cache/dochy_cache.rs", "dochy_fs/src/imp/common/apply_items.rs"],
 [("derive the next diff file", HF+"fs/derive_impl.rs:16"), ("ancestor chain", HF+"file_hist/ancestors.rs:95"), ("phase cache lookup", HF+"diff_and_cache/dochy_cache.rs:116"), ("multi-threaded apply", "dochy_fs/src/imp/common/apply_items.rs:24")],
 "load_history_file / load_history_file_data results after each step",
 state=[("history files", "set of (control, order, prev_ctl, tag) with the diff each holds", "names in the hash directory"), ("phase cache", "document per phase reused on save", HF+"diff_and_cache/dochy_cache.rs:14"), ("current root", "which document object is based on which file", HF+"current_root_obj_info/current_root_obj_info.rs:5")])
prop("H02", "History listings show exactly the saved files in save order, newest last",
 "Listing a history directory shows exactly the files that saves reported and that were not removed, each once, in the order in which they were saved (grouped by source version in the order the versions first appeared), with the tag the user gave. The newest file is the last one of this listing. No save ever reuses the name of an existing file, and names can be converted to metadata and back without change.",
 ["histories", "configurations", "inputs"], "every save/branch/new-start/prune sequence, every tag, unrelated files and folders in the directory",
 "Tests list a handful of untagged files after a straight-line script; branched orders, tags and unrelated directory entries never occur.",
 [HF+"file_hist/file_history.rs", HF+"file_hist/file_history_item.rs", HF+"file_hist/file_histories.rs", HF+"file_name/analyze_file_name.rs", HF+"file_name/calc_filename.rs", HF+"remove/btree_zipper.rs", "dochy_fs/src/imp/common/path/get_hash_times.rs", "dochy_fs/src/imp/common/path/hash.rs"],
 [("chronological flatten", HF+"file_hist/file_history_item.rs:68"), ("newest file", HF+"file_hist/file_history_item.rs:50"), ("file name parser", HF+"file_name/analyze_file_name.rs:47")],
 "list_histories, FileHistory::list_files, FileHistories::list_files/get_newest_file_data, FileNameProps::from")
prop("H03", "Pruning a history keeps the latest N files and everything they need",
 "Removing old files while keeping the latest N leaves every one of the latest N files loadable with its original content, and the same holds for files kept explicitly. When the kept files are only part of the newest source version, files that none of them depend on are removed; older source versions are removed only as a whole and only when none of their files is kept. Foreign files and other versions are never damaged in a way that makes a kept file unloadable. Saving continues to work after pruning.",
 ["histories", "configurations"], "every reachable history shape (phase shifts, branches, cumulative runs) x every N and every explicit keep set",
 "No test prunes a branched or phase-shifted history and reloads the survivors.",
 [HF+"remove/history_remover.rs", HF+"remove/history_remover_item.rs", HF+"remove/composite_remover.rs", HF+"file_hist/file_history.rs", HF+"file_hist/file_histories.rs"],
 [("keep chain", HF+"remove/history_remover_item.rs:48"), ("tree of removable items", HF+"remove/composite_remover.rs:7"), ("cross-version pruning", HF+"file_hist/file_histories.rs:47")],
 "directory contents and load results after remove_old_files / HistoryRemover::remove")
prop("H04", "Background history saves are FIFO snapshots with exactly one callback each",
 "Documents passed to the non-blocking save are written in call order, each file holding the document as it was at the call even if it is edited immediately afterwards, and every call gets exactly one callback with its own result. A sequence of non-blocking saves yields the same files as the same sequence of blocking saves. The save-if-vacant form accepts a save only when no earlier save for that directory is still queued or running, and then saves it.",
 ["schedules", "histories"], "every interleaving of the calling thread(s), the saver thread and edits between calls",
 "One test calls the non-blocking save and waits; it never edits during a pending save, queues several saves, or checks vacancy under a busy saver.",
 [HF+"pub_fn/save_history_file.rs", HF+"current_root_obj_info/fifo_thread.rs", HF+"current_root_obj_info/mutex_g.rs", HF+"current_root_obj_info/history_cache_map.rs"],
 [("FIFO worker", HF+"current_root_obj_info/fifo_thread.rs:14"), ("queued counter", HF+"current_root_obj_info/mutex_g.rs:15"), ("vacancy test", HF+"pub_fn/save_history_file.rs:63")],
 "callback order and results, file contents, return value of save_history_file_nb_if_vacant")
prop("H05", "A crash during a history save never damages saved files or later saves",
 "If the process dies at any point during a history save, every history file saved earlier still loads with its original content and the interrupted save either appears complete or does not appear at all. A new process can list, load and continue saving in the same directory, and the source archive kept beside the files is complete so that later source versions can still read them.",
 ["crash_points", "histories"], "every system-call boundary and every partial write of a save, for first saves, derived saves and saves with a new source version",
 "No test kills the process; the existing tests only ever see completed saves.",
 [HF+"fs/write_phase_file.rs", HF+"fs/derive_impl.rs", HF+"fs/write_phase_0.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs", "dochy_fs/src/imp/common/path/created_time_file.rs"],
 [("history file write", HF+"fs/write_phase_file.rs:6"), ("archive creation", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs:11")],
 "directory contents after the crash; list/load/save in a new process")
prop("H06", "A failing save reports an error and leaves the history as it was",
 "When any file-system operation of a history save fails (no space, I/O error, permission), the save returns an error instead of success or a panic, all earlier history files still load unchanged and no partial file is listed. The same process can then retry the save successfully once the fault is gone, also with the same document object.",
 ["fault_sequences", "histories"], "every single failing file-system operation in a save, and repeated failures, followed by retries",
 "No test injects I/O errors.",
 [HF+"fs/write_phase_file.rs", HF+"fs/derive_impl.rs", HF+"pub_fn/save_history_file.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs", "dochy_fs/src/imp/common/apply_items.rs"],
 [("error propagation in derive", HF+"fs/derive_impl.rs:39"), ("threads in multi-threaded apply", "dochy_fs/src/imp/common/apply_items.rs:33")],
 "return values, directory contents, later loads and saves")
prop("H07", "Histories written under older sources stay listed and load converted",
 "After the source definition changes, every history file written under an older source is still listed and loads as that document converted to the current source by the documented conversion rules, even when files of different sources carry the same name. This also holds when the history options were changed together with the source. Saving under the new source does not alter the old files, and a document loaded from an old-source file is saved as a new start of the current source's history. When the source files are edited while the program runs, a save is refused or is stored with the source the document belongs to.",
 ["histories", "configurations"], "every sequence of source versions with saves/loads/branches in each",
 "The only cross-version history test loads the current source's files.",
 [HF+"pub_fn/load_history_file.rs", HF+"pub_fn/list_histories.rs", HF+"diff_and_cache/dochy_cache.rs", "dochy_core/src/imp/version_adjuster/version_adjuster.rs"],
 [("load by source version", HF+"pub_fn/load_history_file.rs:37"), ("root of an older source", HF+"diff_and_cache/dochy_cache.rs:25")],
 "load_history_file_data for files of every source version")
prop("H08", "History files are placed by the documented phase and cumulative rules",
 "Each derived save goes to the phase that the documented rule gives for the sizes of the files so far: deeper until the maximum phase, then staying at the maximum phase unless the average-size rule or a cumulative limit moves it up. Where a shallower phase is allowed, the number of files in one cumulative run never exceeds the count limit and a run stops growing once its total size reaches the n-th largest ancestor file, phase 0 is rewritten only when allowed, and no phase above the maximum is created. Every valid option value works without failing.",
 ["histories", "configurations"], "every option value accepted by the builder x every sequence of save sizes and branches",
 "Tests use one or two option values and check no placement after branching or limits.",
 [HF+"algo/calc_next_phase.rs", HF+"algo/should_shift_to_parent_phase.rs", HF+"algo/phase_data.rs", HF+"algo/phase_data_item.rs", HF+"file_hist/ancestors.rs", HF+"algo/history_options.rs"],
 [("next phase", HF+"algo/calc_next_phase.rs:6"), ("size bookkeeping", HF+"algo/phase_data.rs:18"), ("next name", HF+"file_hist/ancestors.rs:55")],
 "names of the files produced and their sizes on disk")
prop("H09", "Concurrent history saves and loads act one at a time",
 "When several threads save, load and list in the same history directory at once, every save succeeds with its own distinct file holding exactly that thread's document, every load returns some completely saved document, and the outcome equals running the operations in some sequential order consistent with real time. Different history directories do not influence each other.",
 ["schedules", "histories"], "every interleaving of concurrent save/load/list/non-blocking calls on one or more directories",
 "No test runs two history operations concurrently.",
 [HF+"current_root_obj_info/history_cache_map.rs", HF+"current_root_obj_info/history_cache_item.rs", HF+"pub_fn/save_history_file.rs", HF+"pub_fn/load_history_file.rs"],
 [("per-directory lock", HF+"current_root_obj_info/history_cache_map.rs:77")],
 "results of concurrent calls and final directory contents")
# ---------------------------------------------------------------- filesys
FF = "dochy_fs/src/imp/filesys/"
prop("F01", "A save directory behaves as a map from file names to documents",
 "Saving a document under a name and loading that file returns an equal document until the name is overwritten or removed; saving to an existing name without the overwrite flag fails and changes nothing. Listing shows exactly the existing saved files with their source version, oldest modification first, and removing a file affects only that file. Saves and removals of one file never affect another.",
 ["histories", "inputs"], "every sequence of save / overwrite / load / list / remove / restart over several names and documents",
 "The tests save one file and load it once.",
 [FF+"save_dochy_file.rs", FF+"load_dochy_file.rs", FF+"remove_dochy_file.rs", "dochy_fs/src/imp/common/list/list_files.rs", "dochy_fs/src/imp/common/list/list_files_iterator.rs"],
 [("save", FF+"save_dochy_file.rs:13"), ("load", FF+"load_dochy_file.rs:11"), ("list", "dochy_fs/src/imp/common/list/list_files.rs:9")],
 "return values and directory listings")
prop("F02", "A crash during a file save keeps the old or the new content, never neither",
 "If the process dies at any point while saving a file, a file of that name loads afterwards either with the content it had before or with the new content (or is absent if it did not exist before), and every other file is unaffected. A later process can save and load in the same directory, and the archived source beside the files is complete or absent, never partial.",
 ["crash_points"], "every system-call boundary and partial write in a first save, a new-name save and an overwrite",
 "No test kills the process.",
 [FF+"save_dochy_file.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs"],
 [("write of the file", FF+"save_dochy_file.rs:27"), ("archive creation", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs:11")],
 "directory contents after the crash; list/load/save in a new process")
prop("F03", "A failing file save reports an error and changes no stored document",
 "When any file-system operation of a file save fails, the call returns an error (no success, no panic), the file being overwritten still loads with its old content, a new name does not appear in the list, and other files are unaffected. Once the fault is gone the same call succeeds in the same process.",
 ["fault_sequences"], "every single failing file-system operation in a first save, a new-name save and an overwrite",
 "No test injects I/O errors.",
 [FF+"save_dochy_file.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs"],
 [("write of the file", FF+"save_dochy_file.rs:27")], "return values, later loads and lists")
prop("F04", "Files saved under an older source load converted to the current source",
 "After the source definition changes, every file saved under an older source is still listed and loads as that document converted to the current source by the documented rules, while files saved under the current source load unchanged. Equal names under different sources do not interfere. Opening the directory with another source in the same process is refused or uses that source. When the source files are edited while the program runs, a save is refused or is stored with the source the document belongs to.",
 ["histories", "configurations"], "every sequence of source versions with saves in each, source given as directory or archive",
 "One manual test converts one file between two fixed sources.",
 [FF+"load_dochy_file.rs", FF+"save_cache_map.rs", "dochy_core/src/imp/version_adjuster/version_adjuster.rs"],
 [("load by source version", FF+"load_dochy_file.rs:26")], "load_dochy_file for files of every version")
prop("F05", "Concurrent file saves each take full effect exactly once",
 "When several blocking and non-blocking file saves run at once, every call ends with exactly one result, each saved file holds exactly the document passed at its call (the snapshot at call time), and of several saves to the same new name without overwrite exactly one succeeds. The outcome equals some sequential order of the calls.",
 ["schedules"], "every interleaving of concurrent saves, edits after the call, loads and lists",
 "Tests run one non-blocking save at a time.",
 [FF+"save_dochy_file.rs", FF+"save_cache_map.rs", FF+"dochy_mutex.rs"],
 [("per-directory lock", FF+"save_cache_map.rs:45"), ("non-blocking save", FF+"save_dochy_file.rs:36")],
 "callback results and final contents")
prop("F06", "Bookkeeping files cannot be saved over, removed or listed by name",
 "No save or remove call can overwrite or delete the bookkeeping files that a save directory keeps beside the documents, and listings never show them. Such calls fail and leave every stored document loadable under later source versions.",
 ["inputs", "histories"], "every file name passed to save/remove including the reserved ones, before and after the directory exists",
 "No test uses a reserved name.",
 [FF+"save_dochy_file.rs", FF+"remove_dochy_file.rs", "dochy_fs/src/imp/common/path/reserved_filename.rs", "dochy_fs/src/imp/common/list/list_files.rs"],
 [("reserved names", "dochy_fs/src/imp/common/path/reserved_filename.rs:10")], "return values and later loads")
# ---------------------------------------------------------------- documents
CI = "dochy_core/src/imp/intf/"
CS = "dochy_core/src/imp/structs/"
prop("D01", "Reading a value returns the last value written, or the source's default",
 "For every parameter of the document and of list items, reading returns the value last written to that parameter (including null and undefined where the type allows them), or the source's default if it was never written, and the initial value can always still be read. Writing one parameter changes no other parameter, list or reference. Constant lists and tables always read as the source defines them.",
 ["programs", "inputs"], "every sequence of reads/writes over every member kind and nullability, at the root and in nested list items",
 "Tests check a few literal writes on fixed members; the frame (what must not change) is never checked.",
 [CI+"root.rs", CI+"mitem.rs", CI+"citem.rs", CI+"table.rs", CS+"root_obj.rs", CS+"util/set_sabun.rs"],
 [("root setters/getters", CI+"root.rs"), ("item setters/getters", CI+"mitem.rs"), ("write check", CS+"util/set_sabun.rs")],
 "full dump of the document through getters after every step")
prop("D02", "Copies of a document are independent of each other",
 "After a document is copied, any sequence of edits to one copy (values, list insertions, removals, moves, nested items, references) is invisible in every other copy, and dropping a copy never affects the others. Copies of copies behave the same.",
 ["programs", "schedules"], "every sequence of copy/edit/drop over several copies, also across threads",
 "Tests copy once and edit one value.",
 [CS+"root_obj.rs", CS+"linked_m.rs", CS+"mut_list_def.rs", CI+"mlist_mut.rs"],
 [("copy on write", CS+"root_obj.rs"), ("list clone", CS+"linked_m.rs")],
 "full dumps of all live copies after every step")
prop("D03", "Mutable lists keep exactly the requested order under every edit",
 "After any sequence of inserting first/last, removing, and moving items first, last, before or after another item, iterating the list forwards gives exactly the items in the requested order, iterating backwards gives the reverse, and lookup by id, first, last and length agree with that order. Operations with unknown ids report failure and change nothing.",
 ["programs"], "every sequence of list edits, at the root and in nested lists, on fresh, copied and reloaded documents",
 "Tests exercise short fixed sequences; the pointer-linked list has many neighbour cases (ends, adjacent, self) they never combine.",
 [CS+"linked_m.rs", CS+"linked_map_iter.rs", CS+"linked_map_iter_mut.rs", CS+"linked_map_unsafe_iter.rs", CI+"mlist_mut.rs", CI+"mlist_const.rs", CI+"mlist_ptr.rs"],
 [("linked map moves", CS+"linked_m.rs"), ("iterators", CS+"linked_map_unsafe_iter.rs")],
 "ids by forward/backward iteration, get by id, first/last/len")
prop("D04", "A list never gives the same id to two items, not even after removal",
 "The id given to an inserted item is larger than every id the list has ever given or was defined with, so an id of a removed item is never given again. This holds across copies, saves and loads, diffs and lists that became empty.",
 ["programs", "histories"], "every sequence of insert/remove/clear/copy/save/load/diff over lists with initial items and explicit ids",
 "Tests never insert after emptying a list or after a reload.",
 [CS+"linked_m.rs", CI+"mlist_mut.rs", "dochy_diff/src/imp/get_diff.rs", "dochy_diff/src/imp/apply_diff.rs", "dochy_core/src/imp/json_to_rust"],
 [("id counter", CS+"linked_m.rs"), ("counter in diffs", "dochy_diff/src/imp/apply_diff.rs")],
 "ids returned by insertions after each history")
prop("D05", "References always name existing table rows and enums one variant",
 "A reference reads back the row it was last set to, or its default; setting a reference to a row or table that does not exist fails and changes nothing. An enum-like group of references has at most one active variant: the one last set (a freshly inserted item has none until it is set).",
 ["programs", "inputs"], "every sequence of set/get on references and enum groups in mutable items, also across copies, saves and loads",
 "Tests set one reference once.",
 [CI+"mitem.rs", CI+"ref_desc.rs", CS+"ref_value.rs", CS+"ref_def_obj.rs", CS+"util/set_sabun.rs"],
 [("set_ref / set_enum", CI+"mitem.rs")], "get_ref, get_ref_id, get_enum after every step")
prop("D06", "Writes of a wrong type or forbidden null are rejected without effect",
 "Writing a value of another type, an unknown name, a null where null is not allowed or an undefined where undefined is not allowed returns an error, and the document is exactly as it was before. Writes of allowed values never fail.",
 ["inputs", "programs"], "every member kind x every value kind x every nullability, at the root and in items",
 "Tests do not attempt rejected writes.",
 [CS+"util/set_sabun.rs", CI+"root.rs", CI+"mitem.rs", CS+"var_type.rs"],
 [("acceptance rule", CS+"util/set_sabun.rs")], "return value and full dump after every attempt")
prop("D07", "Comparing documents never calls different documents equal",
 "Comparing two documents of one source says equal only when they really are equal: same values and nulls, same items in the same order at every level, same next ids, same references. A copy that was not changed since it was taken always compares equal to its original.",
 ["programs", "inputs"], "every pair of copies reachable by edits on either of them",
 "Tests compare documents only after value changes.",
 [CS+"root_obj.rs", CS+"util/identity_equal_trait.rs", CS+"rust_list.rs", CS+"rust_param.rs", CS+"rust_array.rs", CS+"list_sab_value.rs"],
 [("comparison", CS+"util/identity_equal_trait.rs")], "contents_eq of every pair of copies after every step")
# ---------------------------------------------------------------- diff
prop("S01", "Applying the difference of two documents reproduces the second exactly",
 "For any document a and any document b obtained from it by edits, computing the difference from a to b and applying it to a gives a document equal to b: every value, null and undefined, the presence and order of list items at every nesting level, ids, the next id to be given, and references. Applying it also through the prepared (multi-threaded) path gives the same document, and the difference of equal documents changes nothing.",
 ["inputs", "programs"], "every pair of documents reachable by edits from a common source",
 "Tests compare a few fixed pairs; reorderings, removals of references, emptied nested lists and undefined lists never appear.",
 ["dochy_diff/src/imp/get_diff.rs", "dochy_diff/src/imp/prepare/get_mlist_diff.rs", "dochy_diff/src/imp/apply_diff.rs", "dochy_diff/src/imp"],
 [("difference", "dochy_diff/src/imp/get_diff.rs"), ("apply", "dochy_diff/src/imp/apply_diff.rs")],
 "full dump of the patched document against b")
prop("S02", "Differences compose along any chain of edits",
 "Starting from the source document and applying the successive differences of any edit history in order reproduces each intermediate document exactly, no matter how the history is cut into differences.",
 ["histories", "programs"], "every edit history and every way of cutting it into consecutive differences",
 "Tests apply at most two differences in a row.",
 ["dochy_diff/src/imp/get_diff.rs", "dochy_diff/src/imp/apply_diff.rs", "dochy_fs/src/imp/common/apply_items.rs"],
 [("apply", "dochy_diff/src/imp/apply_diff.rs")], "full dump after each applied difference")
prop("S03", "Saving works for sources with any number of members",
 "Differences round-trip for sources with any number of members, whichever subset of members changed, at the root and inside list items, for lists with any number of items and ids of any size. The number and position of the changed members never matters.",
 ["inputs", "configurations"], "every number of members (1..several hundred) x every subset of changed members x member kinds",
 "Tests use sources with fewer than ten members, so only one of the id encodings is reached.",
 ["dochy_diff/src/imp", "dochy_core/src/imp/structs/meta_table.rs"],
 [("stored ids of changed members", "dochy_diff/src/imp"), ("member table", "dochy_core/src/imp/structs/meta_table.rs")],
 "round trip of differences over generated sources")
prop("S04", "The binary value encoding is exact, self-delimiting and canonical",
 "Encoding any sequence of values and decoding it returns exactly the same sequence and consumes exactly the bytes that were written, so that data following it is left untouched. Equal sequences encode to equal bytes, and the bytes are those of the documented format, so data written earlier stays readable. The compact forms chosen for integers, floats and strings convert back to exactly the original.",
 ["inputs"], "every sequence of values of every kind, at every size boundary",
 "Tests encode a few fixed lists; boundary lengths of strings, blobs, integers and bit runs are not enumerated.",
 ["dochy_compaction/src/enc_dec", "dochy_compaction/src/kval_enum.rs", "dochy_compaction/src/basic_compaction.rs"],
 [("encode", "dochy_compaction/src/enc_dec/encode.rs"), ("decode", "dochy_compaction/src/enc_dec/decode.rs"), ("variable-length integers", "dochy_compaction/src/enc_dec/var_int.rs")],
 "bytes and decoded values")
prop("S05", "Incomplete saved data is reported as an error, never as a document",
 "Loading or applying any proper prefix of a saved file, difference or source archive returns an error; it never panics, aborts the process, or yields a document. The document being loaded into and all other files remain usable.",
 ["inputs", "fault_sequences"], "every truncation point of every kind of stored data, single- and multi-threaded loading",
 "No test truncates stored data.",
 ["dochy_compaction/src/enc_dec/decode.rs", "dochy_diff/src/imp/apply_diff.rs", "dochy_fs/src/imp/common/apply_items.rs", "dochy_archiver2/src/imp/read_archive.rs"],
 [("decode", "dochy_compaction/src/enc_dec/decode.rs"), ("multi-threaded apply", "dochy_fs/src/imp/common/apply_items.rs:24"), ("archive reader", "dochy_archiver2/src/imp/read_archive.rs")],
 "return value of every load of a truncated file")
prop("S06", "Text encodings of binary and string data round-trip",
 "Converting bytes to the URL-safe text form and back returns the same bytes, using only URL-safe characters (A-Z, a-z, 0-9, - and _ stand for 0 to 63), for every byte sequence; text with other characters is refused. Compressing a list of strings and decompressing it returns the same strings, whatever the strings look like (numbers, dates, signs, leading zeros, empty, non-ASCII).",
 ["inputs"], "every byte sequence and every list of strings",
 "Tests use a few well-behaved literals.",
 ["dochy_compaction/src/url_string", "dochy_compaction/src/string_compaction.rs"],
 [("6-bit packing", "dochy_compaction/src/url_string/mod.rs"), ("string classification", "dochy_compaction/src/string_compaction.rs")],
 "round-trip results")
# ---------------------------------------------------------------- versions
VA = "dochy_core/src/imp/version_adjuster/"
prop("V01", "Converting a document to a changed source follows the documented rules",
 "A document of an old source converted to a new source has exactly the new source's members: values the user set under the old source are kept where the member still exists with the same type, unset values take the new default, removed members disappear, new members take their default or undefined if they may be undefined. Mutable lists keep the old items with ids, order and nested lists (converted by the same rules at every level) and drop the new source's initial items; constant lists and tables come from the new source.",
 ["inputs", "programs", "configurations"], "every pair of sources x every document of the old source",
 "The manual has a handful of fixed pairs without nesting.",
 [VA+"version_adjuster.rs", VA],
 [("conversion", VA+"version_adjuster.rs")], "full dump of the converted document")
prop("V02", "Validated conversion gives a valid document or an error; same source: identity",
 "Converting with validation either returns an error or a document in which every value has the type and nullability the new source declares, every reference names an existing row and enums have one variant; it never panics. Converting a document to an identical source returns an equal document, and a converted document can be saved and loaded under the new source.",
 ["inputs", "configurations"], "every pair of sources including type changes and narrowed nullability x every document",
 "Tests never convert across type changes.",
 [VA+"version_adjuster.rs", "dochy_core/src/imp/json_to_rust/validation"],
 [("conversion", VA+"version_adjuster.rs"), ("validation", "dochy_core/src/imp/json_to_rust/validation")], "result of adjust_versions with validation, then save/load")
# ---------------------------------------------------------------- sources
JR = "dochy_core/src/imp/json_to_rust/"
prop("J01", "A document printed as source text reads back with the same values",
 "Printing a document as source text and reading that text as a source gives a document with the same values for every printed member: numbers, strings of any content, booleans, arrays, nulls and undefineds, list items in order with their ids and references. The re-read document declares the same members, with their types, marks and what is out of use, except that lists lose the mark that lets them be undefined. Printing the re-read document gives the same text.",
 ["inputs", "programs"], "every document over every member kind and value",
 "Tests print documents and compare with a literal or not at all.",
 ["dochy_core/src/imp/rust_to_json", "dochy_core/src/imp/structs/my_json.rs", JR],
 [("printer", "dochy_core/src/imp/structs/my_json.rs"), ("document to text", "dochy_core/src/imp/rust_to_json/root_to_json.rs")],
 "full dump of the re-read document")
prop("J02", "One source read as directory, split files or archive gives the same document",
 "A source directory, its archive, and an archive written and read back give equal documents and the same source hash; the hash depends only on the names and contents of the source files, and changing, adding, removing or renaming one changes it. A directory without a root file, with a source file without text, or with one whose name no member can have is refused. Moving a root member into its own file gives an equal document.",
 ["inputs", "configurations"], "every source, every way of splitting it into files, presence of unrelated files",
 "Tests archive one fixed directory.",
 ["dochy_archiver2/src/imp", JR+"roots", "dochy_core/src/lib.rs"],
 [("archive writer/reader", "dochy_archiver2/src/imp/write_archive.rs"), ("directory reader", "dochy_archiver2/src/imp/read_archive_data_from_directory.rs")],
 "dumps and hashes of the documents read each way")
prop("J03", "Malformed sources are rejected with an error, never a panic or wrong data",
 "A source that defines a member twice, gives two items the same id, declares a next id that collides with an item, refers to a missing table row or uses a null or undefined where not allowed is rejected with an error; it never panics and never silently drops or mixes up data. Every well-formed source is accepted with exactly the values written in it.",
 ["inputs"], "every source built from well-formed members plus any single listed defect, with and without validation",
 "Tests read well-formed sources plus very few broken ones.",
 [JR, "dochy_core/src/imp/json_to_rust/validation"],
 [("source reader", JR+"construct_root.rs"), ("validation", "dochy_core/src/imp/json_to_rust/validation")],
 "result of reading the source")
prop("J04", "Source text values are read exactly as JSON5 defines them",
 "Every number, string, boolean, null, array and object written in JSON5 syntax (hexadecimal, signs, exponents, infinities, all escapes, comments, trailing commas, unquoted and quoted keys) is read as exactly the value JSON5 gives it, and text that is not JSON5 is rejected with an error. No input makes the reader panic.",
 ["inputs"], "every JSON5 value text generated from the grammar, and single-character corruptions of it",
 "Tests parse a few fixed texts.",
 ["dochy_json5/src/de.rs", "dochy_json5/src/json5.pest", "dochy_json5/src/deserialize_item.rs"],
 [("parser", "dochy_json5/src/de.rs")], "parsed values")
# ---------------------------------------------------------------- generated interfaces
prop("G01", "The generated Rust interface compiles and offers what the source declares",
 "For every source whose names give distinct Rust names that are no keywords, the generated interface compiles without help and has, for every member, list, table, row, reference and enum, the documented functions with the type and nullability the source declares; old ones carry _old or Old in their names.",
 ["inputs", "configurations"], "every source: member kinds x nullability x places x spellings of names x old markers",
 "The tests generate interfaces of a few fixed sources and compare nothing.",
 ["dochy_intf/src/imp", "dochy_core/src/imp/intf/member_desc.rs", "dochy_core/src/imp/intf/ref_desc.rs"],
 [("names", "dochy_intf/src/imp/util/to_type_name.rs"), ("members", "dochy_intf/src/imp/structs/param_source.rs"), ("tables", "dochy_intf/src/imp/structs/table_source.rs"), ("references", "dochy_intf/src/imp/structs/refs_source.rs")],
 "the Rust compiler's verdict on the interface and on typed uses of every function")
prop("G02", "Generated accessors read and write exactly the member they are named after",
 "Reading through the generated functions gives the document's values, defaults, list items and referenced rows; writing through them changes exactly the member, list or reference the function is named after, as the same write through the untyped functions would. The id types of a table map each row to its name, its number and back without mixing rows up.",
 ["programs", "inputs", "configurations"], "every source x every sequence of typed reads and writes",
 "The tests call a few generated functions of two fixed sources.",
 ["dochy_intf/src/imp/structs", "dochy_core/src/imp/intf"],
 [("members", "dochy_intf/src/imp/structs/param_source.rs"), ("tables", "dochy_intf/src/imp/structs/table_source.rs"), ("references", "dochy_intf/src/imp/structs/ref_source.rs"), ("enums", "dochy_intf/src/imp/structs/refs_source.rs")],
 "full dump of the document through the generated functions after every call")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

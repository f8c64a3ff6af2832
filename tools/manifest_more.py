SAVE = ("TLA+ specifications DocSave/Diff over DocEdit checked by TLC; behaviours replayed in the real code: after every commit the "
        "difference is computed, applied plainly and prepared, and the whole document compared")
add("D07", DOC, "model_checking", base + "Every pair of live documents is compared with identity_eq/contents_eq and the specification's equality.")
add("S01", SAVE, "model_checking", base + "All list edits up to depth 3 on a small list; random programs for values, references and nested lists.")
add("S02", SAVE, "model_checking", base + "Chains of up to as many differences as the program commits, applied one by one, composed and cut at every point.")
add("S03", "TLA+ specification StoreIds (stored form of changed member sets) checked by TLC for all subsets with scaled words; boundary sets "
    "enumerated with the real constants and replayed in wide generated sources; DocSave behaviours replayed with shifted ids", "model_checking",
    "Sources of 1..290 members (quick) or 1500 (thorough); ids up to 2^62; changed sets on both sides of every form boundary, not all subsets.")

add("S04", "TLA+ specification KVal (encoder, prefix-code decoder, compact forms) checked by TLC for round trip and refusal of every prefix; "
    "every enumerated and random sequence replayed in the real codec: bytes, decoded values, bytes consumed, prefixes", "model_checking",
    "All sequences of up to two (thorough: three) values of 18 kinds, every boundary value alone, random sequences of 40 and 300 values; payloads up to 64 KiB.")
add("S06", "TLA+ specification Text (six-bit packing, decimal strings) checked by TLC; every enumerated string replayed in the real code both ways", "model_checking",
    "All byte strings of length 4 over 8 byte values, all strings of length 6 over 5 characters (one of which stands for many), random longer ones, numbers around 2^63 and 2^127.")

HIST = ("TLA+ specifications History/HistoryMC (phases, cumulative runs, branches, cache, versions, pruning) checked by TLC; its behaviours replayed "
        "on real history directories and every recorded event checked by TLC against HistoryTrace")
hb = "Trusted: TLC, the driver, one user at a time. "
add("H01", HIST, "model_checking", hb + "All behaviours up to 4 saves/6 steps for 4 option sets, all call sequences of length 4 for 6 option sets, random ones of 25 and 40 steps over all option combinations with max_phase 0..3.")
add("H02", HIST + "; names: TLC enumerates metadata and the real conversion is compared", "model_checking", hb + "Up to three source versions, tags, foreign files and directories; 7776 metadata records with numbers up to 2^31-1.")
add("H03", HIST, "model_checking", hb + "Pruning of all versions, of one version and explicit keeping mixed with saves, branches and restarts; foreign files beside the history files.")
add("H07", HIST + "; old-version loads compared with the conversion of the stored difference", "model_checking", hb + "Three source versions visited in any order, options changed with the source; the conversion itself is judged by V01.")
add("H08", HIST, "model_checking", hb + "All size sequences of length 5 over two sizes for 42 option sets; random sequences of 30 to 50 saves over six sizes for all combinations with max_phase 0..4.")

SAVES = ("TLA+ specifications SaveDir/SaveDirMC (a map from version and name to documents) checked by TLC; its behaviours replayed on real save directories "
         "and every recorded event checked by TLC against SaveDirTrace")
add("F01", SAVES, "model_checking", hb + "All call sequences of length 4 over two names, random ones of 30 over three names and two versions; blocking and background saves, sources as directory and as archive.")
add("F04", SAVES + "; old-version loads compared with the conversion of the stored difference", "model_checking", hb + "Three source versions visited in any order; the conversion itself is judged by V01.")
add("F06", SAVES, "model_checking", hb + "Twelve spellings of the reserved names in all call sequences of length 3 and random ones of 16.")
FAULT = ("TLA+ specification Store (single file-system calls of a save with death and failure at each) checked by TLC, and shown to be violated by writing in place; "
         "behaviours of %s give programs whose last save is hit at every file-system call of the real process; the calls are checked against FsTrace and "
         "everything before and after against %s")
add("H05", FAULT % ("HistoryMC", "HistoryTrace"), "model_checking", hb + "Process death only (no loss of power); every changing call and half-done writes of 70 scenes.")
add("H06", FAULT % ("HistoryMC", "HistoryTrace"), "model_checking", hb + "Every call failing once, and every changing call failing from then on, in 40 scenes; three error numbers.")
add("F02", FAULT % ("SaveDirMC", "SaveDirTrace"), "model_checking", hb + "Process death only (no loss of power); every changing call and half-done writes of 90 scenes.")
add("F03", FAULT % ("SaveDirMC", "SaveDirTrace"), "model_checking", hb + "Every call failing once, and every changing call failing from then on, in 80 scenes; three error numbers.")
add("H04", "TLA+ specification HistoryQueue (queue of background saves, vacancy test) checked by TLC, and shown to be violated by counting saves from their start; its behaviours replayed "
    "with saves and callbacks held up at chosen points, and every call, callback and file checked by TLC against QueueTrace and HistoryTrace", "model_checking",
    hb.replace(", one user at a time", "") + "All behaviours of 6 steps with 3 calls, random ones of up to 20 steps; saves held up at the first three file-system changes or in their callbacks.")
add("H09", "TLA+ specification HistoryLock (saves, loads and lists of several threads as lock-protected steps) checked by TLC, and shown to be violated without the lock; recorded runs of threads on "
    "one or two directories explained by TLC as some order of calls of History (HistoryLin)", "model_checking",
    "Trusted: TLC, the driver. 2-3 threads of 1-3 calls, mixed blocking and background, a pause placed at chosen file-system calls; other schedules are left to chance.")
add("F05", "Recorded runs of threads that save, overwrite, list, load and remove in one save directory explained by TLC as some order of calls of SaveDir (SaveLin)", "model_checking",
    "Trusted: TLC, the driver. 2-3 threads of 1-3 calls, mixed blocking and background, a pause placed at chosen file-system calls; other schedules are left to chance.")
CONV = ("TLA+ specification Version (what a document becomes under another source, and which results are valid) with VersionMC enumerating sources, edits and "
        "source changes, checked by TLC; every behaviour replayed: both sources written, the document edited, converted with and without validation and compared")
add("V01", CONV, "model_checking", "Trusted: TLC, the driver. All single edits followed by all single changes of a small source; random ones with up to 6+6 source changes and 20 edits of a source with nested and undefinable lists, references and Enums. CLists and Old markers are not varied.")
add("V02", CONV, "model_checking", "Trusted: TLC, the driver. As V01; every accepted conversion is also saved as a difference from the new source and restored.")
add("S05", "TLA+ specifications StoredMC (stored forms are self-delimiting, so no proper prefix of one is one) and Load (loading by one or several threads) checked by TLC; behaviours of HistoryMC and SaveDirMC replayed, every stored file "
    "and stream cut at many or all lengths, and every load of a cut directory checked by TLC against HistoryTrace and SaveDirTrace (an error, or the whole document)", "model_checking",
    "Trusted: TLC, the driver. Truncation only, one file at a time; other damage is not claimed.")
add("J04", "TLA+ specification Json5 (the JSON5 grammar as a function from texts to values) checked by TLC in Json5MC (all texts over small alphabets) and Json5Gen (derivations of the grammar "
    "with their values, and single-character corruptions); every text is read by the real reader and compared", "model_checking",
    "Trusted: TLC, the driver. Texts of up to 7 characters over alphabets of 4 to 25 characters in frames, derivations up to depth 5. Integers beyond 64 bits and reals beyond the range of doubles may be refused or rounded. Nesting deep enough to use up the stack is not covered.")
SRC = "TLA+ specification Source (which sources are well-formed, which are valid, and which document each is) "
add("J03", SRC + "with SourceMC enumerating every source one edit away from four bases and random walks through well-formed ones, checked by TLC; every source is written, read with and without validation and compared", "model_checking",
    "Trusted: TLC, the driver, the writer of sources. About 11,000 sources in quick mode. Enums with entries that are not nullable, empty Ref objects and default references to rows out of use are left open.")
add("J01", SRC + "with the source a document is printed as (Printed), whose reading is the document, checked by TLC; well-formed sources of SourceMC and documents edited by behaviours of DocMC are printed, read back, compared with the "
    "specification and printed again", "model_checking",
    "Trusted: TLC, the driver, the writer of sources. All NaNs count as one value; undefined lists of the root read back as empty ones.")
add("J02", "TLA+ specification SourceDir (where members are written, how files are dressed, which files are unrelated; the hash as a function of the source files) checked by TLC; every state is written to disk, read as directory, copy elsewhere, "
    "archive and archive of the archive; hashes must be a bijection with those of the specification, documents must be those of Source", "model_checking",
    "Trusted: TLC, the driver, the writer of sources. All 4802 sources of four members; that differing sources have differing hashes is decided among these. Moving bytes from one file's end to the next file's name is not varied.")
INTF = "TLA+ specification Interface (the functions, types and names a source's Rust interface has) with IntfMC enumerating sources, checked by TLC; "
add("G01", INTF + "for every source the interface is generated by the real code and compiled together with a typed use of every specified function", "model_checking",
    "Trusted: TLC, rustc, the writer of sources and of the uses. All 1196 sources one step away from a base that has every kind of list, and random ones of up to 30 steps. Names that clash or are keywords are left out.")
add("G02", INTF + "behaviours of DocMC (documents of those sources) replayed through programs written against the generated interfaces, every document compared after every call", "model_checking",
    "Trusted: TLC, rustc, the writer of sources and programs. 12 sources, one with every type, nullability and default at every place; 24 to 60 behaviours of 30 to 60 calls each.")

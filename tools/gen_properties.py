#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and anchors stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "A normal session saves exactly its edits; an interrupted one saves nothing",
  "After a session that ends normally (exit or end of input), opening the file again with the same credentials shows exactly the entries, keys, values and edit history that the session's commands produced on top of what was there before: nothing lost, altered, duplicated or invented, for every valid-UTF-8 name, key and value of any length. A session ended by an interrupt at the main prompt, or by declining to open, leaves the file's bytes exactly as they were.",
  ["inputs", "histories"], "all sequences of sessions and commands over arbitrary valid-UTF-8 names, keys and values",
  "No test opens, edits, saves and reopens a file through the program; the tests cover single package functions on a handful of literal values.",
  ["main.go", "repl.go", "commands.go", "uicontext.go", "blobformat/blobs.go", "txlogs/txlogs.go", "crypt/crypto_v1.go"],
  [("load on start, save on exit", "main.go main/loadBlob/saveBlob"), ("command dispatch", "repl.go"), ("log serialisation", "txlogs/txlogs.go New/Save")],
  ["decrypted bytes of the file after each session", "output of get/show/dumpall in the next session"])

p("C02", "Only registered credentials open a file, and all of them do",
  "A file opens with every passphrase (for a multi-user file, user name and passphrase) registered in it and yields the same content and the key material needed to save it again, whether or not a cached key is offered. Every other combination (wrong or empty passphrase, unknown user, another user's passphrase, a cached key that does not belong to the file) is refused with the matching error and neither crashes nor yields any content.",
  ["inputs", "configurations"], "all files (any user count, any content length), all candidate user/passphrase/cached-key combinations",
  "TestCrypt and TestCryptMulti try the right passphrase and one wrong one on one payload; a wrong key produces pseudo-random padding whose consequences depend on the draw.",
  ["crypt/crypto.go", "crypt/crypto_v1.go", "crypt/params.go", "pkcs7/pad.go", "main.go"],
  [("key derivation and salt comparison", "crypt/crypto_v1.go decryptV1Single/decryptV1Multi"), ("integrity hash comparison", "crypt/crypto_v1.go")],
  ["result and error of opening", "exit of the program and its messages"])

p("C03", "Damaged, truncated or tampered files are rejected, never misread",
  "For every alteration of a stored file (bit flips, truncation at any length, appended or swapped blocks, edited header fields, spliced slots, arbitrary junk), opening it with valid credentials reports an error; it never crashes and never yields content or key parameters that were not saved. The program that fails to open a file leaves that file's bytes alone.",
  ["inputs", "fault_sequences"], "all byte strings derived from valid files, and arbitrary byte strings",
  "No test feeds a malformed or modified file to the decoder.",
  ["crypt/crypto.go", "crypt/crypto_v1.go", "pkcs7/pad.go", "main.go"],
  [("magic/version check", "crypt/crypto.go verifyMagic"), ("SHA-512 over header and plaintext", "crypt/crypto_v1.go")],
  ["result, error and crash of opening", "the file after a failed open"])

p("C04", "The on-disk format is stable and interoperable",
  "Every file written has exactly the documented version-1 layout (magic, version, user count, salts, IVs, wrapped master keys, AES then Camellia then CAST5 in CBC with per-layer padding, SHA-512 of header and plaintext, scrypt-derived 80-byte keys at the documented cost), so files written earlier keep opening and files written now open with any other conforming reader. The decrypted payload is the documented JSON database (version, snapshot, log with time/kind/uuid/key/value).",
  ["inputs", "configurations"], "all payloads, passphrases and user sets, in both directions (written here read elsewhere and the reverse)",
  "The tests only decrypt what the same code has just encrypted, so any symmetric change of layout, cipher order, hash coverage or KDF cost passes.",
  ["crypt/crypto.go", "crypt/crypto_v1.go", "crypt/params.go", "txlogs/txlogs.go", "txlogs/tx.go", "uicontext.go"],
  [("v1 encoder/decoder", "crypt/crypto_v1.go"), ("JSON tags of the database", "txlogs/txlogs.go, txlogs/tx.go")],
  ["bytes of written files against an independent implementation", "golden files"])

p("C05", "Stored files leak no secrets and never reuse salts, IVs or master keys",
  "Nothing the user stored (names, keys, values, user names, passphrases) and no derived or master key can be found in a saved or pushed file, whose ciphertext has no visible structure. Each save of a single-user file uses a fresh IV, each passphrase change, rekey and added user a fresh salt and wrapping IV, and each conversion to multi-user or full rekey a fresh master key and IV; files are created readable by the owner only.",
  ["inputs", "histories"], "all contents, all sequences of saves and credential operations",
  "No test inspects ciphertext or compares randomness across saves.",
  ["crypt/crypto_v1.go", "crypt/crypto.go", "commands.go", "main.go", "sync.go"],
  [("random IV/salt/master generation", "crypt/crypto.go DeriveKey, crypt/crypto_v1.go"), ("file mode 0600", "main.go saveBlob, sync.go pushBlob")],
  ["bytes and mode of every file written", "header fields across saves"])

p("C06", "The current view always equals the replay of the log",
  "After any sequence of operations on the database (add, set, delete key, delete entry, transactions, rollbacks, undo, snapshot resets, refreshes, saving and reloading, reads at any point), refreshing and reading the view gives exactly what replaying the whole log from empty gives. A save followed by a load preserves log, view and view version.",
  ["histories", "inputs"], "all interleavings of operations and of the moments at which the view is refreshed",
  "TestBasic, TestRollbackN and TestTransactions each follow one fixed sequence with the refresh at one fixed moment.",
  ["txlogs/txlogs.go", "txlogs/tx.go"],
  [("incremental view", "txlogs/txlogs.go UpdateSnapshot"), ("view invalidation", "txlogs/txlogs.go Rollback/RollbackN/ResetSnapshot")],
  ["log, version and snapshot after each operation"],
  [("snapshot version", "number of log records already applied to the view", "txlogs/txlogs.go DB")])

p("C07", "Aborted changes leave no trace and committed ones are kept whole",
  "A transaction that fails, or an add/addsync wizard the user aborts at any prompt, leaves log, entries and every later query exactly as if it had never started; one that completes is kept in full, with every key the wizard collected. No transaction is ever left open, so the file can always be saved afterwards.",
  ["histories", "inputs"], "all transaction bodies, all points at which the view is refreshed inside them, all prompts at which a wizard is aborted",
  "TestTransactions and TestTransactionsDo roll back one fixed body and never read in the middle.",
  ["txlogs/txlogs.go", "commands.go"],
  [("Begin/Commit/Rollback/Do", "txlogs/txlogs.go"), ("interruptible wizards", "commands.go addNewInterruptible/addSyncInterruptible")],
  ["database before and after", "file after the session"])

p("C08", "History queries return the exact past states",
  "For every entry and every number of steps back, the entry's historic state is the state after replaying all but that many of its own changes, the database's historic state is the replay of all but that many records, the version count is the number of the entry's changes and the last-updated time is that of its latest change. Requests beyond the recorded history, or negative ones, give an error rather than a wrong state or a crash, and no query changes anything.",
  ["histories", "inputs"], "all logs, entries and step counts, including after deletion and for unknown entries",
  "TestHistory, TestNVersions and TestLastUpdated look at one three-record log.",
  ["txlogs/txlogs.go", "commands.go"],
  [("SnapshotAt/EntrySnapshotAt/NVersions/LastUpdated", "txlogs/txlogs.go"), ("show <query> <n>", "commands.go show")],
  ["returned states", "output of show"])

p("C09", "Opening at a past time shows exactly that moment and changes nothing",
  "Opening a file with a past time shows precisely the state after all changes made at or before that moment and none made later, in the view, in searches and in per-entry history. In that mode every modifying command is refused, no remote is contacted and neither the local file nor any remote changes by a single byte.",
  ["histories", "inputs"], "all logs, all cut-off times (before the first record, on a record, between, after the last), all commands",
  "Nothing tests the time flag or read-only mode.",
  ["main.go", "repl.go", "cli.go"],
  [("log truncation on load", "main.go loadBlob"), ("read-only command table", "repl.go"), ("no save/sync when read-only", "main.go")],
  ["dumpall/show/ls output under -t", "file bytes, mode and remotes afterwards"])

p("C10", "Merging logs loses nothing, duplicates nothing and does not depend on order",
  "When two logs that share a beginning and were written by clocks that do not run backwards do not conflict, their merge contains every change of either log exactly once, keeps each log's own order, is ordered by time where they diverge, equals the merge with the arguments swapped, and replays without error. Merging again with either input, or with an ancestor, changes nothing, and merging three copies gives the same result in any grouping.",
  ["histories", "schedules"], "all pairs and triples of divergent logs with a common ancestor, including repeated earlier merges",
  "TestMerge covers six hand-written pairs of at most a few records.",
  ["txlogs/txlogs.go"],
  [("Merge", "txlogs/txlogs.go Merge")],
  ["merged logs"])

p("C11", "Delete/edit conflicts are all reported and resolved as the user chose",
  "Merging reports exactly one conflict for each entry deletion in force that is followed in time by other changes to that entry, plus one for logs without any common beginning, and never merges silently then. Once each is answered the merge completes: restoring keeps the entry with all its changes from both sides, deleting keeps it deleted and drops only the later changes to it, all other changes survive, the merged log replays without error, and answering in the program asks each question once and finishes.",
  ["histories", "inputs"], "all divergent logs with deletions and later edits, all combinations of answers, in the library and at the prompts",
  "TestMerge's conflict cases check the list of conflicts for two small logs and one resolution; the prompts are untested.",
  ["txlogs/txlogs.go", "txlogs/tx.go", "merging.go"],
  [("checkConflict and resolutions", "txlogs/txlogs.go Merge"), ("prompt loop", "merging.go mergeLogs")],
  ["conflict lists, merged logs", "program session transcripts"])

p("C12", "Devices that sync through a shared remote converge without losing edits",
  "When several devices, whose clocks do not run backwards, edit their own copies and synchronise through one or more shared remotes in any order, every edit made anywhere is in every log after each device has synced again, all copies end with the same log and the same view, and a further sync changes nothing. At every step a device's own edits stay in its file.",
  ["schedules", "histories"], "all interleavings of edits and syncs by any number of devices and remotes, at start, at exit and on command",
  "No test runs the sync code.",
  ["sync.go", "merging.go", "main.go", "txlogs/txlogs.go"],
  [("pull, merge, push", "sync.go sync"), ("auto sync at start and end", "main.go")],
  ["decrypted local and remote files after every step"])

p("C13", "After syncing, every copy opens with the credentials the merge selected",
  "When the credentials of copies were changed on one side since they last agreed (passphrase, users, single-user turned multi-user or back, full rekey) or both sides added their first user, after a sync the local file and every pushed remote open with the credentials of the winning side: the side whose log is newer for two single-user files (with equal logs each keeps its own), the user entries of the merged log otherwise. No sync ever leaves a file that nobody can open.",
  ["histories", "configurations"], "all pairs of divergent copies and credential operations on either side, in either sync direction",
  "No test runs a merge of files with different credentials.",
  ["merging.go", "sync.go", "uicontext.go"],
  [("credential selection", "merging.go mergeBlobs"), ("user slots from user entries", "uicontext.go makeParams")],
  ["opening local and remote files with every candidate credential"])

p("C14", "User management affects exactly the named user",
  "After adduser, passwd, rekey, rekeyall, rm and mv on users, exactly the intended credentials open the file at the next start: a changed user opens with the new passphrase only, every other user's credentials are untouched, a removed user no longer opens it, and the last user leaving turns it back into a single-user file with that user's passphrase. A full rekey replaces every user's passphrase with the printed one and the file opens with each of them.",
  ["histories", "inputs"], "all sequences of user-management commands by any user, followed by every candidate login",
  "No test runs these commands.",
  ["commands.go", "uicontext.go", "blobformat/blobs.go", "crypt/crypto_v1.go"],
  [("passwd/adduser/rekey/rekeyAll/deleteEntry", "commands.go"), ("makeParams", "uicontext.go")],
  ["which credentials open the saved file"])

p("C15", "A failed or interrupted save or push keeps the previous copy",
  "If the process dies or a write, create, sync or rename fails at any point while the local file or a file remote is being saved, that path still holds either the complete previous version or the complete new one, both openable. A reported failure to save gives a non-zero exit or an error message, never a silent loss.",
  ["crash_points", "fault_sequences"], "every system call of the save and push path as a crash or failure point, every write length",
  "No test saves a file, let alone under faults.",
  ["main.go", "sync.go"],
  [("saveBlob", "main.go"), ("pushBlob file", "sync.go")],
  ["bytes at the path after each injected fault"])

p("C16", "Entry names stay unique and protected fields stay protected",
  "Through any sequence of adds, renames, imports and user creation on one copy, no two entries share a name, an add or rename to a taken name is refused without any change, and de-duplicating names leaves all names distinct, keeps one holder of each original name and reports the renames. Names, timestamps and user key material cannot be changed or removed with the generic set, edit and delete-key operations, two-factor secrets cannot be changed with them, and every allowed generic change refreshes the entry's updated time.",
  ["histories", "inputs"], "all operation sequences and key spellings (including case variants)",
  "blobformat has no tests.",
  ["blobformat/blobs.go", "blobformat/constants.go", "commands.go"],
  [("New/Rename/Set/DeleteKey/RenameDuplicates", "blobformat/blobs.go")],
  ["database after each operation"])

p("C17", "Search finds exactly the matching entries",
  "A query matches a name exactly when its characters occur in the name in order, lower-case query characters matching either case and others only themselves; a query with slashes is matched fragment by fragment against the name's leading fragments, and an empty query matches everything. A command given a query acts on the single match, or on the entry whose name equals the query, and otherwise acts on nothing; no query crashes, whatever the bytes.",
  ["inputs"], "all pairs of names and queries, including multi-byte characters and invalid UTF-8",
  "TestFuzzy tries a dozen ASCII pairs; Search and the choice of entry are untested.",
  ["fuzzy/fuzzy.go", "blobformat/blobs.go", "uihelpers.go"],
  [("Match", "fuzzy/fuzzy.go"), ("Search", "blobformat/blobs.go"), ("findOne", "uihelpers.go")],
  ["match results", "ls output and the entry acted on"])

p("C18", "Label edits and label search are exact",
  "Adding a label appends exactly that label, removing one removes exactly that one and keeps the others in order (the last one removed leaves the entry without labels), and duplicates, spaces and capitals are refused by the label command. A label search returns exactly the entries that carry every requested label, whatever repetitions occur in the request or in an entry.",
  ["inputs", "histories"], "all label lists, all indexes and requests",
  "Labels have no tests.",
  ["blobformat/blobs.go", "commands.go", "blobformat/blob.go"],
  [("AddLabel/RemoveLabel/SearchLabels", "blobformat/blobs.go"), ("addLabels/deleteLabel", "commands.go")],
  ["label lists and search results"])

p("C19", "Generated passwords meet the request and are unpredictable",
  "Every generated password has exactly the requested length, contains at least the requested number of each character class and nothing outside the enabled classes, and an impossible request is refused; no settings crash the generator. Every enabled class and every character of it can appear at every position with close to even frequency, required characters included, and no two passwords repeat.",
  ["inputs"], "all lengths and class settings, and the distribution of outputs",
  "TestGenPasswd checks class minimums on a few settings and neither long lengths nor distribution.",
  ["passwd_gen.go", "uihelpers.go", "main.go"],
  [("genPassword", "passwd_gen.go"), ("interactive settings", "uihelpers.go getPassword")],
  ["passwords printed by the program"])

p("C20", "SSH host keys are confirmed once and pinned",
  "An unknown SSH host is used only after the user confirms its fingerprint, and is then remembered with the file; a remembered host is accepted without question only while its key and key type are unchanged, and any change aborts the transfer with a warning and sends no file data. Declining sends nothing and remembers nothing.",
  ["histories", "configurations"], "all sequences of connections, key changes, answers and stored host lists",
  "The sync code and the host check have no tests; scpsync's tests accept any key.",
  ["sync.go"],
  [("hostAsker.callback", "sync.go"), ("saveHosts", "sync.go")],
  ["prompts, server-side record of authentications and data, stored host lines"])

p("C21", "SCP transfers deliver the exact bytes or report an error",
  "A download returns exactly the remote file's bytes or an error, an upload leaves exactly the given bytes with the requested mode at the requested path on the server or returns an error, and a missing remote file is recognised as such. No reply from a server, however malformed, truncated, oversized or split, makes a transfer crash or a failed one look successful.",
  ["inputs", "fault_sequences"], "all file contents and sizes, all server reply streams and their fragmentation",
  "Four tests use one small payload each and a co-operative server.",
  ["scpsync/scpsync.go"],
  [("readFile/sendFile/readResponse", "scpsync/scpsync.go"), ("IsNotFoundErr", "scpsync/scpsync.go")],
  ["bytes received on either side, returned errors"])

p("C22", "Import and export carry over every entry faithfully",
  "A LastPass import creates exactly one entry per record of the export with its user, password, url, notes, group and favourite mark intact under a unique lower-case name, keeps what was in the file, and an unreadable or unrecognised export imports nothing. A CSV export contains exactly the current entries with every key and value, one row each under a header of all keys, and writes nothing else.",
  ["inputs", "histories"], "all record contents (quotes, commas, newlines, unicode, empty fields, duplicates) and all database states",
  "Import and export have no tests.",
  ["import.go", "export.go", "main.go"],
  [("importLastpass", "import.go"), ("export", "export.go")],
  ["database after import, parsed CSV after export"])

p("C23", "External editing stores exactly what was written and leaves nothing behind",
  "Editing a value hands the editor exactly the stored value in a file only the owner can read, stores exactly the text the editor left when it succeeds (bytes that are not UTF-8 are refused), removes the value when it leaves nothing, and changes nothing when the editor fails. Afterwards, in every case, the temporary file is gone and its contents were overwritten before removal.",
  ["inputs", "fault_sequences"], "all old and new values (longer, shorter, empty, multi-line) and editor outcomes",
  "Editing has no tests.",
  ["commands.go", "osutil/osutil_linux.go"],
  [("edit", "commands.go"), ("RunEditor", "osutil/osutil_linux.go")],
  ["editor-side record of path, mode and content; the inode's content after exit; stored value"])

p("C24", "Clipboard and browser get exactly the stored value; clipboard is cleared",
  "Every copy command puts exactly the stored value of exactly the chosen entry and key on the clipboard (login: user, email, password and code in that order) and never prints a copied secret, and opening an entry passes exactly its stored url to the browser. Unless told not to, a session on a file clears the clipboard however it ends: exit, interrupt, failed open or error.",
  ["inputs", "histories"], "all values and entries, all ways a session can end",
  "No test covers the clipboard or the browser launcher.",
  ["commands.go", "repl.go", "main.go", "osutil/osutil_linux.go"],
  [("get/login/openurl/copyToClipboard", "commands.go"), ("clear on exit", "main.go")],
  ["arguments and input received by stand-in clipboard and browser programs"])

p("C25", "Two-factor codes are those of RFC 6238",
  "For every two-factor secret accepted (bare secret or otpauth URL, any digits, period and algorithm parameters it carries), the code shown is the RFC 6238 code of that secret for the current time step, and the stored secret never changes. An unusable secret is refused or reported as an error without ending the session.",
  ["inputs"], "all secrets and otpauth parameters at any time",
  "Two-factor has no tests.",
  ["blobformat/blob.go", "blobformat/blobs.go", "commands.go"],
  [("TwoFactor", "blobformat/blob.go"), ("SetTwofactor", "blobformat/blobs.go")],
  ["codes against an independent RFC 6238 implementation"])

p("C26", "No input line can crash the session or make it unsaveable",
  "Whatever is typed at the prompts (any command with any arguments, odd spacing, unknown entries and users, hostile names and values), the program answers with a result or a message and stays usable: it does not crash, hang or exit early, and ending the session saves a file that opens again with everything done in it.",
  ["inputs", "histories"], "all sequences of input lines in single-user, multi-user and read-only sessions",
  "The command loop has no tests.",
  ["repl.go", "commands.go", "uihelpers.go", "uicontext.go", "main.go"],
  [("repl.run and command table", "repl.go"), ("makeParams", "uicontext.go")],
  ["exit status, stderr, sentinel replies, file after the session"])

p("C27", "Passphrases survive the pinentry dialogue unchanged",
  "A passphrase entered through a pinentry program reaches the file's encryption exactly as typed, whatever characters it contains, including percent signs, spaces, control and multi-byte characters. A cancelled dialogue counts as no passphrase, and a program that cannot be run, fails, ends early or answers outside the protocol produces an error, never a crash, hang or wrong passphrase (one that stays silent or never ends is waiting for its user).",
  ["inputs", "fault_sequences"], "all passphrases and all pinentry reply streams",
  "pinentry has no tests.",
  ["pinentry/pinentry.go", "uihelpers.go"],
  [("Password and Assuan unescaping", "pinentry/pinentry.go")],
  ["returned passphrase against what the stand-in program sent; the key that opens the file"])

p("C28", "Padding is reversible and only exact padding is accepted",
  "Padding any data to any block size from 1 to 255 gives a multiple of the block size from which unpadding restores the data; unpadding accepts exactly inputs ending in n bytes of value n with n from 1 to the input's length, and reports an error for all others without crashing. Neither operation disturbs the caller's data.",
  ["inputs"], "all byte strings and block sizes",
  "TestPKCS7Padding and TestPKCS7UnpadErrors check a few literals.",
  ["pkcs7/pad.go"],
  [("Pad/Unpad", "pkcs7/pad.go")],
  ["results against a reference"])

p("C29", "Sessions and transfers are free of data races",
  "No data race occurs in the program during any session, including prompts, completion, external programs, synchronisation and simultaneous SSH transfers.",
  ["schedules"], "all goroutine schedules of the workloads",
  "The tests are not run under a race detector and never run the program.",
  ["readline.go", "scpsync/scpsync.go", "pinentry/pinentry.go", "repl.go"],
  [("single-threaded command loop, goroutines in line editor and SSH", "readline.go, scpsync/scpsync.go")],
  ["race detector reports"])

p("C30", "Display commands show exactly what is stored and change nothing",
  "ls, labels, show, get, dump and dumpall show exactly the current entries, keys and values (passwords in show visibly present but styled as hidden, the update time in RFC 3339, the number of changes as snapshots; show with a number the entry as it was that many changes ago), names sorted and complete. No sequence of display commands, clipboard copies, help or failed commands changes the log or the view.",
  ["inputs", "histories"], "all database states and display commands",
  "No test covers command output.",
  ["commands.go", "repl.go", "uihelpers.go"],
  [("list/get/show/dump/dumpall", "commands.go")],
  ["command output against the replayed log", "log before and after"])

p("C31", "Sync touches only intended remotes, never clobbering what it could not merge",
  "Automatic sync uses exactly the entries marked for it with a usable url, a named sync exactly that entry, and a session told not to sync or opened read-only none. A remote that cannot be fetched, opened, parsed or replayed is left byte-for-byte as it was, keeps the local data intact and does not stop the other remotes from being synchronised; a declined merge ends that sync with every remote and the local data as they were.",
  ["configurations", "fault_sequences"], "all sets of sync entries and remote states (missing, damaged, foreign, wrong passphrase, unreachable)",
  "No test runs the sync code.",
  ["sync.go", "merging.go", "main.go"],
  [("collectSyncs", "sync.go"), ("skip on pull/decrypt failure", "sync.go sync"), ("abort on declined merge", "merging.go")],
  ["remote and local bytes after sessions with broken remotes"])

p("C32", "The program works on exactly the file it is told to",
  "The file is the one given with -f or --file, else the one in $BPASS, else .bpass in the home folder (in the working folder if there is none). It is found through relative and odd spellings and through links, also links to a file that does not exist yet; links stay links. A file that does not exist is created, for its owner only and only after two equal passphrases that are not empty. Saving changes nothing else: an existing file keeps its mode, owner and group as far as the user may set them, and no other file or folder is made, changed or removed. A folder, an unreachable place, a refused passphrase, a bad time, help, version and the generator change nothing at all. The same goes for file remotes.",
  ["inputs", "configurations"], "all combinations of flags, environment, folder trees, modes, owners and umasks",
  "No test starts the program.",
  ["cli.go", "main.go"],
  [("flags, $BPASS and the default", "cli.go parseCli"), ("opening, creating", "main.go loadBlob"), ("saving", "main.go saveBlob, writeFile"), ("file remotes", "sync.go pullBlob, pushBlob")],
  ["complete picture of a folder tree before and after; decrypted file"])

p("C33", "Hidden input stays hidden and the terminal is restored",
  "At a terminal, no character typed at a passphrase or password prompt is ever shown: not while it is typed, corrected or abandoned, and not later through the command history or a search in it. (Commands whose result is to print the password, set and adduser, still print it when they are done.) What is taken is exactly what was typed, with corrections applied, at every hidden prompt. However a session ends - exit, end of input, interrupt at any prompt, a wrong passphrase - the terminal has the settings it had before, and an external editor gets it with those settings too.",
  ["inputs", "histories"], "all sequences of prompts, keys and endings at a terminal",
  "No test runs the program at a terminal.",
  ["readline.go", "main.go", "repl.go", "passwords.go"],
  [("LineHidden, AddHistory", "readline.go"), ("passphrase prompts", "main.go, passwords.go"), ("closing the line editor", "main.go")],
  ["transcript of the terminal", "terminal settings at the editor and after the end", "decrypted file"])

p("C34", "Completion and history at the terminal are faithful",
  "At a terminal, TAB completes the name of an entry, after the commands rm, mv, cd, show, set, get, cp, edit, open, rmk, label, rmlabel, pass, user, email, totp and sync, to what all present names with that beginning share (to the whole name when there is only one), case-sensitively and byte for byte; the same goes for the common fields (email, user, pass, totp, notes) after set, get, cp, edit and rmk. When nothing can be added it lists exactly the names that go on from what was typed. Names are those of the moment: entries just added, renamed or removed count. The history holds exactly the commands that were recognised and ran without ending the session, in order, equal neighbours once; going back brings them back unchanged. Such a line then does what typing it would have done, and nothing about it crashes the session.",
  ["inputs", "histories"], "all sets of names, unfinished words and sequences of commands at a terminal",
  "No test runs the program at a terminal.",
  ["readline.go", "repl.go", "blobformat/blobs.go"],
  [("completer", "readline.go readlineAutocompleter, entryCompleter, listCompleter"), ("history", "readline.go Line, AddHistory; repl.go run")],
  ["transcript of the terminal", "decrypted file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
LIB = "pfp/src/passwords.rs"; STO = "pfp/src/storage.rs"; FIO = "pfp/src/storage_io/file.rs"
CRY = "pfp/src/crypto.rs"; REC = "pfp/src/recovery_codes.rs"; TYP = "pfp/src/storage_types/password.rs"
UT = "cli/src/processor/utils.rs"

prop("C01", "Reported changes are exactly what a later process finds in storage",
 "After any sequence of successful operations (adding, replacing and removing passwords, changing notes and aliases, setting the primary password), opening the storage file in a new process with the current primary password yields exactly the combined effect of these operations. Nothing reported as done is lost, nothing removed comes back, and no entry other than the addressed one changes. This holds across any number of process restarts and lock/unlock cycles.",
 ["histories", "inputs"], "every finite sequence of library or command line operations, every argument text (without NUL characters), restarts anywhere",
 "Tests run a handful of fixed sequences over three sites and inspect the in-memory test storage; they reach neither other orders of operations, nor the real file after each step, nor unusual texts.",
 [LIB, STO, FIO], [("every mutating call saves before returning", LIB), ("entry keys derived from the identifier", STO), ("whole map serialised", FIO)],
 [("data", "encrypted entry map", FIO)], ["the storage file, decrypted independently", "results of public calls", "command output"])
prop("C02", "Failed, declined and read-only operations leave no trace",
 "An operation that reports an error, that the user declines or aborts at a prompt, or that only reads (show, list, notes display, alias query, recovery code output) leaves every password, note and alias unchanged, both for the running session and in the storage file. The only permitted side effect is that listing drops bookkeeping entries of sites which have neither passwords nor an alias. Failures to write the file are the subject of C14.",
 ["histories", "inputs"], "every reachable storage state, every operation and argument, every prompt answer",
 "Tests assert the error kind of a few refused calls but hardly ever the complete state afterwards, and only from one or two starting states.",
 [LIB, STO, "cli/src/processor/"], [("checks precede the first modification", LIB), ("prompt default is no", "cli/src/processor/add.rs")],
 observe=["storage file before and after", "later results in the same session"])
prop("C03", "A password is identified by site, name and revision, consistently everywhere",
 "A password is identified by its site, name and revision, where revision \"1\" equals the empty revision, a leading \"www.\" of the site is ignored and an aliased site stands for its target. Adding, overwrite checks, showing, notes, recovery and removal all use this same identification. Passwords whose identifiers differ in any other respect (letter case, spaces, prefixes, \"01\" versus \"1\", an empty name) are independent: no operation on one affects or reveals another.",
 ["inputs", "histories"], "every pair of identifiers (texts without NUL characters) and every operation, through aliases or not",
 "Tests use a few harmless names; nothing samples near-miss identifiers or every operation through every spelling of the same site.",
 [TYP, STO, LIB], [("revision normalisation", TYP), ("site normalisation and alias resolution", STO), ("keyed digest of the identifier", STO)],
 observe=["results of public calls", "storage file"])
prop("C04", "Aliases resolve in one step and never capture passwords",
 "After any sequence of operations no site is an alias of itself or of another alias, and no aliased site owns passwords, so a password added via an alias is always reachable under the alias target's own name. Making a site an alias is refused exactly if the site has passwords or the (resolved) target is the site itself; aliases that pointed to a site follow it when it becomes an alias. Removing an alias affects this alias only and is refused if the site is no alias.",
 ["histories"], "every sequence of alias, password and list operations over any number of sites",
 "Tests create aliases of plain sites only; chains and cycles need three or more sites and a particular order of calls.",
 [LIB, STO], [("resolution of the target and check for passwords", LIB), ("alias to self refused", STO)],
 [("site entries", "name and optional alias target", STO)], ["alias queries", "storage file"])
prop("C05", "Listings are complete, exact and ordered",
 "A listing shows every readable stored password whose site and name match the given patterns exactly once, under its own site's name, and nothing else; a site matches if its own name or the name of one of its aliases matches. Sites are ordered by name, passwords by name and revision, and type, revision and (verbose) length, character classes, notes and matching aliases are those stored. Patterns are case-sensitive, \"*\" stands for any text, \"?\" for one character, and without matches the output says so.",
 ["histories", "inputs"], "every reachable storage state, every site and name pattern, every combination of listing options",
 "Tests list one fixed storage with six patterns; in other states (alias targets without entries, emptied sites) listings even failed before.",
 ["cli/src/processor/list.rs", LIB, STO], [("site collection, merging and ordering", "cli/src/processor/list.rs"), ("wildcard filters", LIB)],
 observe=["list output"])
prop("C06", "Nothing is disclosed or changed without the right primary password",
 "Until the correct primary password is supplied, no password, note, alias or site name can be obtained and no entry can be changed; a wrong primary password never unlocks, however often it is tried, and the correct one always does. Locking, and any new process, returns to this state completely. A failed attempt to unlock changes nothing, and a command asks again until the correct password is entered.",
 ["histories", "inputs"], "every interleaving of unlock attempts (right, wrong, too short), lock, reset and other operations, every primary password",
 "Tests try one wrong password in one place; they do not cross every operation with every lock state or re-lock after arbitrary histories.",
 [LIB, UT, "cli/src/processor/shell.rs"], [("keys present only when unlocked", LIB), ("authenticated decryption of the HMAC secret verifies the password", STO), ("prompt loop", UT)],
 [("key, hmac_secret, primary_password", "unlocked state", LIB)], ["results of public calls in locked state", "prompts and output"])
prop("C07", "Setting a primary password replaces the storage, and only with consent",
 "Setting the primary password needs confirmation whenever a storage file exists (unless explicitly waived), two identical entries and at least six characters; otherwise the existing file is left alone and the old primary password keeps working. On success the storage is empty, opens with the new primary password and with no other, contains nothing of the previous contents, and uses a newly drawn random salt.",
 ["histories", "inputs", "configurations"], "every previous file (missing, valid, damaged), every pair of entered passwords, every answer",
 "Tests cover two passwords and valid files only; they never check the discarded data or a second reset.",
 ["cli/src/main.rs", "cli/src/processor/set_primary.rs", LIB], [("confirmation before loading", "cli/src/main.rs"), ("length and equality checks", "cli/src/processor/set_primary.rs"), ("reset clears all data", LIB)],
 observe=["storage file", "later commands"])
prop("C08", "Generated passwords follow the reference derivation and nothing else",
 "The value of a generated password depends only on primary password, site, name, revision, length and selected character classes, and equals the published PfP derivation (scrypt N=32768, r=8, p=1 over site, name and revision joined by NUL, the revision left out if empty), whatever storage, process or history it is retrieved from. It has exactly the requested length, contains only characters of the selected classes and, if long enough, at least one of each. The command line refuses lengths outside 4 to 24 and an empty selection of classes without any effect.",
 ["inputs", "configurations"], "every primary password, identifier, length and non-empty set of character classes",
 "Tests compare about five known values; lengths, class subsets, non-ASCII identifiers and the forced-class rule at the end of short passwords are otherwise unsampled.",
 [CRY, TYP, "cli/src/args.rs", "cli/src/processor/add.rs"], [("derivation and character mapping", CRY), ("salt composition", TYP), ("length validation", "cli/src/args.rs")],
 observe=["show and list output", "library results"])
prop("C09", "Recovery codes restore exactly the stored password or nothing",
 "For every stored password (without trailing NUL characters) the recovery code shown for it decodes with the same primary password, in any storage, to exactly this password, however the code is typed: upper or lower case, with any separators, line breaks and characters outside its alphabet. With any other primary password, or if code characters were changed, removed, added or reordered, decoding fails or still yields the original password, never another one. The code's length reveals the password's length only in steps of whole lines.",
 ["inputs", "histories"], "every password text, primary password, storage, and every edit of the code text",
 "Tests decode two spellings of one code and six damaged ones.",
 [REC, CRY, UT], [("padding, checksums, Base32", REC), ("authenticated encryption", CRY)],
 observe=["recovery code output", "decoded value"])
prop("C10", "Recovery code entry pinpoints mistakes and keeps verified lines",
 "Checking an entered recovery code reports the first line whose checksum does not match, missing lines, extra data and its first line, unsupported versions, and too short codes, exactly as the code format defines. Interactive entry accumulates lines: a line that fails is rejected while all lines accepted before are kept, extra data is dropped only after confirmation, an empty line aborts without effect. Entering the correct lines in order therefore always ends with the original password, whatever mistakes happened in between.",
 ["inputs", "histories"], "every text entered, split into lines at any point, every sequence of wrong and right lines",
 "Tests type one code with one mistake; the dialogue is a state machine whose histories they do not enumerate.",
 [REC, UT], [("validation of complete lines", REC), ("accumulation of accepted lines", UT)],
 [("accepted", "verified part of the code so far", UT)], ["dialogue messages", "stored value"])
prop("C11", "Notes belong to one password and change nothing else",
 "Setting notes changes the notes of the addressed password only: its type, value, length, character classes and all other passwords stay as they are, and setting an empty text removes them. Notes are kept verbatim and shown by the notes command and the verbose listing; other operations keep them, except that replacing or removing the password discards them. Notes of a missing password can neither be read nor set.",
 ["histories", "inputs"], "every text, both password types, every interleaving with other operations and aliases",
 "Tests set one note per password type; interleavings with replacement, aliases and other revisions are not covered.",
 [LIB, TYP, "cli/src/processor/notes.rs"], [("entry is read, changed and written back", LIB), ("empty notes are not stored", TYP)],
 observe=["notes and list output", "storage file"])
prop("C12", "Existing passwords are only overwritten with consent",
 "Adding a generated or stored password from the command line asks for confirmation exactly if a password with the same identification (after resolving aliases) exists and the question was not waived. Only an explicit yes overwrites; no, an empty answer or the end of input leave everything as it was, other answers repeat the question. Without an existing password there is no question.",
 ["inputs", "histories"], "every storage state, identifier spelling and sequence of answers",
 "Tests answer y and n once each for identical spellings.",
 ["cli/src/processor/add.rs", "cli/src/processor/add_stored.rs", LIB], [("existence check and question", "cli/src/processor/add.rs")],
 observe=["dialogue", "storage file"])
prop("C13", "The storage file is always a complete previous or new version",
 "At every instant of every command the storage file holds either the complete contents from before or the complete contents after the change. If the program is killed, or a file operation fails or is cut short, at any point, the file can still be opened with its primary password and shows the state before or after the operation in progress.",
 ["crash_points", "fault_sequences"], "every command that saves, every point between and inside its file operations, every kind of failure of each of them",
 "Tests never interrupt a save or let a write fail.",
 [FIO], [("temporary file moved into place", FIO)],
 [("file", "storage file and temporary file contents", FIO)], ["file system operations on the storage directory", "storage file after a crash"])
prop("C14", "Failing to save is reported and leaves a coherent session",
 "If writing the storage file fails, the operation reports an error (command line: error message and failing exit status) and never claims success. The session then stays usable: later operations work, and the next successful save produces a file all of whose entries are readable with its one current primary password and which reflects the session's operations since. A failed attempt to set a new primary password never lets data be added under outdated keys.",
 ["fault_sequences", "histories"], "every operation, every pattern of failing and succeeding saves within a session",
 "The test storage cannot fail to save.",
 [LIB, FIO, UT], [("errors of saving are propagated", LIB), ("reset locks before clearing", LIB)],
 observe=["results of public calls", "storage file after later saves"])
prop("C15", "The storage file discloses nothing and never reuses randomness",
 "Apart from the random salt, the storage file, and any temporary file written on the way, contains no site name, user name, revision, password, note, or primary password in readable form: entry keys are keyed digests and entry values authenticated ciphertexts under a key derived from the primary password. The history of a shell holds the commands entered and no password, note or primary password. Every encryption, including recovery codes, uses a fresh random nonce and every initialisation a fresh salt and digest secret; none repeats over entries, operations, resets or processes.",
 ["histories", "inputs"], "every sequence of operations and processes, every text",
 "The unit tests replace the random generator by a counter, so they cannot notice missing randomness, and nothing scans the files.",
 [CRY, STO, LIB], [("random nonce per encryption", CRY), ("random salt and secret per reset", LIB), ("keyed digests as entry keys", STO)],
 observe=["bytes of the storage file, its temporary files and the shell history"])
prop("C16", "Damaged storage is reported, contained and never made worse",
 "No contents of the storage file make the program crash: a file that is not valid storage is reported as such, and one whose salt or secret is damaged cannot be unlocked. A damaged entry affects only itself: using it reports an error, listings skip it, everything else keeps working, and later saves preserve all undamaged entries. Reading commands do not modify a damaged file beyond C02.",
 ["inputs", "fault_sequences"], "every kind of damage to every part of the file (syntax, fields, encodings, nonce, ciphertext, decrypted contents), singly and combined",
 "Tests cover about fifteen damaged files, nearly all in the outer structure.",
 [FIO, CRY, STO, UT], [("strict file format", FIO), ("error results of decryption and parsing", CRY), ("listings skip unreadable entries", STO)],
 observe=["output, exit status, storage file"])
prop("C17", "Storage files interoperate with other implementations of the format",
 "A file in PfP storage format 3 written by another implementation, with fields in any order and spacing, optional fields present or absent, gives the same passwords, notes and aliases here, including values of generated passwords. Files written here follow this format, so that an independent reader knowing the primary password recovers exactly the same entries, and nothing is lost or altered when both take turns changing the file.",
 ["inputs", "histories"], "every storage content expressible in the format, every textual representation of it, turns of both writers",
 "Tests read a few entries encrypted with a fixed key and never let an independent implementation read the result.",
 [FIO, TYP, "pfp/src/storage_types/site.rs", "pfp/src/storage_types/character_set.rs", STO], [("serialisation of entries", TYP), ("key and salt encoding", LIB)],
 observe=["storage file decoded and written by an independent implementation"])
prop("C18", "A shell session equals running its commands one by one",
 "Running commands in one shell session gives the same results, messages and final storage as running each as a separate process, except that the primary password is asked for only once until the session is locked. Unknown commands, bad quoting and failing commands report an error and neither end the session nor change anything; quoted arguments arrive verbatim. The shell refuses to nest and to change the primary password, a command line given up (Ctrl-C) has no effect, and the shell ends on exit or end of input.",
 ["histories", "inputs"], "every sequence of shell lines including invalid ones, every quoting of arguments",
 "One test runs a single fixed session.",
 ["cli/src/processor/shell.rs", "cli/src/processor/mod.rs"], [("same command processing as outside the shell", "cli/src/processor/shell.rs")],
 [("passwords", "session state kept between commands", "cli/src/processor/shell.rs")], ["session output", "storage file"])
prop("C19", "Output is faithful and the exit status tells success",
 "Showing a password prints exactly its value, and the QR code shown instead encodes exactly this value. Alias queries, listings with values and confirmations state what is stored or was done. The exit status is zero if and only if the command did what was asked or the user declined a yes/no question, and every failure is accompanied by an error message and discloses no stored value.",
 ["inputs", "histories"], "every stored or generated value, every command in every storage state",
 "Tests look for fragments of the output and never at the exit status; the QR code test compares one image.",
 ["cli/src/processor/show.rs", "cli/src/processor/list.rs", "cli/src/main.rs", UT], [("value written unchanged", "cli/src/processor/show.rs"), ("exit status from result", "cli/src/main.rs")],
 observe=["complete output and exit status"])
prop("C20", "Several instances sharing a file never corrupt it or undo each other",
 "When several instances work on one storage file, an instance started after another one reported a change sees this change. Whatever the interleaving, the file is at all times the complete result of one instance's last save, never a mixture, and can be opened. No change reported as done is undone by another instance.",
 ["schedules"], "every interleaving of loading, prompting and saving of two or more instances, shells included",
 "Tests run one process at a time.",
 [FIO, "cli/src/main.rs", "cli/src/processor/shell.rs"], [("load at start, whole-file replacement on save", FIO)],
 [("data", "each instance's private copy of the file", FIO)], ["storage file under controlled interleavings of real processes"])
prop("C21", "Secrets are wiped from memory when locked",
 "After passwords are locked or a command is done, the process memory contains no primary password, password value or note any more. This includes buffers already returned to the allocator and input buffers of prompts.",
 ["histories"], "every command and session history",
 "Tests scan process memory after some commands, with results that depend on compiler version and CPU features.",
 [LIB, UT, "cli/src/leaking_allocator.rs"], [("zeroising secret containers", LIB), ("unbuffered prompt input", UT)],
 observe=["process memory"])
prop("C22", "On a terminal, secrets are entered unseen and everything else works alike",
 "Used on a terminal, the program reads primary passwords and password values without displaying them, and displays what is entered at every other prompt. While it waits for anything else, and when it has ended, however the command ended, the terminal displays input again as before. Apart from this the commands, prompts, results and the storage file are the same as with redirected input.",
 ["histories", "inputs"], "every sequence of commands and shell lines entered on a terminal, every answer, failing and declined commands included",
 "Tests pass --stdin-passwords throughout, so that the way users enter passwords is never executed.",
 [UT, "cli/src/processor/set_primary.rs", "cli/src/processor/add_stored.rs", "cli/src/processor/shell.rs"], [("hidden input from the terminal", UT), ("choice of the kind of prompt", UT)],
 [("terminal attributes", "echo of the controlling terminal", UT)], ["pseudo terminal: attributes and everything displayed", "storage file"])
prop("C23", "The shell's history remembers command lines and never answers",
 "What is entered at the shell's prompt, valid or not, is added verbatim to the command history, in order, without empty lines and immediate repetitions; a shell that ends by exit or end of input saves it, and later shells using the same history file start with it (the newest 100 lines are kept); lines recalled while editing are these, newest first. Answers to any question - primary passwords, password values, recovery codes, notes, confirmations - never get into it, and other commands leave the file alone.",
 ["histories", "inputs"], "every sequence of shell sessions with commands, failures, answers, locking, exit, end of input and kills, every previous history file",
 "Tests merely pass a history file; none looks at what is in it, in particular not for secrets entered in between.",
 ["cli/src/processor/shell.rs"], [("lines added to the history, history saved at the end", "cli/src/processor/shell.rs")],
 [("history", "lines known to the shell", "cli/src/processor/shell.rs")], ["history file before and after each input"])
prop("C24", "Results and questions go to standard output, failures to standard error",
 "Standard output carries what a command was asked for, its confirmation and the questions asked, and nothing else; every message about something that failed or was refused - wrong passwords, mistakes in recovery codes, bad command lines - is on standard error, which is otherwise empty. So the output of a successful command can be captured or piped, and it is complete when the command has ended.",
 ["histories", "inputs"], "every command and shell line, in every storage state, successful, failing, refused or given up",
 "Tests run the program on a pseudo terminal, where both are the same.",
 ["cli/src/main.rs", UT, "cli/src/processor/shell.rs", "cli/src/processor/list.rs"], [("messages printed with eprintln or println", UT), ("errors printed by main", "cli/src/main.rs")],
 observe=["standard output and standard error recorded apart"])
prop("C25", "Commands touch nothing but the storage and history file",
 "A command changes no file or directory other than the storage file in use and, for shells, the history file; only saving creates the storage file, and the directories leading to it. Saving replaces the contents and keeps the file's access permissions and the symbolic links leading to it. When the program has ended by itself, successfully or after failing to save, no temporary or backup files are left; if it is killed while saving nothing but its temporary file is.",
 ["histories", "crash points", "inputs"], "every command in every storage state, with failing file operations and interruptions at every one of them",
 "Tests look at the contents of the storage file only, after commands which succeed.",
 [FIO, "cli/src/main.rs", "cli/src/processor/shell.rs"], [("FileIO::flush, write_atomically", FIO), ("main_inner", "cli/src/main.rs"), ("save_history", "cli/src/processor/shell.rs")],
 observe=["files, directories, links and access permissions around the storage file after every input"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

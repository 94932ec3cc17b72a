#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
REF = "runtime monitoring: reference-model oracle over "
C = {  # id: (technique, level, note)
 "C01": (REF + "random program sessions", "exploration", "Whole sessions of the program, ended every way; the decrypted file compared with a command model. Commands come from a pipe, fast stand-in for scrypt."),
 "C26": ("runtime monitoring: crash, hang and liveness oracle (sentinels and canary edits) over hostile sessions", "exploration", "Every command with odd arguments and hostile lines; every sentinel must be answered and every canary saved."),
 "C30": (REF + "displayed entries", "exploration", "Output of every display command compared with the stored entries; sampled files."),
 "C02": ("runtime monitoring: independent codec oracle over credential attempts", "exploration", "Right and wrong passphrases, user names and near misses on generated files, library and program; fast stand-in for scrypt."),
 "C03": ("runtime monitoring: accept/reject oracle over damaged files", "exploration", "Bit flips at every position of sampled files, cuts, splices and swaps between files, library and program; any accepted plaintext must be the original."),
 "C04": ("runtime monitoring: independent implementation of the file format, both directions, and golden files", "exploration", "Every written file is opened by an independent decoder and independently written files are opened by the program; a few cases use the real scrypt parameters."),
 "C05": ("runtime monitoring: secrecy scan, freshness ledger and chi-square tests over written files", "exploration", "Files, temporary files and remotes scanned for known secrets in several encodings; salts, keys and IVs recorded and compared over the whole run."),
 "C09": (REF + "-t sessions at many moments", "exploration", "Everything shown and exported at a moment compared with an independent replay of the prefix; file bytes unchanged."),
 "C15": ("runtime monitoring: ptrace system-call fault injection with an old-or-complete-new oracle after every call", "fault_enumeration", "Every file-changing system call of each scenario is killed at, failed, shortened and torn, alone and as a full disk; the process dies, not the machine."),
 "C19": ("runtime monitoring: per-password oracle and frequency tests over the wizard's output", "exploration", "Random walks through the settings judged password by password, and class, character, position and pair frequencies of fifteen settings; randomness quality beyond those statistics is not observable."),
 "C31": ("runtime monitoring: file-state oracle over syncs with healthy, damaged and unwilling remotes", "exploration", "Bytes of each remote before and after each session; file remotes only (scp remotes are judged by C20 and C21)."),
 "C06": (REF + "randomised txlogs histories, transactions and queries", "exploration", "View, lookups and transactions of the real txlogs.DB are compared after every operation with an independent replay of the log; sampled histories, one process, no concurrency."),
 "C07": (REF + "failed operations and wizards aborted at every prompt", "exploration", "Library operations failing at each step and program sessions aborted (ctrl-d, end of input) at each prompt; the saved log must be a well-formed continuation holding none or all of the operation."),
 "C08": (REF + "histories with every back-step and timestamp", "exploration", "NVersions/Last/Snapshots and the show command compared with a replay of each prefix; sampled histories."),
 "C10": (REF + "generated fork histories", "exploration", "txlogs.Merge against set, order, idempotence and grouping oracles; sampled forks, clocks that do not run backwards."),
 "C11": (REF + "forks with deletions, library and prompts", "exploration", "Reported conflicts and every combination of answers compared with an independent definition of conflicts; sampled forks."),
 "C12": (REF + "multi-device sync schedules through the program", "exploration", "Whole fleets of sessions with shared file remotes in random schedules, including simultaneous ones; logs of all copies compared after each step. File remotes only."),
 "C13": ("runtime monitoring: credential-matrix oracle (independent file opener) over sync schedules", "exploration", "Every known user name and passphrase is tried against every file after each sync; sampled schedules, fast stand-in for scrypt."),
 "C14": ("runtime monitoring: credential-matrix oracle (independent file opener) over user-management sessions", "exploration", "Every known user name and passphrase is tried against the file after each session; sampled sequences, fast stand-in for scrypt."),
 "C16": (REF + "rename/add/set/edit sequences, library and program", "exploration", "Names stay unique and protected values only change through their own commands, judged on the decrypted log after the session; sampled histories."),
 "C17": (REF + "names and queries, library and program", "exploration", "Search and fuzzy match compared with an independent matcher; commands acting on ambiguous queries must change nothing."),
 "C18": (REF + "label operations, library and program", "exploration", "Labels kept as a set model next to the real code; sampled histories."),
 "C20": ("runtime monitoring: pin-model oracle over prompts, server-side event logs and remembered hosts", "exploration", "Sessions against in-process SSH servers whose keys change between and within sessions, with near-miss pins and every answer; loopback only."),
 "C21": ("runtime monitoring: byte-exactness oracle over transfers with honest, installed and hostile servers", "exploration", "Scripted server replies with fragmentation, truncation, wrong lengths, error replies and broken connections; announced sizes above 2 GiB and silent servers are left out."),
 "C22": (REF + "generated LastPass exports; independent CSV reader over exports", "exploration", "Generated records and states through a stand-in lpass; group names without commas, no CRLF inside fields."),
 "C23": ("runtime monitoring: stand-in editor with kept inodes and a model of the stored values", "exploration", "What the editor is given and leaves, and what the temporary file's inode holds after its removal, for every editor outcome; sampled values."),
 "C24": ("runtime monitoring: stand-in clipboard and browser compared with the stored values", "exploration", "Everything copied or opened in random sessions (from a pipe and from a pseudo terminal) and the last clipboard write of 34 kinds of endings; being killed by a signal is not judged."),
 "C25": ("runtime monitoring: independent RFC 6238 oracle over generated secrets and otpauth URLs", "exploration", "Library and program codes at the machine's time; periods from one second to decades stand for other times."),
 "C27": ("runtime monitoring: stand-in pinentry programs, honest and faulty, against the passphrase that opens the file", "exploration", "Seven places that ask for passphrases, many correct encodings of odd passphrases, some thirty kinds of faults; NUL bytes left out."),
 "C32": ("runtime monitoring: whole-tree before/after oracle over starts of the program", "exploration", "Folder trees sampled with links, folders, owners, modes and umasks; hard links, access control lists and extended attributes are not looked at."),
 "C33": ("runtime monitoring: pseudo-terminal transcripts searched for marked secrets; terminal settings compared", "exploration", "Sessions that answer prompt by prompt; typing ahead, suspension, resizing and kills are not judged here."),
 "C34": ("runtime monitoring: pseudo-terminal transcripts against a completion and history model", "exploration", "TAB, history keys and typing on a wide terminal; choosing from a list with more keys, searching and editing keys are the line editor library's and left out."),
 "C28": ("runtime monitoring: independent PKCS#7 oracle over generated and exhaustive small inputs", "exploration", "Pad/Unpad against an independent definition; exhaustive over short tails, sampled otherwise."),
 "C29": ("runtime monitoring: Go race detector over the program's sessions, network workloads and simultaneous transfers", "exploration", "The program and the transfer package built with -race, over borrowed cases of the other checks, terminal sessions with signals and breaking connections; only executed schedules are judged."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        t, l, n = C[i]
        checks.append(dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
            evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason="the check is still being built"))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
    notes="No hooks are needed in /repo: the monitors observe exported packages, decrypted files, terminal output, stand-in programs and system calls. known_findings.txt lists repaired defects.")
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1); open(here + '/MANIFEST.json', 'a').write('\n')
print(len(checks), len(na))

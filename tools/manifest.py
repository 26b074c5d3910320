#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE = "model_checking", "fault_enumeration"
HIST = "exhaustive enumeration of operation histories on the real code against a reference model"
SPACE = "exhaustive enumeration of a bounded input space on the real code against a reference model"
FAULT = "exhaustive fault enumeration (every answer pattern of the system calls up to a deviation bound) on the real code"
ROWS = {
 "C01": (HIST, MC, "complete for histories up to the depth over the alphabet, all buffer kinds; longer histories over a smaller alphabet"),
 "C02": (HIST, MC, "complete for histories up to the depth, including positions around every integer limit"),
 "C03": (HIST, MC, "complete for histories up to the depth per open mode, file compared through an independent descriptor; trusts the kernel's file system"),
 "C04": (FAULT, FE, "complete for histories up to the depth and up to 2 to 4 deviating system calls; trusts the interposed libc entry points to be the only way to the file"),
 "C05": (FAULT + ", then every subset of unflushed blocks lost", FE, "complete for histories up to the depth, up to 2 deviating calls, all loss patterns; durable means a successful fsync or fdatasync after the write"),
 "C06": (FAULT, FE, "complete for every single failing primitive call on a user stream, every system call of a file stream, and every position of the built-in streams"),
 "C07": (SPACE, MC, "all values up to 16 bits, structured and byte-pair-complete values above; in the big-endian and the little-endian build"),
 "C08": (SPACE, MC, "all 2^32 codes; numbers between codes on a dense grid with all ties and extremes"),
 "C09": (FAULT, FE, "complete for every typed operation with each of its underlying calls failing, and for short sequences of them"),
 "C10": (SPACE, MC, "complete for the stated byte-mutation spaces around well-formed files and every small directory"),
 "C11": (SPACE, MC, "every byte value and every 16-bit half of the header, every pair of bytes over boundary values; both builds"),
 "C12": (SPACE, MC, "every entry geometry on the boundary grid, every small directory, every pattern of entries inside and outside"),
 "C13": (SPACE, MC, "every small directory over a small set of signatures and ranges, every assignment of ranges, all pairs of 100 entries"),
 "C14": (FAULT, FE, "complete for every file of the corpus and up to 3 (100 tags: 2) deviating system calls, and for each byte the file can end at"),
 "C15": (HIST, MC, "complete for histories up to the depth over the alphabet of opens, replacements and removals; whole directory compared"),
 "C16": (HIST, MC, "complete for all sequences of up to 2 (thorough 3) opens, selected context patterns of 3, alternations of 300; each sequence in its own process"),
 "C17": ("stateless model checking of the real code: every schedule up to a preemption bound at basic-block granularity under a controlled scheduler", MC, "complete up to the preemption bound over the stated scenarios; sequentially consistent memory"),
 "C18": (HIST, MC, "complete for histories up to the depth over contexts, handlers, files and plugin chains; concurrent rejections: every schedule up to a preemption bound"),
 "C19": (SPACE, MC, "all chains up to the length over the alphabet of plugin defects, byte-complete spaces of each field"),
 "C20": (SPACE, MC, "byte-class-complete codes quick, all 2^32 codes thorough; all byte strings up to the length over the classes"),
 "C21": (SPACE, MC, "every constant against its registered code and all codes sharing a half with it, every pair"),
 "C22": (SPACE, MC, "every calendar day, every time of day, every value of each field, boundary combinations"),
 "C23": (SPACE, MC, "every parameter combination of the grid at every input of the grid and at each branch point; rounding allowance 1e-9"),
 "C24": (SPACE, MC, "every monotone parameter combination of the grid at every input of the grid, both directions"),
 "C25": (SPACE, MC, "all 2^32 type numbers; every parameter combination of the grid with exactly the declared and with more parameters"),
 "C26": (SPACE, MC, "every byte value and 16-bit half, byte pairs; both builds"),
 "C27": ("differential exhaustive enumeration: every case of the other checks' spaces in both build configurations", MC, "complete over the shared case spaces, compared by digest"),
 "C28": (HIST, MC, "complete for histories up to the depth over two contexts and their clones"),
 "C29": (SPACE, MC, "all pairs of a set of variants differing in each field, entry and mode"),
 "C30": (HIST, MC, "complete for histories up to the depth over three contexts and the process-wide one, all pairs of other operations"),
 "C31": ("stateless model checking of the real code: every schedule up to a preemption bound at basic-block granularity under a controlled scheduler", MC, "complete up to the preemption bound over all pairs of eleven of the thirteen kinds of operations; sequentially consistent memory"),
    "C32": (FAULT, FE, "complete over the operations, failing calls, error numbers and causes listed; one failing call, or it and all later ones"),
    "C33": (HIST, MC, "complete over the files, histories and pairs listed, each run three times"),
    "C35": (HIST, MC, "complete over the stated moments and all histories up to the depth, each in a process of its own"),
    "C34": (SPACE, MC, "complete over the combinations of surroundings, names and cases listed"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if any(l.startswith(h) for h in ("4f490fe", "5f289e1", "38a53ad"))]
if len(hooks) < 3:  # not in this repository's history (a copy): keep what is recorded
    hooks = json.load(open(f"{V}/MANIFEST.json"))["hooks"]["source_commits"]
import sys
skip = set(sys.argv[1:])
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "cfg lcms2_verif", "enable": "RUSTFLAGS='--cfg lcms2_verif' (set by check.sh for its own target directories under /verif/target)", "source_commits": hooks[::-1]},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": t, "level": l, "level_note": n}
            for i, (t, l, n) in ROWS.items() if i not in skip],
 "not_applicable": [{"property": i, "reason": "its check is not built yet"} for i in ROWS if i in skip],
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = ["C%02d" % i for i in range(1, 20)] + ["C22", "C25", "C26", "C27", "C28", "C29", "C30"]
T = "deterministic simulation with fault injection: the real library runs its threads under a seeded scheduler at the granularity of memory accesses, with simulated clocks and files; "
TECH = {
    "C01": T + "interleavings of start, stop, restart, destruction with the training thread; exclusivity and promptness checked on the history",
    "C02": T + "interleavings of status reads and refused calls with the training thread",
    "C03": T + "interleavings of waitFor with the training thread over scripted evaluations, against a model of the condition on the recorded history",
    "C04": T + "simulated time with clock jumps, stalls, oversleeps and slow steps; end of waits and trainings against the limit",
    "C05": T + "scripted histories of evaluations; instant of the end of the training against an executable model of the condition",
    "C06": T + "recorded presentations of every epoch and evaluation against a reference partition of the data",
    "C07": T + "recorded presentations, resets and learned steps against a reference model of sequences and windows",
    "C08": T + "histories, save, restart of the process, load; comparison of everything observable and of the continued training in both processes",
    "C09": T + "crash at a chosen instruction or byte of a save, restart, the surviving file against the two allowed contents",
    "C10": T + "errors, short writes and full disks in every file operation of a save",
    "C11": T + "torn, truncated and damaged files given to loadFrom in a new process, with allocation failures",
    "C12": T + "auto saves during trainings with stops, crashes and disk faults; the file against a model of the best evaluation",
    "C13": T + "failing allocations, threads, files and data during trainings, then recovery",
    "C14": T + "interleaved networks in several threads compared bit for bit with the same networks run alone",
    "C15": T + "histories stopped anywhere, then sequences from a reset against a network without a past",
    "C16": T + "the same training with and without evaluations and inferences inserted, compared bit for bit",
    "C17": T + "best results of every evaluation of the history against a running extreme, across restarts and faults",
    "C18": T + "NaN injected at any output, with stops, waits and restarts interleaved",
    "C25": T + "the same life lived three times in different initial memory, every access checked against the blocks in use, everything taken accounted for at the end; with refused calls, failing allocations, torn files and settings changed during trainings",
    "C26": T + "exports after any history, with errors, short writes, full disks, failing allocations and trainings in progress; the files against pictures computed from the weights, outputs and data",
    "C27": T + "any training stopped anywhere against a twin given the recorded examples one by one, weights and outputs of every layer compared bit for bit",
    "C28": T + "the system's entropy behind a seam, networks created and trained in several interleaved threads; frequencies and independence of the recorded draws against concentration bounds",
    "C30": T + "calls that are refused, and calls in which one allocation or file operation fails, along random histories, compared with the same history without them",
    "C29": T + "networks compared in both orders by parallel threads along histories that they share, diverge in or copy to each other, against those histories and the future of copies, in guarded memory",
    "C22": T + "statistics read at any instant by other threads, over histories with failures, against those of the recorded outputs and labels",
    "C19": T + "original and copies used in any interleaving, compared bit for bit with a twin history",
}
NOTE = ("Seeded search, not exhaustive. Every run is a pure function of its plan; a violation is reported only after it was reproduced with the same execution hash in two fresh processes. "
        "Assumes sequentially consistent memory (no weak-memory effects), instrumentation of accesses by gcc's -fsanitize=thread pass, and crashes that lose the process but not what the kernel was given.")
NA = {
    "C20": "pure function of weights and inputs: no schedule, time, I/O, randomness or history to simulate; a simulator would only feed it inputs",
    "C21": "pure function of weights, inputs and expected outputs of one step: nothing for a scheduler or a fault injector to decide",
    "C23": "validation of constructor arguments is a pure function of them; refusals that depend on a training in progress are C02",
    "C24": "normalization is a pure function of the data, called once before any training",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 build.py",
         checks=[dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                      technique=TECH[p], level="exploration", level_note=NOTE) for p in ids if p in CLAIMED],
         not_applicable=[dict(property=p, reason=NA.get(p, "not built yet")) for p in ids if p not in CLAIMED],
         notes="No hooks in /repo: the seams are the compiler's access instrumentation (own runtime), interposed libc and pthread functions, and the library's own virtual layers.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

"""technique and level_note per property."""
S = "Bounded random exploration of the real library under ASan+UBSan; says nothing about inputs not generated. Trusts the harness's independent model (harness/model.h, common.h), the compiler and the file system. "
M = "reference-model monitor over random histories, ASan+UBSan"
LEVELS = {
 "C01": (M, S + "Row contents are compared bit for bit."),
 "C02": ("differential monitor against an independent encoder/decoder of the on-disk format, ASan+UBSan", S),
 "C03": ("conversion oracle over all type/byte-order pairs, ASan+UBSan", S + "Float to integer conversions are restricted to values C defines."),
 "C04": ("guarded-memory monitor over random histories, ASan+UBSan", S),
 "C05": ("reference-model monitor of positions, bounds and side effects of refused accesses, ASan+UBSan", S + "All offsets around each generated block are enumerated."),
 "C06": ("map-model monitor over attribute histories, ASan+UBSan", S),
 "C07": ("reference-model and twin-file monitor over grow histories, ASan+UBSan", S),
 "C08": ("byte-sum monitor over write histories, ASan+UBSan", S),
 "C09": ("set/map-model monitor over namespace histories, ASan+UBSan", S + "Reserved file names of the format are not used as block names."),
 "C28": ("format/parse oracle with guards, ASan+UBSan", S),
}

F = "In-process interception of the system calls the library makes; the calls enumerated are those of the generated scenarios. "
P = "Bounded random exploration of the real collective code by real MPI processes on one machine under ASan+UBSan, with random delays before communication; says nothing about schedules not met. Trusts Open MPI and the harness's model. "
LEVELS.update({
 "C10": ("sanitizer-monitored mutation of metadata and data files with a message, presence and watchdog oracle, ASan+UBSan", S),
 "C11": ("system-call fault injection with a report-or-complete oracle, ASan+UBSan", F + "Every intercepted call of a scenario is failed with every applicable error; what the caller was told is compared with what an independent reader finds."),
 "C12": ("kill before every system call with an independent reader of the remains", F + "The process dies with its memory; loss of power (unwritten pages) is not part of the property."),
 "C13": ("allocation and descriptor accounting through sanitizer hooks over histories with failures", S + "What the library keeps once and reuses (the last error message) is not counted as a leak: only what remains in each of three repetitions."),
 "C14": ("message oracle under ASan+UBSan and ThreadSanitizer", S),
 "C15": ("race detection (ThreadSanitizer) and old-or-new byte oracle over concurrent threads and processes", S + "Schedules are sampled with random yields and delays."),
 "C16": ("serial-model monitor of collective transfers on every rank and on disk, ASan+UBSan", P),
 "C17": ("serial-model monitor of collective metadata on every rank and on disk, ASan+UBSan", P),
 "C18": ("fault injection on subsets of ranks with a return-code agreement monitor and a watchdog, ASan+UBSan", P + "A hang is reported only if the case hangs twice."),
 "C19": ("differential monitor of MPI exchanges with guarded buffers, ASan+UBSan", P),
 "C20": ("global-invariant monitor over the segmenter's state gathered from all ranks, ASan+UBSan", P),
 "C21": ("column-model monitor over record histories, serial and collective, ASan+UBSan", S + P),
 "C29": ("online monitor of file opens across ranks in shared memory", P + "A rank counts as accessing while it has a data file open through stdio."),
})

PYN = "Bounded random exploration of the Python interface in the real interpreter with the extension under ASan; says nothing about histories not generated. Trusts numpy and the harness's decoder of the format (pyharness/vfpy.py). "
LEVELS.update({
 "C22": ("numpy-model monitor of indexing and assignment, extension under ASan", PYN),
 "C23": ("dictionary- and numpy-model monitor of API histories, serial and MPI, extension under ASan", PYN),
 "C24": ("model monitor of restored objects over histories of pickling, modifying and destroying, extension under ASan", PYN),
})

T = "Bounded random exploration of the real tools as processes built under ASan+UBSan; says nothing about inputs not generated. Trusts the harness's encoder and decoder of the format (pyharness/vfpy.py). "
LEVELS.update({
 "C25": ("output oracle over option combinations and damaged files, tools under ASan+UBSan", T),
 "C26": ("differential monitor of source and destination blocks on disk, tools under ASan+UBSan, write failures injected", T + "Schedules of the ranks are sampled with random pauses before messages."),
 "C27": ("subset/order/determinism oracle over samples taken with different ranks, files and timing, tool under ASan+UBSan", T + "Schedules of the ranks are sampled with random pauses before messages."),
})

LEVELS.update({
 "C30": ("old-or-new value monitor over concurrent Python threads, extension under ASan", PYN + "Schedules are sampled with short switch intervals."),
 "C31": ("directory-tree model monitor over histories of renamings and removals, as an unprivileged user", T.replace("built under ASan+UBSan", "of the working tree")),
 "C32": ("monitor of the block on disk and of exit statuses over simulated histories, tool under ASan+UBSan", T + "Schedules of the ranks are sampled with random pauses before messages."),
})

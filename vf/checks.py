"""One function per property: what is built, which workload is run, what must have been observed."""
from .core import *

CHECKS = {}
WRAP_FOPEN = ["-Wl,--wrap=fopen,--wrap=fclose"]


def check(prop, level="exploration"):
    def deco(fn):
        CHECKS[prop] = (fn, level)
        return fn
    return deco


# ------------------------------------------------------------------ serial C library
def serial(c, mode, quick, thorough, rule, required, harness="serial.cc"):
    exe = c.build(mode, [harness], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs(mode))
    c.run(exe, mode, c.n(quick, thorough))
    c.rule = rule
    c.required = required


SER = "Random cases from VERIF_SEED, each a history of API calls on fresh scratch files under ASan+UBSan, compared with an independent in-memory model. "


@check("C01")
def c01(c):
    serial(c, "C01", 6000, 150000, SER + "Up to 3 blocks per case; dtypes (stored kinds, both orders), members, striping with empty files / hundreds of files / sparse files beyond 4 GiB, buffer sizes from 1 byte, strided/reversed/permuted array layouts, reopening. Non-trivial: data was written and at least one transfer spanned a physical-file boundary. Distinct: hash of the full operation trace.",
           ["reads", "writes", "rows_compared", "spanning_transfers", "sparse_cases", "large_blocks"])
    also_python(c, "col.py", "C22", 600, 8000)


@check("C02")
def c02(c):
    serial(c, "C02", 6000, 120000, "Even cases: the library writes, an independent decoder of the format reads header, data files and attributes; odd cases: an independent encoder writes (shuffled file records, both byte orders, v2 or legacy attribute file), the library reads. Non-trivial: more than one row or an attribute. Distinct: hash of the trace.",
           ["files_decoded", "files_encoded", "legacy_attr_files", "rows_compared", "steered_headers", "large_blocks"])


@check("C03")
def c03(c):
    serial(c, "C03", 9 * 31 * 31, 200 * 31 * 31, "Walks all ordered pairs of 31 (type, byte order) combinations; for each, boundary and random values are converted on write, read and attribute access through random layouts/striping/buffers and compared with an independent C conversion; unsupported pairs must be refused. Distinct: pair x shape x round.",
           ["values_written", "values_read", "attr_values", "unsupported_refused", "byte_order_pairs", "large_blocks"])


@check("C04")
def c04(c):
    serial(c, "C04", 5000, 100000, SER + "Source buffers are compared byte for byte after every write/set_attr; destination buffers are filled with random bytes and every byte belonging to no element compared after every read; each read is done twice. Non-trivial: a non-contiguous byte-swapped source or attributes.",
           ["sources_compared", "targets_compared", "attrs_compared", "large_blocks"])
    also_python(c, "col.py", "C22", 600, 8000)


@check("C05")
def c05(c):
    serial(c, "C05", 2500, 50000, SER + "Every offset from -size-3 to size+3 and extreme ones is sought; then random relative seeks, transfers from the current position, refused transfers (files and buffers compared byte for byte) and read_simple calls. Non-trivial: non-empty block of several files.",
           ["seeks", "refused", "reads", "read_simple", "meta_blocks", "huge_blocks"])
    also_python(c, "col.py", "C22", 600, 8000)


@check("C06")
def c06(c):
    serial(c, "C06", 3000, 60000, SER + "Attribute histories (set, overwrite with other sizes, remove, absent, refused names, flush, reopen, second handle) on several blocks and group meta-blocks against a map model. Non-trivial: something was overwritten or removed.",
           ["attr_maps_compared", "overwrites", "removes", "max_attrs_over_32"])
    also_python(c, "api.py", "C23", 500, 8000)


@check("C07")
def c07(c):
    serial(c, "C07", 1600, 40000, SER + "Histories of grow/write/read/flush/reopen/second-handle, stale data files from an earlier block present in a third; finally compared on disk with a twin created with the concatenated layout. Non-trivial: grown and written.",
           ["grows", "second_handles", "with_stale_files", "rows_compared"])
    also_python(c, "api.py", "C23", 500, 8000)


@check("C08")
def c08(c):
    serial(c, "C08", 4000, 80000, SER + "Per-file byte sums are tracked by the model and compared in memory and in the header after every write, read, flush, reopen, grow, attribute change and refused write; in half the cases each row is written exactly once and the header is compared with the sum over the file's bytes. Non-trivial: several writes.",
           ["files_summed", "writes", "reads", "steered_headers", "large_blocks"])


@check("C09")
def c09(c):
    serial(c, "C09", 2500, 50000, SER + "Namespaces of nested, prefix-related and re-created blocks, respelled paths, group attributes, listings against a set model; at the end every block is verified entirely, including that rows never written since re-creation show no older data. Non-trivial: several blocks with re-creation, nesting or group attributes.",
           ["creates", "recreated", "lists", "absent", "group_attrs", "unwritten_rows"])
    also_python(c, "api.py", "C23", 500, 8000)


@check("C28")
def c28(c):
    serial(c, "C28", 20000, 400000, "Random values of every formattable type in both byte orders, formatted (default and explicit formats) and compared with printf of the value, parsed back into either byte order between guards; texts that are no value and unsupported types must be refused without touching memory. Distinct: type x case.",
           ["formatted", "parsed", "refused", "placeholders"])


# ------------------------------------------------------------------ robustness
@check("C10")
def c10(c):
    exe = c.build("C10", ["robust.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C10"))
    c.run(exe, "C10", c.n(40000, 1500000), env=san_env({"ASAN_OPTIONS": ASAN_OPTIONS.replace("max_allocation_size_mb=4096", "max_allocation_size_mb=1024")}))
    c.rule = "Valid files written by an independent encoder are damaged (tokens replaced by hostile numbers and types, bytes flipped, lines dropped/duplicated/swapped, truncations, arbitrary bytes; data files truncated, removed or extended; files replaced by directories or links), then opened, listed, read, annotated, flushed and reopened under ASan+UBSan and a watchdog; errors must carry a message, rows present must be readable, missing ones not. Non-trivial: the damage changed a file. Distinct: hash of the damaged content."
    c.required = ["opens_refused", "opens_accepted", "mutated_header", "mutated_attr-v2", "mutated_attr", "attrs_seen", "present_reads", "missing_reads", "reopened", "simple_reads", "replaced_files"]


@check("C13")
def c13(c):
    exe = c.build("C13", ["robust.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C13"))
    c.run(exe, "C13", c.n(6000, 150000))
    flt = c.build("C13F", ["fault.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C13F"))
    c.run(flt, "C13F", c.n(48, 1500), label="-faults")
    par = c.build("C13M", ["mpi.cc"], c.lib_sources(mpi=True), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK + WRAP_FOPEN, defs=c.mode_defs("C13M"), mpi=True)
    for ranks, shards, n in ((3, 4, c.n(500, 8000)), (5, 2, c.n(200, 3000))):
        c.run(par, "C13M", n, shards=shards, prefix=["mpirun", "-q", "-n", str(ranks)], env=mpi_env(), hang=60, label="-n%d" % ranks)
    c.rule = "Random histories of all calls, with damaged files, exhausted descriptors, no space and invalid arguments; the process's descriptors are listed after every call, and every allocation made during a call is tracked through the sanitizer's hooks until everything is closed (what remains in each of three repetitions is a leak). Non-trivial: some call failed. Distinct: hash of the call trace."
    c.required = ["calls", "allocations", "failed_calls", "failed_open_block", "failed_create_block", "failed_read", "failed_write", "failed_flush", "failed_close", "failed_grow", "failed_write_records", "failed_read_records", "failed_create_records", "failed_read_simple", "faults", "mpi_allocations", "mpi_calls_tracked"]


@check("C14")
def c14(c):
    exe = c.build("C14", ["robust.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C14"))
    tsan = c.build("C14t", ["robust.cc"], c.lib_sources(), hflags=TSAN, lflags=TSAN, link=["-fsanitize=thread"], defs=c.mode_defs("C14") + ["-DNOTRACK"])
    c.run(exe, "C14", c.n(1500, 40000))
    c.run(tsan, "C14", c.n(400, 8000), label="-tsan", env=tsan_env())
    c.rule = "Every failing operation with hostile names (per-cent signs, up to 20000 characters, nested) in one or up to eight concurrent threads, under ASan+UBSan and under TSan; the message must name the path, block or value, and stay through successful calls. Distinct: random stream of the case."
    c.required = ["messages", "kept_messages", "threaded_cases"] + ["msg_" + o for o in "open open_block create_block create seek read write read_simple convert get_attr set_attr remove_attr grow flush close parse open_damaged".split()]


FAULTRULE = "A case is a scenario of API calls (create, open, write, read, grow, flush, close, attributes, records); the system calls it makes are intercepted in-process (seccomp trap) and %s. "


@check("C11", "fault_enumeration")
def c11(c):
    exe = c.build("C11", ["fault.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C11"))
    c.run(exe, "C11", c.n(150, 3000))
    c.rule = FAULTRULE % "each one is failed with every applicable error (single or lasting, short transfers, end of file, failing close with or without loss of the written data)" + "The oracle: either the call fails with a message and its repetition succeeds, or at the end everything written is there for a fresh handle and for an independent reader. Every third case provokes a real failure (full device, file-size/descriptor limits, missing, unwritable files). Distinct: scenario."
    c.required = ["faults", "reported", "absorbed", "real_failures"] + ["fault_" + x for x in ("open_error", "read_error", "write_error", "write_short+error", "close_close-lost", "seek_error", "mkdir_error", "read_eof")]


@check("C12", "fault_enumeration")
def c12(c):
    exe = c.build("C12", ["fault.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C12"))
    c.run(exe, "C12", c.n(120, 3000))
    c.rule = FAULTRULE % "the process is killed before each of them" + "Afterwards closed blocks must be byte-identical and readable, the block being written must open as last flushed, rows outside the interrupted write keep their values, rows that completed write system calls stored have the new ones. Distinct: scenario."
    c.required = ["kills", "closed_blocks_checked", "interrupted_blocks_checked", "untouched_rows_checked", "completed_rows_checked", "kill_in_write", "kill_in_grow", "kill_in_create", "kill_in_flush", "kill_in_close"]


# ------------------------------------------------------------------ MPI
MPIR = "Each case is run by 3, 4 or 8 processes, of which a random subset in random order forms the communicator; random delays precede the library's communication in a third of the cases. "


def mpi(c, mode, quick, thorough, rule, required, hang=60):
    exe = c.build(mode, ["mpi.cc"], c.lib_sources(mpi=True), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK + WRAP_FOPEN, defs=c.mode_defs(mode), mpi=True)
    c.log("built")
    n = c.n(quick, thorough)
    for ranks, shards, part in ((4, 4, 0.6), (8, 2, 0.25), (3, 4, 0.15)):
        c.run(exe, mode, max(1, int(n * part)), shards=shards, prefix=["mpirun", "-q", "-n", str(ranks)], env=mpi_env(), hang=hang, label="-n%d" % ranks)
    c.rule = rule
    c.required = required + ["mpi_calls"]


@check("C16")
def c16(c):
    mpi(c, "C16", 3000, 60000, MPIR + "Blocks created by the communicator or serially; sequences of collective writes and reads with any split of the rows (even, uneven, empty ranks, one rank), concurrency limits, aggregation thresholds, array layouts, conversions, continued positions; every rank's buffers and pointers and, at the end, the data files are compared with the serial model. Distinct: trace and number of processes.", ["writes", "reads", "rows_compared", "continued", "single_rank_writes", "partly_empty_writes", "all_rank_writes", "blocks_compared_on_disk", "large_blocks"])
    also_python_mpi(c, 150, 2500)


@check("C17")
def c17(c):
    mpi(c, "C17", 3000, 60000, MPIR + "Histories of collective create, open, write from any ranks, grow, flush, attribute changes, close, reopen; after each collective call all ranks' descriptions and attributes are compared with the model and each other, and the header and attribute file with what a single process would have stored. Distinct: trace and number of processes.", ["rank_descriptions", "headers_compared", "lone_writes", "flushes", "grows", "reopens", "attrs_on_all", "attrs_on_root", "attrs_removed", "replaced"])
    site = c.pybuild()
    python_mpi(c, site, c.n(250, 4000))


@check("C18")
def c18(c):
    mpi(c, "C18", 4000, 80000, MPIR + "Every collective operation is made to fail on a subset of ranks (bad arguments, unsupported types, missing or damaged files, failing opens of data files, out-of-range rows); return codes of all ranks are compared, the message is checked, and collective work continues afterwards; a watchdog detects ranks left waiting. Distinct: trace and number of processes.", ["failures", "messages", "recovered", "open_faults_fired", "long_messages"] + ["failed_" + x for x in "open create open_block create_block grow read write flush close create_records write_records read_records".split()])
    also_python_mpi(c, 150, 2500)


@check("C19")
def c19(c):
    mpi(c, "C19", 10000, 200000, MPIR + "Random count matrices, displacements, types, policies and optional arguments against an exchange computed by the harness, with guarded buffers. Distinct: trace and number of processes.", ["alltoallv_policy0", "alltoallv_policy1", "alltoallv_policy2", "items_exchanged", "sizes_asked", "no_recvcnts", "gathers", "scatters", "extrema", "allocations"])


@check("C20")
def c20(c):
    mpi(c, "C20", 10000, 200000, MPIR + "Random size distributions, secondary sizes, segment sizes and group counts; fields and communicators of all ranks are gathered and compared with the segments computed from the sizes. Distinct: trace and number of processes.", ["segmentations", "ranks_without_data", "several_segments", "several_groups", "groups_of_several_segments", "secondary_sizes", "segment_counts"])


@check("C21")
def c21(c):
    exe = c.build("C21", ["records.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C21"))
    c.run(exe, "C21", c.n(3000, 60000))
    mpi(c, "C21M", 800, 12000, "Random record types (1-6 fields, all dtypes and byte orders, nested names), built in any order; sequences of create, append, write, read (with reordered, partial and converting record types), single-column access, refused operations; blocks, headers and everything else in the file are compared with a column model on disk. The same collectively: " + MPIR,
        ["accessors", "views", "records_written", "records_read", "appends", "columns", "refused", "blocks_compared", "mpi_records_written", "mpi_records_read", "mpi_appends", "mpi_blocks_compared"])
    also_python(c, "api.py", "C23", 500, 8000)


@check("C29")
def c29(c):
    mpi(c, "C29", 400, 8000, MPIR + "Opens and closes of data files are counted across the ranks in shared memory, with a random pause while a file is open; the maximum is compared with the concurrency argument, the data with the model. Distinct: trace and number of processes.", ["transfers_watched", "file_accesses", "parallel_transfers", "limit_reached", "limited_transfers"])


# ------------------------------------------------------------------ concurrency
@check("C15")
def c15(c):
    asan = c.build("C15", ["conc.cc"], c.lib_sources(), hflags=SAN_HARNESS, lflags=SAN, link=SAN_LINK, defs=c.mode_defs("C15"))
    tsan = c.build("C15t", ["conc.cc"], c.lib_sources(), hflags=TSAN, lflags=TSAN, link=["-fsanitize=thread"], defs=c.mode_defs("C15") + ["-DONLY_THREADS"])
    c.run(tsan, "C15", c.n(1500, 40000), label="-tsan", env=tsan_env(), shards=4)
    c.run(asan, "C15", c.n(2000, 40000), shards=4)
    c.rule = "2-7 threads (under ThreadSanitizer, and under ASan) or processes with their own handles: writers of interleaved disjoint row ranges of the same blocks, readers, readers sharing one block handle, creators of blocks of their own, provokers of errors, started together with random yields and delays. Every byte read must be the one before or after the concurrent write; at the end all rows, descriptions and attributes are compared with the model. Distinct: case (roles, ranges and schedule seed)."
    c.required = ["thread_cases", "process_cases", "blocks_of_several_writers", "reads", "shared_reads", "own_blocks", "errors", "lists", "writes", "blocks_compared"]


# ------------------------------------------------------------------ Python
def python(c, script, mode, n, rule, required, site=None, shards=NCPU, hang=120):
    site = site or c.pybuild()
    c.run(os.path.join(VERIF, "pyharness", script), mode, n, shards=shards, prefix=[PY], env=py_env(site), hang=hang)
    c.rule, c.required = rule, required
    return site


PYR = "Random histories run by the Python interpreter with the extension built from the working tree under ASan (fresh memory filled, every Python object in sanitized memory), compared with numpy. "


@check("C22")
def c22(c):
    python(c, "col.py", "C22", c.n(8000, 120000), PYR + "Two of three cases index, assign and read a column (any integer type, out-of-range and reversed bounds, Ellipsis, refused steps and objects; values of any layout, byte order and convertible type, wrong sizes and types), one a dataset (rows, columns, both). Rows whose data file was shortened must raise. Non-trivial: more than one row. Distinct: trace.",
           ["gets", "empty_gets", "get_refused", "sets", "set_refused", "reads_into", "out_refused", "reopens", "missing_refused", "present_read", "ds_gets", "ds_get_refused", "ds_sets", "ds_set_refused", "verified"])


def python_mpi(c, site, n):
    env = py_env(site)
    pre = env.pop("LD_PRELOAD")
    env.update({k: v for k, v in mpi_env().items() if k.startswith("OMPI") or k.startswith("PRTE") or k.startswith("PMIX")})
    for ranks, shards, part in ((3, 4, .6), (4, 2, .3), (2, 4, .1)):
        c.run(os.path.join(VERIF, "pyharness", "apimpi.py"), "PYMPI", max(1, int(n * part)), shards=shards, prefix=["mpirun", "-q", "-n", str(ranks), "env", "LD_PRELOAD=" + pre, PY], env=env, hang=60, label="-py%d" % ranks)


def also_python_mpi(c, quick, thorough):
    if not c.stop:
        python_mpi(c, c.pybuild(), c.n(quick, thorough))
        c.rule += " Besides, the MPI classes of the Python interface on 2-4 ranks against numpy."


PYMPI_REQ = ["mpi_" + x for x in "wraps opens creates verified checksums writes attrs closes hostile raised files blocks_compared".split()]


@check("C23")
def c23(c):
    site = python(c, "api.py", "C23", c.n(4000, 60000), PYR + "Histories of creating (from arrays, in pieces, without data), appending, writing, datasets, attributes of every kind of value, listings, sub-files, columns reused, forgotten and outliving their file, and operations that must raise; everything is compared with dictionaries and arrays, at the end through a new file and by an independent decoder. The same for the MPI classes on 2-4 ranks in lockstep. Non-trivial: more than one block. Distinct: trace.",
        ["attr_maps", "blocks_verified", "appends", "arrays", "attr_sets", "attr_deletes", "attr_refused", "checksums", "datasets", "destroyed", "ds_appends", "ds_reads", "ds_writes", "many_rows", "metas", "subfiles"]
        + ["raised_" + x for x in "append-Nfile bad-names create-Nfile create-dtype dataset-sizes del-attr ds-read-beyond ds-read-out ds-write-beyond file-missing file-uncreatable get-attr getitem-missing never-opened open-missing read-beyond read-out reopen-closed reopen-missing write-beyond write-object write-type no-file".split()] + PYMPI_REQ)
    python_mpi(c, site, c.n(800, 10000))


@check("C24")
def c24(c):
    python(c, "pick.py", "C24", c.n(3000, 60000), PYR + "Histories of pickling (all protocols, copy, deepcopy, other processes, pickles of restored objects), modifying, flushing, growing and destroying columns and files in any order, with a model of each object's attributes and checksums; a destroyed or flushed object's metadata is compared with the header and attribute file. Non-trivial: a block exists. Distinct: trace.",
           ["restored", "restored_copy", "restored_deepcopy", "restored_remote", "other_process", "verified", "verified_on_disk", "destroyed", "flushes", "grown", "never_opened", "files", "files_restored", "raised_restored-missing"])


def also_python(c, script, mode, quick, thorough):
    """The property also through the Python interface: histories of C22-C24's harnesses."""
    if c.stop:
        return
    site = c.pybuild()
    c.run(os.path.join(VERIF, "pyharness", script), mode, c.n(quick, thorough), prefix=[PY], env=py_env(site), label="-py")
    c.rule += " Besides, the property through the Python interface: the histories of %s against numpy." % mode
    return site


# ------------------------------------------------------------------ tools
SERIAL_TOOLS = ["bigfile-" + x for x in "cat ls get-attr copy create set-attr check rename repartition rm".split()]
TOOLR = "The tools are built from the working tree under ASan+UBSan and run as processes on files written by an independent encoder. "


def tools(c, mode, n, shards=NCPU, names=(), mpi=(), dir=None):
    d = dir or c.tools(names, mpi)
    c.run(os.path.join(VERIF, "pyharness", "tools.py"), mode, n, shards=shards, prefix=[PY], env=mpi_env(), hang=400, args=["--tools", d])
    return d


@check("C25")
def c25(c):
    tools(c, "C25", c.n(1500, 40000), names=SERIAL_TOOLS)
    c.rule = TOOLR + "Random offsets, counts (including out of range), buffer sizes, formats, long and short listings and attribute queries; standard output and exit status are compared with the model's. Every fourth case damages the header, the attributes or the data: no crash, no hang, nothing printed as rows that is not stored. Non-trivial: the file has rows. Distinct: trace."
    c.required = "attr_brief attr_lists attr_some attrs_printed cat_binary cat_refused cat_rows cat_text damaged damaged_read damaged_refused formats full_device list_one lists lists_long missing small_buffers sparse_cats steered_sums".split()


@check("C26")
def c26(c):
    d = tools(c, "C26", c.n(1000, 30000), names=SERIAL_TOOLS, mpi=["bigfile-copy-mpi"])
    tools(c, "C26M", c.n(200, 5000), shards=5, dir=d)
    c.rule = TOOLR + "Copies (serial, and with 2-5 ranks with random pauses before messages) with random file counts, buffer sizes, targets and existing destinations; creation from standard input; attribute setting; checking and repartitioning; sources with missing rows, writes that fail (file size limit), refused arguments. The destination is read by an independent decoder and compared with the source, sizes and checksums with those computed. Non-trivial: more than one row. Distinct: trace."
    c.required = "accepted attrs_changed attrs_set copied_rows copies created created_rows mpi_copies other_file refused refused_one_rank repartitioned replacing reported restriped set_refused small_buffers source_damaged write_failed mpi_write_failed".split()


@check("C27")
def c27(c):
    tools(c, "C27", c.n(150, 3000), shards=5, mpi=["bigfile-sample-mpi"])
    c.rule = TOOLR + "Blocks whose rows carry their number, from none to three chunks (3 million rows), sampled three times: with different numbers of ranks, files, targets and random pauses before messages, and as another block of equal length. Rows, order, sizes, checksums and attributes are compared with the source and the three selections with each other. Non-trivial: more than one row. Distinct: trace."
    c.required = "samples sampled_rows several_chunks repeated columns refused".split()


@check("C31")
def c31(c):
    tools(c, "C31", c.n(1200, 20000), names=SERIAL_TOOLS)
    c.rule = TOOLR + "The scripts run as an unprivileged user whose rm and mv only act inside the case's directory. Files with blanks, wildcards or dashes in their path, with neighbours which a path split or expanded would name; blocks inside blocks and groups; names that exist, are missing, empty or odd; directories that can not be written. The whole directory tree, contents included, is compared with the model after each call, and the tools list and print what is left. Distinct: trace."
    c.required = "renamed rename_refused removed rm_partly rm_nothing denied".split()


@check("C32")
def c32(c):
    tools(c, "C32", c.n(150, 4000), shards=4, mpi=["bigfile-iosim"])
    c.rule = TOOLR + "Blocks are created, updated, grown and read by 1-5 ranks with any number of writers and files, aggregated or not, with random pauses and failing writes; blocks on disk are compared with the rows the tool defines, and damaged ones must be reported. Distinct: trace."
    c.required = "iosim_create iosim_update iosim_grow iosim_read accepted corruption_reported refused rows_compared updated grown write_failed purged".split()


@check("C30")
def c30(c):
    python(c, "thr.py", "C30", c.n(1200, 30000), PYR.replace("Random histories", "2-7 threads with short switch intervals") + "Readers of columns of their own, of columns and datasets shared by all, restored from pickles; writers of disjoint rows; creators of blocks; listings, attributes and errors, all at the same time. Every item read must be the one before or after the concurrent write (after it, once the write returned), every error must name its own cause; at the end the disk is compared. Distinct: trace.",
           "reads shared_reads dataset_reads writes created lists errors pickles attr_reads read_new read_mixed blocks_compared".split(), shards=4)

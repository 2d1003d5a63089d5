#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

C = "src/bigfile.c"
M = "src/bigfile-mpi.c"
U = "src/mp-mpiu.c"
R = "src/bigfile-record.c"
X = "bigfile/pyxbigfile.pyx"
P = "bigfile/__init__.py"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None))

L = []

L.append(prop("C01", "Rows written to a block are exactly the rows read back",
 "After a sequence of successful writes to a block, reading any row range in the same session or after closing and reopening returns, bit for bit, the last value written to every row, whatever the striping over physical files (including empty files and many files), the number of members per row, the memory layout of the arrays used for writing and reading (contiguous, strided, reversed, multi-dimensional) and the internal I/O buffer size. "
 "Rows not addressed by a write, and every other block and attribute of the file, are unchanged by it. "
 "A write or read that ends on a physical-file or buffer boundary, or spans several of them, behaves no differently from one that does not.",
 ["inputs", "histories", "configurations"],
 "all write/read sequences x stripings x dtypes x nmemb x array layouts x buffer sizes, including offsets beyond 4 GiB and file ids beyond 255",
 "The tests write one or two small arrays to 1-3 files with the default 64 MiB buffer; stripe/buffer boundary arithmetic, empty stripes, 64-bit offsets, strided/reversed layouts and overwrite histories are never combined.",
 [C], [("big_block_write chunk loop", C), ("big_block_read chunk loop", C), ("big_block_seek binary search over foffset", C), ("big_array_iter_advance", C), ("cast same-type copy", C)],
 [("fsize/foffset", "rows per physical file and prefix sums", "BigBlock"), ("CHUNK_BYTES", "global I/O buffer size", C)],
 ["big_block_read", "big_block_read_simple", "content of the data files"]))

L.append(prop("C02", "The on-disk layout is the documented format, both ways",
 "After a block is closed, its directory holds a text header giving the normalized dtype, members per row, number of files and, per file, its row count and checksum, and data files named by the six-digit upper-case hexadecimal file number which hold the consecutive rows as raw values in the recorded byte order and nothing else; attributes are one line each of name, normalized dtype, member count and upper-case hexadecimal bytes. "
 "An independent reader of that format recovers exactly the values written through the API, and a file produced by an independent writer of that format (any file-record order in the header, either byte order, legacy binary 'attr' files included) is read by the API with exactly the values stored.",
 ["inputs", "configurations"],
 "all blocks writable through the API and all files an independent implementation of the format can produce, within the dtypes the library supports",
 "Every test reads back with the library that wrote, so a symmetric deviation from the format (byte order, file naming, header fields, hex encoding) is invisible.",
 [C], [("big_block_flush", C), ("_big_block_open", C), ("_big_file_open_a_file naming", C), ("attrset_write_attr_set_v2", C), ("attrset_read_attr_set_v1", C), ("attrset_read_attr_set_v2", C)],
 [], ["header", "attr-v2", "data files"]))

L.append(prop("C03", "Type conversion on read and write is value-exact",
 "Reading or writing with a dtype different from the stored one yields, for every supported pair (all pairs among i4, i8, u4, u8, f4, f8; b1 into each of those; c8 with c16; any byte order on either side), exactly the C conversion of each value, and is the identity on the bits when only the byte order differs, including each component of complex values. "
 "An unsupported pair is reported as an error and never as success with wrong data. "
 "The result does not depend on array layout, buffer size or striping.",
 ["inputs", "configurations"],
 "all values representable in both types x all dtype pairs x byte orders x layouts",
 "The tests convert a handful of small positive integers between a few native types; extreme values, NaN payloads, non-native orders, complex and boolean sources and the unsupported pairs are not reached.",
 [C], [("cast table", C), ("byte_swap", C), ("_dtype_convert", C), ("_dtype_normalize", C)],
 [], ["big_block_read", "big_block_write", "big_block_get_attr", "big_block_set_attr"]))

L.append(prop("C04", "Source data is never modified and reads touch only the target",
 "Writing rows, setting an attribute or saving records leaves every byte of the caller's source memory as it was, whatever its dtype or byte order; reading rows or an attribute changes only the elements addressed by the destination array description and none of the gaps between them or the memory around them. "
 "Reading data or attributes never changes what a later read of them, or the file on disk, returns.",
 ["inputs", "histories", "configurations"],
 "all array layouts (gapped, reversed, multi-dimensional) x dtypes x byte orders x repeated operations",
 "The tests never compare the source after a write, never use guarded or gapped destinations and never read the same attribute twice.",
 [C, R], [("_dtype_convert", C), ("byte_swap", C), ("big_array_iter_advance", C), ("attrset_get_attr", C)],
 [], ["caller memory around and between array elements"]))

L.append(prop("C05", "Seeks and bounds are exact; out-of-range access fails untouched",
 "Seeking succeeds exactly for offsets from 0 to the block size (negative offsets counting from the end) and positions the pointer at that absolute row; relative seeks and the end-of-file predicate agree with it, and every successful read or write advances the pointer by exactly the rows transferred. "
 "A seek outside that range, or a read or write that would go past the end, returns an error and changes no stored byte and no destination byte, and leaves the block usable. "
 "The read-simple call returns min(size, rows remaining) rows from a valid start.",
 ["inputs", "histories"],
 "all (block layout, start, length) combinations including empty stripes, empty blocks, zero-length transfers and extreme offsets",
 "One or two out-of-range reads are tested; the pointer state after operations, boundaries at empty stripes and writes past the end are not.",
 [C], [("big_block_seek", C), ("big_block_seek_rel", C), ("big_block_eof", C), ("abs > size guards in read/write", C), ("big_block_read_simple clamp", C)],
 [("BigBlockPtr", "fileid, roffset, aoffset", "src/bigfile.h")], ["return codes, pointer position"]))

L.append(prop("C06", "Attributes behave as a persistent map from names to typed values",
 "After any sequence of set, overwrite (with the same or another dtype and length), remove, lookup, list, flush, close and reopen, a block's attributes are exactly the map implied by the sequence: each present name appears once, with its last dtype, member count and bytes, listed in byte order of name, and absent names are reported as errors. "
 "The map survives flush/close/reopen bit for bit, including removals, empty values, values of any byte content and length, and any number of attributes, and attributes of different blocks and groups never affect each other. "
 "A name that cannot be stored (empty or containing blanks) and a request with the wrong member count are refused without changing the map.",
 ["inputs", "histories"],
 "all operation sequences x names x dtypes x lengths x number of attributes",
 "The tests set a few short attributes once and reopen; overwrites with different sizes, removals across reopen, many attributes, long or empty values and binary content are not explored.",
 [C, X], [("attrset_set_attr/add/remove/lookup", C), ("attrset_write_attr_set_v2", C), ("attrset_read_attr_set_v2", C)],
 [("attrbuf/attrlist", "arena and sorted index of attributes", C), ("dirty", "whether the attr file must be rewritten", C)],
 ["attr-v2", "big_block_list_attrs", "big_block_get_attr"]))

L.append(prop("C07", "Growing a block preserves all existing data and metadata",
 "Growing a block any number of times by any list of file sizes (also empty ones) keeps every existing row, file, checksum and attribute, adds exactly the given files after the existing ones, and makes the size the total; rows written to the grown part are read back exactly and the result, after flush and reopen, is indistinguishable from a block created with the concatenated layout and written with the same data. "
 "Until the grown block is flushed, opening the block again shows the previous size and data.",
 ["inputs", "histories", "configurations"],
 "all grow/write/flush/reopen histories x file-size lists",
 "One append of 10 items is tested.",
 [C, X], [("_big_block_grow_internal", C), ("big_block_grow", C), ("ColumnLowLevelAPI.append", X)],
 [("fsize/foffset/fchecksum", "re-allocated and copied on growth", C)], ["header", "data files", "big_block_read"]))

L.append(prop("C08", "Recorded checksums equal the byte sums of what was written",
 "For every physical file of a block whose bytes were each written once since creation, in whatever order, piece size, buffer size, dtype, session split or growth history, the checksum in the header equals the sum modulo 2^32 of the bytes of that file and the second recorded number is its SysV 16-bit reduction; in general the recorded sum increases by exactly the byte sum of the data of each successful write. "
 "Reading, seeking, flushing repeatedly, attribute changes and reopening never change a checksum.",
 ["inputs", "histories", "configurations"],
 "all write histories, stripings, buffer sizes, session splits and growths, serial",
 "Checksums are not asserted by any test.",
 [C], [("sysvsum in big_block_write", C), ("big_block_flush header line", C), ("_big_block_open reads fchecksum", C)],
 [("fchecksum", "running byte sum per file", "BigBlock")], ["header", "data file bytes", "bigfile-check"]))

L.append(prop("C09", "Blocks form a namespace: isolation, nesting and listing are exact",
 "Creating, writing, growing or annotating a block affects only that block; names that are prefixes, suffixes or siblings of each other, nested to any depth, and differently spelled equivalents (duplicate or trailing slashes) resolve to the block they denote. "
 "Listing a file returns each created block (outside hidden names and the inside of other blocks) exactly once by its full name and nothing else, opening succeeds exactly for names that were created, and re-creating a block replaces its dtype, layout, data and attributes entirely. "
 "Group attributes attached to a file's or group's metadata block are kept apart from those of the blocks.",
 ["inputs", "histories"],
 "all sets of block names and create/reopen/re-create histories",
 "A few fixed names are created; re-creation with a different layout, deep nesting, prefix-related names and large directories are not checked.",
 [C, X], [("big_file_create_block", C), ("_big_file_mksubdir_r", C), ("listbigfile_r", C), ("_path_join", C), ("_big_block_create_internal", C)],
 [], ["big_file_list", "big_file_open_block"]))

L.append(prop("C10", "Damaged metadata or data files never cause memory errors or hangs",
 "Opening, listing, reading, annotating and closing blocks whose header, attribute or data files were truncated, corrupted or replaced by arbitrary bytes either succeeds or returns an error with a message: no out-of-bounds access, undefined arithmetic, crash or endless loop occurs. "
 "A data file shorter than the header declares makes reads that need the missing rows fail rather than return invented values, and reads of the rows that are present still succeed.",
 ["inputs"],
 "all byte contents of the metadata files up to a bounded size, and all truncations of data files",
 "No test opens a malformed file.",
 [C], [("_big_block_open header parse", C), ("attrset_read_attr_set_v1", C), ("attrset_read_attr_set_v2 parser", C), ("dtype_isvalid", C), ("fread count check in big_block_read", C)],
 [], ["sanitizer reports, return codes, error messages"]))

L.append(prop("C11", "An I/O failure is never reported as success",
 "If any system call a create, open, write, read, grow, flush or close operation depends on fails (no space, I/O error, permission, descriptor limit, missing or unreadable file), the operation, or at the latest the flush or close that completes it, returns an error with a message. "
 "Conversely, when every call returned success, reopening the file shows all data and metadata written. "
 "A failed operation leaves the process able to retry, and a retry after the cause is gone succeeds and completes the data.",
 ["fault_sequences", "inputs", "histories"],
 "every system call issued by every operation of a scenario x every applicable error, plus full devices and limits",
 "The tests run on a healthy file system only.",
 [C], [("RAISEIF checks around fopen/fseek/fwrite/fread/fclose", C), ("big_block_flush", C), ("attrset_write_attr_set_v2", C), ("_big_file_mkdir", C)],
 [("dirty", "pending metadata", C)], ["return codes under injected faults", "file content afterwards"]))

L.append(prop("C12", "A process killed while writing damages nothing else",
 "If the process is killed between any two system calls while it writes rows to an existing block, creates or writes other blocks, or grows a block, then every block that was closed before and is not being written stays byte-identical and readable; the block being written can still be opened with its last flushed dtype, layout and attributes, and every row outside the range of the interrupted write still reads back with its previous value. "
 "Each row of the interrupted write that was written by an already completed write call reads back with its new value.",
 ["crash_points", "histories"],
 "every system-call boundary of write/create/grow scenarios",
 "No test kills a process.",
 [C], [("data files opened r+ and unbuffered", C), ("header rewritten only by flush/close", C), ("grow truncates only the new files", C)],
 [], ["state of the directory after SIGKILL"]))

L.append(prop("C13", "No operation leaks file descriptors or memory, even on failure",
 "Any sequence of operations on files and blocks in which everything successfully opened is closed returns the process to the same number of open file descriptors and releases all memory the library allocated, also when operations in the sequence failed (missing blocks, malformed metadata, unsupported conversions, out-of-range access, I/O errors). "
 "No descriptor stays open between calls.",
 ["histories", "fault_sequences"],
 "all operation sequences including failing ones",
 "The tests never count descriptors or allocations.",
 [C, R], [("error labels of every function", C), ("_big_block_close_internal", C), ("big_block_close", C)],
 [], ["/proc/self/fd, LeakSanitizer"]))

L.append(prop("C14", "Errors carry their cause for any names, lengths and threads",
 "Every failing call leaves an error message naming the cause (the path, block or value involved where the call has one) which can be read until the next error, for any file, block or attribute name, including ones containing per-cent signs or thousands of characters, and at any nesting of the failure. "
 "Formatting the message never reads or writes outside its buffer, and failures in concurrent threads never corrupt memory.",
 ["inputs", "schedules"],
 "all names up to the system limits x failing operations, and concurrently failing threads",
 "Messages are not asserted and names are short and alphabetic.",
 [C, "src/bigfile-internal.h"], [("_big_file_raise", C), ("big_file_set_error_message", C), ("RAISE/RAISEIF", "src/bigfile-internal.h")],
 [("ERRORSTR", "last error message", C)], ["big_file_get_error_message"]))

L.append(prop("C15", "Independent handles may be used concurrently",
 "Threads or processes that each open their own handles and write disjoint row ranges of the same or different blocks, or read, never race inside the library and leave exactly the data each wrote; readers running concurrently see for each byte its old or its new content and nothing else, and the header and attributes flushed before, as long as the handles through which one block was changed are closed one at a time. "
 "Several threads may read through one shared block handle with their own pointers and arrays.",
 ["schedules", "histories"],
 "all interleavings of threads/processes working on disjoint rows or reading",
 "The tests are single threaded (or MPI with a single writer).",
 [C], [("per-call buffers and per-call FILE handles", C), ("ERRORSTR exchange", C), ("data files opened r+ without truncation", C)],
 [("ERRORSTR, CHUNK_BYTES", "process-global state", C)], ["ThreadSanitizer reports", "final data"]))

L.append(prop("C16", "Parallel reads and writes equal the serial result",
 "A collective write of rows distributed over ranks in any way (uneven, empty ranks, all on one rank) stores exactly the rank-order concatenation at the pointer, and a collective read returns to each rank exactly its slice, for every number of ranks, concurrency limit, aggregation threshold, striping, array layout and dtype conversion; the pointer of every rank advances by the global number of rows. "
 "The bytes on disk are identical to those a single process would produce.",
 ["inputs", "configurations", "schedules"],
 "all distributions x ranks x concurrency x aggregation thresholds x layouts x message timing",
 "The MPI tests run one distribution with one or two configurations.",
 [M, U], [("_throttle_action", M), ("_aggregated", M), ("MPIU_Segmenter_init", U), ("MPIU_Segmenter_collect_sizes", U)],
 [("_BigFileAggThreshold", "aggregation threshold", M)], ["data files, per-rank buffers, per-rank pointers"]))

L.append(prop("C17", "Collective metadata stays consistent and equals the serial result",
 "After every collective open, create, grow, flush and close, all ranks hold the same block description and attributes, and what is on disk (layout, header, checksums, attributes) equals what a single process performing the same history would have stored; repeated flushes, reopened blocks, growth and writes from any rank never lose, duplicate or multiply checksum contributions. "
 "Attributes set on the root rank (or identically on all ranks) before a flush or close are stored and then visible on all ranks.",
 ["histories", "configurations"],
 "all histories of collective operations x ranks",
 "The MPI tests check the data only, after a single write.",
 [M, X, C], [("big_block_mpi_flush", M), ("big_block_mpi_grow", M), ("big_block_mpi_broadcast", M), ("_big_block_pack/_unpack", C), ("_MPI_flush", X)],
 [("fchecksum", "per-rank partial sums", M)], ["header", "per-rank BigBlock fields"]))

L.append(prop("C18", "Collective calls fail on all ranks together, and never hang",
 "When a collective open, create, grow, read, write, flush, close or records operation fails on any rank or subset of ranks, for whatever reason, every rank returns an error and can read the failing rank's message; when it succeeds it returns success on every rank, and no rank is left waiting. "
 "After a failed collective call the communicator and remaining handles are usable for further collective operations.",
 ["fault_sequences", "configurations", "schedules"],
 "all failing operations x failing ranks x ranks x concurrency x aggregation thresholds x message timing",
 "No MPI test provokes a failure on a subset of ranks.",
 [M], [("big_file_mpi_broadcast_anyerror", M), ("BCAST_AND_RAISEIF", M), ("_throttle_action error propagation", M)],
 [], ["per-rank return codes and messages; watchdog"]))

L.append(prop("C19", "MPI exchange helpers deliver every item once, in order",
 "The all-to-all helper, under each sparse policy and with each optional argument omitted, leaves in every rank's receive buffer exactly what a dense all-to-all with the same counts, displacements and types would, and reports the total when asked for the size; gather and scatter with any counts, root and element size deliver every byte in rank order, report the totals on the root, and scatter inverts gather. "
 "The extremum locator returns on every rank the lowest rank holding the extremum, and nothing outside the described receive regions is modified.",
 ["inputs", "configurations", "schedules"],
 "all count matrices x policies x optional arguments x ranks x roots x datatypes",
 "The tests do not call these helpers directly.",
 [U, "src/mp-mpiu.h"], [("MPIU_Alltoallv", U), ("MPI_Alltoallv_sparse", U), ("MPIU_Gather", U), ("MPIU_Scatter", U), ("MPIU_GetLoc", U)],
 [], ["receive buffers with guards"]))

L.append(prop("C20", "The segmenter partitions ranks into bounded consistent groups",
 "For any distribution of sizes over ranks, the segmenter assigns every rank holding data to exactly one segment, segments being consecutive in rank order, and every segment to exactly one group of consecutive segments whose number does not exceed the requested one; the communicators, segment ranges, segment and group identifiers and leaders it reports are consistent across the ranks, with exactly one leader per group (a rank holding the most data) and the segment leader holding the least. "
 "A segment closes as soon as its size exceeds the requested segment size, the number of segments reported is that of the segments so formed (one more at most for trailing ranks without data), sizes and offsets collected are the exclusive prefix sums, and ranks without data are kept apart from those with data.",
 ["inputs", "configurations"],
 "all size distributions x optional secondary sizes x requested segment sizes x group counts x ranks",
 "The tests reach the segmenter only through one distribution.",
 [U, "src/mp-mpiu.h"], [("_MPIU_Segmenter_assign_colors", U), ("MPIU_Segmenter_init", U), ("MPIU_Segmenter_collect_sizes", U)],
 [("MPIU_Segmenter", "segments, groups, communicators, leaders", "src/mp-mpiu.h")], ["fields of MPIU_Segmenter on every rank"]))

L.append(prop("C21", "Record I/O equals column-by-column I/O of the fields",
 "Writing an array of records stores each field in its block exactly as writing that column alone would, at the same row offset and without touching other rows or blocks, and reading records reassembles them exactly; records are packed without gaps in field order, and field accessors and views address exactly the bytes of that field of that record. "
 "Creating with mode w+ creates every field's block with the given layout, a+ appends the given files to each, any other mode is an error, and out-of-range or missing-field operations fail; the serial and the collective interface give the same files.",
 ["inputs", "histories", "configurations"],
 "all record types x offsets x sizes x stripings x append histories, serial and collective",
 "One record type with two fields is tested, serially and with MPI.",
 [R, M, X], [("big_record_type_complete", R), ("big_record_view_field", R), ("big_file_write_records/read/create", R), ("big_file_mpi_*_records", M)],
 [("BigRecordType", "field offsets, element sizes, itemsize", "src/bigfile.h")], ["field blocks on disk, record buffers"]))

L.append(prop("C22", "Python columns index and assign like the equivalent numpy array",
 "For a Column (and a Dataset's rows), indexing with any integer, contiguous slice, negative or out-of-range slice bound or Ellipsis returns what the same index on the equivalent numpy array returns, an out-of-range integer raises an error, and steps other than 1 raise; assigning to such an index changes exactly the selected rows or raises without changing anything. "
 "Writing accepts arrays of any layout, byte order and convertible dtype with the stored result that numpy conversion gives, and reading never exposes uninitialised memory as data.",
 ["inputs", "histories"],
 "all indices x array lengths x dtypes x layouts",
 "The tests use a handful of in-range positive slices.",
 [P, X], [("_enhance_slicefunc", P), ("Column.__getitem__/__setitem__", P), ("ColumnLowLevelAPI.read/write", X), ("Dataset._getslice/__setitem__", P)],
 [], ["values returned in Python, exceptions"]))

L.append(prop("C23", "The Python file and attribute API round-trips and raises, never crashes",
 "Values of any supported kind stored through Python attributes (numbers and numpy arrays of any supported dtype and byte order, strings of any text, lists of strings) are returned equal after close and reopen, membership, iteration, deletion and listing agree with a dictionary with the same history, and unsupported values raise without changing the stored attributes. "
 "create_from_array, append, Dataset reads, writes and appends, sub-files, block listing and the MPI classes give the same contents as the equivalent numpy data; operations that fail in the library raise an exception and leave the interpreter and other objects usable.",
 ["inputs", "histories", "configurations"],
 "all attribute values and operation histories through the Python binding, one process or several ranks",
 "The tests use a few fixed values and never follow a failure with further use.",
 [P, X], [("AttrSet", X), ("File.create_from_array", P), ("ColumnLowLevelAPI.append", X), ("Dataset", X), ("FileMPI/ColumnMPI", P), ("Error", X)],
 [], ["Python values and exceptions"]))

L.append(prop("C24", "Pickled files and columns are faithful independent copies",
 "A File, Column or Dataset-visible column restored from a pickle, in the same or another process, reads the same rows, attributes, dtype, size and layout as the original at the time of pickling, including unflushed attributes and checksums; the copy and the original can be used, modified and destroyed in any order without affecting each other's memory. "
 "Pickling a closed or never opened object restores one in the same state.",
 ["inputs", "histories"],
 "all blocks (dtypes, sizes, attribute sets, file counts) x orders of use and destruction",
 "One pickle of a small block is tested in-process.",
 [X, C], [("__getstate__/__setstate__", X), ("_big_block_pack", C), ("_big_block_unpack", C), ("_big_attrset_pack/_unpack", C)],
 [], ["restored object state"]))

L.append(prop("C25", "The inspection tools print exactly what is stored",
 "bigfile-cat prints exactly the requested rows, once each and in order, for any offset, count, block-size option and format (raw bytes identical to the stored data with -b), bigfile-ls lists each block once and its long format gives dtype, members, size, checksum of the whole block and file count, and bigfile-get-attr prints each attribute's stored values. "
 "Non-existing files, blocks or invalid ranges give a non-zero exit status, and no input makes a tool crash or loop.",
 ["inputs", "configurations"],
 "all blocks, attributes and option combinations",
 "The tools are not run by the tests.",
 ["utils/bigfile-cat.c", "utils/bigfile-ls.c", "utils/bigfile-get-attr.c", C], [("main read loop", "utils/bigfile-cat.c"), ("listbigblock", "utils/bigfile-ls.c"), ("print_attr", "utils/bigfile-get-attr.c"), ("big_file_dtype_format", C)],
 [], ["stdout and exit status of the tools"]))

L.append(prop("C26", "The copying and creating tools reproduce data and attributes exactly",
 "bigfile-copy and bigfile-copy-mpi (any number of ranks of two or more) produce a block with the same dtype, members, rows in order, and attributes as the source spread evenly over the requested number of files, into the same or another file, whatever the buffer size and striping, with checksums valid for the new files, and leave the source unchanged; bigfile-create stores exactly the bytes of its input, and bigfile-set-attr exactly the values given. "
 "bigfile-repartition keeps the block's contents and attributes, and the blocks inside it, and bigfile-check accepts every intact block and reports every block whose byte sum was changed. "
 "A failure gives a non-zero exit status.",
 ["inputs", "configurations", "schedules"],
 "all blocks x file counts x buffer sizes x ranks x timing of workers",
 "The tools are not run by the tests.",
 ["utils/bigfile-copy.c", "utils/bigfile-copy-mpi.c", "utils/bigfile-create.c", "utils/bigfile-set-attr.c", "utils/bigfile-check", "utils/bigfile-repartition"],
 [("copy loop", "utils/bigfile-copy.c"), ("server/slave work queue", "utils/bigfile-copy-mpi.c"), ("stdin loop", "utils/bigfile-create.c"), ("argument parsing", "utils/bigfile-set-attr.c")],
 [], ["destination blocks on disk, exit status"]))

L.append(prop("C27", "Subsampling is an ordered, reproducible subset of the rows",
 "bigfile-sample-mpi writes a block whose rows are rows of the source in source order without repetition, with the source's dtype, members and attributes, an announced size equal to the rows written, and all rows when the ratio is 1; the result depends only on the source and the ratio, not on the number of ranks, the number of output files or the timing of the workers. "
 "Sampling blocks of equal length with the same ratio selects the same rows in each.",
 ["inputs", "configurations", "schedules"],
 "all sources x ratios x ranks (two or more) x output file counts x worker timing",
 "The tool is not run by the tests.",
 ["utils/bigfile-sample-mpi.c"], [("filesize() and server() consume the same random stream", "utils/bigfile-sample-mpi.c"), ("slave() selection sampling", "utils/bigfile-sample-mpi.c")],
 [], ["destination block on disk"]))

L.append(prop("C28", "Formatting and parsing of values are exact for every supported type",
 "Formatting a finite value of any supported dtype and byte order gives its decimal text by the default or a given format, with complex values as real and imaginary parts and unknown types as a placeholder, and parsing that text (or any decimal text of a representable value) into any byte order stores exactly that value; integers over the full range of their type round-trip exactly. "
 "Text that is not a value, or a dtype that cannot be parsed, returns an error and changes nothing, and neither direction reads or writes beyond the value.",
 ["inputs"],
 "all values x dtypes x byte orders x texts",
 "No test formats or parses values.",
 [C], [("big_file_dtype_format", C), ("big_file_dtype_parse", C), ("dtype_convert_simple", C)],
 [], ["output strings and memory"]))

L.append(prop("C29", "The concurrency limit of collective I/O is respected",
 "During a collective read or write with a positive concurrency argument, at no time do more ranks than that have a data file of the block open, whatever the distribution of rows, the aggregation threshold and the speed of each rank, and every rank still transfers exactly its rows. ",
 ["configurations", "schedules"],
 "all distributions x ranks x concurrency arguments x aggregation thresholds x timing of the ranks",
 "No test observes which ranks access files at the same time.",
 [M, U], [("_throttle_action", M), ("MPIU_Segmenter_init", U)],
 [("Ngroup", "number of groups transferring in turn", "src/mp-mpiu.h")], ["opens and closes of data files per rank"]))

L.append(prop("C30", "Files and columns can be used from several Python threads at once",
 "Threads which read, write disjoint rows, create, list, annotate and pickle blocks of one file at the same time, through columns and datasets of their own or ones they share for reading, get from every call exactly what that call alone would give: reads return for every item a value it had during the read (the new one once the write returned), errors name the cause of the call that raised them, and what is on disk at the end is what the calls stored. "
 "No interleaving crashes the interpreter or corrupts the memory of another object.",
 ["schedules", "inputs"],
 "all interleavings of threads x operations x columns shared or not",
 "The tests use one thread; the library releases the interpreter lock in its transfers, and the documentation advertises use with dask.",
 [X, C], [("nogil sections", X), ("error messages per thread", C), ("_dtype_convert buffers", C)],
 [], ["values, exceptions and the files"]))

L.append(prop("C31", "Renaming and removing blocks acts on exactly the blocks named",
 "bigfile-rename moves the named block, with whatever lies inside it, to the new name within the file, where it is found with the same rows, dtype, layout, checksums and attributes; bigfile-rm removes the named blocks with whatever lies inside them. Nothing else in the file or around it is moved, changed or removed, whatever characters the path and the names contain. "
 "Renaming to a name that exists, into a group that does not, or of a block that does not exist, and removing a missing block or an empty name, give a non-zero exit status; a failed renaming changes nothing, and a failed removal does not keep the other named blocks from being removed.",
 ["inputs", "histories"],
 "all files x block names (nested, odd characters) x sequences of renamings and removals",
 "The tools are not run by the tests.",
 ["utils/bigfile-rename", "utils/bigfile-rm"], [("mv", "utils/bigfile-rename"), ("loop over the names", "utils/bigfile-rm")],
 [], ["the directory tree and the exit status"]))

L.append(prop("C32", "The I/O simulator stores what it says and reports corruption",
 "bigfile-iosim create makes a block TestBlock of type i8 with the given rows and members spread evenly over the given number of files, whose row i holds i in every member, with valid checksums; update stores these rows again in a block that exists, and grow adds rows that continue the sequence. "
 "With any number of ranks, writers and files, aggregated or not, read succeeds on such a block without changing it, and gives a non-zero exit status if any value differs or any row is missing. With -p the block is removed at the end, and nothing else. Failing calls of the library and wrong arguments give a non-zero exit status.",
 ["inputs", "configurations", "schedules"],
 "all sizes x members x file counts x ranks x writers x aggregation x damages",
 "The tool is not run by the tests.",
 ["utils/bigfile-iosim.c", M], [("iosim", "utils/bigfile-iosim.c"), ("big_block_mpi_write", M), ("big_block_mpi_read", M)],
 [], ["TestBlock on disk, exit status"]))

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        f.write(json.dumps(p) + "\n")
print(len(L), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T1 = "The 15 tests read one well-formed 2.5 MB image (512-byte sectors, 512-byte clusters) through an in-memory reader that never fails; "

prop("C01", "No volume content and no call sequence makes the library crash",
 "Whatever bytes a device holds and in whatever order the public operations are called, every operation returns a value or an error: it never panics, never overflows an integer, never indexes outside a buffer and never exhausts the stack. The only panics are the two documented ones: comparing names before the $UpCase table was read, and resolving an Attribute List entry against a file with another record number.",
 ["inputs", "histories"], "all device contents (any corruption of any structure) x all sequences of public calls",
 T1 + "none of them feeds a damaged structure to any parser.",
 ["src/record.rs", "src/file.rs", "src/attribute.rs", "src/index_entry.rs", "src/index_record.rs", "src/structured_values/index_root.rs", "src/structured_values/attribute_list.rs", "src/attribute_value/non_resident.rs", "src/boot_sector.rs", "src/error.rs"],
 [("size and range validation before every slice access", "src/attribute.rs validate_*; src/record.rs fixup; src/index_entry.rs validate_*; src/file.rs validate_sizes"), ("checked arithmetic on on-disk numbers", "src/types.rs Lcn/Vcn; src/boot_sector.rs; src/attribute_value/mod.rs seek_contiguous")],
 ["return value / unwinding of every public operation", "basic-block coverage of the library (drives the input search)"])

prop("C02", "Every operation ends, with bounded work and memory",
 "No device content makes a single call run forever or allocate without bound: the work and memory of one call are bounded by the sizes of the structures it has to read (one file record, one index node per level, one attribute list, one run list) and the caller's buffer. Cycles between index nodes, over-long chains, absurd record sizes, zero-length or self-referential entries end in an error or in the end of the iteration, and every iterator over a finite volume ends after finitely many steps or keeps returning errors.",
 ["inputs"], "all device contents, in particular self-referential and absurdly sized structures",
 T1 + "termination on hostile structures is never exercised and cannot be sampled by a few well-formed inputs.",
 ["src/index.rs", "src/index_record.rs", "src/structured_values/index_root.rs", "src/structured_values/attribute_list.rs", "src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/boot_sector.rs"],
 [("subnode traversal keeps a stack of nodes", "src/index.rs NtfsIndexEntries::next, NtfsIndexFinder::find"), ("list and entry lengths must be at least the header size", "src/structured_values/attribute_list.rs, src/index_entry.rs, src/attribute.rs")],
 ["basic-block steps, heap bytes and device operations per public call"])

prop("C03", "A non-resident value reads exactly the bytes the run list maps",
 "Reading any range of a non-resident attribute value returns, byte for byte, the contents of the clusters its run list maps there, zeros for sparse runs and for everything beyond the initialized size, and ends exactly at the data size. This holds for every cluster size, run length and offset encoding (including negative and padded ones and a run that starts at cluster 0), fragmentation, preallocation and sizes beyond 4 GiB, and regardless of how the reads are cut into buffers.",
 ["inputs", "configurations"], "all volumes geometries x run lists x sizes x read windows and buffer sizes",
 T1 + "two small streams are read; no value with an initialized size below its size, no run at LCN 0, none beyond 4 GiB, no other cluster size.",
 ["src/attribute_value/non_resident.rs", "src/attribute.rs", "src/types.rs"],
 [("run list decoding with running LCN", "src/attribute_value/non_resident.rs NtfsDataRuns::next"), ("run-by-run reading bounded by data size", "src/attribute_value/non_resident.rs StreamState::read_data_run")],
 ["bytes returned by read/seek on the value, compared with the volume model"])

prop("C04", "Every value reader seeks and reads like an in-memory cursor",
 "For every kind of attribute value (resident, non-resident, connected over an attribute list, and a single data run), any sequence of seeks from start, current position and end and of reads behaves like a cursor over the value's bytes: same returned counts, same data, same positions, the same refusal of positions before zero or past 2^64, and no data past the end. A refused seek changes nothing, a clone continues independently from the same place, and attaching and detaching a reader preserves the position.",
 ["histories", "inputs"], "all interleavings of seek and read operations on all value kinds",
 T1 + "two fixed seek sequences on two streams are checked.",
 ["src/attribute_value/mod.rs", "src/attribute_value/resident.rs", "src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/traits.rs"],
 [("contiguous seek arithmetic", "src/attribute_value/mod.rs seek_contiguous"), ("seek translated to forward skipping or a rewind", "src/attribute_value/non_resident.rs StreamState::optimize_seek / seek_data_run")],
 ["results of read/seek/stream_position, compared with a reference cursor"])

prop("C05", "The flattened attribute view is independent of physical placement",
 "Iterating a file's attributes yields every attribute of the file exactly once, with its type, name, flags, length and content, no matter whether it lives in the base record or in extension records and over how many attribute list entries a non-resident value is spread; the attribute list itself and continuation pieces never show up as attributes of their own. Two volumes that hold the same attributes in different placements are indistinguishable through this view, and finding a named stream gives the stream with that name.",
 ["inputs", "configurations"], "all placements of attributes and extents over base and extension records, resident and non-resident lists, any instance numbers",
 T1 + "only one file has an attribute list, with one connected stream.",
 ["src/attribute.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/structured_values/attribute_list.rs", "src/file.rs"],
 [("list entries that repeat base attributes are skipped", "src/attribute.rs NtfsAttributes::next"), ("connected entries joined into one value", "src/attribute_value/attribute_list_non_resident.rs")],
 ["multiset of (type, name, flags, length, content) from attributes(), compared with the model; trace equality between placements"])

prop("C06", "Torn or misprotected records are never served as data",
 "A file record or index record is handed out only if it carries its signature and every 512-byte block of it ends in the record's update sequence number; its contents then show the original bytes at those places, everywhere in the record and for every record size. If any protected block ends in anything else (a torn write), the operation that reads the record reports an error and exposes none of its contents.",
 ["inputs", "crash_points"], "all record contents and sizes x all subsets of sectors torn by an interrupted write",
 T1 + "none of its records is torn, and all have the same size.",
 ["src/record.rs", "src/file.rs", "src/index_record.rs"],
 [("update sequence fixup", "src/record.rs Record::fixup"), ("signature check before use", "src/file.rs validate_signature; src/index_record.rs")],
 ["result of opening the file / visiting the index record, and attribute bytes at sector ends"])

prop("C07", "Directory and index iteration yields every entry once, in order",
 "Iterating an index yields every entry stored in the tree exactly once, with its stored key, data and file reference, in the collation order the tree encodes, for any tree shape (empty, single node, unbalanced, nodes without own entries, any record and cluster size, any placement and fragmentation of the nodes); entries in unused records or in slack space never appear. Iterating the raw index records yields every record of the allocation once.",
 ["inputs", "configurations"], "all index trees and all geometries",
 T1 + "one directory of 512 generated names with one geometry is iterated.",
 ["src/index.rs", "src/index_entry.rs", "src/index_record.rs", "src/structured_values/index_allocation.rs", "src/structured_values/index_root.rs"],
 [("in-order traversal with a stack of node iterators", "src/index.rs NtfsIndexEntries::next"), ("VCN to offset conversion", "src/structured_values/index_allocation.rs record_from_vcn")],
 ["sequence of entries (key, data, reference, subnode) compared with the generated tree"])

prop("C08", "Index lookup finds an entry iff it exists, reading one node per level",
 "Looking a name (or any key) up in an index returns the entry that compares equal whenever the tree holds one, and nothing whenever it does not, for every tree shape and every comparison consistent with the tree order, in particular case-insensitively for file names. A lookup reads at most one index record per tree level, and a finder gives the same answers no matter what was looked up before.",
 ["inputs", "histories"], "all trees x all keys present and absent x all sequences of lookups",
 T1 + "names known to be present are looked up; absence, other tree shapes and the amount of reading are not checked.",
 ["src/index.rs", "src/indexes/file_name.rs", "src/structured_values/index_allocation.rs"],
 [("descent from the root on every find", "src/index.rs NtfsIndexFinder::find"), ("comparison with the volume's $UpCase table", "src/indexes/file_name.rs, src/upcase_table.rs")],
 ["entry returned by find; device reads per lookup"])

prop("C09", "Names compare case-insensitively by the volume's own table",
 "Comparing names (library strings with library strings or with native strings, in either direction) equals comparing them code unit by code unit after mapping each unit through this volume's $UpCase table, with a proper prefix ordered first, for all UTF-16 contents including unpaired surrogates and characters outside the BMP. The order is therefore total and transitive, equality is case-insensitive exactly as the table says, and opening named streams and directory entries follows it.",
 ["inputs", "configurations"], "all names x all $UpCase tables",
 T1 + "a handful of comparisons against the one stock table are checked.",
 ["src/upcase_table.rs", "src/indexes/file_name.rs", "src/file.rs"],
 [("table lookup per code unit", "src/upcase_table.rs u16_to_uppercase, upcase_cmp")],
 ["Ordering results compared with a reference comparison over the table written to the volume"])

prop("C10", "The boot sector is accepted exactly when valid and decoded exactly",
 "Opening a volume succeeds for every valid NTFS boot sector and reports its sector size, cluster size (including sizes above 64 KiB in their negative encoding), file record size, total size, serial number and MFT position exactly as encoded. A boot sector with a wrong signature, a sector or cluster size that is not one of the legal powers of two, or an undecodable record size is refused with an error.",
 ["inputs", "configurations"], "all boot sectors",
 T1 + "one boot sector is parsed.",
 ["src/boot_sector.rs", "src/ntfs.rs"],
 [("BIOS parameter block validation and decoding", "src/boot_sector.rs")],
 ["Ntfs::new result and the geometry accessors"])

prop("C11", "A record number leads to exactly that file record",
 "Opening a file by record number, by file reference or through a directory entry reads the record at that index of the Master File Table, following the MFT's own (arbitrarily fragmented) run list, and the file reports that number, sequence number and position. Record numbers at or beyond the end of the MFT are refused with an error and never alias another record.",
 ["inputs", "configurations"], "all MFT layouts x all 64-bit record numbers",
 T1 + "the MFT of the test image is one run and only existing numbers are opened.",
 ["src/ntfs.rs", "src/file.rs", "src/file_reference.rs"],
 [("record number times record size looked up in the MFT's data stream", "src/ntfs.rs Ntfs::file")],
 ["identity, position and contents of the file returned"])

prop("C12", "A device error surfaces, changes nothing else, and a retry succeeds",
 "If the device fails any one of its reads or seeks, the operation in progress reports an I/O error carrying that failure instead of data, success, a panic or a silent end; a read that had already filled part of its buffer may return that part (correct bytes, position advanced by exactly that count) and report the failure on the next read, and bytes are never lost or repeated. Once the device works again, repeating the operation (on the same reader, finder or file, or with a fresh iterator) gives exactly what it would have given without the failure; an iterator never yields a wrong item after a failure.",
 ["fault_sequences", "histories"], "all single and repeated device failures at every device operation of every library operation",
 T1 + "no test injects a device failure.",
 ["src/attribute_value/non_resident.rs", "src/attribute_value/attribute_list_non_resident.rs", "src/attribute.rs", "src/index.rs", "src/error.rs", "src/structured_values/attribute_list.rs"],
 [("errors propagated with ?; state advanced only after success", "src/attribute_value/*.rs, src/attribute.rs, src/index.rs"), ("error conversions", "src/error.rs From<binrw::Error>, From<NtfsError> for io::Error")],
 ["trace of results with a fault at operation k, compared with the fault-free trace"])

prop("C13", "Results do not depend on how the reader delivers bytes",
 "Any reader that honours the Read and Seek contracts gives the same results: short reads of any size, interrupted reads, and a cursor left anywhere by the caller between operations change no data, no metadata, no error and no iteration.",
 ["schedules", "inputs"], "all delivery policies of a legal reader x all workloads",
 T1 + "the reader always delivers everything at once, and nobody else moves it.",
 ["src/attribute_value/non_resident.rs", "src/file.rs", "src/index_record.rs", "src/ntfs.rs", "src/boot_sector.rs"],
 [("explicit seek before every read", "src/attribute_value/non_resident.rs NtfsDataRun::read; src/file.rs NtfsFile::new")],
 ["trace of results under varied delivery, compared with full delivery"])

prop("C14", "A truncated or shortened device never yields invented data",
 "On a device that ends early, every operation either gives exactly what it gives on the complete device or reports an error; it never returns other bytes, other lengths, fewer entries or attributes, or a premature end of data.",
 ["crash_points", "inputs"], "every truncation point of a volume x all workloads",
 T1 + "the image is always complete.",
 ["src/attribute_value/non_resident.rs", "src/file.rs", "src/index_record.rs", "src/structured_values/attribute_list.rs"],
 [("a real run must deliver its bytes", "src/attribute_value/non_resident.rs"), ("read_exact for records", "src/file.rs, src/index_record.rs")],
 ["trace of results on the truncated device, compared step by step with the complete one"])

prop("C15", "Answers do not depend on history, interleaving or threads",
 "What an operation returns depends only on the device contents and its arguments: not on which other files, values, iterators or finders were used before or in between, nor on other threads using the same opened volume with their own readers. The library only reads.",
 ["histories", "schedules"], "all interleavings of operations on objects of one opened volume, on one or more threads",
 T1 + "each test runs one operation sequence on one thread.",
 ["src/ntfs.rs", "src/file.rs", "src/index.rs", "src/attribute.rs", "src/attribute_value/attribute_list_non_resident.rs"],
 [("no shared mutable state; every object carries its own position", "src/ntfs.rs Ntfs, src/attribute_value/*")],
 ["per-object result traces, solo versus interleaved versus concurrent"])

prop("C16", "Metadata is reported exactly as stored",
 "Every field the library exposes equals the stored one: file record header (flags, link count, sequence number, sizes, directory bit), standard information of both sizes, every file name (times, sizes, attributes, namespace, name, parent), object ids, volume name and version, attribute headers and flags, attribute list entries, index root and index record headers, file references and GUIDs. Optional fields are present exactly when stored, selecting a name by namespace or parent returns the first one that matches, and text forms (such as a GUID) show exactly the stored value. What is not there is not made up: an attribute asked for as the structure of another type, the index of a file that is no directory and information that a file lacks are refused with the error that names it.",
 ["inputs"], "all stored values of all fields",
 T1 + "a few fields of four files are compared.",
 ["src/file.rs", "src/structured_values/standard_information.rs", "src/structured_values/file_name.rs", "src/structured_values/object_id.rs", "src/structured_values/volume_information.rs", "src/structured_values/volume_name.rs", "src/structured_values/attribute_list.rs", "src/guid.rs", "src/file_reference.rs", "src/attribute.rs"],
 [("field accessors at fixed offsets, little endian", "src/file.rs, src/attribute.rs, src/structured_values/*")],
 ["return values of every accessor, compared with the model that wrote the volume"])

prop("C17", "Time stamps convert without loss, and refuse what does not fit",
 "Converting between NT time stamps and civil or system time is exact at 100 ns resolution for every representable instant, order preserving, and round-trips; instants outside the target's range give an error or a lossless wider value, never a wrapped or truncated one, and never a panic.",
 ["inputs"], "all 64-bit time stamps and all civil and system times",
 T1 + "three time stamps are converted.",
 ["src/time.rs"],
 [("checked conversion between 100 ns intervals since 1601 and other epochs", "src/time.rs")],
 ["conversion results compared with arithmetic over 128-bit integers"])

prop("C18", "Reported positions are where the bytes are",
 "Every on-disk position the library reports (of files, attributes, resident values, data runs, the current place in a value, attribute list entries, index nodes and structured values) is the absolute device offset of those bytes: reading the device there gives the bytes the library returned. Places without a device location (holes, past the end) report none.",
 ["inputs", "histories"], "all volumes x all positions the API reports",
 T1 + "no test looks at a position.",
 ["src/types.rs", "src/attribute.rs", "src/attribute_value/resident.rs", "src/attribute_value/non_resident.rs", "src/structured_values/index_root.rs", "src/structured_values/attribute_list.rs", "src/index_record.rs"],
 [("positions carried with slices", "src/types.rs NtfsPosition; src/record.rs; src/attribute_value/*.rs data_position")],
 ["data_position()/position() of every object against the device bytes and the model"])

prop("C19", "Iterators are fused, repeatable, and equal in every form",
 "Every iterator (attributes, raw attributes, attribute list entries, data runs, index entries, index records) stays at its end once it ended, gives the same items whether used detached, attached or switched between both at any point, continues independently when cloned, and gives the same items when started again.",
 ["histories"], "all ways of driving each iterator over all volumes",
 T1 + "iterators are run once to the end.",
 ["src/attribute.rs", "src/index.rs", "src/index_entry.rs", "src/structured_values/attribute_list.rs", "src/structured_values/index_allocation.rs", "src/attribute_value/non_resident.rs"],
 [("FusedIterator implementations and attach/detach pairs", "src/attribute.rs, src/index.rs, src/structured_values/*.rs")],
 ["item traces of the same iterator driven in different ways"])

prop("C20", "A corrupted structure is refused and the error points at it",
 "A structure whose own fields contradict each other or its container (a length, offset or count beyond the record, attribute, node or list that holds it; a wrong signature; an index record that is not the requested one; a reference out of range; an impossible run) is refused with an error by the operation that needs it, and the device position the error mentions lies inside that structure or the record that holds it. Structures that are not affected by the damage keep giving the right answers.",
 ["inputs"], "all single contradictions in all structures",
 T1 + "no corrupted structure is read.",
 ["src/error.rs", "src/attribute.rs", "src/file.rs", "src/index_entry.rs", "src/index_record.rs", "src/structured_values", "src/record.rs"],
 [("validate_* functions and positioned error variants", "src/error.rs and the validators of each structure")],
 ["result of the affected operation, position in the error, and results of unaffected operations"])

prop("C21", "Behaviour is the same on every platform",
 "Every result is independent of the byte order, pointer width and alignment of the machine: the same workload over the same volume gives the same values, data and errors on 32-bit and 64-bit, little- and big-endian targets, without undefined behaviour.",
 ["configurations", "inputs"], "all targets x all volumes",
 "The tests run only on the 64-bit little-endian build host.",
 ["src/types.rs", "src/attribute.rs", "src/attribute_value/non_resident.rs", "src/boot_sector.rs", "src/record.rs"],
 [("explicit little-endian reads; u64 arithmetic for on-disk sizes", "throughout src/")],
 ["result trace of the same workload, native versus interpreted on other targets"])

prop("C22", "The no_std build behaves like the std build",
 "The library built without its standard-library and time features gives the same values, data, entries and errors for every volume and call sequence as the full build.",
 ["configurations", "inputs"], "all feature sets x all volumes",
 "The tests build and run only the full feature set; the no_std build is compiled but never run.",
 ["Cargo.toml", "src/lib.rs", "src/error.rs", "src/traits.rs"],
 [("binrw io traits with and without std", "Cargo.toml features; src/error.rs")],
 ["result trace of the same workload on both builds"])

prop("C23", "The sector reader is a transparent, sector-aligned view",
 "Through the example's sector reader, any sequence of reads and of seeks from the start or the current position delivers the bytes of the underlying device at the right positions, up to its end and without skipping or repeating any, while the underlying device only ever sees reads that start at and span whole sectors.",
 ["histories", "inputs"], "all seek/read sequences x sector sizes x device sizes",
 "The examples have no tests.",
 ["examples/ntfs-shell/sector_reader.rs"],
 [("aligned read into a temporary buffer", "examples/ntfs-shell/sector_reader.rs read")],
 ["results of the reader, and the operations the underlying device received"])

prop("C24", "ntfs-shell shows and extracts what the volume holds",
 "Driving the shell over any well-formed volume, directory listings show every entry the directory holds, changing directory and naming files resolves them case-insensitively, and extracting a file or stream writes exactly its bytes; commands on things that do not exist report that and the shell goes on, and it never crashes.",
 ["inputs", "histories"], "all volumes x all command sequences",
 "The example has no tests.",
 ["examples/ntfs-shell/main.rs", "src/file.rs", "src/indexes/file_name.rs"],
 [("command loop over the library", "examples/ntfs-shell/main.rs")],
 ["standard output and extracted files of the shell process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

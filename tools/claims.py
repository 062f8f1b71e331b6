NA = {}
T["C03"] = ("exploration", "runtime monitoring: reference-model oracle over generated volumes (every byte compared)", "Held on the generated volumes and read windows of the run; no claim beyond them.")
T["C04"] = ("exploration", "runtime monitoring: model-cursor oracle over random histories of seeks, reads and clones on every kind of value reader", "Held on the histories of the run; no claim beyond them.")
T["C05"] = ("exploration", "runtime monitoring: reference-model oracle (multiset of specified attributes) over generated volumes with varied physical placement", "Held on the generated placements of the run; the order of the items is not judged.")
T["C12"] = ("exploration", "runtime monitoring: fault injection at every device operation of an observation, compared with the fault-free execution", "Held for the operations and fault points explored; iterators are not required to be retryable, only to yield a correct subsequence.")
T["C13"] = ("exploration", "runtime monitoring: differential execution under adversarial byte delivery (short, interrupted, boundary-cut reads, displaced cursor)", "Held for the delivery schedules explored.")
T["C14"] = ("exploration", "runtime monitoring: differential execution on truncated devices against the complete device", "Held for the truncation points explored.")
T["C15"] = ("exploration", "runtime monitoring: differential execution of interleaved and multi-threaded histories against isolated executions", "Held for the interleavings explored; the crate has no interior mutability and forbids unsafe code, so data races are excluded by the compiler.")
T["C06"] = ("exploration", "runtime monitoring: fault injection of torn writes into every protected block, model oracle for what may still be served", "Held for the records, blocks and kinds of tearing explored; records whose update sequence array covers the whole record.")
T["C07"] = ("exploration", "runtime monitoring: reference-model oracle over generated B-trees (every entry, node and raw record compared)", "Held for the trees of the run; entries are consistent with the order of their tree.")
T["C08"] = ("exploration", "runtime monitoring: reference-model oracle over random lookup histories, with an I/O monitor counting index records read", "Held for the trees, tables and lookups of the run.")
T["C09"] = ("exploration", "runtime monitoring: reference comparison (the volume's own table, unit by unit) over generated tables, names and lookups", "Held for the tables and names of the run.")
T["C10"] = ("exploration", "runtime monitoring: reference decoder over generated valid, borderline and invalid boot sectors", "Held for the boot sectors of the run.")
T["C11"] = ("exploration", "runtime monitoring: reference-model oracle over generated MFT layouts, every record number including out-of-range ones", "Held for the layouts of the run; an MFT whose own data attribute needs an attribute list is a documented limitation of the library and not generated.")
T["C16"] = ("exploration", "runtime monitoring: reference-model oracle (every stored field compared with every accessor) over generated volumes", "Held for the volumes of the run.")
T["C17"] = ("exploration", "runtime monitoring: reference comparison (independent calendar and 128-bit arithmetic) over random, extreme and enumerated border instants", "Held for the instants of the run; the borders of every range are enumerated.")
T["C18"] = ("exploration", "runtime monitoring: every reported position compared with the specification's device offset over generated volumes", "Held for the volumes of the run, except the known finding on records that are not contiguous on the device.")
T["C19"] = ("exploration", "runtime monitoring: recorded item sequences replayed through random programs of steps, clones, restarts and form switches", "Held for the programs and volumes of the run, damaged ones included.")
T["C20"] = ("exploration", "runtime monitoring: single-contradiction corruption campaign with an oracle for what must be refused, where the error points, and what must stay intact", "Held for the contradictions explored.")
T["C01"] = ("exploration", "runtime monitoring: panic monitor (overflow checks, debug assertions) under coverage-guided structure-aware mutation of volumes and random histories over all public operations", "No panic in the mutants and histories of the run; the two documented panics are not provoked.")
T["C02"] = ("exploration", "runtime monitoring: work meters (control-flow edges, heap bytes, device bytes and operations) on every call over hostile and well-formed volumes, judged against bounds from the sizes of the structures involved", "Held for the calls of the run; the constant factors of the bounds are generous.")
T["C22"] = ("exploration", "runtime monitoring: differential monitor comparing every answer of the full build with processes running the builds without std and/or time (plain release: no assertions, no overflow checks) over the same cases", "Held for the cases of the run. A feature set that no longer compiles is reported too.")
T["C21"] = ("exploration", "runtime monitoring: the library interpreted by Miri for 32-bit and big-endian targets, and compiled to 32-bit WebAssembly with overflow checks, every answer compared with the native build over the same packed cases", "Held for the cases and targets of the run.")
T["C23"] = ("exploration", "runtime monitoring: model-cursor oracle on the sector reader plus an online monitor of every operation the underlying device receives; differential execution of the library through it", "Held on the histories of the run; devices of whole sectors for the alignment; seeking from the end is not supported by the reader.")
T["C24"] = ("exploration", "runtime monitoring: the real ntfs-shell process driven by random command scripts over generated and damaged volumes, output and extracted files judged by the reference model", "Held for the scripts and volumes of the run; on damaged volumes only that the shell survives is judged.")

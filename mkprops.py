#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Point counts are exact for every curve, base field and extension",
 "For every odd prime power q, every non-constant right hand side f over F_q and every extension degree k, counting with the table method reports exactly the number of unramified points (2 per x with f(x) a non-zero square, including infinity) and ramified points (f(x)=0, including infinity when the degree is odd) of y^2=f(x) over F_{q^k}. Hasse-Weil offsets are exactly q^k+1 minus the total. Recounting or counting the extensions in another order changes nothing.",
 ["inputs", "histories"], "all polynomials f, all odd q, all extension degrees k, all orders of count calls",
 "The stable tests count two curves (over F_5 and F_7); the quantifier is over all curves, fields, extensions and call orders.",
 ["src/curve.cc", "src/curve.hh", "src/reduction_table.cc", "src/fq_element_table.cc"],
 [("discrete-log arithmetic with incrementation (Zech) table", "src/curve.cc Curve::count, Curve::count_cpu; src/reduction_table.cc compute_incrementation_table"),
  ("lifting coefficients to the extension", "src/curve.cc Curve::convert_poly_coeff_exponents"),
  ("offset computation", "src/curve.cc Curve::hasse_weil_offsets")],
 [("nmb_points", "per exponent, (unramified, ramified) counts", "src/curve.hh")],
 ["Curve::number_of_points()", "Curve::hasse_weil_offsets()"])

prop("C02", "The naive and table-based counting implementations agree",
 "For every curve over F_q (q an odd prime power) and every extension, the two naive implementations and the table-driven implementation report the same ramified and unramified point counts, and results obtained by any sequence of count calls mixing implementations and extensions are the same as those of each call made alone.",
 ["inputs", "histories"], "all curves, all extensions, all sequences of count calls over the three implementations",
 "The tests compare the three implementations on two curves over two prime fields only, each called alone.",
 ["src/curve.cc", "src/single_curve_fp.cc"],
 [("naive counting over fq_nmod", "src/curve.cc Curve::count_naive_nmod"), ("naive counting over fq_zech", "src/curve.cc Curve::count_naive_zech"),
  ("per-exponent memo", "src/curve.cc nmb_points.find")],
 [("nmb_points", "memo of counts per exponent", "src/curve.hh")], ["Curve::number_of_points()"])

prop("C03", "The field element table is an exact list of generator powers",
 "For every odd prime p and exponent e, the element table of F_{p^e} lists, at indices 0..q-2, the successive powers of one fixed multiplicative generator, each non-zero element exactly once, followed by zero at its zero index. Index reduction, block bounds and the representatives of power cosets are exactly those of the cyclic group of order q-1, and counting tables for F_{q^k} are consistent with this numbering.",
 ["inputs", "configurations"], "all odd p and exponents e, including primes for which no Conway polynomial is tabulated",
 "Tests touch the tables of F_5 and F_7 only, and only through counts.",
 ["src/fq_element_table.cc", "src/fq_element_table.hh", "src/reduction_table.cc"],
 [("generator search loop", "src/fq_element_table.cc FqElementTable::FqElementTable"), ("power_coset_representatives", "src/fq_element_table.cc")],
 [("fq_elements", "powers of the generator, then zero", "src/fq_element_table.hh")], ["FqElementTable::at", "FqElementTable::power_coset_representatives"])

prop("C04", "Ramification type is the factorization pattern, whatever was counted",
 "For every squarefree right hand side f over F_q, the reported ramification type is the sorted list of degrees of the irreducible factors of f, together with one extra 1 when the degree is odd. It is the same whichever set of extensions has been counted before, including none.",
 ["inputs", "histories"], "all squarefree f, all subsets of counted extensions",
 "No stable test looks at ramification types; the type has two computation paths selected by which counts are available.",
 ["src/curve.cc"],
 [("deduction from point counts", "src/curve.cc Curve::ramification_type"), ("fallback factorization", "src/curve.cc Curve::ramification_type")],
 [], ["Curve::ramification_type()", "keys of the store"])

prop("C05", "Exactly the squarefree right hand sides are accepted as curves",
 "For every polynomial over every supported F_q, the squarefreeness test accepts f exactly if f has no repeated irreducible factor; degree, genus, coefficient support and the exported polynomial are those of f after removal of leading zero coefficients.",
 ["inputs"], "all polynomials over prime and non-prime fields, including p-th powers, vanishing derivatives and leading zeros",
 "The stable tests never exercise the squarefree test on a non-squarefree polynomial or on a non-prime field.",
 ["src/curve.cc", "src/curve.hh"],
 [("has_squarefree_rhs", "src/curve.cc"), ("leading zero removal", "src/curve.cc Curve::Curve"), ("polynomial export", "src/curve.cc rhs_nmod_polynomial, rhs_polynomial")],
 [], ["Curve::has_squarefree_rhs", "Curve::rhs_support", "Curve::genus"])

prop("C06", "The block iterator visits every position exactly once",
 "For every combination of ranges, value sets and value sets that depend on another index, stepping the iterator visits every admissible position exactly once and then reports the end for good; stepping past the end changes nothing.",
 ["inputs", "histories"], "all shapes of blocks, sets and dependent sets; all step sequences",
 "Tests try one shape of each kind.",
 ["src/block_iterator.cc", "src/block_iterator.hh"],
 [("odometer stepping", "src/block_iterator.cc BlockIterator::step_"), ("position translation", "src/block_iterator.cc BlockIterator::as_position")],
 [("position", "current odometer digits", "src/block_iterator.hh"), ("has_reached_end", "end flag", "src/block_iterator.hh")],
 ["BlockIterator::as_position", "BlockIterator::is_end"])

prop("C07", "Work packages tile the search space and respect the package size",
 "For every shape of search space and every positive package size, the packages handed out are pairwise disjoint, together contain every position exactly once, and none contains more positions than the package size. The package described as bounds, the package enumerator and an iterator rebuilt from the bounds enumerate the same positions.",
 ["inputs", "configurations"], "all shapes of blocks/sets/dependent sets and all package sizes",
 "Tests check a first and a fifth package for two shapes and package sizes 3 and 4.",
 ["src/block_iterator.cc", "src/curve_iterator.cc"],
 [("distribution of the package size over the blocks", "src/block_iterator.cc BlockIterator::initialize_blocks"), ("clamping at upper bounds", "src/block_iterator.cc as_block, as_block_enumerator")],
 [("blocks", "bounds and step size per index", "src/block_iterator.hh")], ["BlockIterator::as_block", "BlockIterator::as_block_enumerator"])

prop("C08", "The weighted enumeration is an exact census of hyperelliptic curves",
 "For every odd q, genus g>=1 and marked-point option, registering the enumerated squarefree representatives with their multiplicities and twists yields, for every ramification type and tuple of Hasse-Weil offsets, exactly the number of squarefree polynomials over F_q of degree 2g+1 (and 2g+2 unless a marked point is required) having these invariants. The package size does not influence the result.",
 ["inputs", "configurations"], "all odd q, genus, marked-point option and package size",
 "The census tests (blocks_f13_g2, threaded_*) do not even compile at this commit; they cover three (q,g) pairs, none of which reaches the cases where the characteristic divides the degree.",
 ["src/curve_iterator.cc", "src/store/store.cc", "src/store/store_data.hh", "src/store/curve_data.cc", "src/block_iterator.cc"],
 [("normal forms per degree and characteristic", "src/curve_iterator.cc CurveIterator::CurveIterator"), ("orbit sizes", "src/curve_iterator.cc CurveIterator::multiplicity"),
  ("twist registration", "src/store/store.cc Store::register_curve")],
 [("enumerators", "one block iterator per normal form", "src/curve_iterator.hh")], ["store contents after enumeration"])

prop("C09", "Multiplicities are the exact orbit sizes for all field sizes",
 "For every odd prime power q, every degree and every coefficient support of an enumerated representative, the multiplicity is exactly the number of polynomials that the representative stands for up to quadratic twist, computed without overflow; consequently the weighted number of squarefree representatives of each factorization pattern equals the closed formula for the number of squarefree polynomials with that pattern.",
 ["inputs", "configurations"], "all q, degrees and coefficient supports, including q large enough for products to exceed 32 and 64 bits",
 "No stable test calls the multiplicity function.",
 ["src/curve_iterator.cc", "src/curve_iterator.hh"],
 [("CurveIterator::multiplicity", "src/curve_iterator.cc")], [], ["CurveIterator::multiplicity"])

prop("C10", "Store accumulation is an exact, twist-symmetric, order-free sum",
 "For every sequence of curve registrations, flushes of a worker's store to the process-wide store and flushes of the process-wide store to text, the emitted records and stores taken together contain every flushed block exactly once and, per key, exactly the sum of the multiplicities of all registered curves and of their quadratic twists; nothing is emitted twice or lost, whatever the size of the counts.",
 ["histories", "inputs"], "all operation sequences over several worker stores, curves and blocks; counts of any size",
 "No stable test uses the store.",
 ["src/store/store.cc", "src/store/store.hh", "src/store/store_data.hh", "src/store/curve_data.cc", "src/store/curve_data.hh"],
 [("register_curve", "src/store/store.cc"), ("flush_to_static_store", "src/store/store.cc"), ("flush_static_store", "src/store/store.cc"), ("arbitrary precision counter", "src/store/store_data.hh Count::ValueType")],
 [("store", "worker-local sums", "src/store/store.hh"), ("static_store/static_record", "process-wide sums and finished blocks", "src/store/store.hh")],
 ["StoreInterface::insert", "StoreInterface::flush_static_store"])

prop("C11", "Result files are read back exactly as they were written",
 "For every set of blocks and every store contents, reading the written record text gives back exactly that set of blocks and reading the written store text gives back exactly that mapping, with entries of equal keys added up; counts of any size, negative offsets and all list lengths are preserved.",
 ["inputs"], "all block sets, keys and counts, including empty record files and counts beyond 64 bits",
 "No stable test reads or writes a result file.",
 ["src/store/file_store.cc", "src/store/store.cc", "src/store/curve_data.cc", "src/store/store_data.cc", "src/store/store_data.hh"],
 [("record text format", "src/store/file_store.cc extract, insert"), ("store text format", "src/store/store.cc extract, insert; src/store/curve_data.cc; src/store/store_data.cc")],
 [], ["FileStore::extract", "FileStore::insert", "StoreInterface::extract", "StoreInterface::insert"])

prop("C12", "Merging is an exact union of records and an exact sum of stores",
 "For every folder of result files, the merger writes a record file listing exactly the union of the recorded blocks and a store file with exactly the key-wise sum of the recorded stores, whatever the number of files, their order in the folder and their other contents. Store files without a record are ignored; a record without its store makes it fail without writing any output.",
 ["inputs", "configurations", "histories"], "all ways to distribute results over files, all extra or missing files, merging in one or several steps",
 "The merger is built but not run by any test.",
 ["src/executables/merger.cc", "src/store/store.cc", "src/store/file_store.cc"],
 [("merge loop", "src/executables/merger.cc merge"), ("record as a witness", "src/executables/merger.cc")],
 [], ["output files of hycu-merger"])

prop("C13", "Every threaded run terminates with the exact census under all schedules",
 "For every interleaving of the coordinator and the worker threads, a threaded run terminates, processes every work package exactly once, and leaves result files whose records list every package exactly once and whose stores sum to the exact census; no wake-up is lost and no package is dropped or handled twice, for any number of workers (at least one is started when none is asked for or the number of cores is unknown) and any number of packages and moduli.",
 ["schedules", "configurations"], "all thread interleavings; all small numbers of workers and packages",
 "The stable tests start no thread; the threaded tests do not compile at this commit and would see one schedule per run.",
 ["src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc", "src/executables/threaded.cc", "src/store/store.cc"],
 [("worker wait loop and notification", "src/threaded/thread.cc Thread::main_thread, assign, shutdown"), ("idle/ready/busy bookkeeping", "src/threaded/thread_pool.cc"), ("wait for assigned blocks before saving", "src/worker_pool/standalone.cc")],
 [("busy_threads/ready_threads/idle_threads", "thread states", "src/threaded/thread_pool.hh"), ("blocks", "queue of a worker", "src/threaded/thread.hh")],
 ["exit status and result folder of hycu-threaded"])

prop("C14", "Threads never access shared data without synchronization",
 "In every interleaving of a threaded run, any two conflicting accesses by different threads to the same memory are ordered by synchronization; workers share no scratch data, table or counter unprotected.",
 ["schedules"], "all thread interleavings of a run with several workers and saves in the middle",
 "A data race only shows under rare timings, and the stable tests start no thread.",
 ["src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/store/store.cc", "src/worker_pool/standalone.cc", "src/curve.cc"],
 [("data_mutex of pool and thread", "src/threaded/thread_pool.cc, src/threaded/thread.cc"), ("static_mutex of the store", "src/store/store.cc"), ("one table per thread", "src/threaded/thread.cc Thread::update_config")],
 [], ["memory accesses of all threads"])

prop("C15", "Every saved snapshot is consistent with its own record",
 "Whenever results are saved, be it at a change of modulus, at the end, or by the periodic save in the middle of a computation, the saved store contains exactly the contributions of the blocks listed in the record saved with it, and each finished block appears in exactly one saved pair, for every schedule and every timing of the periodic saves.",
 ["schedules", "histories"], "all interleavings and all choices of when the periodic save fires",
 "The periodic save needs more than five minutes of computation to fire even once; no test reaches it.",
 ["src/store/store.cc", "src/worker_pool/standalone.cc", "src/threaded/thread.cc", "src/store/file_store.cc"],
 [("record and store flushed under one lock", "src/store/store.cc flush_to_static_store, flush_static_store"), ("periodic save", "src/worker_pool/standalone.hh delayed_save_global_stores_to_file")],
 [("static_store/static_record", "finished but unsaved work", "src/store/store.hh"), ("next_save_time", "timer of the periodic save", "src/worker_pool/standalone.hh")],
 ["pairs of .hycu_record and .hycu_store files"])

prop("C16", "Killing a run at any point and restarting never loses or double counts",
 "If a threaded or distributed run is killed at an arbitrary moment, including in the middle of writing a file, and is then run again with the same configuration until it completes, possibly with further kills in between, merging the result folder gives exactly the census of an uninterrupted run. The same holds for a merger that is killed and started again.",
 ["crash_points", "histories"], "every prefix of the file operations of a run, with every torn last write, and sequences of several crashes",
 "No test kills a run or restarts from existing results.",
 ["src/store/file_store.cc", "src/store/file_store.hh", "src/worker_pool/standalone.cc", "src/executables/merger.cc"],
 [("store written before the record, the record being the witness", "src/store/file_store.cc FileStore::save"), ("recorded blocks are skipped", "src/worker_pool/standalone.cc assign; src/store/file_store.hh contains")],
 [("initial_record", "blocks finished by earlier runs", "src/store/file_store.hh")], ["result folder after kill, restart and merge"])

prop("C17", "A record is only published when its store was completely written",
 "If any write, open or close of a result file fails or is cut short (full disk, I/O error), no record file is left that lists blocks whose contribution is missing from the store file; a later run recomputes the affected blocks, so restarting and merging gives the exact census. Neither a run nor the merger reports success when it could not read its input or write its output.",
 ["fault_sequences", "crash_points"], "every single failing or short file operation of a run, a restart after it, and of a merge",
 "No test injects an I/O failure.",
 ["src/store/file_store.cc", "src/executables/merger.cc"],
 [("record written last as a witness to successful writing", "src/store/file_store.cc FileStore::save; src/executables/merger.cc merge")],
 [], ["result folder after an injected failure", "exit status of hycu-merger"])

prop("C18", "A restarted run computes exactly the blocks not yet recorded",
 "For every set of blocks recorded by earlier runs, in any number of record files, a run with the same configuration processes exactly the remaining blocks: afterwards every block is recorded exactly once and the stores sum to the census. Files that are not records do not influence which blocks are processed.",
 ["histories", "configurations"], "every subset of recorded blocks, distributed over any number of record files",
 "No test starts from existing results.",
 ["src/store/file_store.cc", "src/store/file_store.hh", "src/worker_pool/standalone.cc"],
 [("reading the records at start", "src/store/file_store.cc FileStore::FileStore"), ("skipping contained blocks", "src/worker_pool/standalone.cc assign")],
 [("initial_record", "blocks finished by earlier runs", "src/store/file_store.hh")], ["result folder"])

prop("C19", "Saving never overwrites or damages an existing result file",
 "Whatever files a result folder already contains and whatever random numbers are drawn for new file names, a save writes a new record and a new store file sharing one fresh base name and leaves every existing file unchanged.",
 ["inputs", "histories"], "all sequences of random draws that collide with existing records or stores, and all sequences of saves",
 "Collisions have probability about 2^-63 per draw in a test.",
 ["src/store/file_store.cc"],
 [("fresh name search", "src/store/file_store.cc FileStore::new_filenames")], [], ["result folder before and after save"])

prop("C20", "Results of several moduli never mix, in any order",
 "For every list of moduli in one configuration, processed in one run or in several runs, each result folder receives exactly the census of its own modulus and nothing else; the settings of one modulus (field, genus, marked point, counted extensions, package size) never leak into another.",
 ["configurations", "histories", "schedules"], "all short sequences of moduli, including repeated ones, and runs over prefixes of the list",
 "Tests construct one pool per modulus and none of these tests compiles.",
 ["src/executables/threaded.cc", "src/worker_pool/standalone.cc", "src/threaded/thread_pool.cc", "src/threaded/thread.cc"],
 [("wait and save before switching", "src/worker_pool/standalone.cc update_config"), ("per-thread tables", "src/threaded/thread.cc update_config")],
 [("file_store", "current result folder", "src/worker_pool/standalone.hh"), ("fq_table/reduction_tables", "current field of a worker", "src/threaded/thread.hh")], ["result folders"])

prop("C21", "Every MPI run terminates with the exact census under all schedules",
 "For every number of processes and worker threads and every interleaving of their threads and messages, also when sends block until received, a distributed run terminates on all processes, every package is processed exactly once by one process, every saved pair is consistent, and the result files of all processes sum to the exact census. A run that cannot start (help, missing arguments or files, invalid settings) ends on all processes.",
 ["schedules", "configurations"], "all interleavings of threads and message deliveries of master and workers, both buffered and synchronous sends",
 "No test runs the MPI program.",
 ["src/worker_pool/mpi.cc", "src/worker_pool/mpi.hh", "src/worker_pool/mpi_worker.cc", "src/executables/mpi.cc", "src/threaded/thread_pool.cc", "src/utils/serialization_tuple.hh"],
 [("request/reply protocol", "src/worker_pool/mpi.cc; src/worker_pool/mpi_worker.cc main_mpi_worker"), ("assignment bookkeeping per process", "src/worker_pool/mpi.cc assign, finished_block")],
 [("assigned_blocks", "blocks under way per process", "src/worker_pool/mpi.hh"), ("cpu_idle_queue", "idle worker slots", "src/worker_pool/mpi.hh")], ["exit status of every process", "result folder"])

prop("C22", "Configuration settings are honoured, defaulted, validated and transmitted",
 "Every modulus entry is decoded to exactly the given settings, with the number of counted extensions defaulting to the genus and the marked point to none when omitted; an entry lacking a mandatory field is rejected, as is one with a zero, negative or unreadable setting, with a Prime that is not an odd prime, or with a field that has, or one of whose counted extensions has, 2^31 elements or more (tables are indexed by 32-bit integers). Encoding then decoding, and sending an entry to another process, reproduce it unchanged; result folders are created below the output path.",
 ["inputs", "configurations"], "all combinations of present, omitted, zero and invalid fields, for both the single-entry and the list form",
 "config/ is compiled but not exercised by any test; the example configuration of the README is not tried.",
 ["src/config/config_node.cc", "src/config/config_node.hh", "src/executables/threaded.cc"],
 [("YAML conversion", "src/config/config_node.cc convert<ConfigNode>"), ("verification", "src/config/config_node.hh verify"), ("serialization", "src/config/config_node.hh serialize")],
 [], ["ConfigNode", "exit status and folders of hycu-threaded"])

prop("C23", "hycu-single prints the true invariants of the given curve",
 "For every odd prime p and list of integer coefficients that is not constant modulo p, hycu-single prints the curve with coefficients taken modulo p and its exact point counts, Hasse-Weil offsets and ramification type, identically for each implementation option (the naive ones where FLINT tabulates the field). A composite field size, missing arguments, several implementation options, or a curve for which points would have to be counted over a field of 2^31 elements or more are rejected with a non-zero exit status.",
 ["inputs"], "all coefficient lists, also with coefficients of p and above and with leading zeros, all odd primes, all options",
 "Tests call the underlying function for two curves; the program is not run, and coefficients are always below p.",
 ["src/executables/single.cc", "src/single_curve_fp.cc", "src/curve.cc"],
 [("conversion of coefficients to exponents", "src/single_curve_fp.cc single_curve_fp"), ("option validation", "src/executables/single.cc main")],
 [], ["standard output and exit status of hycu-single"])

prop("C24", "The OpenCL kernels compute the same counts for every work-item schedule",
 "For every curve and field, the evaluation kernel marks each non-zero x exactly as the CPU method does, and the reduction kernel's partial sums add up to the exact total for every array length, every group layout (groups being a power-of-two multiple of the number of partial sums) and every order in which work items run between barriers, without conflicting unsynchronized accesses.",
 ["inputs", "schedules"], "all curves over small fields, array lengths and layouts, all work-item orders between barriers",
 "OpenCL is off in the build; the kernels are neither compiled nor run by any test.",
 ["src/opencl/evaluation.cl", "src/opencl/reduction.cl"],
 [("evaluation kernel", "src/opencl/evaluation.cl"), ("tree reduction with barriers", "src/opencl/reduction.cl")], [], ["kernel output buffers"])

prop("C25", "The OpenCL host path counts like the CPU path",
 "With OpenCL support compiled in, counting a curve through a device gives the same numbers as the CPU method for every curve and field, for every sequence of tables and counts on one device and at whatever moments the device executes its queued commands. Threaded runs with devices next to ordinary workers terminate with the exact census.",
 ["inputs", "configurations", "histories", "schedules"], "all curves, fields, histories of tables and counts on a device, moments of execution, and schedules of workers with and without devices",
 "OpenCL is off in the build; no test compiles the host code.",
 ["src/opencl/kernel_evaluation.cc", "src/opencl/kernel_reduction.cc", "src/opencl/interface.hh", "src/curve.cc"], [("buffer and kernel set-up", "src/opencl/")], [], ["Curve::count with an OpenCL table"])

prop("C26", "Work is distributed: no worker idles while packages remain",
 "As long as packages remain to be handed out, every worker of a threaded or distributed run is given one: no worker stays idle for a polling interval of the coordinator, no process with an idle worker is passed over while the others go on, and with n workers n packages can be under way at the same moment, at the start of a run and later on, whatever the relative speed of the workers.",
 ["schedules", "configurations"], "all interleavings and relative speeds of the workers for every number of processes and threads",
 "Losing parallelism changes no result; no test looks at the number of packages under way.",
 ["src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc", "src/threaded/thread_pool.cc", "src/threaded/thread.cc"],
 [("ready threads are collected and handed packages", "src/worker_pool/standalone.cc fill_idle_queues, src/worker_pool/mpi.cc fill_idle_queues"), ("a package is computed without holding locks that others need", "src/threaded/thread.cc main_thread")],
 [("cpu_idle_queue", "idle workers known to the coordinator", "src/worker_pool/mpi.hh"), ("ready_threads", "workers waiting for a package", "src/threaded/thread_pool.hh")], ["workers that make curves at the same time"])

prop("C27", "Nothing is left behind: memory, open files and threads are given back",
 "Whatever sequence of operations is performed - tables and curves are built and dropped, curves counted by any implementation, tested, classified and printed, stores filled, written, read and flushed, results saved and loaded, settings read and rejected, whole runs of the programs made - performing it again and again does not increase the memory, open files and threads held; nor does a run whose finished work has been saved hold more the longer it gets.",
 ["histories", "inputs"], "all sequences of operations, all fields, all run lengths",
 "A test performs an operation once or twice, and nothing looks at what is held afterwards; runs are meant to take days.",
 ["src/curve.cc", "src/fq_element_table.cc", "src/reduction_table.cc", "src/store/store_data.hh", "src/store/file_store.cc", "src/threaded/thread.cc", "src/threaded/thread_pool.cc", "src/worker_pool/standalone.cc"],
 [("FLINT objects initialized and cleared", "src/curve.cc, src/reduction_table.cc, src/fq_element_table.cc"), ("ownership of threads and pools", "src/threaded/thread.hh, src/worker_pool/standalone.cc")],
 [("fq_elements", "elements of a field", "src/fq_element_table.hh"), ("busy_threads, assigned_blocks", "packages under way", "src/threaded/thread_pool.hh, src/worker_pool/standalone.hh")], ["allocations, descriptors and threads of the process"])

prop("C28", "Finished work is saved about every five minutes, and all of it",
 "While packages are handed out, results are saved when five minutes have passed since the last save, so that finished packages are on disk at most about five minutes plus the packages under way later; saves before the last of a modulus are not closer together than that, and every save contains all packages that were finished on any worker of any process before it began.",
 ["schedules", "histories"], "all interleavings of workers and coordinator, and all durations of packages relative to the interval",
 "A test would have to run for longer than five minutes; none does.",
 ["src/worker_pool/standalone.cc", "src/worker_pool/mpi.cc", "src/worker_pool/mpi_worker.cc", "src/threaded/thread_pool.cc"],
 [("save interval", "src/worker_pool/standalone.cc, mpi.cc assign (next_save_time)"), ("collection of the stores", "src/threaded/thread_pool.cc flush_global_store; src/worker_pool/mpi.cc save_global_stores_to_file")],
 [("next_save_time", "when to save next", "src/worker_pool/standalone.hh, mpi.hh")], ["result folder against the simulated clock"])

prop("C29", "Calls that cannot be carried out are refused and change nothing",
 "Every call of the programs that cannot be carried out (arguments that are unknown, missing, surplus or not numbers; a configuration that is missing, unreadable, malformed, without a list of moduli, with an unknown store type or an invalid or incomplete entry; an input folder that is missing or unreadable or has a record without its store; an output path that cannot be written) ends with a message and a non-zero exit status: it neither hangs, nor succeeds silently, nor takes memory without end, and every file that was there, earlier results in particular, is left as it was (an invalid entry further down in the list of moduli may be refused only after those before it have been counted). Asking for help prints it, succeeds and does nothing else. Every call that can be carried out is carried out, in whichever order and form its arguments are given.",
 ["inputs", "environment"], "all command lines, all configurations, all states of the file system a call finds",
 "Command lines, malformed configurations and missing permissions are not tested at all.",
 ["src/executables/threaded.cc", "src/executables/mpi.cc", "src/executables/merger.cc", "src/executables/single.cc", "src/config/config_node.cc", "src/store/store_factory.hh"],
 [("option handling", "src/executables/*.cc, main"), ("validation", "src/config/config_node.cc verify; src/executables/threaded.cc, mpi.cc (Moduli must be a list)")],
 [("exit status, messages and files", "what a call leaves behind", "src/executables/*.cc")], ["exit status, output and the tree of files after the call"])

prop("C30", "Elements, packages and contributions mean the same in every context",
 "The numbering of the field elements, the sequence of work packages and the contribution of each package depend on nothing but the field and the settings: they are the same in every table, thread and process, whatever was computed before or is computed at the same time, at whatever time, on whatever machine and with whatever contents of fresh memory. So a record written by one worker, process, run or program names the same curves to every other one.",
 ["histories", "schedules", "environment"], "all histories of a process, all its surroundings, all numbers of threads",
 "A test process computes every table once, in one order and one environment.",
 ["src/fq_element_table.cc", "src/reduction_table.cc", "src/curve_iterator.cc", "src/block_iterator.cc", "src/curve.cc", "src/store/store.cc"],
 [("search for a generator", "src/fq_element_table.cc FqElementTable::FqElementTable"), ("enumeration", "src/curve_iterator.cc, src/block_iterator.cc")],
 [("fq_elements", "numbering all indices refer to", "src/fq_element_table.hh")], ["element tables, blocks and stores"])

with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

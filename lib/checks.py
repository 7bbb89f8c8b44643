# The registered checks: how each property's harness is built and run.
ASAN = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
CHECKS = {}
def check(pid, level, technique, note, steps, rule=None, assumptions=()):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, steps=steps, assumptions=list(assumptions))
    if rule: CHECKS[pid]['rule'] = rule
def asan(h, **k): return dict(harness=['harness/' + h], cflags=ASAN, **k)
def opt(h, **k): return dict(harness=['harness/' + h], cflags=['-O2', '-D_GLIBCXX_ASSERTIONS'], **k)

ENUM = 'exhaustive bounded enumeration of the inputs of the real code against an independent reference model'
TRUST = ' Complete within the stated bounds, nothing beyond them; trusts the reference model of /verif/lib/oracle.hh and the compiler.'

check('C03', 'exploration', ENUM, 'Every table entry of every field up to the bound is compared with independently computed generator powers (asan build).' + TRUST,
  [asan('field.cc', mode='field')],
  'every odd prime power q up to the bound and every prime in an interval above 65536; all entries of each table compared with independently computed powers; non-trivial: q>3')
check('C01', 'exploration', ENUM + '; all orders of count calls', 'Every polynomial of the bounded families and every order of counting its extensions, compared with brute-force point counts.' + TRUST,
  [asan('count.cc', mode='count'), opt('count.cc', mode='large')],
  'all polynomials of bounded length over small F_q (including leading zeros), corner polynomials over all F_q up to a bound and some larger ones, all extensions up to a size, all orders of count calls; non-trivial: degree at least 2')
check('C02', 'exploration', ENUM + '; all call sequences over the implementations', 'All sequences of calls of the naive and table-based implementations on one curve object.' + TRUST,
  [asan('count.cc', mode='naive')],
  'all polynomials of bounded length over small F_q, corner polynomials over larger ones, each implementation alone and all call sequences over implementations and extensions, every intermediate result compared with the definition; non-trivial: degree at least 2')
check('C04', 'exploration', ENUM + '; all subsets of counted extensions', 'Factorization patterns by trial division, for every polynomial of bounded degree and every subset of extensions counted before.' + TRUST,
  [asan('ram.cc', mode='ram')],
  'all squarefree polynomials of bounded length over small F_q times all subsets of counted extensions; non-trivial: reducible or of odd degree')
check('C05', 'exploration', ENUM, 'Squarefreeness by trial division for every polynomial of bounded degree.' + TRUST,
  [asan('ram.cc', mode='rhs')],
  'all polynomials of bounded length over small prime and non-prime F_q, corner polynomials of higher degree; non-trivial: not squarefree')
check('C06', 'exploration', ENUM, 'Every iterator shape over a small alphabet is stepped through completely and compared with the product set.' + TRUST,
  [asan('block.cc', mode='visit')],
  'all shapes up to length 5 over an alphabet of ranges, sets and dependent sets; positions compared with the product space; non-trivial: more than one position')
check('C07', 'exploration', ENUM, 'Every shape times every package size; packages are checked to tile the space exactly.' + TRUST,
  [asan('block.cc', mode='tile')],
  'all shapes up to length 4 (5 in the thorough tier) times all package sizes, the iterators of small (q, genus) times many package sizes, some large bounds; non-trivial: several packages of size above one')
check('C08', 'exploration', ENUM, 'The real enumeration, counting and store are run over complete censuses and compared with brute force over all squarefree polynomials.' + TRUST,
  [opt('census.cc', mode='census')],
  'complete censuses over a list of (q, genus, marked, exponents) times package sizes, every class compared with brute force over all squarefree polynomials; non-trivial: more than two classes')
check('C09', 'exploration', ENUM, 'Multiplicities of all coefficient supports against the orbit-stabilizer formula, totals against closed formulas for every q below a bound.' + TRUST,
  [opt('census.cc', mode='mult')],
  'all coefficient supports of degree up to 12 (sparse ones up to 66) for all q below a bound and around overflow thresholds; totals, also of whole iterators taken as one package, and factorization-pattern marginals by closed formulas for every q below a bound; non-trivial: multiplicity above one')
check('C10', 'model_checking', 'explicit-state exploration of all operation sequences on the real store objects against a map of big integers',
  'All operation sequences up to a depth over several worker stores, states deduplicated by their complete contents; the model is compared with the implementation on every transition.' + TRUST,
  [opt('store.cc', mode='ops')], assumptions=['the store is used by one thread here; concurrent use is decided by C13-C15'])
check('C11', 'exploration', ENUM, 'Round trips through streams and files of every record and store over a small alphabet with extreme counts.' + TRUST,
  [asan('store.cc', mode='text')],
  'all subsets of an alphabet of blocks as records, all sequences of two and three store lines over an alphabet of keys and counts, blocks, records, stores, keys and counts of all lengths up to a bound, through streams and files, two generations; non-trivial: more than one entry')
check('C12', 'exploration', 'exhaustive enumeration of folder contents and directory orders for the real merger program against exact union and sum',
  'The merger main() runs in a child process on every folder of the family with every directory order (readdir under control).' + TRUST,
  [opt('merger.cc', mode='merge', mains=['merger'])],
  'the real merger program on every distribution of four result pieces over up to three files times every directory order, all subsets of extra folder entries, all positions of a record without store, all two-step merges; non-trivial: more than one file or extra entries')
check('C22', 'exploration', ENUM + '; the real threaded program on every settings combination of a family', 'Every combination of present, omitted, zero and invalid fields is decoded, verified, re-encoded and transmitted; the program runs on all valid combinations of a small family and its result folders are compared with brute-force censuses; all single defects of an entry are rejected.' + TRUST,
  [opt('config.cc', mode='config', mains=['threaded'])],
  'all combinations of present/omitted/zero over the seven settings as single entry and inside a list, all valid combinations of a small family and all single defects through the program; non-trivial: complete entries and program runs')
check('C23', 'exploration', ENUM, 'The main() of hycu-single is called on every coefficient list of the families, with values of p and above, leading zeros and every option, and its output is compared with brute force.' + TRUST,
  [opt('single.cc', mode='single', mains=['single'])],
  'all coefficient lists of bounded length over alphabets with values below, at and above p, for many odd primes, with every implementation option where it is supported; all composite sizes below a bound; non-trivial: degree at least two, or a call to be rejected')
MC_SO = ['-fno-gnu-unique', '-Wl,-Bsymbolic', '-Wl,--wrap=memcpy', '-Wl,--wrap=memmove', '-Wl,--wrap=memset']
def mcs(h, **k): return dict(harness=['harness/' + h, 'lib/mc.cc'] + k.pop('more', []), cflags=['-O1', '-fPIC', '-fno-gnu-unique'], repo_flags=['-fsanitize=thread'], harness_flags=['-O2'], solib=MC_SO, shards=1, **k)

MC = 'stateless model checking of the real program: '
MCNOTE = ' Threads run under a controlled scheduler with all pthread, sleep, clock and random_device calls intercepted; executions are enumerated by number of deviations from the default schedule (preemptions, early polls, spurious wake-ups, clock jumps), states with equal histories are merged, and every violation is replayed before it is reported. Complete up to the stated bounds only; sequentially consistent memory; trusts the runtime in /verif/lib/mc.cc.'
MCASSUME = ['sequentially consistent memory', 'flint and the C++ library are thread safe', 'bounded numbers of workers, packages, moduli and deviations']
def mc_check(pid, technique, note, steps, assumptions=()): check(pid, 'model_checking', MC + technique, note + MCNOTE, steps, None, MCASSUME + list(assumptions))
def mpi(mode, **k): return mcs('mpi.cc', mode=mode, mains=['mpi'], more=['lib/mpi_sim.cc', 'lib/fs.cc'], mpi=True, inc=['-DOMPI_SKIP_MPICXX', '-I/usr/lib/x86_64-linux-gnu/openmpi/include'], libs=['-lboost_mpi', '-lmpi'], **k)
def thr(mode, **k): return mcs('thr.cc', mode=mode, mains=['threaded'], **k)
mc_check('C13', 'all interleavings of coordinator and workers up to a deviation bound (complete for one worker)', 'Runs main() of hycu-threaded with 0-5 packages and 1-4 workers; deadlock, endless polling, exit status, records and stores are checked at the end of every execution.', [thr('termination')])
mc_check('C14', 'all interleavings up to a deviation bound with happens-before race detection on every access', 'The repository is compiled with access callbacks; each access is checked against vector clocks of all synchronization of that execution.', [thr('races'), mpi('races')], ['accesses inside flint and the C++ library are not observed'])
mc_check('C15', 'all interleavings and all firings of the periodic save up to a deviation bound', 'The clock may jump at each of its readings, so the periodic save fires at any assignment; every saved pair, of each process, is compared with the contributions of its record.', [thr('saves'), mpi('saves')])
mc_check('C18', 'all distributions of recorded packages over record files, times schedules up to a deviation bound', 'Folders with every subset of packages recorded, over up to three files, with and without files that are not records.', [opt('store.cc', mode='contains'), thr('restarts')])
mc_check('C20', 'all short sequences of moduli and prefix runs, times schedules up to a deviation bound', 'All pairs and triples over an alphabet of moduli differing in field, genus, marked point, counted extensions and package size; every folder is compared with the brute-force census of its modulus.', [thr('sequences')])
FS = ' Mutating system calls below the scratch folder are trapped with seccomp; the fault is taken from a bounded budget.'
mc_check('C16', 'all kill points and torn writes of runs and mergers, with restarts, up to a fault bound', 'At every file operation the process may be killed, also after every prefix of a write; it is started again until it completes, then merged, and the result compared with the census.' + FS, [mcs('crash.cc', mode='crash', mains=['threaded', 'merger'], more=['lib/fs.cc']), mpi('crash')], ['a killed process loses nothing that was written before (no power failure)'])
mc_check('C17', 'all single failures (and pairs of failures) of file operations of runs and mergers', 'Every open, read, write, close, rename and unlink may fail, be cut short or lose its data; then a clean run and merge have to give the census.' + FS, [mcs('crash.cc', mode='fail', mains=['threaded', 'merger'], more=['lib/fs.cc'])])
mc_check('C19', 'all collisions of random draws with existing files up to a bound', 'The draws of random_device are chosen so that names collide with every combination of existing records and stores; existing files have to stay as they are.', [mcs('names.cc', mode='names', mains=['threaded'])])
mc_check('C21', 'all interleavings of the threads of 1-4 processes and their messages up to a deviation bound, sends buffered or blocking until received', 'Runs main() of hycu-mpi once per process, each a thread with its own copy of the code, on the real boost::mpi library over a simulated MPI; deadlock, exit status, undelivered messages, records and stores are checked at the end of every execution.', [mpi('protocol')], ['messages between two processes stay in order', 'no process is lost on its own'])
CL = ['-I@VERIF/lib/cl']
check('C24', 'model_checking', 'exhaustive exploration of the kernels over inputs, work-group layouts and orders of work items, with conflict detection on every access',
  'The kernel sources are compiled at run time and executed item by item; bounds, initialisation, barriers and conflicting accesses are checked on every access, so that one order of the items of a group stands for all.' + TRUST,
  [dict(harness=['harness/kernels.cc', 'lib/cl_sim.cc'], cflags=['-O2', '-D_GLIBCXX_ASSERTIONS'], harness_flags=['-DCLSIM_HOOKS', '-DWITH_OPENCL'], repo=False, inc=CL, ldflags=['-rdynamic'])],
  'all polynomials of bounded length over small fields and corner polynomials over larger ones, all group sizes dividing the range for small ones; all array lengths up to three rounds, group sizes, numbers of groups and of partial sums, all orders of the items of groups up to four; non-trivial: degree at least two, or more than one value',
  ['a 32-bit int, as OpenCL prescribes', 'the work-group size is a power-of-two multiple of the number of partial sums'])
check('C25', 'model_checking', 'exhaustive enumeration of curves, of histories of tables and counts on one device, and of the moments at which a simulated device executes each queued command',
  'The OpenCL host code is compiled against a simulated device: buffers, kernels compiled from their sources and an in-order queue whose commands run at every possible moment (asan build); counts are compared with brute force.' + TRUST,
  [dict(harness=['harness/device.cc', 'lib/cl_sim.cc'], cflags=ASAN + ['-DWITH_OPENCL'], mains=['single'], opencl=True, inc=CL, ldflags=['-rdynamic']),
   dict(harness=['harness/thr.cc', 'lib/mc.cc', 'lib/cl_sim.cc'], cflags=['-O1', '-fPIC', '-fno-gnu-unique', '-DWITH_OPENCL'], repo_flags=['-fsanitize=thread'], harness_flags=['-O2'], solib=MC_SO + ['-Wl,--unresolved-symbols=ignore-all'], shards=1, mode='devices', mains=['threaded'], opencl=True, inc=CL)],
  'all polynomials of bounded length over small fields and corner polynomials over larger ones, executed as early and as late as possible; all moments of execution for histories of creating and dropping tables and counting curves of several degrees; hycu-single with and without --opencl; non-trivial: degree at least two, or a history',
  ['the simulated device stands for a conforming OpenCL 1.2 implementation with one in-order queue'])
mc_check('C26', 'all interleavings up to a deviation bound; idle workers at every poll of the coordinator, and the largest number of workers at work at once over all executions', 'Positions are counted where workers make curves; a worker that waits from one poll to the next while packages are left, or fewer workers at work at once than there are in every execution, is a violation.', [thr('share'), mpi('share')])
mc_check('C28', 'all interleavings up to a deviation bound under a simulated clock that every handled position advances', 'At every operation of the coordinator the age of unsaved finished work and the distance of saves are checked.', [thr('periodic'), mpi('periodic')])
check('C27', 'model_checking', 'exhaustive enumeration of operation sequences, each repeated, against a ledger of all allocations, open files and threads', 'Every sequence of operations up to a depth is repeated on the real objects and programs in one process; what grows at every repetition is a violation.' + TRUST,
  [opt('ledger.cc', mode='ledger', ldflags=['-rdynamic'], mains=['threaded', 'merger', 'single'])],
  'all sequences of operations of bounded length over an alphabet of 27 operations on tables, curves, stores, files and settings, the objects of every field up to a bound, and whole runs of the threaded, merger and single programs, each repeated seven times; non-trivial: more than one operation, extension fields, programs',
  ['memory that stops growing after two repetitions is a cache and not a leak'])

check('C29', 'exploration', 'exhaustive enumeration of short command lines, of kinds of configurations, inputs and output paths, for the real programs', 'Every sequence of up to four arguments over an alphabet is read by an independent parser; the programs run in a scratch folder, where everything refused has to leave the files as they were and everything else has to be done.' + TRUST,
  [opt('calls.cc', mode='calls', mains=['threaded', 'merger', 'single']), mpi('calls')],
  'all sequences of arguments of bounded length over an alphabet of valid and invalid ones; all pairs of a kind of configuration and a kind of output path; kinds of missing permissions; non-trivial: at least one argument')

check('C30', 'exploration', 'exhaustive enumeration of contexts (histories of operations, surroundings of the process, threads) in which the real tables, packages and contributions are asked for', 'Every context runs in a process of its own; tables, packages and contributions are compared, entry by entry, with those of a fresh process.' + TRUST,
  [opt('meaning.cc', mode='meaning', ldflags=['-rdynamic'])],
  'all sequences of up to two operations (three in the thorough tier) over an alphabet of twenty, all combinations of times, random numbers and process numbers of a family, fillings of memory, environment variables, numbers of threads one after another and at once; non-trivial: all but the fresh process')

HOOKS = {"guard": "EXSEISDAT_VERIF_HOOKS",
         "enable": "the checks compile /repo's sources with -DEXSEISDAT_VERIF_HOOKS (vp/build.py); the environment variable EXSEISDAT_VERIF_MEMLIM then sets the block size of Set::startSingle, EXSEISDAT_VERIF_REPBLOCK and EXSEISDAT_VERIF_REPLIM the block and memory size of util/makerep.cc",
         "source_commits": ["d333cc3", "7beb74b"]}
NA = {}
TLA = "TLA+ specification; "
CLAIMS = {
 "C01": ("TLA+ model checking (TLC) of the decomposition design + TLC validation of recorded results",
         "Design exhaustively checked for N<=40,P<=12 (thorough 120,24); the real functions' answers for all those pairs and for seeded 64-bit sizes are validated exactly against the partition predicate."),
 "C02": ("TLA+ model checking (TLC) of the chunked I/O design + TLC validation of traces recorded from the real code",
         "Chunking design exhaustively checked at small constants; seeded multi-process byte I/O histories of the real library are checked byte for byte against the file specification."),
 "C03": ("TLA+ model checking (TLC) of the matched-calls design + TLC validation of recorded communication histories of all processes",
         "Chunked transfers and sessions with failures are checked for termination for every distribution of work; histories of eleven other checks on 2..5 processes, with work taken from some of them and random delays, are compared step by step across processes; a process left waiting is reported.",),
 "C04": ("TLA+ model checking (TLC) of a writing session with failures + TLC validation of recorded histories with injected failures",
         "Design: every placement of up to three failures in a session of three processes. Code: every kind of file call made to fail on chosen processes at the MPI boundary, and failures of the file system itself, in histories of the byte, SEG-Y and set layers.", "fault_enumeration"),
 "C05": ("TLA+ model checking (TLC) of a writing session + TLC validation of recorded output-file histories against a TLA+ specification of the SEG-Y file",
         "Seeded multi-process histories of the real writer are validated against the file state machine, including the exact size and header of the closed file."),
 "C06": ("TLA+ model checking (TLC) of a writing session + TLC validation of recorded write histories against a TLA+ specification of the SEG-Y file",
         "Seeded write histories of several processes; the whole file is compared byte for byte with the specification's after every operation."),
 "C07": ("TLA+ model checking (TLC) of reads in any order + TLC validation of recorded read histories against a TLA+ specification of the SEG-Y file",
         "Seeded read histories (contiguous, listed, unordered, past the end) of several processes; each value compared with the specification's."),
 "C08": ("TLA+ model checking (TLC) of the shared-scale choice + TLC validation of recorded header round trips",
         "Design: every pair of values at small scale checked exhaustively; the real writer/reader's header bytes and re-read values for seeded value sets are validated against the specification."),
 "C09": ("TLA+ model checking (TLC) of the rule state machine + TLC validation of recorded rule/parameter histories",
         "All short rule histories checked in the model; seeded histories of real rules and parameter structures (C and C++) compared after every step."),
 "C18": ("TLC validation of recorded gain-control windows and outputs against a TLA+ definition",
         "Windows passed to a user gain function and built-in gains on small-integer traces are checked exactly."),
 "C19": ("TLC validation of recorded taper weights and outputs against a TLA+ definition",
         "Seeded traces, tails and ramps; weights and places exact."),
 "C20": ("TLC validation of all 256 codes and of recorded text headers against a TLA+ code table",
         "All codes in both directions; seeded and boundary text headers read in both encodings."),
 "C21": ("TLA+ model checking (TLC) of the IBM conversion at a small word size + TLC validation of recorded conversions",
         "The conversion rule is checked against exact rational rounding at a reduced word size; the real functions' answers for systematically chosen and seeded patterns are compared bit for bit."),
 "C22": ("TLC validation of recorded log histories against a TLA+ state machine",
         "Seeded histories of records, queries and processing at every verbosity; exit status of the error check."),
 "C10": ("TLA+ model checking (TLC) of the neighbour-exchange sort + TLC validation of recorded parallel sorts",
         "The exchange algorithm is checked for every small distribution and every interleaving, including termination; recorded sorts of seeded parameters on 1..5 processes under random delays are validated as sorted permutations."),
 "C11": ("TLC validation of recorded comparisons and order checks against a TLA+ definition of the orders",
         "Every pair of seeded traces, in both directions, in all nine orders; order checks of parts of seeded (nearly) ordered files."),
 "C12": ("TLC validation of recorded extrema against a TLA+ definition",
         "Seeded values with signs, ties and empty processes on 1..5 processes, through all three interfaces and on sets of files."),
 "C13": ("TLA+ model checking (TLC) of the gather-counting design + TLC validation of recorded results",
         "Every short file of three lines over three processes; seeded files on 1..6 processes under random delays."),
 "C15": ("TLA+ model checking (TLC) of the block-wise concatenation design + TLC validation of recorded set histories",
         "Every small spread of two files over three processes and block sizes; seeded sets of files on 1..5 processes with blocks of a few traces, whole output files compared."),
 "C16": ("TLA+ model checking (TLC) of the numbering and block-wise output of a sorted set + TLC validation of recorded workflows",
         "Every small set, key assignment and block size; seeded workflows of sorts and per-trace operations on 1..5 processes, whole output files compared with the serial meaning."),
 "C17": ("TLA+ model checking (TLC) of the distribution of gathers and of grid indexing + TLC validation of recorded conversions",
         "Every small sequence of gathers, process count and angle count, and every small grid, in the model; seeded gather files, model grids, bins and angle counts on 1..5 processes, through the class and the tool, sorted before and tapered after, every output sample looked up in the input by the specification."),
 "C23": ("TLA+ model checking (TLC) of the resources of a history of accesses with failures + TLC validation of recorded resource ledgers against an ownership state machine",
         "Every placement of failures in short access histories in the model; at the MPI boundary every acquisition and release of files, types, info objects, windows, requests and communicators is recorded for scenarios of eleven other checks with operations repeated, and for histories with injected failures, and attributed to the object that owns it."),
 "C24": ("TLA+ model checking (TLC) of instances on disjoint groups + TLC validation of recorded histories of several instances working at once",
         "Every partition and short program in the model; scenarios of eleven other checks run by two or three disjoint groups of processes at the same time (some taking no part), each group's history validated by the specification of its operations and its communication steps against its communicator."),
 "C14": ("TLA+ model checking (TLC) of the windowed vector + TLC validation of recorded load/store histories",
         "Addressing checked exhaustively at small sizes; seeded phases of loads and stores of elements of 1..164 bytes on 1..5 processes."),
 "C25": ("TLA+ model checking (TLC) of handle lifetimes + TLC validation of the same programs recorded over both interfaces and of recorded handle histories",
         "Every program of up to six handles (thorough seven) against reference counting in the model; programs of ten other checks run over the C interface, validated by the specification of their operations and compared step by step with the same program over the C++ classes; handles created, used and deleted in any order."),
 "C26": ("TLA+ model checking (TLC) of the block-wise search with range restriction + TLC validation of recorded runs of the tool",
         "Every pair of small surveys, limit and distribution in the model; the tool, compiled from util/ as a function of the driver, run on seeded surveys with reversed shots, ties, equal positions and clusters on 1..5 processes, every pair of its outputs judged by a TLA+ definition of the distance; one-sided accesses must stay inside their windows."),
 "C27": ("TLA+ model checking (TLC) of block-wise replication with exchange + TLC validation of recorded runs of the tools",
         "Every small file, block size, process count and repetition in the model; the tools, compiled from util/ as functions of the driver, run on seeded files with 1..7 processes and blocks of a few kilobytes, their whole output files and printed results validated by the file and set specifications."),
 "C28": ("TLA+ model checking (TLC) of a fixed-point filter design + TLC validation of recorded coefficients and filtered traces",
         "Filters of every type, order up to 4 and many corners have the closed-form Butterworth gains in the model; the real coefficients and time-domain outputs are compared with the specification's fixed-point ones, and every window filtered again elsewhere, among other traces, scaled or negated must give the same bits."),
 "C29": ("TLA+ model checking (TLC) of program lives + TLC validation of recorded whole programs",
         "Every program of up to eight steps (thorough ten) in the model; fixed and seeded programs, each a job of its own on 1..3 processes, whose every call that starts or ends MPI is recorded with who made it."),
}

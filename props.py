"""What each check runs: library builds, harness, scenarios, and the words for the evidence file."""
from vbuild import Variant

SBC = "-DSPECIAL_BOUNDARY_CONDITIONS"
REAL = ["hilapp and the code it generates", "libraries/plumbing (fields, layout, communication, reductions, I/O, random, FFT plumbing)",
        "libraries/datatypes", "libstdc++ streams", "FFTW where used"]
STUB = ["MPI (simulated transport with the semantics of the standard)", "process launch, exit, abort and signals",
        "clocks", "the libc file calls (real files in a private directory behind a fault-injecting seam)"]


class Task:
    def __init__(self, variant, scenario="main", weight=1):
        self.variant, self.scenario, self.weight = variant, scenario, weight


class Prop:
    def __init__(self, pid, tasks, rule, quick=40, thorough=600, assumptions=(), level="exploration", edits=None,
                 technique="deterministic simulation: seeded search over schedules", note=""):
        self.pid, self.tasks, self.rule = pid, tasks, rule
        self.technique, self.note = technique, note
        self.quick, self.thorough = quick, thorough
        self.assumptions = list(assumptions)
        self.level = level
        # keys the minimiser may try to lower, with the values to try
        self.edits = edits or {}


P = {}


def add(p):
    P[p.pid] = p


SCHED = "deterministic simulation: seeded search over rank schedules and message timings"
BASE_ASSUME = [
    "MPI delivers every message once and in order per (source, destination, communicator), as the standard promises; delay, reordering across pairs, eager or rendezvous completion and stalls are injected",
    "the compiler used for the harness (g++ -O1) translates the generated code faithfully",
]

F3 = Variant("f3", "fields.cpp", 3)
F4 = Variant("f4", "fields.cpp", 4)
F2 = Variant("f2", "fields.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"], hilapp_opts=["--no-interleave"])
add(Prop("C01", [Task(F3, weight=3), Task(F4, weight=2), Task(F2, weight=3)],
         "one case is one seeded run: a random lattice (even and odd sizes, uneven node divisions), 1 to 8 ranks, a random program of "
         "site loops, shifts, element writes, copies and early gathers over 3 to 5 fields, and one schedule of rank steps, message arrivals "
         "and deliveries; the final field contents and the intermediate reductions are compared with a single-array reference. A case is "
         "non-trivial when at least two context switches between ranks happened; two cases are distinct when the hashes of their event "
         "sequences differ.", assumptions=BASE_ASSUME,
         technique="deterministic simulation: seeded search over rank schedules and message timings against a single-array reference model",
         note="Random programs over fields on random lattices and rank counts; all ranks run the generated code in one process. "
              "A search, not a proof: it covers the programs, sizes (up to 400 sites) and schedules it draws.",
         edits={"ops": "lower", "checks": [0, 100]}))

# ---- C02: mixed communication
X3 = Variant("mix3", "mix.cpp", 3)
X4 = Variant("mix4", "mix.cpp", 4, ["-DWRITE_BUFFER_SIZE=700"])
X2 = Variant("mix2", "mix.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
X3B = Variant("mix3b", "mix.cpp", 3, ["-DSPECIAL_BOUNDARY_CONDITIONS"])
add(Prop("C02", [Task(X3, weight=4), Task(X4, weight=2), Task(X2, weight=3), Task(X3B, weight=2)],
         "one case is one seeded run: a random lattice on 1 to 8 ranks and a random program which mixes 30 kinds of operations: loops with neighbours, gathers started by hand and never used, fields "
         "which are overwritten, moved, swapped, blocked or destroyed while communication is under way, several reductions of different types and kinds left open, broadcasts and messages with any root, "
         "element, list and slice access, minima, files, FFT and reflection, shifts, site selection, clusters and blocked lattices. Every rank must finish; no message or request may be left over, no "
         "collective entered with differing arguments, no buffer of an unfinished transfer written, freed or read (all data are small numbers, everything else is poisoned). A case is non-trivial when at "
         "least two context switches between ranks happened; two cases are distinct when the hashes of their event sequences differ.",
         assumptions=BASE_ASSUME + ["Reading an unfinished receive buffer shows when the poison reaches a field, an element or a message."],
         technique=SCHED + ", message completion and collective departure, with invariants on every MPI call and buffer",
         note="Random programs, divisions, message timings and schedules. A search, not a proof.", edits={"ops": "lower"}))

R3 = Variant("red3", "reduce.cpp", 3)
R2 = Variant("red2", "reduce.cpp", 2)
add(Prop("C03", [Task(R3, weight=5), Task(R2, weight=3)],
         "one case is one seeded run: a random lattice on 1 to 8 ranks and a random sequence of reductions (plain variables of 8 types, products, "
         "Reduction with every combination of allreduce/nonblocking/delayed, ReductionVector, extended precision, rank-level sums) with values read at "
         "random points; all totals are integers, so the comparison with the reference is exact. A case is non-trivial when at least two context switches between ranks happened; "
         "two cases are distinct when the hashes of their event sequences differ.", assumptions=BASE_ASSUME,
         technique=SCHED + " against exact totals",
         note="Random sequences of reduction operations on random lattices, 1 to 8 ranks, nonblocking reductions completed at drawn times, combination order of the ranks varied. A search, not a proof.",
         edits={"ops": "lower"}))

def sched_rule(what):
    return ("one case is one seeded run: " + what + " A case is non-trivial when at least two context switches between ranks happened; "
            "two cases are distinct when the hashes of their event sequences differ.")


M3 = Variant("minmax3", "minmax.cpp", 3)
M2 = Variant("minmax2", "minmax.cpp", 2)
add(Prop("C04", [Task(M3, weight=5), Task(M2, weight=3)],
         sched_rule("a random lattice on 1 to 8 ranks, fields of five number types with all-negative, all-positive, tied and extreme values, and a "
                    "sequence of min/max queries with and without location and parity, compared with a scan of the reference; ranks must agree on the location."),
         assumptions=BASE_ASSUME, technique=SCHED + " against a reference scan",
         note="Random field contents (all-negative, tied, extreme), parities, lattice divisions and schedules. A search, not a proof.", edits={"ops": "lower"}))

E3 = Variant("elem3", "elements.cpp", 3)
E4 = Variant("elem4", "elements.cpp", 4)
E2 = Variant("elem2", "elements.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
add(Prop("C05", [Task(E3, weight=3), Task(E4, weight=2), Task(E2, weight=3)],
         sched_rule("a random lattice on 1 to 8 ranks, a field of one of five types and a random sequence of element reads and writes, lists with repeats, "
                    "slices, subvolumes, local block copies with and without halo, early gathers and neighbour loops."),
         assumptions=BASE_ASSUME, technique=SCHED + " against a single-array reference",
         note="Random access sequences, lattice divisions and schedules. A search, not a proof.", edits={"ops": "lower"}))

S3 = Variant("sbc3", "fields.cpp", 3, [SBC])
S4 = Variant("sbc4", "fields.cpp", 4, [SBC])
S2 = Variant("sbc2", "fields.cpp", 2, [SBC, "-DNODE_LAYOUT_TRIVIAL"])
add(Prop("C20", [Task(S3, weight=3), Task(S4, weight=2), Task(S2, weight=3)],
         sched_rule("C01's random programs built with special boundary conditions; each field has its own periodic or antiperiodic condition per direction, "
                    "changed, copied, moved and swapped along the way; the reference multiplies by the sign of each crossing."),
         assumptions=BASE_ASSUME, technique=SCHED + " against a single-array reference with signs",
         note="Random programs, lattices, divisions, conditions and schedules. A search, not a proof.",
         edits={"ops": "lower", "checks": [0, 100]}))

V22 = [Variant("avx3", "fields.cpp", 3, avx=True), Variant("avx4", "fields.cpp", 4, avx=True),
       Variant("avxsbc3", "fields.cpp", 3, [SBC], avx=True),
       Variant("noint4", "fields.cpp", 4, hilapp_opts=["--no-interleave"]),
       Variant("avxred3", "reduce.cpp", 3, avx=True), Variant("avxelem3", "elements.cpp", 3, avx=True), Variant("avxmm3", "minmax.cpp", 3, avx=True)]
add(Prop("C22", [Task(v) for v in V22],
         sched_rule("C01's random programs (and those of C03, C04, C05) in AVX2, sublattice-layout, no-interleave and special-boundary builds, against the same "
                    "single-array reference as the plain build."),
         assumptions=BASE_ASSUME, technique=SCHED + " against a single-array reference, per build option",
         note="Random programs, lattices, divisions and schedules, seven builds. A search, not a proof.",
         edits={"ops": "lower", "checks": [0, 100]}))

def lay(name, nd, *defs, **kw):
    return Variant(name, "layout.cpp", nd, list(defs), copies=24, **kw)


add(Prop("C16", [Task(lay("lay3", 3), weight=4), Task(lay("lay2", 2, SBC), weight=2), Task(lay("lay4", 4, "-DNODE_LAYOUT_TRIVIAL"), weight=2),
                 Task(lay("layb3", 3, "-DNODE_LAYOUT_BLOCK=6"), weight=1), Task(lay("lay1", 1), weight=1), Task(lay("layv3", 3, avx=True), weight=2), Task(lay("layv2", 2, avx=True), weight=1)],
         sched_rule("a random lattice size (1 to 40 sites per direction, even, odd, prime) in 1 to 4 dimensions on 1 to 24 ranks in seven builds; every table "
                    "of the layout is checked on every rank against the definition, or the layout is refused by all ranks."),
         assumptions=BASE_ASSUME, technique=SCHED + ", sizes and rank counts against the definition of a one-to-one cover",
         note="Random sizes, rank counts and builds. Setting up must end within the step and CPU limits of a run. A search, not a proof."))

B3 = Variant("bcast3", "bcast.cpp", 3)
add(Prop("C09", [Task(B3)],
         sched_rule("a random sequence of broadcasts (any root, plain types, structs, strings, vectors, arrays, pairs) and point-to-point transfers on 1 to 8 ranks; "
                    "each rank starts with its own value and must end with the sender's."),
         assumptions=BASE_ASSUME, technique=SCHED + " against the sender's value",
         note="Random sequences, roots, sizes (up to 3000 elements) and schedules. A search, not a proof.", edits={"ops": "lower"}))

SS3 = Variant("sel3", "select.cpp", 3)
SS2 = Variant("sel2", "select.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
SSA = Variant("selavx3", "select.cpp", 3, avx=True)
add(Prop("C10", [Task(SS3, weight=3), Task(SS2, weight=2), Task(SSA, weight=1)],
         sched_rule("a random lattice on 1 to 8 ranks and random site selections (with and without values, parities, several per loop, twice at a site, "
                    "reused, limited, joined late or never) compared with the set the reference selects."),
         assumptions=BASE_ASSUME, technique=SCHED + " against the reference set",
         note="Random selections, limits, lattice divisions and schedules. A search, not a proof.", edits={"ops": "lower"}))

RN3 = Variant("rnd3", "random.cpp", 3)
RNA = Variant("rndavx3", "random.cpp", 3, avx=True)
add(Prop("C13", [Task(RN3, weight=3), Task(RNA, weight=1)],
         sched_rule("a random program of seedings, host and site-loop draws of all kinds and shuffles on 1 to 8 ranks (also in two partitions), run twice in one simulation with "
                    "different schedules and clocks; both runs must draw the same numbers, every reseeding must restart the stream, all ranks' streams must differ and shuffles agree."),
         assumptions=BASE_ASSUME, technique=SCHED + " against a second run and earlier seedings",
         note="Random programs, seeds, divisions and schedules. Statistical quality of the generator (std::mt19937_64) is not judged. A search, not a proof.", edits={"ops": "lower"}))

TF3 = Variant("fin3", "finish.cpp", 3)
add(Prop("C14", [Task(TF3)],
         sched_rule("a main loop of 2 to 20 intervals of drawn simulated length on 1 to 8 ranks with skewed clocks and wall-clock jumps, a time limit from a call, the "
                    "command line (all formats) or the simulated squeue (also failing), and a stop signal at a drawn moment to a drawn rank; each answer of time_to_finish is "
                    "compared between ranks and with the rule applied to the simulated clock."),
         assumptions=BASE_ASSUME, technique="deterministic simulation: simulated clocks and signals injected at drawn events, against the documented rule",
         note="Simulated hours per run. Signals are delivered where a rank makes a communication, clock or I/O call. A search, not a proof.", edits={"calls": "lower"}))

IN3 = Variant("in3", "input.cpp", 3)
add(Prop("C15", [Task(IN3)],
         sched_rule("a random parameter file (15 item types, random layout, comments, continued lists, quoted strings), command-line overrides, -i, and one possible error (wrong key, bad value, "
                    "short list, end of file, unbalanced quote, missing file, unused override, read or open failure) on 1 to 8 ranks; every value and every outcome is compared on all ranks."),
         assumptions=BASE_ASSUME, technique=SCHED + " and read faults against the generated parameters",
         note="Random parameter files, errors and schedules. A search, not a proof."))

BL3 = Variant("blk3", "blocking.cpp", 3)
BL2 = Variant("blk2", "blocking.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
add(Prop("C17", [Task(BL3, weight=3), Task(BL2, weight=2)],
         sched_rule("a random sequence of block, unblock and switch between a tree of lattices, block_from, unblock_to and block_to_current_lattice, mixed with neighbour loops, shifts, sums, "
                    "element access, early gathers and clearing of up to six fields on their lattices, on 1 to 8 ranks (some of which may hold no site of a blocked lattice)."),
         assumptions=BASE_ASSUME, technique=SCHED + " against single-array references, one per lattice",
         note="Random sequences, sizes and schedules. Blocking is not available in vectorised layouts. A search, not a proof.", edits={"ops": "lower"}))

CL3 = Variant("clu3", "clusters.cpp", 3)
CL2 = Variant("clu2", "clusters.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
add(Prop("C11", [Task(CL3, weight=3), Task(CL2, weight=3)],
         sched_rule("random arrangements of site types (percolation, lines, checkerboards, long thin walks, labyrinths) and random link fields on 1 to 8 ranks; "
                    "the clusters found are compared with the components a sequential union-find gives, and between the ranks."),
         assumptions=BASE_ASSUME, technique=SCHED + " against sequential union-find",
         note="Random arrangements, lattice divisions and schedules. A search, not a proof.", edits={"ops": "lower"}))

FT3 = Variant("fft3", "fft.cpp", 3)
FT2 = Variant("fft2", "fft.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
FT4 = Variant("fft4", "fft.cpp", 4)
add(Prop("C12", [Task(FT3, weight=3), Task(FT2, weight=2), Task(FT4, weight=2)],
         sched_rule("a sequence of transforms of random fields (complex, vector and matrix elements, float and double; any subset of directions, both signs, in place or not, real-to-complex and "
                    "complex-to-real) and reflections on 1 to 8 ranks, also on blocked lattices; every site of every result is compared with the defining sum, and round trips with volume times the input."),
         assumptions=BASE_ASSUME + ["FFTW's one-dimensional transforms run as they are; the redistribution between ranks around them is what is explored."],
         technique=SCHED + " against the defining sum",
         note="Random sizes (also odd and prime), directions and schedules. A search, not a proof.", edits={"ops": "lower"}))

# ---- C25: spectral densities
SD3 = Variant("spectral3", "spectral.cpp", 3)
SD2 = Variant("spectral2", "spectral.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
SD4 = Variant("spectral4", "spectral.cpp", 4)
add(Prop("C25", [Task(SD3, weight=3), Task(SD2, weight=2), Task(SD4, weight=1)],
         sched_rule("a sequence of changes of the settings (bins, maximum, power, bin width), queries of counts and averages, and binnings of random fields (real and complex, scalar and vector, "
                    "raw, squared and Fourier transformed) on 1 to 8 ranks, also on blocked lattices; every bin is compared with a direct sum over all momenta."),
         assumptions=BASE_ASSUME + ["A momentum within rounding of a bin edge may be in either bin; bins with such a momentum are bounded, and judged through the total."],
         technique=SCHED + " against a direct sum over all momenta",
         note="Random sizes, settings and schedules. A search, not a proof.", edits={"ops": "lower"}))

# ---- C26: memory
ME3 = Variant("mem3", "mix.cpp", 3, ["-DMEMORY", "-DWRITE_BUFFER_SIZE=900"])
ME4 = Variant("mem4", "mix.cpp", 4, ["-DMEMORY"])
ME2A = Variant("memavx3", "mix.cpp", 3, ["-DMEMORY", "-DWRITE_BUFFER_SIZE=900"], avx=True)
add(Prop("C26", [Task(ME3, weight=3), Task(ME4, weight=2), Task(ME2A, weight=2)],
         sched_rule("a random program of 46 kinds of operations (fields made, copied, moved, cleared and destroyed with communication under way, reductions of every mode, files, configurations, "
                    "Fourier transforms, blocked lattices, selections, clusters, binnings, input files, timers) repeated 7 times on 1 to 8 ranks; every block of memory has guards before and after it "
                    "and is kept for a while after its release, what each rank holds is counted after every repetition, and in one run of five an allocation fails."),
         assumptions=BASE_ASSUME + ["Memory which the C++ and FFTW libraries allocate in their own code is guarded, but not counted for the growth check.",
                                    "Growth means more blocks and more bytes after each of the last three of seven repetitions; reads outside a block are seen only through the values read."],
         technique=SCHED + " and allocation failures, with guarded blocks, released blocks kept, and a count of what each rank holds",
         note="Random programs, sizes and schedules. A search, not a proof.", edits={"ops": "lower"}))

# ---- C21: errors end the job
ER3 = Variant("err3", "errors.cpp", 3)
add(Prop("C21", [Task(ER3, weight=3), Task(IN3, weight=1)],
         sched_rule("a random program on 1 to 8 ranks in which one rank, some or all run into one of 20 kinds of error at a drawn step (library errors, uninitialised fields, failed assertions, exceptions, "
                    "memory, files, full disks, bad input or command lines), or none; the job must end within bounded steps, with a failure status exactly when there was an error, and a normal finish must "
                    "leave all output; also the faulty parameter files of C15."),
         assumptions=BASE_ASSUME + ["A rank which leaves without MPI_Finalize, or calls MPI_Abort, makes the launcher end the job; the status of the job is a failure when any rank's is."],
         technique=SCHED + " and errors injected at drawn steps and ranks",
         note="Random programs, errors, ranks and schedules. A search, not a proof.", edits={"ops": "lower"}))

# ---- C06: field files
IO3 = Variant("io3", "fileio.cpp", 3, ["-DWRITE_BUFFER_SIZE=400"])
IO2 = Variant("io2", "fileio.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL", "-DWRITE_BUFFER_SIZE=131"])
IO4 = Variant("io4", "fileio.cpp", 4)
IOA = Variant("ioavx3", "fileio.cpp", 3, ["-DWRITE_BUFFER_SIZE=500"], avx=True)
add(Prop("C06", [Task(IO3, weight=3), Task(IO2, weight=2), Task(IO4, weight=1), Task(IOA, weight=1)],
         sched_rule("a sequence of writes (whole fields, several fields, subvolumes, slices; binary, text, converted to float; by name or into a stream) and reads (also of files of earlier runs with another "
                    "rank count, and of smaller lattices) of fields of 8 element types, on 1 to 8 ranks, also on blocked lattices, with buffers of 131 bytes to 2 MB; the bytes of each file reported as written, "
                    "and each field read, are compared with the reference; injected: full disk, write, open, close and read errors, short transfers, interrupted calls, truncated files, kills."),
         assumptions=BASE_ASSUME + ["Data handed to the operating system by a finished call survives a kill of the job; power failures are not simulated."],
         technique=SCHED + " and I/O faults, against reference file contents",
         note="Random programs, rank counts, faults and schedules. A search, not a proof.", edits={"ops": "lower"}))

# ---- C07: configuration files
CF3 = Variant("cfg3", "config.cpp", 3, ["-DWRITE_BUFFER_SIZE=1000"])
CF4 = Variant("cfg4", "config.cpp", 4)
CP3 = Variant("cfgp3", "config.cpp", 3, ["-DPLAQUETTE", "-DWRITE_BUFFER_SIZE=1000"])
CF2 = Variant("cfg2", "config.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL", "-DWRITE_BUFFER_SIZE=300"])
add(Prop("C07", [Task(CF3, weight=3), Task(CF4, weight=2), Task(CF2, weight=2), Task(CP3)],
         sched_rule("a sequence of configurations written and read in 2 or 3 successive runs with different rank counts and lattices (the same, multiples, others), group types and precisions; damaged files "
                    "(cut at any byte, changed header words and bytes, bytes lost or inserted), files left by a killed or failing writer, and I/O errors; a file is accepted exactly when its bytes are a "
                    "configuration which fits, and then every link equals the file."),
         assumptions=BASE_ASSUME + ["Data handed to the operating system by a finished call survives a kill of the job; power failures are not simulated."],
         technique=SCHED + ", kills and I/O faults, against the bytes of the file",
         note="Random histories, damages and schedules. A file with changed data bytes is a valid configuration (there is no checksum). A search, not a proof.", edits={"ops": "lower"}))

# ---- C08: checkpoints
CK3 = Variant("ckpt3", "ckpt.cpp", 3, ["-DWRITE_BUFFER_SIZE=800"])
CK2 = Variant("ckpt2", "ckpt.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
add(Prop("C08", [Task(CK3, weight=3), Task(CK2, weight=3)],
         sched_rule("2 to 5 successive runs in one directory, each restoring and then writing checkpoints of drawn gauge fields, with or without saving the old one and with the user changing run_status; "
                    "each run but the last may be killed before, during (torn) or after any file operation or at any event, or meet a full disk, write, close or rename error; what the next run restores must be "
                    "the last finished checkpoint, or the one being written if that is complete, with its gauge field, trajectory number, seed and random numbers."),
         assumptions=BASE_ASSUME + ["Data handed to the operating system by a finished call survives a kill of the job; power failures are not simulated.", "rename() is atomic."],
         technique=SCHED + ", kills and I/O faults over several runs, against the record of finished checkpoints",
         note="The checkpoint functions of libraries/tools; some applications have their own. Random histories, kills and schedules. A search, not a proof.", edits={"ops": "lower"}))

# ---- C24: multicanonical weights
MU2 = Variant("muca2", "muca.cpp", 2, extra=["tools/multicanonical.cpp"])
add(Prop("C24", [Task(MU2)],
         sched_rule("1 to 3 successive runs on 1 to 6 ranks, each with drawn parameters (four update rules, both finish conditions, hard walls or not) and weights (none, a file made by hand with bins of any "
                    "width, a file of an earlier step or run, also left by a killed writer or damaged), followed by drawn iterations, accept/reject calls, weight queries and writes; after every step the weights "
                    "are compared with the documented rule, decisions and flags between ranks and with their probability; injected: full disk, write, open, close and read errors, kills."),
         assumptions=BASE_ASSUME + ["Only files of the documented form with increasing limits have a defined meaning; others must be refused or end the job, when a row is missing or unreadable."],
         technique=SCHED + ", kills and I/O faults against the update rules",
         note="Acceptance is judged through its probability (certain and impossible ones exactly, the others by their sum within 8 standard deviations). A search, not a proof.", edits={"ops": "lower", "rounds": "lower"}))

# ---- C23: gauge and matter observables
GA4 = Variant("gauge4", "gauge.cpp", 4, ["-DNCOL=2"])
GA3 = Variant("gauge3", "gauge.cpp", 3, ["-DNCOL=3"])
GA4F = Variant("gauge4f", "gauge.cpp", 4, ["-DNCOL=3", "-DREAL=float"])
GA4T = Variant("gauge4t", "gauge.cpp", 4, ["-DNCOL=2", "-DTOPO", "-DNODE_LAYOUT_TRIVIAL"])
GA3C = Variant("gauge3c", "gauge.cpp", 3, ["-DNCOL=2", "-DCSF"])
GA4A = Variant("gauge4a", "gauge.cpp", 4, ["-DNCOL=2"], avx=True)
add(Prop("C23", [Task(GA4, weight=3), Task(GA3, weight=2), Task(GA4F, weight=1), Task(GA4T), Task(GA3C), Task(GA4A)],
         sched_rule("a sequence of gauge operations (plaquette and improved, clover, logarithmic, bulk-preventing and topological actions and forces, staples, Polyakov loops, Wilson lines and loop forces, stout "
                    "smearing and its forces, gradient and constant action flow, molecular dynamics, Gauss law restoration, overrelaxation, heatbath) and a conjugate gradient with a staggered operator, on drawn "
                    "SU(2) and SU(3) fields of double and float precision in 3 and 4 dimensions; run on one rank, then on 2 to 8 ranks, where every number, and every site of every resulting field, must equal "
                    "that of the one rank to rounding; heatbath sweeps must keep the links in the group."),
         assumptions=BASE_ASSUME + ["Results which differ by up to 1e-8 (double) or 2e-3 (float) relative to the largest value count as equal; ten to a thousand times more for iterative operations."],
         technique=SCHED + ", results on 2 to 8 ranks against those on one rank",
         note="Random programs, gauge fields, lattice divisions and schedules. The Dirac operators of libraries/dirac use types which no longer exist and cannot be compiled. A search, not a proof.", edits={"ops": "lower"}))

# ---- C18: partitions
PT3 = Variant("part3", "partition.cpp", 3)
PT2 = Variant("part2", "partition.cpp", 2, ["-DNODE_LAYOUT_TRIVIAL"])
PT4 = Variant("part4", "partition.cpp", 4, ["-DELEM=Complex<float>"])
add(Prop("C18", [Task(PT3, weight=2), Task(PT2, weight=2), Task(PT4, weight=1)],
         sched_rule("a job of up to 8 ranks divided into 2 to 4 partitions, each with its own lattice, input file (own, or the common one) and drawn program (site loops with gathers, reductions, broadcasts, "
                    "messages, FFT, field files, output, blocking, long computations, and synchronisations of the partitions), followed by the program of each partition alone; results, files and output must be "
                    "equal, no message or collective may involve two partitions except where asked, random streams must differ; injected in one partition: kills, full disk, open, write and close errors."),
         assumptions=BASE_ASSUME + ["An error or abort in one partition ends the whole job, as MPI_Abort does in common MPI libraries; then only the files finished before are compared."],
         technique=SCHED + ", kills and I/O faults; results of each partition against the partition alone",
         note="Random programs, divisions and schedules. A search, not a proof.", edits={"ops": "lower"}))

# ---- C19: threads
OF3 = Variant("ompf3", "fields.cpp", 3, openmp=True, tsan=True)
OR3 = Variant("ompr3", "reduce.cpp", 3, openmp=True, tsan=True)
OM3 = Variant("ompm3", "minmax.cpp", 3, openmp=True, tsan=True)
OE3 = Variant("ompe3", "elements.cpp", 3, openmp=True, tsan=True)
OS3 = Variant("omps3", "select.cpp", 3, openmp=True, tsan=True)
OG3 = Variant("ompg3", "gauge.cpp", 3, ["-DNCOL=2"], openmp=True, tsan=True)
OB3 = Variant("ompb3", "blocking.cpp", 3, openmp=True, tsan=True)
OC3 = Variant("ompc3", "clusters.cpp", 3, openmp=True, tsan=True)
OT3 = Variant("ompt3", "fft.cpp", 3, openmp=True, tsan=True)
OD3 = Variant("ompd3", "spectral.cpp", 3, openmp=True, tsan=True)
OI3 = Variant("ompi3", "fileio.cpp", 3, ["-DWRITE_BUFFER_SIZE=400"], openmp=True, tsan=True)
ON3 = Variant("ompn3", "random.cpp", 3, openmp=True, tsan=True)
OX3 = Variant("ompx3", "mix.cpp", 3, openmp=True, tsan=True)
OF4 = Variant("ompf4", "fields.cpp", 4, [SBC], openmp=True, tsan=True)
add(Prop("C19", [Task(OF3, weight=2), Task(OR3, weight=2), Task(OM3), Task(OE3), Task(OS3), Task(OG3), Task(OB3), Task(OC3), Task(OT3), Task(OD3), Task(OI3), Task(ON3), Task(OF4), Task(OX3)],
         sched_rule("the programs of C01, C03, C04, C05, C06, C10, C11, C12, C13, C17, C20, C23 and C25 built for OpenMP, 1 to 8 ranks with 1 to 6 threads each; an OpenMP runtime inside the simulator "
                    "lets the seed decide at every synchronisation, and after a drawn number of memory accesses, which thread continues, how work is shared and, in part of the runs, how many threads a region "
                    "gets; the references of those checks decide the results, and a happens-before analysis of all memory accesses reports unordered conflicting ones."),
         assumptions=BASE_ASSUME + ["Threads switch at memory accesses and synchronisations, and every access is seen by all threads at once: effects of weaker memory orderings show only as the data races they need.",
                                    "Data races are not reported for memory which a thread's own stack holds, within cluster labelling and in Polyakov line measurement (loops declared safe_access)."],
         technique=SCHED + " of ranks and OpenMP threads, with preemption at memory accesses and happens-before race detection",
         note="The generated OpenMP loops run as real code, compiled by gcc with accesses instrumented; libgomp is replaced. Random programs, thread counts and schedules. A search, not a proof.", edits={"ops": "lower"}))

#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script only to make the long lines editable)"""
import json, os
L = "libraries/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": [f if f.startswith(("hilapp", "libraries")) else L + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Site loops see coherent neighbours on any rank count, layout and message timing",
  "A program of site loops, shifts, field assignments and element writes leaves in every field exactly the values that one process with one array would compute, whatever the number of ranks, the division of the lattice (even or odd sizes, even or uneven divisions) and the order and delay of messages. "
  "Reading a neighbour never yields a value from before the last write to it or from an unfinished transfer, also when communication was started by hand ahead of its use.",
  ["schedules", "programs", "configurations"], "all programs over fields, all lattice sizes and rank counts the library accepts, all message timings",
  "Tests run a handful of fixed loops on one fixed even lattice with 1 or 4 ranks under the one schedule the host MPI happens to produce; stale or half-arrived halos depend on the program's history of writes and gathers and on timing.",
  ["plumbing/field.h", "plumbing/field_comm.h", "plumbing/lattice.cpp", "hilapp/src/codegen.cpp", "hilapp/src/codegen_cpu.cpp"],
  [("per direction and parity gather status", "libraries/plumbing/field.h mark_changed, is_gathered"), ("start/wait of halo exchange", "libraries/plumbing/field_comm.h start_communication, wait_gather"), ("overlap of computation and communication", "hilapp/src/codegen_cpu.cpp wait loops")],
  ["field contents at every site", "sums over sites"], state=[("gather_status_arr", "what part of the halo is valid, in flight or stale", "libraries/plumbing/field.h field_struct")])

p("C02", "Field communication always completes and never misuses a buffer or a collective",
  "Every program of field operations, reductions, broadcasts, element access and file input/output runs to its end on every rank under every message timing: no deadlock, no lost or left-over message, no collective entered with differing arguments. "
  "No buffer handed to an unfinished transfer is written, read or freed before the transfer has completed.",
  ["schedules", "programs", "configurations"], "all interleavings of the ranks, eager or rendezvous completion of each send, early or late departure from each collective",
  "On one host MPI completes small messages eagerly and nearly in lock step, which hides missing waits, cyclic sends and buffers reused too early.",
  ["plumbing/field_comm.h", "plumbing/com_mpi.cpp", "plumbing/com_mpi.h", "plumbing/lattice.cpp", "plumbing/field_io.h"],
  [("message tags in step on all ranks", "libraries/plumbing/com_mpi.cpp get_next_msg_tag"), ("drop_comms before a field goes away", "libraries/plumbing/field.h clear, mark_changed")],
  ["completion of every rank", "MPI calls of every rank"])

p("C03", "Sum and product reductions give the total over all sites once, on every rank",
  "A sum or product over sites, into a plain variable, a reduction variable (blocking, nonblocking or delayed, also accumulated over several loops) or a reduction vector, equals the total over exactly the selected sites plus the starting value counted once, on every rank when all-reduction is on and on rank 0 otherwise. "
  "The result does not depend on rank count, message timing or when a nonblocking result is read.",
  ["schedules", "programs", "configurations"], "all sequences of set/accumulate/reduce operations, data types, rank counts and timings",
  "Tests reduce a few types once each in a fixed order; errors appear only for particular orders of setting flags, reading, accumulating again, and for completion orders of the nonblocking collective.",
  ["plumbing/reduction.h", "plumbing/reductionvector.h", "plumbing/com_mpi.h", "plumbing/com_mpi.cpp", "hilapp/src/codegen.cpp", "datatypes/extended.h"],
  [("delayed and nonblocking flags", "libraries/plumbing/reduction.h Reduction"), ("double/int reduction helpers", "libraries/plumbing/com_mpi.h reduce_node_sum")],
  ["values read from reduction variables on each rank"])

p("C04", "Minimum and maximum with location are those of the whole lattice",
  "The minimum (maximum) of a field over the selected sites is the smallest (largest) value held at any of those sites, for every value range and data type, and the reported location is a selected site which holds it, the same on every rank.",
  ["inputs", "configurations", "schedules"], "all field contents including all-negative, extreme and tied values, all parities, rank counts and reduction orders",
  "The test uses one field whose extreme has a known sign and position; wrong initial values and rank-local ties need other data.",
  ["plumbing/field.h", "plumbing/field_comm.h", "plumbing/com_mpi.h"], [("local scan then MINLOC/MAXLOC", "Field::minmax")], ["returned value and location on each rank"])

p("C05", "Element, slice and subvolume access addresses the right sites on every rank",
  "Setting, reading or updating single elements, lists of elements, slices, subvolumes and the local data block reaches exactly the named global coordinates and no others, for every lattice division. "
  "All ranks that are promised the value get the same value, and later neighbour reads see what was written.",
  ["inputs", "configurations", "schedules"], "all coordinates, lists with repeats, slices and subvolumes, all lattice divisions and timings",
  "Tests touch a few fixed sites; ownership and ordering of the gathered buffers depend on the division of the lattice and on which ranks own how many of the listed sites.",
  ["plumbing/field.h", "plumbing/field_comm.h", "plumbing/lattice.cpp"], [("gather/scatter of element lists by owning rank", "libraries/plumbing/field_comm.h gather_elements, scatter_elements")], ["returned vectors", "field contents"])

p("C06", "Field files are complete, portable, and I/O errors are never silent",
  "Writing a field (whole, several in one file, a subvolume or a slice; binary or text) produces a file whose content depends only on the field and not on rank count, division, buffer size or the lattice which happens to be active, and reading it back on any rank count gives the same field. "
  "When the operating system reports an error or the file is too short, the program does not carry on as if the operation had succeeded.",
  ["configurations", "fault_sequences", "inputs"], "all rank counts at write and read, all buffer sizes, all single I/O failures (open, write, short write, full disk, close, read error, truncated file)",
  "Tests write and read with the same rank count on a healthy disk and fields much smaller than the buffer.",
  ["plumbing/field_io.h", "plumbing/field_comm.h"], [("open/close status is broadcast and ends the program", "libraries/plumbing/field_io.h open_input_file, close_file")], ["bytes of the file", "field after reading", "exit status"])

p("C07", "Configuration files are self-describing, portable, and rejected when damaged",
  "A gauge configuration (or the configuration of a plaquette field) written on any rank count reads back to the identical field on any other, and a smaller stored lattice is replicated periodically when it fits. "
  "A file that is not a configuration, whose header gives another number of dimensions or another element size (group or precision), does not fit the lattice, or is truncated at any point ends the program with an error on all ranks instead of yielding a gauge field.",
  ["crash_points", "fault_sequences", "configurations"], "all truncation points and header corruptions, all rank counts, all write failures",
  "No test damages a file or changes the lattice between writing and reading.",
  ["plumbing/gaugefield.h", "plumbing/field_io.h"], [("header with magic number, dimensions and element size", "libraries/plumbing/gaugefield.h config_write, config_read")], ["gauge field after reading", "exit status of all ranks"])

p("C08", "A killed run continues from its last complete checkpoint",
  "If a run that writes checkpoints is killed at any moment, a new run in the same directory either continues from a checkpoint that was completely written, with the gauge field, trajectory number and random number seed belonging together, or starts afresh; it never continues from a mixture. "
  "Once a checkpoint has been reported as written, its state is not lost by a later kill.",
  ["crash_points", "schedules", "fault_sequences"], "every point of the run between any two file operations, with torn last writes, and disk errors during checkpointing",
  "There is no test of checkpointing; crash points can only be enumerated under a simulated storage layer.",
  ["tools/checkpoint.h", "plumbing/gaugefield.h", "plumbing/random.cpp"], [("status file and configuration written under temporary names and renamed", "libraries/tools/checkpoint.h checkpoint, restore_checkpoint")], ["state after restart: gauge field, trajectory, random number seed"])

p("C09", "Broadcast and point-to-point transfer deliver the sender's value intact",
  "After a broadcast every rank holds exactly the value of the root (any root rank, any trivially copyable value, string, vector, array or pair of variables), and a value sent to a rank arrives there unchanged, independent of the previous content of the receiving variable and of timing.",
  ["inputs", "schedules", "configurations"], "all roots, sizes including empty, types and rank counts",
  "Tests broadcast a few small values from rank 0.",
  ["plumbing/com_mpi.h", "plumbing/com_mpi.cpp"], [("size first, then content", "libraries/plumbing/com_mpi.h broadcast")], ["received values"])

p("C10", "Site selection collects exactly the selected sites once",
  "Selecting sites (with or without values) inside site loops collects exactly the coordinates the loop selected, each once, with the value attached to it, and the joined result on rank 0 is the union over all ranks in every schedule. "
  "A limit on the number of sites is respected without loss of consistency between counts, coordinates and values.",
  ["programs", "configurations", "schedules"], "all selection patterns, limits, several loops before joining, with and without automatic joining",
  "Tests use a single loop and compare only counts.",
  ["plumbing/site_select.h"], [("per rank list, joined by messages to rank 0", "libraries/plumbing/site_select.h")], ["joined lists on rank 0"])

p("C11", "Cluster finding gives the connected components",
  "Two sites get the same cluster label exactly when they are connected through linked neighbours of the same type, wrapping around the periodic lattice and across rank boundaries, and the reported sizes, count and areas are those of the components. The classification does not depend on rank count or message timing.",
  ["inputs", "configurations", "schedules"], "all site type fields and link fields, all lattice divisions and schedules",
  "The test uses a few regular shapes; label propagation across ranks depends on the shape of the component and the division.",
  ["plumbing/clusters.h"], [("iterated minimum label propagation", "libraries/plumbing/clusters.h find")], ["labels", "sizes"])

p("C12", "The distributed Fourier transform equals the direct sum, and inverts",
  "The Fourier transform of a field in any subset of directions equals the defining sum (to rounding) for every lattice size and rank count, the inverse restores the field times the volume of the transformed directions, real/complex variants agree with the complex one, and reflection maps each coordinate to its mirror.",
  ["configurations", "schedules", "inputs"], "all sizes including odd, all subsets of directions, element types and rank counts, all message timings, repeated transforms reusing plans",
  "Tests transform on one even lattice; the data reshuffle between ranks depends on divisions, and cached plans on the history of transforms.",
  ["plumbing/fft.cpp", "plumbing/fft.h", "plumbing/fft_structs.h", "plumbing/fft_fftw_transform.h"], [("pencil reshuffle between ranks", "libraries/plumbing/fft.h, fft.cpp")], ["field contents"])

p("C13", "Random numbers are reproducible from the seed and differ between ranks",
  "Running the same program with the same seed, lattice and rank count gives identical random numbers in every run and under every message timing; different ranks draw different streams and host-side values promised to be common are equal on all ranks. "
  "Seeding puts the whole generator state, including anything buffered, into a state determined by the seed.",
  ["schedules", "histories", "configurations"], "all seeds including automatic ones, all points of re-seeding, rank counts and timings",
  "Tests draw from a fixed seed once.",
  ["plumbing/random.cpp", "plumbing/random.h"], [("per-rank seed from one broadcast seed", "libraries/plumbing/random.cpp seed_random")], ["drawn numbers on each rank"])

p("C14", "All ranks agree when time is up or a stop signal arrived, and the limit holds",
  "The question whether the run should finish gets the same answer on every rank at each call, whatever the clocks of the ranks show and at whatever moment and on whichever ranks a stop signal arrives. "
  "Once the time limit cannot be met for another interval like the longest seen, or a stop signal has reached rank 0 (where it is documented to be sent), the answer becomes yes no later than the next call and stays so.",
  ["schedules", "fault_sequences", "histories"], "all clock skews and jumps, signal times, time limit strings",
  "Tests cannot set clocks or deliver signals at chosen points.",
  ["plumbing/timing.cpp", "plumbing/initialize.cpp"], [("decision taken on rank 0 and broadcast", "libraries/plumbing/timing.cpp time_to_finish")], ["answers on each rank"])

p("C15", "Input parameters are equal on all ranks and as file and command line say",
  "Reading the parameter file yields on every rank the values in the file (or on the command line, which takes precedence), for every item type; missing keys, bad values, a missing file and lists of the wrong length are reported as documented on every rank together. Ranks never see different values or a different outcome.",
  ["inputs", "configurations", "fault_sequences", "schedules"], "all well-formed and malformed parameter files, command line overrides, rank counts, read errors",
  "Tests read one good file.",
  ["plumbing/input.cpp", "plumbing/input.h", "plumbing/cmdline.cpp"], [("rank 0 parses and broadcasts", "libraries/plumbing/input.cpp")], ["values on each rank", "outcome on each rank"])

p("C16", "The lattice layout is a one-to-one cover of the lattice on every rank",
  "For every lattice size and number of ranks the layout either is refused on all ranks or assigns each global coordinate to exactly one site of one rank, with mappings between coordinates, ranks and site indices inverse to each other and equal on all ranks, even sites before odd ones where promised, and each neighbour table naming the site that holds the neighbouring coordinate. Setting up the layout always ends. A lattice whose sides are powers of two is not refused by a power-of-two number of ranks which leaves two sites per direction to each.",
  ["configurations", "inputs"], "all lattice sizes (odd, prime, small), rank counts, node orderings and dimensions",
  "Tests use few sizes and rank counts; divisions with remainders and second attempts at dividing need others.",
  ["plumbing/lattice.cpp", "plumbing/lattice.h", "plumbing/setup_layout_generic.cpp", "plumbing/map_node_layout.cpp", "plumbing/setup_layout_vector.cpp"], [("greedy division by prime factors", "libraries/plumbing/setup_layout_generic.cpp"), ("block remapping of ranks", "libraries/plumbing/map_node_layout.cpp")], ["coordinates, rank and index of every site on every rank"])

p("C17", "Blocking and switching lattices keeps each field on its own lattice",
  "A field blocked to a coarser lattice holds the values of the original at the corner sites of the blocks, unblocking returns them there and leaves the other sites alone, and after any sequence of switching between lattices each field still belongs to, and reads neighbours on, its own lattice. A lattice can be blocked exactly by the factors which divide its size in every direction.",
  ["programs", "configurations", "schedules"], "all sequences of block, unblock, switch and setup, block factors and lattice divisions",
  "Tests block once by one factor.",
  ["plumbing/lattice.h", "plumbing/lattice.cpp", "plumbing/field.h"], [("list of lattices and their parents", "libraries/plumbing/lattice.cpp block_by_factor, switch_to")], ["field contents", "lattice in use"])

p("C18", "Partitions run as independent simulations",
  "When the ranks are divided into partitions, each partition produces the same results and output as it would alone with that rank count and its own directory, without messages or collectives crossing partitions except where synchronisation is asked for, and with different random seeds. Faults in one partition do not corrupt the data of another.",
  ["schedules", "configurations"], "all partition counts dividing the ranks, all relative speeds of the partitions",
  "No test uses partitions.",
  ["plumbing/com_mpi.cpp", "plumbing/initialize.cpp", "plumbing/globals.h"], [("one communicator per partition", "libraries/plumbing/com_mpi.cpp split_into_partitions")], ["results and files of each partition"])

p("C19", "Threaded site loops do not depend on the number or schedule of threads",
  "With the threaded backend, every site loop and reduction gives the result of the unthreaded backend for any number of threads and any interleaving; two threads never access the same memory unordered, except the field of a loop which the programmer declared safe_access; only the thread which initialized MPI calls it.",
  ["schedules", "programs"], "all thread counts and interleavings",
  "Tests run with the host's thread schedule; a wrong combination of partial results or a shared temporary shows only with several threads.",
  ["hilapp/src/codegen_cpu.cpp", "plumbing/random.cpp", "plumbing/site_select.h", "plumbing/reductionvector.h"], [("generated parallel loops with reduction clauses", "hilapp/src/codegen_cpu.cpp")], ["field contents and reductions", "memory accesses of the threads"])

p("C20", "Boundary conditions are applied exactly at the boundary crossings",
  "With special boundary conditions chosen per field and direction, a neighbour read across the lattice edge gives the value the condition prescribes (periodic: unchanged, antiperiodic: negated), every other read is unaffected, on every division of the lattice, also after the condition, the field or a copy changes.",
  ["programs", "configurations", "schedules"], "all assignments of conditions, programs that change them, lattice divisions and timings",
  "Tests set one condition once.",
  ["plumbing/field.h", "plumbing/field_comm.h", "plumbing/backend_cpu/field_storage_backend.h"], [("negation while packing or in the local halo copy", "libraries/plumbing/field_comm.h gather_comm_elements")], ["field contents"])

p("C21", "An error on any rank ends the whole job with a failure status",
  "When a rank detects an error (a failed check of the library, an uninitialised field, bad input, an I/O error, a failed assertion), the whole job ends with a non-zero status within bounded time, whatever the other ranks are doing; a normal finish ends all ranks with status zero and all output written.",
  ["schedules", "fault_sequences"], "all errors on all subsets of ranks at all points",
  "Tests only cover success.",
  ["plumbing/initialize.cpp", "plumbing/com_mpi.cpp", "plumbing/globals.h"], [("terminate, abort and finishrun", "libraries/plumbing/initialize.cpp, com_mpi.cpp")], ["exit status of every rank", "time to end"])

p("C22", "Vectorised and alternative builds give the plain backend's results",
  "The AVX2 vectorised backend, the sublattice layouts and each documented build option that compiles (no interleaving, node ordering) give the same field contents and exact reductions as the plain backend for every program.",
  ["programs", "configurations", "schedules"], "all programs, lattice sizes the layout accepts, rank counts",
  "Tests run one build at a time on fixed programs.",
  ["plumbing/backend_vector/field_storage_backend.h", "plumbing/backend_vector/lattice_vector.h", "hilapp/src/codegen_avx_new.cpp", "hilapp/src/codegen_cpu.cpp"], [("virtual subnodes and boundary permutations", "libraries/plumbing/backend_vector/lattice_vector.h")], ["field contents"])

p("C23", "Gauge and matter observables do not depend on the rank count",
  "Deterministic gauge-theory operations (plaquette and other actions and their forces, staples, Polyakov loops, Wilson lines, smearing, gradient flow, molecular dynamics, overrelaxation, blocking of links, the conjugate gradient solver) give the same values on any number of ranks and any timing to within rounding, on lattices with even and uneven divisions; heatbath sweeps keep the links in the group, and the solver solves its equation.",
  ["configurations", "schedules"], "all gauge fields, lattice sizes, rank counts and timings",
  "Applications are run by tests on a single configuration, not compared between rank counts.",
  ["gauge/staples.h", "gauge/polyakov.h", "gauge/gradient_flow.h", "gauge/stout_smear.h", "gauge/wilson_plaquette_action.h", "gauge/improved_action.h", "gauge/wilson_line_and_force.h", "dirac/conjugate_gradient.h", "plumbing/gaugefield.h"], [("built on site loops and reductions", "libraries/gauge, libraries/dirac")], ["observables"])

p("C24", "Multicanonical weights stay common to all ranks and survive a restart",
  "At every step of a multicanonical run all ranks take the same accept/reject decisions and get the same weight values and iteration status (all follow from the weight function kept on rank 0), the weight function is changed only by the documented update rule of the chosen method, and a weight file written and read back gives the same weights; a missing weight file, or one that is not of the documented form, is refused on all ranks, and a failed write is not reported as success.",
  ["histories", "schedules", "fault_sequences", "inputs"], "all sequences of order parameter values, parameters, restarts and file faults",
  "No test covers the multicanonical code.",
  ["tools/multicanonical.cpp", "tools/multicanonical.h"], [("rank 0 updates and decides, decisions are broadcast", "libraries/tools/multicanonical.cpp")], ["weights and decisions on each rank", "weight file"])

p("C25", "Spectral densities and binned averages account for every momentum once",
  "Binning a field over momentum shells puts every lattice momentum below the cutoff into exactly one bin, so counts add up to the number of momenta and binned sums to the total, for every lattice, rank count, bin number, maximum and power, also after these settings change.",
  ["inputs", "configurations", "histories"], "all settings and changes of settings, lattice sizes and rank counts",
  "Tests bin once with default settings.",
  ["plumbing/spectraldensity.h"], [("bin index from |k|", "libraries/plumbing/spectraldensity.h")], ["bin counts and sums"])

p("C26", "Memory stays bounded, is used within its bounds and released once",
  "However long a program repeats its work (fields made, copied, moved, cleared and destroyed with communication under way, reductions of every mode, file and configuration I/O, Fourier transforms, blocked lattices, selections, clusters, binning, input files), no rank writes outside the memory it obtained or after releasing it, nothing is released twice, and what a rank holds does not grow from repetition to repetition; an allocation that fails ends the job with a failure status instead of being ignored.",
  ["programs", "histories", "schedules", "fault_sequences"], "all programs, repetitions, lattice sizes, rank counts, message timings and failing allocations",
  "Tests run each operation once, on one schedule, without looking at memory.",
  ["plumbing/field.h", "plumbing/field_comm.h", "plumbing/backend_cpu/field_storage_backend.h", "plumbing/memalloc.cpp", "plumbing/fft.h", "plumbing/fft_fftw_transform.h", "plumbing/field_io.h", "plumbing/reduction.h", "plumbing/reductionvector.h"], [("field and communication buffers", "libraries/plumbing/field.h"), ("work buffers of transforms, I/O and blocking", "libraries/plumbing/fft.h, field_io.h, field_comm.h"), ("checked allocation", "libraries/plumbing/memalloc.cpp")], ["memory written", "memory held by each rank", "exit status"])

# kept for honesty: properties of the code base this family cannot decide
p("N01", "Matrix and complex arithmetic is correct for every input",
  "Operations on complex numbers, vectors, matrices and group elements give the mathematically defined result to rounding for every input.",
  ["inputs"], "all matrices", "Tests use a few matrices.", ["datatypes/matrix.h", "datatypes/cmplx.h", "datatypes/sun_matrix.h"], [("plain functions", "libraries/datatypes")], ["returned values"])
p("N02", "The GPU backends give the plain backend's results",
  "Programs built for CUDA or HIP give the same results as the plain backend.",
  ["programs", "schedules"], "all programs", "Tests need a GPU.", ["plumbing/backend_gpu/defs.h", "hilapp/src/codegen_gpu.cpp"], [("generated kernels", "hilapp/src/codegen_gpu.cpp")], ["field contents"])
p("N03", "The preprocessor rejects site loops it cannot translate faithfully",
  "For every source file the preprocessor either produces code with the meaning of the site loops or reports an error.",
  ["programs", "inputs"], "all source files", "Tests translate a fixed set of sources.", ["hilapp/src/toplevelvisitor.cpp", "hilapp/src/loop_function.cpp"], [("AST checks", "hilapp/src")], ["translated source"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        for fn in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        if len(x["title"]) > 80: print("TOO LONG", x["id"], x["title"])
        f.write(json.dumps(x) + "\n")

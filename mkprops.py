#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here so that the two stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
F, S, M = "impurityModel/ed/finite.py", "impurityModel/ed/spectra.py", "impurityModel/ed/mpi_comm.py"
G, GC = "impurityModel/ed/get_spectra.py", "impurityModel/ed/get_spectra_using_CF.py"
PLOTS = ["impurityModel/plotScripts/plotRIXS.py", "impurityModel/plotScripts/plotSpectra.py"]
TESTS = "The existing tests call these routines on one rank, with one or two fixed inputs; "

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, na=None):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or [], "hook_needed": None},
              "_na": na})


prop("P01", "The distributed Hamiltonian matrix is the operator's matrix on every rank",
     "For any many-body operator, ordered list of product states, number of MPI ranks and construction mode, every rank obtains the same complete matrix, "
     "whose element (i, j) is the exact matrix element of the operator between states i and j. Rank count, message timing and uneven work division never change, "
     "drop or duplicate an element.",
     ["inputs", "schedules", "configurations"], "all operators, bases, modes, rank counts and message schedules",
     TESTS + "nothing varies the number of ranks or the order in which ranks progress.",
     [F], [("each rank fills a slice of the columns, the pieces are gathered", F + ": get_hamiltonian_matrix"), ("division of the columns", F + ": get_job_tasks")])
prop("P02", "All ranks continue with one identical, correct set of low-energy eigenstates",
     "After diagonalisation every rank holds the same energies and the same eigenstates (same phases, same choice inside degenerate levels), even when the eigensolver "
     "would answer differently on different ranks. The energies are the lowest ones of the Hamiltonian, sorted, as many as asked for, and the states are orthonormal "
     "eigenvectors up to the pruning of small weights.",
     ["inputs", "schedules", "configurations"], "all Hamiltonians (degenerate ones included), solver modes, rank counts, schedules and per-rank solver answers",
     TESTS + "a solver that answers differently per process cannot occur in a single-process test.",
     [F], [("solution of one rank distributed to the others", F + ": eigensystem"), ("conversion of vectors to states, pruning", F + ": eigensystem")])
prop("P03", "Active-space growth finds exactly the reachable space, alike on all ranks",
     "Growing a basis from given product states yields exactly the product states that repeated application of the Hamiltonian can reach within the occupation "
     "restrictions, each once, none missing, and with the given ones among them. Serial and distributed growth agree, on every rank and in the same order, also when "
     "stored Hamiltonian rows of earlier calls are reused.",
     ["inputs", "schedules", "histories"], "all operators, restrictions, start states, histories of earlier calls, rank counts and schedules",
     TESTS + "the distributed growth and its interplay with rows left over from earlier calls are not run at all.",
     [F, M], [("frontier exchange and global index", F + ": expand_basis"), ("restrictions applied to generated states", F + ": applyOp")])
prop("P04", "Each Hamiltonian row has one owner rank and work is divided exactly once",
     "After any history of distributed calculations that share one table of Hamiltonian rows, every row lies on exactly one rank, is correct, and every product state of "
     "the current basis has its row. Splitting any list of tasks over any number of ranks gives every task to exactly one rank.",
     ["inputs", "schedules", "histories"], "all histories of expansions and Green's-function calls over one row table, all task lists, all rank counts and schedules",
     TESTS + "ownership across ranks cannot be seen by a single-process test.",
     [F, S], [("owner chosen for every new state", F + ": expand_basis"), ("division of tasks", F + ": get_job_tasks")])
prop("P05", "A Hamiltonian assembled from stored rows is exact, whole or distributed",
     "Assembling the Hamiltonian for a grown basis from stored rows gives exactly the operator's restricted matrix in the order of the returned basis. If only local parts are "
     "returned, their sum over the ranks is that matrix.",
     ["inputs", "schedules", "histories"], "all histories over one row table, modes, rank counts and schedules",
     TESTS + "assembling from rows that are spread over ranks is not run.",
     [F], [("row tables gathered and indexed", F + ": expand_basis_and_hamiltonian, get_hamiltonian_matrix_from_h_dict")])
prop("P06", "Lanczos Green's functions equal the exact resolvent, serial or distributed",
     "The Green's function computed for any normalised state equals the exact resolvent of the restricted Hamiltonian to within the accuracy of the chosen number of Lanczos "
     "steps, on both sides of the real axis. This holds in every parallelisation mode, on any number of ranks, and also when the Krylov space is exhausted early.",
     ["inputs", "schedules", "histories"], "all Hamiltonians, states, meshes, Krylov sizes, valid mode combinations, rank counts and schedules",
     TESTS + "no test compares with an exact resolvent or runs the distributed Lanczos recursion.",
     [S, F], [("Lanczos recursion with distributed matrix-vector product", F + ": get_tridiagonal_krylov_vectors"), ("continued fraction", S + ": getGreen")])
prop("P07", "Spectra are the exact response of each state, operator and energy, in every mode",
     "For any set of states, transition operators and energies, the spectrum returned on every rank is, at its own place in the result, the exact linear response including the norm "
     "of the excited state (zero if the operator annihilates the state). Mode, rank count and schedule make no difference.",
     ["inputs", "schedules", "configurations"], "all Hamiltonians, states, transition operators, restrictions, modes, rank counts (also more ranks than tasks) and schedules",
     TESTS + "the distribution of spectra over ranks and the merging of results is not run.",
     [S], [("operators divided over ranks, results combined", S + ": getSpectra")])
prop("P08", "RIXS maps follow Kramers-Heisenberg for every pair of polarisations",
     "Every element of the RIXS map (state, incoming operator, outgoing operator, photon energy, energy loss) returned on every rank equals the Kramers-Heisenberg amplitude "
     "for exactly that pair of operators. Mode, rank count, schedule and rows provided by the caller make no difference.",
     ["inputs", "schedules", "configurations"], "all Hamiltonians, states, operator pairs, modes, rank counts and schedules",
     TESTS + "RIXS is not tested at all.",
     [S], [("parallelisation over energies and operators, memo of operator applications", S + ": getRIXSmap"), ("intermediate state by an iterative solver", S + ": getRIXSmap")])
prop("P09", "Gathering dictionaries over ranks yields the full union on every rank",
     "After gathering, every rank holds what it held before plus every entry of every rank, unchanged, whatever the sizes (empty ones included), the chunk limit, and the schedule. "
     "Broadcasting in chunks delivers each entry of the root exactly once, in chunks that respect the limit.",
     ["inputs", "schedules"], "all dictionaries per rank, chunk limits, roots, rank counts and schedules",
     TESTS + "with one rank there is nothing to gather, and the default chunk limit of a million entries is never reached.",
     [M], [("size exchange, whole or chunked broadcast from each rank", M + ": allgather_dict, dict_chunks_from_one_MPI_rank")])
prop("P10", "Caches are transparent: reuse, loss or caller edits never change a result",
     "Applying an operator with a memo table, or computing Green's functions, spectra or RIXS maps with a reused table of rows, gives the same result as without it, for any order of earlier queries. "
     "Dropping any part of such a table, or modifying a returned result in place, never changes a later answer.",
     ["inputs", "histories", "schedules"], "all histories of queries, in-place modifications of results and losses of cached entries, per rank",
     TESTS + "results with a memo table that was filled by other queries are not compared with anything.",
     [F, S], [("per-product-state memo", F + ": applyOp"), ("row table handed from call to call", S + ": getSpectra, getRIXSmap, getGreen")])
prop("P11", "Every collective calculation terminates with matched communication",
     "Any sequence of the parallel routines that all ranks call with the same arguments terminates on every rank under any schedule and any MPI buffering, with uneven, little or no work per rank. "
     "No rank enters a collective that another one does not enter, no buffer is mismatched, and no message is left behind.",
     ["programs", "schedules", "inputs"], "all sequences of parallel routine calls, 1-12 ranks, all schedules and buffering choices of MPI",
     TESTS + "a single process cannot deadlock with itself.",
     [F, S, M], [("collectives entered by every rank on the same conditions", ", ".join([F, S, M]))])
prop("P12", "The files written by a full run hold the exact spectra of the given problem",
     "A run of either spectra program terminates successfully on any number of ranks, and its spectra (photoemission, core photoemission, NIXS, XAS, RIXS) and energies equal the exact "
     "thermally averaged response of the impurity problem given by the input files and options. Schedule, clocks, hash seeds and degeneracy choices of the eigensolver do not show in the thermal results.",
     ["inputs", "schedules", "configurations"], "all small impurity problems (Hamiltonian file, radial file, options), rank counts, schedules, stalls, clock jumps, hash seeds and eigensolver choices",
     "The existing end-to-end test runs one input on one rank and compares with stored output; the crystal-field program is not run.",
     [G, GC, S, F], [("program flow, distribution over ranks", G + ": main"), ("all spectra and the averaging", S + ": simulate_spectra")])
prop("P13", "A successful run leaves exactly the complete, consistent result set",
     "After a successful run every output file is complete and new, whatever was in the directory before (longer old results, garbage), written by one process, and nothing else was created or changed. "
     "Text, binary and HDF5 results agree with each other and with the thermal average of the stored single-state spectra, the stored parameters are the ones used, and both plot programs display these data.",
     ["histories", "schedules", "configurations"], "all earlier contents of the directory, inputs, rank counts and schedules",
     "The existing test runs once in a fresh directory and looks at a part of one file; the plot programs are not run.",
     [G, GC, S] + PLOTS, [("one rank writes", S + ": simulate_spectra"), ("parameters and meshes", G + ": main"), ("readers", ", ".join(PLOTS))])
prop("P14", "A run that meets a disk error never reports success with bad results",
     "If an input or output file cannot be opened, a write or close fails, or the disk fills up at any byte, the run ends and either reports failure or has produced the complete correct results. "
     "It never hangs and never reports success with missing, truncated or wrong output.",
     ["fault_sequences", "schedules"], "all sequences of one or two I/O faults (which operation, which byte, which error), rank counts and schedules",
     "No test makes a file operation fail.",
     [S, G, GC], [("files written with errors checked at close", S + ": simulate_spectra"), ("job ended by an error on any rank", M + ": abort_on_error")])
prop("P15", "An error on one rank ends the whole job instead of hanging it",
     "If any single rank of a run fails at any point (exception, out of memory, solver failure, interrupt, closed output, unreadable or damaged input on that rank), the whole job ends and does not report success without "
     "complete correct results. The other ranks are never left waiting.",
     ["fault_sequences", "schedules", "crash_points"], "all ranks, points of failure and kinds of error, 2-6 ranks, all schedules",
     "A single-process test has no other ranks that could be left waiting.",
     [M, G, GC], [("any uncaught error aborts all ranks", M + ": abort_on_error")])
prop("P16", "Results already written survive the death of the job at any instant",
     "If the job is killed at any instant, every spectrum file (text or RIXS binary) that the program had finished writing and moved on from is complete and correct on disk, and a spectra.h5 that can be opened contains no wrong "
     "thermal spectra. Once the writing rank has finished, the whole result set is complete even if other ranks are killed.",
     ["crash_points", "schedules"], "all instants of death (file operations, communication calls, end of the first rank), rank counts and schedules",
     "No test kills a run.",
     [S, G], [("each spectrum is saved and closed before the next one is computed", S + ": simulate_spectra")])
prop("P17", "After crashes, running again in the same directory gives correct results",
     "However many earlier runs in a directory were killed at arbitrary points, left torn files or met a full disk, running the program again there succeeds and leaves the complete correct result set. "
     "Left-over partial files are never mixed into the new results.",
     ["crash_points", "fault_sequences", "histories"], "all sequences of 1-3 failed runs (crash point, torn byte, full disk) followed by an undisturbed run on another number of ranks",
     "No test runs twice in one directory or after a crash.",
     [S, G, GC], [("output files are opened afresh and overwritten", S + ": simulate_spectra; " + G + ": main")])
prop("P18", "A damaged or non-Hermitian Hamiltonian file is never turned into spectra",
     "If the Hamiltonian file is truncated, garbled, or encodes an operator that is not Hermitian or not finite, the run ends on all ranks and reports failure. "
     "An undamaged Hermitian Hamiltonian is accepted.",
     ["fault_sequences", "inputs", "schedules"], "all single damages of the file (flipped bits, zeroed or missing blocks, truncation, dropped or altered matrix elements), rank counts and schedules",
     "No test damages an input file.",
     [F, G, GC], [("Hermiticity check", F + ": assert_hermitian"), ("reading", G + ": read_pickled_file"), ("job ended by an error on any rank", M + ": abort_on_error")])

prop("P19", "The printed report states the exact energies, expectation values and weights",
     "The report a run prints (lowest energy, thermal expectation values at the given temperature, table of states, product-state weights) equals the exact values of the impurity problem "
     "to the printed precision, is complete, and is printed once, on any number of ranks and under any schedule and eigensolver choice.",
     ["inputs", "schedules", "configurations"], "all small impurity problems, temperatures, fields, rank counts, schedules, clock jumps and eigensolver choices",
     "No test looks at the report.",
     [G, GC, F], [("thermal expectation values", F + ": printThermalExpValues"), ("table of states", F + ": printExpValues"), ("weights", G + ": main")])

prop("P20", "Plots of incomplete results show only true data or fail",
     "Given whatever result files a killed run, a full disk or a truncation left, the plot programs end, change no result file, and either report failure or display only data that "
     "the files hold, at their right energies: a partial file is never filled up, shifted or passed over in silence. Complete files are plotted.",
     ["crash_points", "fault_sequences", "inputs"], "all kill points, torn, cut, empty and missing result files, and reads that fail",
     "No test plots anything.",
     PLOTS, [("reading and reshaping of RIXS.bin", PLOTS[0] + ": main"), ("data sets that are there", PLOTS[1] + ": plot_spectra_in_file")])

NA = "A pure function of its arguments: no schedule, clock, I/O, fault or interleaving enters, so there is nothing for a simulator to decide."
R = "impurityModel/ed/product_state_representation.py"
prop("P30", "Conversions between product-state representations are lossless",
     "Converting a product state between its representations (tuple, string, bit array, bytes, integer) and back gives the same state for any number of orbitals.",
     ["inputs"], "all states and lengths", "The tests convert a few states.", [R], [("conversions", R)], na=NA)
prop("P31", "Creation and annihilation operators anticommute",
     "Creation and annihilation of electrons on product states obey the fermionic anticommutation relations with the right sign, and annihilate what they must.",
     ["inputs"], "all states and orbitals", "The tests check a few states.", ["impurityModel/ed/create.py", "impurityModel/ed/remove.py"],
     [("operators on states", "impurityModel/ed/create.py, impurityModel/ed/remove.py")], na=NA)
prop("P32", "Interaction and transition operators have the symmetries of their physics",
     "Coulomb, spin-orbit, field, dipole and NIXS operators built by the library are Hermitian or adjoint to each other where physics says so and conserve the right quantum numbers.",
     ["inputs"], "all parameters", "The tests check a few operators.", [F, S], [("operator builders", F + ", " + S)],
     na=NA + " (Their effect on the results of a full run is covered by P12, which uses independent builders.)")
prop("P33", "Spin-orbital indexing is a bijection", "Every orbital label has exactly one index and the conversion back returns the label.",
     ["inputs"], "all numbers of bath states and labels", "The tests check a few labels.", [F], [("index conversion", F + ": c2i, i2c")], na=NA)
prop("P34", "The starting basis holds exactly the allowed configurations",
     "The starting basis contains each configuration allowed by the occupation options exactly once and no other.",
     ["inputs"], "all occupation options", "The tests check a few options.", [F], [("enumeration", F + ": get_basis")],
     na=NA + " (Its effect on the energies of a full run is covered by P12.)")

NOTE = ("Seeded search over schedules, inputs and faults of the real code in a deterministic simulator (every rank, its MPI traffic, clock, hash seed and file operations under one seed); every failure is minimised "
        "and replayed exactly. Sampling, not proof; trusts numpy/scipy arithmetic, the simulated MPI and the reference model.")

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_na"}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{"property": p["id"], "quick_cmd": f"./check.py {p['id']} --tier quick", "thorough_cmd": f"./check.py {p['id']} --tier thorough",
                    "technique": "deterministic simulation with fault injection (seeded search over schedules, inputs and faults)", "level": "exploration",
                    "level_note": NOTE} for p in P if not p["_na"]],
        "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if p["_na"]],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

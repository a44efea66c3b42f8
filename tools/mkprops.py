#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as one readable source).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "One-shot proving is complete and outputs the true repeated square",
  "For every challenge, supported discriminant size, valid starting element and iteration count (zero included), a one-shot prove call returns exactly the encoding of the starting element squared that many times followed by a proof, 200 bytes in all, and every public verifier accepts that proof for exactly that statement. Proving is deterministic, and a request whose arguments are invalid yields a clean failure, never a proof.",
  ["inputs"], "all challenges x discriminant sizes (multiples of 8 up to 1024) x starting forms x iteration counts, including 0, 1, counts around the parameter-selection boundaries and counts above 10^7 where the multi-block proof layout is used",
  "The tests prove a few fixed challenges at a few iteration counts; edge counts, tiny discriminants, non-generator starts and the multi-block regime are never compared with an independent computation of the output.",
  ["src/prover_slow.h", "src/c_bindings/c_wrapper.cpp", "src/python_bindings/fastvdf.cpp", "src/proof_common.h"],
  [("squaring loop with stored intermediates", "ProveSlow"), ("proof assembly from block digits", "GenerateWesolowski, GetBlock, ApproximateParameters")],
  ["return value of the C prove call", "return value of the Python prove call"])

p("C02", "A single proof is accepted exactly when it satisfies the definition",
  "For every discriminant, starting element, claimed output, proof, iteration count and discriminant size, a simple (depth-0) verification returns true exactly when all inputs decode to valid elements and proof^B * x^(2^T mod B) equals the claimed output with B the hash-prime of the pair; every altered, truncated, extended, swapped or re-signed input that breaks this equation is rejected.",
  ["inputs"], "all byte strings offered as discriminant, start, output+proof blob, with all 64-bit iteration counts; in particular near-misses derived from honest proofs (bit flips, inverses, T+-1, swapped fields, other discriminants, products with small-order elements)",
  "Tests try a handful of corrupted proofs; soundness quantifies over every mutation and needs an independent evaluation of the equation.",
  ["src/verifier.h", "src/proof_common.h", "src/bqfc.c", "src/c_bindings/c_wrapper.cpp"],
  [("equation check", "VerifyWesolowskiProof"), ("length/size gates", "CheckProofOfTimeNWesolowski")],
  ["boolean returned by each verifier entry point"])

p("C03", "Nested proof chains are accepted only when every link and the total add up",
  "An n-segment proof is accepted exactly when its length matches the stated depth, every segment's challenge prime is the hash-prime of that segment's start and derived end, each segment starts where the previous one ended, the segment iteration counts sum to at most the total without wrapping, and the remaining iterations are proven by the final pair. Changing, dropping, duplicating, reordering or merging segments, or shifting iterations between them, makes the proof be rejected unless the result is itself a valid chain.",
  ["inputs"], "all chains of depth 0..64 and all structural and byte-level mutations of them, all stated depths and iteration totals including ones that over- or underflow 64 bits",
  "The tests verify honest chains and a few truncated blobs; accounting errors only show on specially constructed chains that satisfy every local equation.",
  ["src/verifier.h", "src/util.h"],
  [("segment walk from the end", "CheckProofOfTimeNWesolowski, CheckProofOfTimeNWesolowskiCommon"), ("segment equation", "VerifyWesoSegment"), ("big-endian iteration field", "BytesToInt64")],
  ["boolean returned by the n-segment verifiers"])

p("C04", "Verification with a supplied challenge prime agrees with full verification",
  "Extracting the challenge prime from a full proof and then verifying the proof without its output under that prime succeeds exactly when the full proof verifies, and returns the canonical encoding of the output the full proof carried (those very bytes, when it was canonically encoded). With any other prime, or any altered proof, start, iteration count or depth, it reports failure together with an empty output.",
  ["inputs"], "all honest chains of any depth and all mutations of prime, blob, start, iterations and depth",
  "The tests cover a few honest round trips; the equivalence of the two verification routes is a statement about every input.",
  ["src/verifier.h", "src/python_bindings/fastvdf.cpp"],
  [("recomputed output", "CheckProofOfTimeNWesolowskiWithB"), ("prime extraction", "GetBFromProof")],
  ["(bool, bytes) and hex string returned by the Python entry points"])

p("C05", "Discriminant derivation is a fixed function of seed and size",
  "For every non-empty seed and every size that is a positive multiple of 8 up to 1024, the derived discriminant is the negative of the first prime with top bit set and congruent 7 mod 8 in the specified SHA-256 expansion of the seed, identical through every surface; every other size, the empty seed, and a seed so short that its expansion cycles without containing a prime are refused without writing output.",
  ["inputs"], "all seeds (any length, including seeds whose counter increment carries or wraps) and all integer sizes",
  "The tests pin a few vectors with 32-byte seeds; carries, odd seed lengths, small sizes and the refusal of every other size are unbounded.",
  ["src/create_discriminant.h", "src/proof_common.h", "src/c_bindings/c_wrapper.cpp", "src/python_bindings/fastvdf.cpp"],
  [("argument validation", "CreateDiscriminant"), ("seed expansion and candidate search", "HashPrime")],
  ["bytes written by the C call", "string returned by the Python call"])

p("C06", "Compressed elements round-trip and have one canonical encoding",
  "Every reduced element of every supported discriminant encodes to exactly 100 bytes that decode back to the same element in both modes. Strict decoding accepts, apart from the two flagged special elements, exactly one byte string per element; lenient decoding accepts only strings that decode to a valid element of that discriminant; everything else is refused.",
  ["inputs"], "all reduced forms of all discriminants up to 1024 bits (including ambiguous forms, forms with gcd>1 in compression, both signs, a=|b|) and all 100-byte strings near valid encodings",
  "The tests check a few vectors and the inflated-b0 case; round trip and uniqueness are for all forms and all byte strings.",
  ["src/bqfc.c", "src/proof_common.h", "src/xgcd_partial.c"],
  [("compression by partial xgcd", "bqfc_compr"), ("decompression", "bqfc_decompr"), ("canonical check", "bqfc_verify_canon")],
  ["encoded bytes", "decoded (a, b) or refusal"])

p("C07", "Hostile inputs are refused without memory errors, crashes or hangs",
  "For every byte content and length of discriminant, seed, starting element, proof blob, iteration count, size and depth passed through the documented entry points, the call returns a value or raises an ordinary error: no out-of-bounds or uninitialised access, no undefined behaviour, no process abort, no unbounded loop.",
  ["inputs"], "all argument values of the public C and Python entry points, including short, long, empty, negative, zero, non-numeric and out-of-range ones",
  "Tests exercise well-formed inputs and a few malformed ones without sanitizers; memory safety quantifies over all inputs.",
  ["src/verifier.h", "src/bqfc.c", "src/proof_common.h", "src/ClassGroup.h", "src/Reducer.h", "src/nucomp.h", "src/integer_common.h", "src/python_bindings/fastvdf.cpp", "src/c_bindings/c_wrapper.cpp"],
  [("length and range gates", "CheckProofOfTimeNWesolowski, IsDiscriminantInRange, bqfc_deserialize"), ("exception boundary", "c_wrapper.cpp")],
  ["sanitizer reports", "exit status", "termination"])

p("C08", "Class-group composition, squaring, reduction and powering are exact",
  "For every negative discriminant and all valid forms, the composition, squaring, power and reduction routines return a form of the same discriminant equivalent to the mathematically defined result, reduction returns the unique reduced representative, the identity and inverse laws hold, and equal elements compare equal after reduction.",
  ["inputs"], "all discriminants (7 mod 8 primes of any size up to 2048 bits, also other residues where supported), all pairs of forms including equal, inverse, identity, ambiguous and unreduced ones, all exponents",
  "The tests check end-to-end proofs on random elements; special operand relations and sizes that exercise each branch of the algorithms are unbounded.",
  ["src/nucomp.h", "src/Reducer.h", "src/ClassGroup.h", "src/integer_common.h", "src/proof_common.h", "src/vdf_original.h", "src/vdf_new.h"],
  [("NUCOMP / NUDUPL", "nucomp_form, nudupl_form"), ("fast reduction", "Reducer::run"), ("plain reduction", "form::reduce"), ("power ladder", "FastPowFormNucomp")],
  ["(a, b, c) of each result"])

p("C09", "The accelerated squaring loop computes exactly the same sequence",
  "Whatever kernel variant the machine selects (baseline, AVX2, AVX-512), and whatever happens inside it (early exit, oversize intermediate, detected corruption, helper-thread delay), the squaring loop reports every iteration number once, in order (only a batch in which corruption was detected is reported over again, in order, from its start), with a form equivalent to the mathematically defined square of its predecessor, and publishes a progress count that never passes what was reported.",
  ["inputs", "configurations", "schedules"], "all discriminants of the sizes the kernels accept and those they must decline, all starting forms, all kernel selections, all relative timings of the two helper threads",
  "Tests run the loop on one or two discriminants with the machine's default kernel and only check final proofs.",
  ["src/vdf.h", "src/vdf_fast.h", "src/threading.h", "src/gcd_128.h", "src/gcd_base_continued_fractions.h", "src/gcd_unsigned.h", "src/asm_main.h", "src/asm_avx512_ifma.h", "src/avx512_integer.h", "src/parameters.h"],
  [("batching and fallback", "repeated_square"), ("phased two-thread pipeline", "square_state_type, repeated_square_fast"), ("generated assembly", "compile_asm.cpp")],
  ["callback events (iteration, form)", "published progress counter"],
  None, [("progress", "iterations completed", "WesolowskiCallback::iterations")])

p("C10", "Stored intermediate values are the right element at the right position",
  "For every iteration the proving stages may ask for, the value stored by the squaring loop or by the background recomputation pipeline for that iteration is the starting element squared that many times, never a stale, shifted or overwritten one, as long as it is within the retained window.",
  ["inputs", "histories", "schedules"], "all iteration counts, segment counts, densities (including the one-way density switch at any iteration), machine modes (direct storing and background recomputation)",
  "Tests only see proofs that happen to use a few positions; index arithmetic errors at window, bucket and switch boundaries need all positions compared.",
  ["src/callback.h", "src/fast_storage.h", "src/vdf.h"],
  [("position arithmetic", "FastAlgorithmCallback::GetPosition, TwoWesolowskiCallback::GetPositionFromSnapshot, OneWesolowskiCallback::OnIteration"), ("background recomputation", "FastStorage")],
  ["stored forms read back through the prover-facing accessors"])

p("C11", "Every timelord session request is answered once with a verifying proof",
  "In each session type, for every well-formed request sequence, the client answers every admissible iteration request exactly once while the session lasts, the reply echoes that iteration count and carries a proof that an independent verifier accepts for the session's discriminant and starting element, replies are never interleaved or corrupted, nothing else is answered, and a stop request ends the session with the stop/acknowledge handshake and process exit. Admissible means: in a one-weso session the first request; in an n-weso session every positive request message, repeats included; in a two-weso session every distinct positive request below the session's iteration limit, and once a hundred have been accepted, only requests smaller than all outstanding ones, each displacing the largest.",
  ["histories", "schedules", "inputs"], "all session types, discriminants, starting elements, request multisets in any order and timing (duplicates, out of order, bursts, already passed iterations, over a hundred outstanding), stop at any moment",
  "No existing test runs the client; request orderings and stop points are unbounded.",
  ["src/vdf_client.cpp", "src/vdf_client_session.h", "src/vdf.h", "src/provers.h"],
  [("session loops", "SessionOneWeso, SessionTwoWeso, SessionFastAlgorithm"), ("reply framing", "WriteProof"), ("stop handshake", "FinishSession")],
  ["bytes exchanged on the socket", "process exit status"], None)

p("C12", "A malformed or vanishing session peer never corrupts or kills the client",
  "For every byte sequence a peer can send and every point at which it can disconnect, the client process ends by itself with an ordinary exit, without memory errors, aborts, or threads left spinning, and it never emits a proof reply for a request the peer did not make.",
  ["inputs", "fault_sequences"], "all header values, sizes, digits, truncations and disconnect points in each phase of each session type",
  "The unit tests cover header parsing only; disconnects while worker threads run are never exercised.",
  ["src/vdf_client.cpp", "src/vdf_client_session.h"],
  [("field validation", "InitSession, ReadIteration"), ("error paths", "Session* catch blocks")],
  ["exit status", "sanitizer reports", "bytes sent"])

p("C13", "Continuous proving yields valid proofs for any requests and schedule",
  "While the squaring loop runs, every requested positive iteration, whenever and from however many threads it is asked for and in whatever order segment provers start, pause, resume and finish, gets a proof for exactly that iteration whose output is the true repeated square and which the n-segment verifier accepts with at most 64 segments; this holds both with direct storing and with background recomputation.",
  ["schedules", "histories", "inputs"], "all interleavings of squaring loop, event loop, segment provers (1..n threads) and requesters; all request iterations and arrival times",
  "The prover test uses one fixed pattern of requests and prints rather than judges; pausing and out-of-order completion depend on scheduling.",
  ["src/vdf.h", "src/provers.h", "src/fast_storage.h", "src/callback.h"],
  [("segment scheduling and assembly", "ProverManager"), ("pause/resume", "InterruptableProver"), ("recomputation", "FastStorage")],
  ["proof returned per request"], "optional schedule perturbation at prover steps")

p("C14", "Two-level proving is valid for every iteration, across the density switch",
  "Every two-level proof request that is not stopped, alone or concurrent with others, returns a depth-2 proof for exactly the requested iteration that the n-segment verifier accepts and whose output is the true repeated square, whether the iteration lies before, at or after the point where stored values become sparser; the squaring loop ends at its documented maximum instead of overrunning its storage.",
  ["inputs", "schedules", "histories"], "all iteration counts (not only multiples of 100), all splits, requests issued before or after the iterations are reached, several concurrent requests, counts around and beyond the density switch",
  "The test proves fixed counts below the switch; the switch lies at 91 million iterations and is never reached.",
  ["src/vdf.h", "src/provers.h", "src/callback.h"],
  [("recursive split", "ProveTwoWeso"), ("density switch", "IncreaseConstants, repeated_square"), ("block layout choice", "TwoWesolowskiProver")],
  ["proof returned per request"], "scaled-down density switch")

p("C15", "Concurrent proving is free of data races",
  "Running the squaring loop together with any mix of provers, requesters, the background storage pipeline, stop requests and teardown performs no unsynchronised conflicting memory accesses.",
  ["schedules"], "all interleavings of the threads of each proving mode, including start-up, stop at any time and teardown",
  "Unit tests do not detect races; a race is visible only under particular schedules or with a race detector on the full stack.",
  ["src/vdf.h", "src/provers.h", "src/callback.h", "src/fast_storage.h", "src/prover_impl.hpp", "src/vdf_client.cpp"],
  [("locks and atomics", "ProverManager, FastStorage, TwoWesolowskiCallback, InterruptableProver")],
  ["ThreadSanitizer reports"])

p("C16", "Stopping is honoured promptly, cleanly and only when asked",
  "A cancellation request (removal of the shutdown file, a stop flag, a stopped prover or session) makes the affected call return within a bounded amount of further work, without a partial proof, a leak, a deadlock or an effect on other requests; without such a request the call runs to completion.",
  ["fault_sequences", "schedules"], "all moments at which cancellation can arrive in one-shot, simple, two-level and continuous proving, including before the start, during proof generation and while paused",
  "Only the cancelled-before-start case of the one-shot prover is tested.",
  ["src/prover_slow.h", "src/vdf.h", "src/provers.h", "src/prover_impl.hpp"],
  [("shutdown-file poll", "ProveSlow"), ("stop flags", "PerformExtraStep, ProveOneWesolowski, ProveTwoWeso, ProverManager::stop")],
  ["return values", "work done after the request", "thread termination"])

p("C17", "Hash-to-prime follows its specification and never yields a composite",
  "For every input the challenge prime equals the first candidate of the specified SHA-256 counter expansion, with the specified bits forced, that is prime; it has exactly the specified length, and the primality test accepts every prime and rejects every composite tried, including pseudoprimes to common bases.",
  ["inputs"], "all inputs to the challenge hash, all candidate integers (strong pseudoprimes, Carmichael numbers, perfect squares, prime powers, products of close primes, small numbers)",
  "A few vectors cannot settle a primality test; the dangerous inputs are rare composites.",
  ["src/proof_common.h", "src/primetest.h", "src/pprods.h", "src/integer_common.h", "src/picosha2.h"],
  [("candidate expansion", "HashPrime"), ("BPSW test with trial division", "is_prime_bpsw / primetest.h")],
  ["returned prime", "primality verdict"])

p("C18", "The native API is re-entrant and leaves no memory behind",
  "Any interleaving of create, prove, verify and release calls from any number of threads gives each caller the result it would get alone, never modifies caller buffers, writes only within the result buffer, and releases all memory once every returned array has been released, including on failing calls.",
  ["schedules", "histories"], "all call sequences and thread interleavings over the C entry points, valid and invalid arguments mixed",
  "Tests call the API sequentially and never measure leaks or buffer integrity.",
  ["src/c_bindings/c_wrapper.cpp", "src/c_bindings/c_wrapper.h", "src/verifier.h", "src/prover_slow.h"],
  [("owned result arrays", "prove_wrapper, delete_byte_array"), ("no shared mutable state", "verifier.h, proof_common.h")],
  ["return values per thread", "LeakSanitizer / ThreadSanitizer / AddressSanitizer reports"])

p("C19", "All language surfaces give the same answers",
  "For identical arguments the C, C++, Python and Rust entry points derive the same discriminant, return the same proof bytes and the same verification verdicts, and map every internal failure to that surface's documented failure form.",
  ["inputs"], "all argument tuples expressible on two or more surfaces, valid and invalid",
  "Each surface has its own few vectors; agreement is a relation over all inputs.",
  ["src/python_bindings/fastvdf.cpp", "src/c_bindings/c_wrapper.cpp", "rust_bindings/src/lib.rs", "chiavdf/__init__.py"],
  [("bindings", "fastvdf.cpp, c_wrapper.cpp, lib.rs")],
  ["return values of each surface"])

p("C20", "The hardware proof engine proves every request from any value stream",
  "For every stream of (iteration, value) samples from the device, however irregular, sparse, repeated, stalled or damaged, and every set of requested iterations in any order, each request at or below the last good sample is eventually returned with a chain that the n-segment verifier accepts for that iteration and nothing else is returned; a sample that is no form of the discriminant, has a non-positive leading coefficient or lies past the target is refused and reported as bad and never makes its way into a proof, and after a run of bad or repeated samples the engine asks for a restart at its last good value; a session whose discriminant is not a negative prime of the right residue or whose starting form is invalid is refused; the worker threads share the session without data races.",
  ["inputs", "histories", "schedules"], "all sample streams (gaps, duplicates, corrupted samples), all request sets including ones inserted out of order, all worker-thread counts and completion orders",
  "No test links the hardware proof engine.",
  ["src/hw/hw_proof.cpp", "src/hw/hw_proof.hpp", "src/prover_parallel.hpp", "src/prover_impl.hpp"],
  [("value intake and validation", "hw_proof_add_value"), ("checkpoint segmentation", "hw_proof_process_req"), ("parallel prover", "hw_compute_proof, ParallelProver")],
  ["retrieved proof chains", "return codes of the intake"])

p("C21", "Hardware register encoding round-trips and the clock table is sound",
  "Every value in the device's number format that is written is read back unchanged from the registers, signed and redundant representations included, job and status fields are placed and recovered exactly, and a requested frequency programs the slowest listed setting that is not below it with divider values that produce that frequency; a frequency, table entry, board voltage or temperature alarm outside its range, or a device that does not answer, is refused and reported, the board voltage is set to within one step of the request, and frames on the wire carry the right command, address and length.",
  ["inputs"], "all integers in the supported widths, all register contents, all job parameters, all requested frequencies",
  "No test touches the hardware driver.",
  ["src/hw/vdf_driver.cpp", "src/hw/vdf_driver.hpp", "src/hw/pll_freqs.cpp", "src/hw/pll_freqs.hpp", "src/hw/emu_funcs.cpp"],
  [("coefficient codec", "VdfDriver::write_bytes, read_bytes"), ("PLL selection", "VdfDriver::SetPLLFrequency")],
  ["register bytes", "decoded values", "selected divider settings"])

p("C22", "The hardware timelord client survives faulty devices and peers",
  "Against a device whose status reads may fail, be truncated, repeat or carry damaged coefficients, the hardware client answers every reachable request of each of up to three concurrent sessions, as often as it was made (a repeat of a request still waiting may be merged with it) and no other, each with a proof that an independent verifier accepts; it answers a stop request with STOP and closes; whatever a peer sends, omits or does to its connection, and however its transfers are split, the client neither dies nor disturbs its other sessions and connects again; on SIGINT or SIGTERM it stops its sessions and exits with status 0; a command-line option outside its documented range is refused before the device is touched.",
  ["fault_sequences", "inputs", "histories"], "all device error sequences, request sequences and peer byte streams",
  "No test runs the hardware client or its emulator.",
  ["src/hw/hw_vdf_client.cpp", "src/hw/hw_interface.cpp", "src/hw/emu_runner.cpp", "src/hw/hw_proof.cpp"],
  [("session state machine", "hw_vdf_client.cpp"), ("error recovery", "handle_iter, hw_proof_last_good_form")],
  ["socket bytes", "exit status", "sanitizer reports"])

p("C23", "Low-level gcd kernels honour their contracts on all operands",
  "For all operands in range, the partial extended gcd returns two consecutive remainders of the Euclidean sequence of its operands, the smaller one not above the bound, with cofactors whose cross product with the remainders is plus or minus the original operand, and every gcd kernel variant returns matrices of bounded entries and determinant plus or minus one whose application yields the reported smaller operands.",
  ["inputs", "configurations"], "all operand pairs and bounds (equal, zero, huge quotient, one limb, different lengths), all kernel variants",
  "The kernels are exercised only through random squarings, where rare quotient patterns practically never occur.",
  ["src/xgcd_partial.c", "src/gcd_base_continued_fractions.h", "src/gcd_128.h", "src/gcd_unsigned.h", "src/asm_gcd_base_continued_fractions.h", "src/asm_gcd_128.h", "src/asm_gcd_unsigned.h"],
  [("Lehmer steps", "mpz_xgcd_partial"), ("generated kernels", "gcd_base_continued_fraction, gcd_128, gcd_unsigned")],
  ["returned remainders, cofactors, matrices"])

p("C24", "Handled signals never disturb the computation",
  "When the host program handles signals (timers, profilers, child notifications) that are delivered to any thread at any moment, while it computes greatest common divisors in the generated assembly or in C++, squares, proves, verifies or waits, every operation finishes with exactly the result it gives undisturbed: nothing crashes, hangs, fails or changes its answer, and a handler that raises in Python leaves later calls unaffected.",
  ["schedules", "fault_sequences"], "all instants at which a handled signal can interrupt any thread, including every instruction of the assembly kernels, and all rates of delivery",
  "No test handles a signal; whether the state of an interrupted kernel survives depends on the one instruction at which the signal lands.",
  ["src/asm_vm.h", "src/asm_types.h", "src/asm_main.h", "src/vdf_fast.h", "src/prover_slow.h"],
  [("frame and scratch area of the assembly functions", "asm_function, reg_spill"), ("calls into the kernels", "gcd_128, gcd_unsigned, gcd_base_continued_fraction")],
  ["values reported by the squaring loop", "outputs of the gcd kernels", "return values of the C, C++ and Python entry points"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))

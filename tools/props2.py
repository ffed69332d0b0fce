scheme("M01", "M02", "Marlin", "Tests prove one circuit with one public input count.", ["marlin/src/ahp/indexer.rs", "marlin/src/ahp/prover.rs", "marlin/src/ahp/arithmetic.rs", "marlin/src/lib.rs", "marlin/src/ahp/verifier.rs"])
prop("M03", "Polynomial commitments open only to the committed evaluation",
 "For every polynomial up to the supported degree, degree bound, hiding bound and set of evaluation points, honestly produced commitments and openings verify for the true evaluations. They are rejected for any other evaluation, point, commitment or degree bound, and hiding commitments blind the commitment.",
 ["inputs"], "all coefficient vectors over a small value set and all degrees up to the bound, all degree bounds, all single alterations of values, points, commitments and proof parts",
 "Tests exercise the commitment scheme only through one circuit; constant, zero and maximal-degree polynomials never occur.",
 ["marlin/src/pc/mod.rs", "marlin/src/pc/kzg10.rs"], [("commit, open, check", "marlin/src/pc")], ["verdict of the opening check"],
 "bounded-exhaustive enumeration of polynomials, bounds and forgeries over toy algebra with visible exponents", TOY)

prop("P01", "Plonk: honest proofs of satisfied circuits always verify",
 "For every circuit built by any sequence of composer operations whose variable values satisfy the gates, setup, key generation and proving succeed and the verifier accepts with the circuit's public inputs. This holds for every number of gates, public inputs and copy constraints, including constants, equalities, aliased wires and zero values.",
 ["histories", "inputs"], "every composer operation sequence up to the depth bound over small wire sets; size sweep across domain-size boundaries",
 "Tests build one circuit; permutation and padding errors depend on which wires are shared and where.",
 ["plonk/src/composer/mod.rs", "plonk/src/ahp/prover.rs", "plonk/src/lib.rs"], [("gate selectors and permutation", "plonk/src/composer"), ("quotient and openings", "plonk/src/ahp")], ["verifier verdict"],
 "exhaustive exploration of composer operation histories on the real prover/verifier over toy algebra", TOY)
prop("P02", "Plonk: no accepted proof for violated gates, copies or public inputs",
 "If the values assigned in a circuit violate any gate, equality, constant or public input, the proof made from them is rejected. An honest proof is rejected when presented with any other public inputs, another circuit's key, or with any part altered.",
 ["histories", "fault_sequences"], "every single-value corruption of every enumerated circuit, all single public-input changes and proof mutations",
 "Only adversarial assignments can show that a gate or copy constraint is actually enforced.",
 ["plonk/src/composer/permutation.rs", "plonk/src/ahp/verifier.rs", "plonk/src/lib.rs"], [("permutation argument", "plonk/src/composer/permutation.rs"), ("equality check at the evaluation point", "plonk/src/ahp/verifier.rs")], ["verifier verdict"],
 "exhaustive enumeration of corruptions and proof mutations over toy algebra", TOY + " Soundness is decided against the enumerated adversaries.")

prop("A01", "Vector commitment: every update history keeps proofs valid",
 "For every vector length and every sequence of position updates, the updated commitment equals the commitment of the updated vector, updated position proofs verify, and aggregated proofs verify for every subset of positions. Update keys from key generation verify for every position.",
 ["histories", "inputs"], "all update histories up to the depth bound, all lengths, all pairs (proved position, updated position), all non-empty subsets",
 "Tests apply one update; interactions between the proved position, the updated position and earlier updates need all histories.",
 ["asvc/src/lib.rs"], [("commit/update/aggregate", "asvc/src/lib.rs")], ["commitments, proofs, verification verdicts"],
 "explicit-state exploration of update histories against a plain-vector model", TOY)
prop("A02", "Vector commitment: positions bind their values",
 "A position proof, single or aggregated, never verifies for a value different from the committed one at that position, for other positions, for another commitment, for mismatched numbers of positions and values, or when altered. Altered update keys are rejected.",
 ["inputs", "fault_sequences"], "all vectors over a small alphabet, all subsets, all wrong values and positions, all single alterations of proofs and keys",
 "Binding quantifies over all wrong values, positions and subsets.",
 ["asvc/src/lib.rs"], [("verification equations", "asvc/src/lib.rs")], ["verification verdicts"],
 "exhaustive enumeration of claims against the committed vector over toy algebra", TOY)

prop("C01", "Curve25519 wrapper implements the group and scalar field faithfully",
 "Group addition, negation, doubling, scalar multiplication, multi-scalar multiplication and scalar-field arithmetic obey the group and field laws and agree with the standard curve. Encodings of points and scalars round-trip and non-canonical or off-curve encodings are rejected.",
 ["inputs", "histories"], "all operation histories over a boundary-value pool up to the depth bound, all small scalars and scalars around the group order, all single-byte alterations of encodings",
 "The wrapper has no tests of its own; boundary scalars and encodings are where conversions go wrong.",
 ["curve25519/src/group.rs"], [("wrapper types", "curve25519/src")], ["results of group/field operations and encodings"],
 "exhaustive exploration of operation histories against an integer model of the group", "Pool and depth bounded; curve25519-dalek trusted as the underlying group.")

scheme("B01", "B02", "Bulletproofs", "Tests prove one or two circuits.", ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs"],
  extra_s=" The inner-product argument inside accepts only vectors matching the commitment and product it claims.")
scheme("S01", "S02", "Spartan SNARK", "Tests prove one circuit.", ["spartan/src/lib.rs", "spartan/src/prover.rs", "spartan/src/spark.rs", "spartan/src/verify.rs"])
scheme("S03", "S04", "Spartan NIZK", "Tests prove one circuit.", ["spartan/src/lib.rs", "spartan/src/prover.rs", "spartan/src/verify.rs"])

prop("L01", "Libra: honest layered-circuit proofs verify with the right outputs",
 "For every layered circuit of additions and multiplications and every input, the plain and zero-knowledge provers report exactly the circuit's outputs and the verifier accepts, whatever the layer widths, depth, fan-out and numbers of public and secret inputs.",
 ["programs", "inputs"], "all layered circuits up to a bound on width and depth, shaped size sweep, small inputs",
 "Tests use one circuit shape; padding and index widths depend on the shape.",
 ["libra/src/circuit.rs", "libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs"], [("layer sumcheck", "libra/src")], ["outputs and verifier verdict"],
 "bounded-exhaustive enumeration of circuits and inputs on the real prover/verifier over toy algebra", TOY)
prop("L02", "Libra: wrong outputs, inputs or circuits are never accepted",
 "The plain and zero-knowledge verifiers reject every claim of an output the circuit does not produce on the given inputs, every honest proof presented for other outputs, other public inputs or a different circuit, and every altered proof.",
 ["programs", "fault_sequences"], "all single changes of outputs, inputs and gates; all single-position proof mutations; scheme-specific cheating provers",
 "Soundness quantifies over adversarial proofs.",
 ["libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs"], [("verifier checks", "libra/src")], ["verifier verdict"],
 "exhaustive enumeration of a bounded adversary alphabet over toy algebra", TOY + " Soundness is decided against the enumerated adversaries.")
prop("H01", "Hyrax: honest data-parallel proofs verify with the right outputs",
 "For every layered circuit, number of data-parallel copies and inputs, the prover reports exactly the circuit's outputs of every copy and the verifier accepts.",
 ["programs", "inputs"], "layered circuits up to a bound on width and depth, all numbers of copies up to the bound, small inputs",
 "Tests use one circuit and copy count.",
 ["hyrax/src/circuit.rs", "hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs"], [("data-parallel sumcheck", "hyrax/src")], ["outputs and verifier verdict"],
 "bounded-exhaustive enumeration of circuits, copies and inputs over toy algebra", TOY)
prop("H02", "Hyrax: wrong outputs, inputs or circuits are never accepted",
 "The verifier rejects every claim of outputs the circuit does not produce, every honest proof presented for other outputs, other public inputs or a different circuit, and every altered proof.",
 ["programs", "fault_sequences"], "all single changes of outputs, inputs and gates; all single-position proof mutations; cheating provers that fake a claim inside the protocol",
 "Soundness quantifies over adversarial proofs.",
 ["hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/commitment.rs"], [("verifier checks", "hyrax/src")], ["verifier verdict"],
 "exhaustive enumeration of a bounded adversary alphabet over toy algebra", TOY + " Soundness is decided against the enumerated adversaries.")
prop("K01", "Zero-knowledge proofs reveal nothing the prover's coins cannot cover",
 "In every proof system that claims zero knowledge (Groth16, Marlin, Bulletproofs, both Spartan variants, zero-knowledge Libra, Hyrax, Plonk), for fixed verifier challenges, replacing the witness by another one for the same public inputs or outputs moves the proof only in ways the prover's private random coins could have moved it as well: every committed or opened value that depends on the witness is blinded by a fresh coin not used up elsewhere. The verifier accepts honest proofs whatever values the coins take, including zero, one, the largest field element and repeated values.",
 ["inputs"], "all relations and layered circuits of the bound that leave witness freedom; all witness directions over {-1,0,1}; every coin draw of the prover varied individually; every draw and pair of draws set to extreme values",
 "A constant, missing or reused blinding value produces proofs that verify in every test; a coin value that breaks the prover comes up with negligible probability.",
 ["bulletproofs/src/arithmetic_circuit.rs", "spartan/src/prover.rs", "libra/src/sumcheck.rs", "libra/src/libra_zk_linear_gkr.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/hyrax_proof.rs", "marlin/src/ahp/prover.rs", "groth16/src/prover.rs", "plonk/src/ahp/prover.rs"], [("blinding draws", "provers")], ["proof words under controlled coins and scripted challenges"],
 "exhaustive enumeration of witness directions and single coin variations with exact rank comparison of their effects on every proof word; exhaustive extreme-coin enumeration", TOY + " Groth16's setup randomness and all challenges are fixed, the commitments show their exponents, so this decides perfect hiding to first order at the explored points.")
prop("F01", "Fiat-Shamir challenges bind the statement and everything sent before",
 "In every non-interactive proof system, each value of the statement (relation, parameters, public inputs, outputs) and of the proof influences the first challenge drawn after the point where it is fixed and all later ones; two different relations never share a hash. Nothing the prover sends can be chosen after the challenge meant to bind it, and every challenge of the protocol takes part in the verdict with all its entropy: none is dropped, merged with another or cut short.",
 ["inputs", "histories"], "every word of statement and proof of every enumerated proof, changed one at a time in three ways; every byte of every challenge changed at the verifier alone",
 "A value that is absorbed too late or not at all changes no honest run, so all tests pass while forgeries become possible.",
 ["spartan/src/verify.rs", "spartan/src/r1cs.rs", "bulletproofs/src/arithmetic_circuit.rs", "libra/src/libra_zk_linear_gkr.rs", "hyrax/src/hyrax_proof.rs", "marlin/src/fs_rng.rs", "plonk/src/rng.rs"], [("transcripts", "append/challenge calls of provers and verifiers")], ["sequence of absorbed values and challenges of the real verifier"],
 "exhaustive single-value variation of messages and challenges with comparison against protocol tables; pairwise comparison of relation hashes", TOY)
prop("V01", "Verifiers reject malformed proofs instead of crashing",
 "Whatever bytes a proof decodes from and whatever public inputs accompany it, every verifier terminates with accept or reject: proofs with missing, extra or altered components and public inputs of the wrong length never crash it.",
 ["inputs", "fault_sequences"], "all single-position mutations and all list-length changes of honest proofs, all public-input length changes, for every scheme",
 "Tests only feed well-formed proofs.",
 ["marlin/src/lib.rs", "plonk/src/lib.rs", "bulletproofs/src/arithmetic_circuit.rs", "spartan/src/verify.rs", "libra/src/libra_zk_linear_gkr.rs", "hyrax/src/hyrax_proof.rs"], [("verifier input handling", "verifier entry points")], ["normal return versus crash"],
 "exhaustive enumeration of single-position and length mutations of proofs", TOY)
prop("Z01", "Keys, proofs and parameters survive serialization unchanged",
 "Encoding then decoding any key, parameter set, commitment or proof gives an object with the same encoding, whose declared size matches and which verifies exactly like the original. Truncated encodings are rejected, an altered encoding never decodes to the original object, and two different objects have different encodings.",
 ["inputs"], "keys and proofs of every enumerated circuit, every truncation point",
 "Tests rarely serialize keys; a skipped or reordered field is noticed only when the decoded key is used.",
 ["groth16/src/lib.rs", "marlin/src/data_structures.rs", "plonk/src/data_structures.rs", "spartan/src/data_structure.rs", "bulletproofs/src/arithmetic_circuit.rs"], [("serialization impls", "data structure files")], ["bytes and verdicts after a round trip"],
 "exhaustive round-trip and truncation enumeration over the objects of all explored circuits", TOY)
prop("Q01", "Parallel and sequential builds compute identical results",
 "With the same circuit, key material and coins, the multi-threaded and the single-threaded builds of every proof system and of the vector commitments produce byte-identical parameters, keys and proofs and the same verdicts, for all sizes, thread counts and schedules of the thread pool.",
 ["configurations", "schedules", "inputs"], "every job of the sweep x pools of 1 to 8 threads x caller inside or outside the pool x uniform fates of all forks (kept, stolen late, stolen early, in turns); for small jobs every single fork stolen against each uniform policy, in the thorough tier also pairs",
 "The test suite runs only the parallel configuration under whatever schedule the machine happens to choose; the command-line tool ships the sequential one.",
 ["groth16/src/prover.rs", "groth16/src/generator.rs", "groth16/src/r1cs_to_qap.rs", "marlin/src/ahp/prover.rs", "plonk/src/ahp/prover.rs", "asvc/src/lib.rs"], [("parallel iterators", "feature-gated loops of groth16, marlin, plonk, bulletproofs, asvc and of the algebra crates")], ["digests of parameters, keys, proofs and verdicts"],
 "stateless exploration of thread-pool schedules: the real code runs on a copy of rayon whose every fork (kept, stolen late, stolen early, split depth) is decided by the explorer; digests compared with those of the sequential build", "Leaves of concurrently running halves are not interleaved with each other.")
prop("T01", "The command-line tool proves and verifies what it says",
 "For every supported scheme and example circuit, setup, prove and verify run one after another report a valid proof, in every order and interleaving of commands for several schemes and circuits; verification reports false or an error when the statement is false, when the setup was redone after proving, when anything in the proof file or the verification key changed in meaning, or when the proof was made for another relation. Each step writes only its own files, and misuse leaves nothing behind. The example circuits are satisfied exactly by the statements their names promise (x*(y+2)=z; image = mimc(preimage)).",
 ["histories", "configurations", "inputs"], "all command histories up to the depth bound over schemes and circuits; all alterations of proof files and keys of a stride; all small statements; the example circuits with every witness determined",
 "There are no tests of the tool.",
 ["cli/src/setup.rs", "cli/src/zkp_prove.rs", "cli/src/zkp_verify.rs", "cli/src/circuits/mini.rs", "cli/src/circuits/hash.rs"], [("file formats", "cli/src"), ("circuit registry", "cli/src/circuits")], ["exit status, printed verdict, files left"],
 "explicit-state exploration of command histories on the real binaries in scratch directories against a model of the working directory; exhaustive alterations of the files; witness enumeration for the example circuits", "One curve (bls12_381, the only one the tool offers).")
prop("N01", "On-chain verifier contracts match the library verifiers",
 "Every contract script whose proof system is part of the repository compiles against the library of the same tree and ends with exit code 0 on the three output cells (key, proof, public data) made by an honest prover; it ends with another code or aborts when any of these cells is absent, unreadable, truncated or belongs to another statement or key, when the public data is changed, when the proof was made for another circuit than the one a `mini` script fixes, and in general whenever the library verifier refuses what the cells contain. Other cells of the transaction do not matter.",
 ["inputs", "faults", "configurations"], "all assignments of eight answers (faults and data) to the three cells; all mixes of honest cells; single-byte alterations and prefixes of every cell; public data off by one in every place; for the fixed circuits, every circuit one gate away",
 "No test compiles the contracts: they are outside the workspace and need the chain's own tools.",
 ["ckb-contracts/contracts/universal_groth16_verifier/src/entry.rs", "ckb-contracts/contracts/universal_marlin_verifier/src/entry.rs", "ckb-contracts/contracts/universal_plonk_verifier/src/entry.rs", "ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs", "ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs", "ckb-contracts/contracts/mini_bulletproofs_verifier/src/entry.rs", "ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs", "ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs"],
 [("script entry points", "ckb-contracts/contracts/*/src/main.rs"), ("error codes", "ckb-contracts/contracts/*/src/error.rs")], ["exit code of the script"],
 "exhaustive exploration of transactions (cell contents and system-call faults) against the contracts' own sources compiled with a stand-in for the chain's system calls; differential oracle: the library verifier on the decoded cells, and the expected verdict", "The chain's VM and ckb-std are replaced by a stand-in; the two clinkv2 scripts have no library in this repository.")


prop("U01", "Setup parameters are as independent as their randomness",
 "Every element a setup publishes is fresh: the generators of a commitment key (Bulletproofs generators, Spartan, Libra and Hyrax commitment parameters, including the generator for single values and the blinding generator) are all different, none is trivial and no relation between their discrete logarithms follows from how they were made; structured parameters (Groth16 keys, polynomial-commitment powers, vector-commitment keys) depend independently on each of their secrets (alpha, beta, gamma, delta, tau and the generators). This holds for every circuit size, degree and vector length.",
 ["inputs", "configurations"], "all sizes up to the bound, all circuit shapes of the sweep, several coin sequences and, for each, every single coin changed",
 "Reused or related generators leave every honest run and every test intact; they only let a prover open commitments in two ways.",
 ["bulletproofs/src/arithmetic_circuit.rs", "spartan/src/setup.rs", "libra/src/params.rs", "hyrax/src/params.rs", "groth16/src/generator.rs", "marlin/src/pc/kzg10.rs", "asvc/src/lib.rs"], [("parameter generation", "setup functions of each proof system")], ["discrete logarithms of the published elements as functions of the coins"],
 "bounded-exhaustive exploration of setup sizes and coin changes on the real setups over a group with visible discrete logarithms: exact rank of the map from coins to published elements, compared with the number of independent secrets", "Says that the elements are independent functions of the coins, not that the coins are good.")
prop("E01", "Commitment arguments accept exactly their statements",
 "Each commitment argument of Libra, Hyrax and Spartan is complete and sound on its own: equality of two committed values, knowledge of an opening, product of two committed values, dot product of a committed vector with a public one (linear and logarithmic size, any non-zero public vector and length), evaluation of a committed multilinear polynomial (any number of variables and any point), and the inner-product reduction. An honest proof of a true statement is accepted for all values, blinds and coins; the prover run on a false statement, a changed statement, a changed, shortened or extended proof are rejected without a crash; the verdict is exactly that of the argument's equations; and the statement and every message sent before a challenge influence that challenge.",
 ["inputs", "faults", "histories"], "all values and blinds over a small domain, vectors up to 16 (32) entries, polynomials up to 6 (8) variables; every word of statement and proof changed; every statement and proof over a small domain against the equations for every small challenge vector; all alterations of one or two words under fixed challenges",
 "The tests run whole proof systems with one circuit each; the linear dot-product argument was never called at all and rejected its own proofs.",
 ["libra/src/commitment.rs", "hyrax/src/commitment.rs", "spartan/src/inner_product.rs", "libra/src/evaluate.rs", "hyrax/src/evaluate.rs"], [("arguments", "EqProof, KnowledgeProof, ProductProof, DotProductProof, LogDotProductProof, BulletReduceProof; bullet_inner_product_*")], ["verdict", "messages absorbed and challenges drawn"],
 "bounded-exhaustive exploration of statements, proofs and challenge vectors of the real arguments over a group with visible discrete logarithms, against the arguments' equations; interactive exploration of causal alterations under fixed challenges", TOY + " The logarithmic argument says nothing when the public vector is all zero (its last equation is multiplied by zero); callers use equality vectors, which never are.")
prop("E02", "Polynomial and vector helpers compute their definitions",
 "The multilinear and vector algebra the provers and verifiers share computes what it stands for, for every length and point: equality polynomials, multilinear evaluation from dense and sparse values, folding of the first or last variable, products of sparse constraint matrices (with repeated and cancelling terms) with vectors from both sides and their multilinear extensions, the list form of a matrix, memory time stamps for every access history, product circuits, gate sums of layered circuits, vector and row-packed commitments with blinds exactly when asked for, Bulletproofs' vector products and vector polynomials.",
 ["inputs", "histories", "configurations"], "all points of F17^k up to k=3 (4) and patterns with corners up to 11 variables; all sparse matrices with up to two rows of up to two terms; all access histories of up to 5 (7) accesses to up to 4 cells; all lists of two gates; all small coefficient vectors",
 "Unit tests reach these helpers only through whole proofs of a handful of circuits, whose sizes are powers of two and whose matrices have no repeated terms; several helpers are not reached at all.",
 ["spartan/src/polynomial.rs", "spartan/src/spark.rs", "spartan/src/r1cs.rs", "spartan/src/commitments.rs", "libra/src/evaluate.rs", "hyrax/src/evaluate.rs", "bulletproofs/src/lib.rs"], [("helpers", "public functions of these files")], ["returned values"],
 "bounded-exhaustive enumeration of lengths, points, matrices, histories and coefficients on the real functions, compared with direct sums over the hypercube and dense matrices", "Definitions are evaluated in the same field implementation.")

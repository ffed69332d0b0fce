# Source of properties.jsonl and MANIFEST.json: python3 tools/props.py
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, hook=hook))

TOY = "Assumes the toy algebra (prime fields of 3..61 bits, groups with visible discrete logs) drives the same curve-generic code as the production curves; ark-* dependencies are trusted."

prop("R01", "Linear combinations and constraint-system plumbing keep their meaning",
 "Any sequence of additions, subtractions, scalings and merges of linear combinations denotes exactly the linear function obtained by the same arithmetic on coefficients, whatever its length, term order and repetition of variables. Allocating and enforcing through nested namespaces or references reaches the underlying constraint system unchanged, with balanced namespaces, and variable indices survive their encoding.",
 ["histories", "inputs"], "every operation sequence up to the depth bound over a small variable set, every nesting of namespaces, every index up to a bound",
 "Unit tests build a handful of fixed combinations; the storage switches representation with length and order, so only all histories show that no sequence loses, duplicates or misattributes a term.",
 ["r1cs/src/lib.rs", "r1cs/src/impl_lc.rs", "r1cs/src/constraint_system.rs"], [("linear combination storage and operators", "r1cs/src/impl_lc.rs"), ("namespace delegation", "r1cs/src/constraint_system.rs")],
 ["LinearCombination operators and as_ref", "ConstraintSystem trait through Namespace and &mut"],
 "explicit-state exploration of all operation histories against a coefficient-map model", "Exhaustive over all histories up to the depth bound on the real types.")

prop("D01", "Circuit gadgets for boolean logic are exact",
 "For every boolean gadget (conjunction, exclusive-or, their negated forms, selection, majority, equality, conditional allocation, bit decomposition of integers and field elements) and every mix of constant, plain and negated operands, the constraints have a solution for every input and force the output to be the logical function of the inputs. No assignment with any other output, or with a non-boolean bit, satisfies them.",
 ["inputs", "programs"], "all operand kinds and values, all assignments of internal variables in small fields",
 "Tests evaluate the honest assignment; whether a wrong assignment can satisfy the constraints needs every assignment.",
 ["gadgets/src/algebra/boolean.rs"], [("boolean operators and allocation", "gadgets/src/algebra/boolean.rs")], ["satisfying assignments of the synthesised constraints"],
 "exhaustive enumeration of all assignments (model = truth table) on the real synthesised constraints", "Complete and sound for each gadget over all operand kinds in fields F3..F31.")

prop("D02", "32-bit word gadgets compute and enforce exact modular arithmetic",
 "Rotation, shift, exclusive-or, choice, majority, addition of any supported number of words, and conversion to and from bits give exactly the result of the corresponding operations on 32-bit machine words for constant and allocated operands. The constraints determine the result: no assignment with another result bit satisfies them, and packing several equalities into one constraint loses none of them.",
 ["inputs", "programs"], "all operator/operand-kind combinations, boundary words, every rotation amount, every single-bit corruption of the result and carries",
 "Carries, wrap-around and multi-equality packing fail only for particular operand values and operand kinds.",
 ["gadgets/src/algebra/uint32.rs", "gadgets/src/operator/multieq.rs"], [("word gadgets", "gadgets/src/algebra/uint32.rs"), ("packed equality", "gadgets/src/operator/multieq.rs")], ["word values and satisfying assignments"],
 "bounded-exhaustive operand and corruption enumeration against a machine-word model", TOY)

prop("D03", "SHA-256 and BLAKE2s circuits equal the standard functions and bind their output",
 "For every message length and content the constrained digest equals the standard function's digest, with messages given as allocated or constant bits, and the constraints are satisfied by the honest assignment. Digest bits are determined by the message bits: flipping any digest or intermediate bit leaves some constraint unsatisfied, also through the generic hash-gadget interface.",
 ["inputs"], "every message length across block boundaries with boundary contents, every single-bit corruption of allocated bits",
 "Known-answer tests cover single lengths; padding and block-boundary errors and unbound outputs need every length and corruption.",
 ["gadgets/src/hashes/sha256.rs", "gadgets/src/hashes/blake2s.rs"], [("compression and padding circuits", "gadgets/src/hashes")], ["digest bits and constraint satisfaction"],
 "bounded-exhaustive message/corruption enumeration against an independent implementation of the standards", TOY)

prop("D04", "Algebraic hash circuits compute the native hash and bind it",
 "For the MiMC, Poseidon and Rescue gadgets, the value produced by the circuit on a message equals the native hash of that message, the honest assignment satisfies all constraints, and the output is determined by the message: no assignment with the same message and a different output satisfies the constraints.",
 ["inputs"], "messages of every length up to the bound; every single-variable corruption of the internal assignment; re-derived assignments for changed outputs",
 "Tests only check that the circuit is satisfied; binding quantifies over all assignments of the internal variables.",
 ["gadgets/src/hashes/mimc.rs", "gadgets/src/hashes/poseidon.rs", "gadgets/src/hashes/rescue.rs"], [("hash gadgets", "gadgets/src/hashes")], ["circuit output value, constraint satisfaction under corrupted assignments"],
 "bounded-exhaustive message enumeration with exhaustive corruption/propagation search over assignments", TOY)

prop("D05", "Native algebraic hashes depend on every byte of the message",
 "The native MiMC, Poseidon and Rescue hash interfaces return a value for messages of every length, deterministically, and distinct messages of the same length give distinct digests: no byte is ignored, truncated or replaced.",
 ["inputs"], "every message length up to the bound, every byte position changed, every pair in the enumerated set",
 "An ignored tail or an out-of-range chunk is invisible to the fixed-length messages tests use.",
 ["gadgets/src/hashes/mimc.rs", "gadgets/src/hashes/poseidon.rs", "gadgets/src/hashes/rescue.rs"], [("message chunking", "hash entry points")], ["digest of each message"],
 "exhaustive enumeration of message lengths and byte positions with collision detection", "Decides collisions only within the enumerated message set.")

prop("D06", "Lookup gadgets return exactly the selected table entry",
 "For every table content and every index, the lookup gadgets (one, two and three selector bits, one or two coordinates, constant or variable selectors) yield the table entry chosen by the selector bits. The constraints have no solution in which the result differs.",
 ["inputs", "programs"], "every selector value and operand kind, every table over a small value set, every assignment of result variables in a small field",
 "Tests sample random tables with honest assignments; soundness needs every assignment.",
 ["gadgets/src/lookup/table.rs"], [("lookup tables", "gadgets/src/lookup/table.rs")], ["result values and satisfying assignments"],
 "exhaustive assignment enumeration in small fields", "Exhaustive for the stated fields and tables.")

prop("D07", "Range and non-zero gadgets accept exactly the right values",
 "The range gadget (strict comparison A < B of two n-bit values) is satisfiable exactly when the comparison holds for values below 2^n, and the non-zero gadget exactly when the value is non-zero. A prover cannot satisfy them for a false comparison with any choice of internal values.",
 ["inputs"], "every pair of values below 2^n for every small n, every assignment of the internal variables",
 "Boundary values (equal, zero, maximum, negative differences) and dishonest internal bits are not sampled by tests.",
 ["gadgets/src/operator/rangeproof.rs", "gadgets/src/algebra/fr.rs"], [("range decomposition", "gadgets/src/operator/rangeproof.rs"), ("inverse witness", "gadgets/src/algebra/fr.rs")], ["constraint satisfaction"],
 "exhaustive enumeration of inputs and internal assignments in small fields", "Exhaustive for the stated widths and fields.")

prop("D08", "Merkle tree proofs are complete and bind the leaf and its position",
 "For every tree size, the native tree builder and proof builder produce, for each leaf, a proof that verifies against the tree's root. A proof never verifies for a different leaf value, a different index (including out-of-range ones), a different root or an altered sibling list, and roots of trees with different leaves differ.",
 ["inputs", "histories"], "every number of leaves up to the bound, every index, every single alteration, hash modelled as an injective symbolic merge",
 "Tests use a few tree sizes; index/size combinations and forged positions need all of them.",
 ["gadgets/src/merkletree/cbmt.rs"], [("tree layout and proof walk", "gadgets/src/merkletree/cbmt.rs")], ["root, build_proof, verify"],
 "explicit enumeration with free-term (collision-free) merge as the model", "Collision-free symbolic hash; exhaustive up to the size bound.")

prop("D09", "The Merkle membership circuit is satisfiable exactly for true members",
 "For every tree size and leaf position, the membership circuit built from a genuine authentication path is satisfied and exposes the tree's root. With a wrong leaf, wrong sibling, wrong direction or wrong root no assignment reachable by an adversarial prover satisfies it.",
 ["inputs"], "all tree sizes up to the bound, all leaves, all single alterations of leaf, path, direction and root, all single-variable corruptions",
 "Tests check one honest path.",
 ["gadgets/src/merkletree/mod.rs", "gadgets/src/merkletree/cbmt_constraints.rs"], [("path circuit", "gadgets/src/merkletree")], ["constraint satisfaction"],
 "bounded-exhaustive enumeration of trees, positions and corruptions", TOY)

def scheme(idc, ids, name, tests, files, extra_c="", extra_s="", note_extra=""):
    prop(idc, f"{name}: honest proofs always verify",
     f"For every satisfiable relation the {name} setup and prover succeed and the verifier accepts the proof for the same public inputs, for all randomness. This holds for any number of constraints, public inputs and witnesses, any allocation order, repeated or cancelling variables, empty sides, unused variables and zero values.{extra_c}",
     ["inputs", "programs"], "all small relations over an alphabet with all satisfying small assignments; size sweep across power-of-two boundaries; several coin streams",
     f"{tests} Padding, matrix balancing and index arithmetic fail only at particular shapes.",
     files, [("setup, prover, verifier", files[0])], ["verifier verdict on honest proofs"],
     "bounded-exhaustive enumeration of relations, assignments and sizes on the real prover/verifier over toy algebra", TOY + note_extra)
    prop(ids, f"{name}: no accepted proof for a false statement",
     f"The {name} verifier never accepts a proof produced from an assignment violating the relation, an honest proof presented with any other public input vector (changed, reordered, shortened or extended), or an honest proof with any part altered.{extra_s}",
     ["inputs", "fault_sequences"], "all violating small assignments run through the real prover, all single-position proof mutations, all single public-input changes, scheme-specific adversaries",
     "A dropped check leaves every honest test passing; only adversarial proofs expose it.",
     files, [("verifier checks and transcript", files[-1])], ["verifier verdict on adversarial proofs"],
     "exhaustive enumeration of a bounded adversary alphabet against the real verifier over toy algebra", TOY + " Soundness is decided against the enumerated adversaries, not cryptographic reductions." + note_extra)

scheme("G01", "G02", "Groth16", "Tests prove one circuit on one curve.", ["groth16/src/generator.rs", "groth16/src/prover.rs", "groth16/src/r1cs_to_qap.rs", "groth16/src/verifier.rs"],
  extra_s=" Acceptance coincides exactly with the pairing equation of the scheme, and linear combinations of key elements do not help an adversary.")
prop("G03", "Groth16: proofs reveal nothing about the witness",
 "For every key, statement and witness, the distribution of Groth16 proofs over the prover's coins is uniform over all accepting proofs of the statement, hence identical for any two witnesses.",
 ["inputs"], "every coin sequence, every statement and witness of small relations in a 17-element field, several keys",
 "Perfect zero knowledge is a statement about all coins; a test sees a few proofs and cannot notice a missing or reused blinding term.",
 ["groth16/src/prover.rs"], [("blinding by r and s", "groth16/src/prover.rs")], ["exact proof distribution"],
 "stateless exploration of every coin sequence (exact distribution comparison)", TOY)

def emit():
    checks = {}
    with open(f"{V}/checks.tsv") as f:
        for l in f:
            if l.strip() and not l.startswith('#'):
                checks[l.split()[0]] = l.split()[1]
    na = json.load(open(f"{V}/tools/not_applicable.json"))
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
              anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=p['hook']))) + "\n")
    ids = {p['id'] for p in P}
    m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="--cfg zkp_mc (rustc cfg; makes marlin's pc, ahp and fs_rng modules reachable)", enable="env.sh sets RUSTFLAGS=--cfg zkp_mc for every harness build", source_commits=["951902b"]), checks=[], not_applicable=[], notes="check.sh <ID> <tier> builds the harness crate against /repo and explores; see DESIGN.md.")
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        if p['id'] in checks:
            m['checks'].append(dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough", technique=p['technique'], level="model_checking", level_note=p['note']))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=na.get(p['id'], "check not built yet")))
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
    print(len(P), "properties", len(m['checks']), "claimed")

exec(open(f"{V}/tools/props2.py").read()) if os.path.exists(f"{V}/tools/props2.py") else None
emit()

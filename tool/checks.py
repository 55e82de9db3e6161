"""The stages of every check."""

HOOKS = {}
NOT_APPLICABLE = {}
CHECKS, NOTES, ASSUMPTIONS = {}, {}, {}


def check(pid, technique, note, assumptions=()):
    def deco(f):
        CHECKS[pid] = f
        NOTES[pid] = (technique, note)
        ASSUMPTIONS[pid] = list(assumptions)
        return f
    return deco


@check("C15", "TLA+ modular-arithmetic specification; TLC validates recorded field operations",
       "Every recorded operation of all six fields equals exact integer arithmetic modulo the prime; operands are chosen at "
       "limb, carry, borrow and modulus boundaries in both plain and Montgomery form plus random ones, so it is exhaustive in "
       "neither operand. Trusts the Java override of the big-number operators, which BigNatSelf checks against their TLA+ definitions.")
def c15(c):
    c.build("c15")
    c.model("BigNatSelf")
    if c.run("c15"):
        c.validate("FieldTrace", need=40000)


@check("C12", "TLA+ elliptic-curve specification: group law model-checked, recorded point operations validated by TLC",
       "TLC checks on small curves that the specified addition is an abelian group law (all triples); all pairs of points of five small "
       "curves (with order-two points and A = 0 or not) under random projective representatives, and chosen points of the five real "
       "curves, run through the implementation and every result equals the specified one.")
def c12(c):
    c.build("c12")
    c.model("CurveLaw")
    if c.run("c12"):
        c.validate("CurveTrace", need=3000)


@check("C13", "TLA+ elliptic-curve specification: recorded scalar multiplications, MSMs and summations validated by TLC",
       "Lists of up to 281 points with repeated, opposite and infinite points on small curves (every scalar of two of them) and on the five real "
       "curves, in every window size from 1 to 16 tried, sequential and parallel, with fresh and reused precomputations; every result equals the "
       "sum the specification computes. Scalars and lists are sampled, not exhausted, on the real curves.")
def c13(c):
    c.build("c13")
    c.model("CurveLaw")
    if c.run("c13"):
        c.validate("CurveTrace", need=2000)


@check("C14", "TLA+ polynomial specification: definitions model-checked against each other, recorded polynomial and FFT operations validated by TLC",
       "Transforms of every length up to 24 and selected lengths up to 4096, and polynomial operations on zero, constant, monomial, sparse, dense "
       "and zero-padded operands, on two small fields and the six real ones; all dividends and divisors with 0/1 coefficients up to degrees 6 and 3. "
       "Every result equals the definition; degrees and coefficients beyond that are sampled.")
def c14(c):
    c.build("c14")
    c.model("FpSelf")
    c.model("PolyLaw")
    if c.run("c14"):
        c.validate("PolyTrace", need=5000)


TRUST = "Trusts the Java overrides of big-number, field and point operators, which BigNatSelf, FpSelf and CurveLaw check against their TLA+ definitions."


@check("C04", "TLA+ specification of the Fiat-Shamir transcript; TLC validates recorded challenges of proofs with each message altered",
       "For a proof of every curve with two carried accumulators, and again with every message of it altered one at a time (inputs, commitments, "
       "openings, rounds, Schnorr commitment, accumulators' points and challenges), all challenges the code derives equal the specified ones, and "
       "TLC checks on the records that exactly the challenges drawn after the altered message differ. One base proof per curve and seed. " + TRUST)
def c04(c):
    c.build("proto")
    if c.run("c04"):
        c.validate("ProtoTrace", need=400)


@check("C05", "TLA+ protocol specification; TLC validates honest proofs and keys recorded from the real prover and verifier",
       "Circuits of several sizes, input counts and gate mixes on the four curves, blinded and not, keys with and without precomputation, and a chain of "
       "deferred proofs: the code must accept, and the specification must agree in every detail of the verdict; keys equal the specified commitments "
       "to the circuit's constants and wiring. Circuits are sampled. " + TRUST)
def c05(c):
    c.build("proto")
    if c.run("c05"):
        c.validate("ProtoTrace", need=150)


@check("C06", "TLA+ protocol specification; TLC validates the verdicts on proofs of wrong assignments, deviating provers and forgeries",
       "An independent prover follows the protocol on wrong tables, leaves single terms out, lies about inputs, alters single opened values with all "
       "identities repaired, solves for the final point; finished proofs and keys are altered. TLC computes from the specification whether the table satisfies "
       "the circuit and whether each proof is acceptable, and the code's verdict must be the same. Deviations are single or paired; cryptographic "
       "soundness itself is assumed. " + TRUST)
def c06(c):
    c.build("proto")
    if c.run("c06"):
        c.validate("ProtoTrace", need=250)


@check("C07", "TLA+ protocol specification; TLC validates the verdicts on malformed proofs",
       "Every vector of a proof shortened, emptied, lengthened, doubled or shifted into its neighbour; every point off the curve, at the origin or infinite; boundary "
       "field elements; accumulators with zero, missing or surplus challenges. The specification's verdict is the required one; a panic is recorded "
       "and never allowed. Malformations are mostly single. " + TRUST)
def c07(c):
    c.build("proto")
    if c.run("c07"):
        c.validate("ProtoTrace", need=400)


@check("C08", "TLA+ model of accumulator chains model-checked; TLC validates recorded chains of deferred verifications, honest and not",
       "ChainModel: all chains of up to three proofs carrying up to two accumulators, true or false: full verification of the last implies everything before it. "
       "On the four curves, honest, forged and altered accumulators are carried in different positions by the code's prover and an adversarial one (also one "
       "choosing accumulator challenges after the evaluation point); verdicts and what is handed on must equal the specification's. " + TRUST)
def c08(c):
    c.build("proto")
    c.model("ChainModel")
    if c.run("c08"):
        c.validate("ProtoTrace", need=250)


@check("C22", "TLA+ protocol specification; TLC validates blinding terms computed from repeated proofs of one statement",
       "Repeated generations of one table differ in all wires of at least three free unconstrained rows and nowhere else; in repeated proofs TLC computes each "
       "commitment's blinding term (commitment minus the specified one of the polynomial) and requires all of them distinct and nonzero, and all final values fresh. "
       "Randomness is judged by freshness and magnitude only, not by distribution. " + TRUST)
def c22(c):
    c.build("proto")
    if c.run("c22"):
        c.validate("ProtoTrace", need=60)


@check("C03", "TLA+ model of the challenger over a free permutation model-checked; TLC validates recorded histories of both challengers",
       "SpongeModel: all pairs of histories of one shape up to length 8 (thorough: 10) over two values: challenges differ exactly from the first "
       "difference on and none repeats. Histories of the real challenger (every shape up to length 4, thorough 6, and random ones up to 30 calls, "
       "bundled and split at random, five fields) and of the in-circuit challenger (generated witnesses, four fields) equal the specified "
       "ones; pairs with one element altered are compared. That Rescue behaves like a free permutation is assumed. " + TRUST)
def c03(c):
    c.build("hash")
    c.model("SpongeModel", "SpongeModelDeep.cfg" if c.thorough else "SpongeModel.cfg")
    if c.run("c03"):
        c.validate("HashTrace", need=200)
    if c.build("rchal", optional=True) and c.run("c03"):
        c.validate("HashTrace", trace="trace-circuit.ndjson", hdr="hdr-circuit.ndjson", need=40)


@check("C18", "TLA+ specification of Rescue; TLC validates recorded permutations and hashes, native and computed by circuits",
       "Permutations of width 2 to 5 and hashes of inputs up to 9 elements (thorough: 31) at security levels from 0 to 256 on the six real fields and two "
       "small ones, and hashing circuits of up to 7 inputs on five curves: every result equals the specified one, and the specified inverse undoes every "
       "recorded permutation; TLC computes that the matrix is MDS and the exponents inverse. That circuits refuse other values is decided by "
       "C10 and C01. The round constants are taken from the same generator and seed as the code's. " + TRUST)
def c18(c):
    c.build("hash")
    if c.run("c18"):
        c.validate("HashTrace", need=1000)


@check("C09", "TLA+ gate specification: selection model-checked for exclusiveness; TLC validates recorded rows of built circuits and their combined constraints",
       "GateModel: over tiny fields the selection prefixes exclude each other for all values of the remaining constants, and the combination of all gates on a "
       "row selecting one gate vanishes exactly on that gate's instances. Built circuits of random gate sequences with zero to 27 public inputs have exactly the specified "
       "layout with one gate selected per row, and the combined constraints of their rows vanish exactly on instances (also single-wire alterations). " + TRUST)
def c09(c):
    c.build("gates")
    c.model("GateModel", "GateModelDeep.cfg" if c.thorough else "GateModel.cfg")
    if c.run("c09"):
        c.validate("GateTrace", need=1500)


@check("C10", "TLA+ specification of every gate's operation, model-checked against its polynomials; TLC validates recorded constraint evaluations and generator outputs",
       "The code's constraints vanish exactly on instances of the specified operation: on instances, all single-wire alterations, and out-of-range bits and limbs over "
       "the four real fields and small ones, and on all values of three free wires over F_13 and F_17. In-circuit constraints equal the native ones at random and structured points; "
       "generators run with their declared dependencies only and write instances. " + TRUST)
def c10(c):
    c.build("gates")
    c.model("GateModel", "GateModelDeep.cfg" if c.thorough else "GateModel.cfg")
    if c.run("c10"):
        c.validate("GateTrace", need=8000)


@check("C16", "TLA+ specification of the encodings and of streams, model-checked with cuts and altered bytes; TLC validates recorded encodings and decodings",
       "CodecModel: all streams of up to two (thorough: three) items over two tiny curves, cut anywhere or with one byte altered, read back item by item. Real encodings "
       "and decodings of the five curves and their fields (around the modulus, every single bit, all truncations of some points, whole small curves), streams through "
       "readers and writers that move few bytes at a time, and CBOR encodings of proofs, keys and their parts, whole, cut and altered at sampled positions, "
       "equal the specified ones. " + TRUST)
def c16(c):
    c.build("codec")
    c.model("CodecModel", "CodecModelDeep.cfg" if c.thorough else "CodecModel.cfg")
    if c.run("c16"):
        c.validate("CodecTrace", need=20000)


@check("C21", "TLA+ specification of try-and-increment hashing; TLC validates recorded points",
       "For seeds that are small, extreme, random or chosen to need many attempts, on the five real curves and three small ones, both hashes return a point with the "
       "first suitable abscissa the specification derives from the hash values (Rescue is computed by TLC, BLAKE3 by its own crate); thousands of seeds per real curve, also ones differing in "
       "single bits, give distinct points; generators of circuits of three sizes (thorough: six) are the seeds' points. A call that does not return in time fails. " + TRUST)
def c21(c):
    c.build("hcurve")
    if c.run("c21"):
        c.validate("HashCurveTrace", need=500)


@check("C01", "TLA+ specification of copy closure and wiring permutations, model-checked with the permutation argument's law; TLC validates recorded wirings, polynomials and products",
       "WiringModel: for all sequences of up to three (thorough: four) copies among five targets, merged partitions equal the closure and the permutation's cycles its classes; over F_11 the argument's "
       "product is one for all challenges exactly for assignments constant on cycles. Real: all sequences of three (thorough: four) merges of four targets; random circuits of six curves "
       "(chains, stars, loops, virtual targets, public inputs, unrouted wires) have exactly the specified cycles, encoding polynomials, refusals and running products. " + TRUST)
def c01(c):
    c.build("wiring")
    c.model("WiringModel", "WiringModelDeep.cfg" if c.thorough else "WiringModel.cfg")
    c.model("WiringModel", "WiringArg.cfg")
    if c.run("c01"):
        c.validate("WiringTrace", need=4500)


@check("C02", "TLA+ specification of witness generation, model-checked for all schedules of small circuits; TLC validates recorded generations of random circuits",
       "WitnessModel: for all circuits of two (thorough: three) generators over four targets, all copies, inputs and schedules, the work list ends in the fixpoint with each generator run once. "
       "Real: random circuits of up to 70 classes with generators and gates declared in random order, copies in random trees, public inputs, inputs partly missing: the known targets, their values, "
       "the order of runs and the final table are those of the specified fixpoint. " + TRUST)
def c02(c):
    c.build("wiring")
    c.model("WitnessModel", "WitnessModelDeep.cfg" if c.thorough else "WitnessModel.cfg")
    if c.run("c02"):
        c.validate("WiringTrace", need=800)


@check("C17", "TLA+ specification of the lookup argument (its law model-checked, its verifier executable); TLC validates recorded proofs, verdicts and tables",
       "PlookupModel: over all lists of three, tables of four and candidate unions with two (thorough: three) values, the products agree for all challenges only if the list is inside the table, and do for "
       "its union. Real, four curves: lists and tables of up to 8 (thorough: 17) elements and some longer, repeated and unsorted; every element of proofs altered in several ways, altered shapes and "
       "tables, provers leaving out terms or adjusting openings: the verdict and all challenges equal the specified verifier's, which TLC computes. " + TRUST)
def c17(c):
    c.build("lookup")
    c.model("PlookupModel", "PlookupModelDeep.cfg" if c.thorough else "PlookupModel.cfg")
    c.model("PlookupModel", "PlookupModelShort.cfg")
    if c.run("c17"):
        c.validate("PlookupTrace", need=1500)


@check("C11", "TLA+ specification of gadget semantics and of all ways to satisfy a circuit; TLC explores every satisfying assignment of circuits built by the code",
       "GadgetSolve: from the rows and wiring the code built and given inputs, TLC derives what single rows force and branches over everything else, so its leaves are all satisfying assignments; at each "
       "the results must be those of the program. Every gadget over F_257 (one operand: all inputs; more: operands virtual, public, repeated, constant; edge and random values), random programs of 6 to 70 "
       "steps over F_257 and F_12289, the same gadgets, programs, hashes and square roots on 256-bit fields; the generated table must satisfy the rows exactly where the program is defined. " + TRUST)
def c11(c):
    c.build("gad")
    if c.run("c11"):
        c.explore("GadgetSolve", need=7000)


@check("C20", "TLA+ specification of integer arithmetic on limbs and of all ways to satisfy a circuit; TLC explores every satisfying assignment of circuits built by the code",
       "GadgetSolve: TLC derives what single rows force (including which limbs a bounded sum determines) and branches over everything else; at each satisfying assignment the results must be those of integer "
       "arithmetic. Additions, products, comparisons, copies, constants, divisions and arithmetic modulo another field's order, for sizes of 1 to 300 bits on both sides of limb boundaries; limbs out of range, wrong "
       "quotients and remainders, results equal only modulo the field are given explicitly and must not satisfy; the generated table must satisfy the rows exactly where the program is defined. " + TRUST)
def c20(c):
    c.build("gad")
    if c.run("c20"):
        c.explore("GadgetSolve", need=180)


@check("C19", "TLA+ specification of the group law and of all ways to satisfy a circuit; TLC explores every satisfying assignment of circuits of curve gadgets built by the code",
       "GadgetSolve: TLC derives what single rows force and branches over everything else; at each satisfying assignment the results must be those of the group law, and where the gadget is undefined (equal abscissas, "
       "doubling a point of order two, points off the curve where asserted) there must be none. Every point of a curve over F_257, pairs in special position, points off the curve, random programs, multiplications and "
       "multi-products with extreme scalars on tiny curves, the same gadgets and a 254-bit multiplication on the real curves; the generated table must satisfy the rows exactly where the program is defined. " + TRUST)
def c19(c):
    c.build("gad")
    if c.run("c19"):
        c.explore("GadgetSolve", need=4000)

"""Per property settings of the checks: number of cases, build variants of the workers (one per process)."""
P8 = ["plain"] * 8
MIX = ["plain"] * 6 + ["san"] * 2

COMMON_NOTE = ("Generated-input search with shrinking; never establishes absence. Trusts clingo 5.6.2 as solver and "
               "grounder and the reference in harness/ref.cc and harness/gen.cc. ")

PROPS = {
    "P01": dict(shards=P8, fuzz=True, quick=120000, thorough=3000000,
                technique="property-based testing: random programs, witness validity predicate on every answer",
                note=COMMON_NOTE + "Variables <= 7, integer weights whose sums fit the integer type."),
    "P02": dict(shards=P8, fuzz=True, quick=120000, thorough=3000000,
                technique="property-based testing: random programs against a brute-force reference model",
                note=COMMON_NOTE + "Instances small enough to enumerate all candidates (<= 2^9)."),
    "P03": dict(shards=P8, fuzz=True, quick=20000, thorough=600000,
                technique="property-based testing: metamorphic/differential comparison of option combinations",
                note=COMMON_NOTE + "Compares against the default options; correctness of those is P01/P02."),
    "P04": dict(shards=P8, fuzz=True, quick=60000, thorough=500000,
                technique="property-based testing: every intercepted clause checked for entailment by Bellman-Ford",
                note=COMMON_NOTE + "Clauses are observed at the clingo C interface; networks up to 16 nodes."),
    "P05": dict(shards=P8, fuzz=True, quick=100000, thorough=500000,
                technique="property-based testing: invariant at propagation fixpoints under random decisions",
                note=COMMON_NOTE + "Fixpoints are observed by a second propagator registered after the theory."),
    "P06": dict(shards=P8, fuzz=True, quick=100000, thorough=500000,
                technique="property-based testing: reference model of the assignment at every propagation fixpoint",
                note=COMMON_NOTE + "Fixpoints are observed by a second propagator registered after the theory."),
    "P07": dict(shards=P8, fuzz=True, quick=80000, thorough=800000,
                technique="stateful (model-based) property testing of multi-shot histories against a reference model",
                note=COMMON_NOTE + "Histories up to 9 operations, one thread."),
    "P08": dict(shards=MIX, quick=40000, thorough=300000, nondet=True,
                technique="property-based testing: programs and multi-shot histories with several threads against a reference model",
                note=COMMON_NOTE + "Thread schedules are those the operating system produces; they are not controlled."),
    "P09": dict(shards=P8, fuzz=True, quick=40000, thorough=1000000,
                technique="property-based testing: optimizer runs against the minimum over all reference answers",
                note=COMMON_NOTE + "Step by step approach (factor one) only with small bounds."),
    "P10": dict(shards=MIX, fuzz=True, quick=100000, thorough=2500000,
                technique="property-based testing: real-valued programs against an exact rational reference",
                note=COMMON_NOTE + "Decimal constants on a grid the reference represents exactly."),
    "P11": dict(shards=P8, fuzz=True, quick=60000, thorough=1500000,
                technique="property-based testing: random expression trees against the intended linear constraint",
                note=COMMON_NOTE + "Constants bounded such that no intermediate result overflows."),
    "P12": dict(shards=P8, fuzz=True, quick=100000, thorough=2500000,
                technique="property-based testing: grammar of malformed constraints with well-formed control group",
                note=COMMON_NOTE + "Malformed constraints of the listed kinds, in places where they reach the ground program."),
    "P13": dict(shards=P8, fuzz=True, quick=120000, thorough=3000000,
                technique="property-based testing: differential against clingo's own parsing and pool expansion, idempotence",
                note=COMMON_NOTE + "Statements without scripts; at most two pools per statement."),
    "P14": dict(shards=P8, fuzz=True, quick=60000, thorough=1500000,
                technique="property-based testing: metamorphic comparison with and without shifting, brute-force reference",
                note=COMMON_NOTE + "Answers are compared as sets of shown atoms."),
    "P15": dict(shards=P8, quick=8000, thorough=250000, tool=True,
                technique="property-based testing: round trip through text and aspif printed by the tool",
                note=COMMON_NOTE + "Works around a printing bug of clingo (':-&' is read as one operator)."),
    "P16": dict(shards=MIX, fuzz=True, quick=24000, thorough=700000, nondet=True,
                technique="property-based testing: interface called at random points of random histories against a model",
                note=COMMON_NOTE + "Indices passed to the interface are those the interface declares valid."),
    "P17": dict(shards=MIX, fuzz=True, quick=48000, thorough=1500000, nondet=True,
                technique="property-based testing: grammar of option values and sequences against a model of their effect",
                note=COMMON_NOTE + "Effects on the search are compared with equivalent settings, not specified absolutely."),
    "P18": dict(shards=P8, fuzz=True, quick=48000, thorough=1500000, nondet=True,
                technique="stateful property testing: statistics after each call against a model and observed events",
                note=COMMON_NOTE + "Times are only checked for plausibility."),
    "P19": dict(shards=P8, fuzz=True, quick=24000, thorough=800000,
                technique="property-based testing: differential of traces alone and interleaved with other instances",
                note=COMMON_NOTE + "Instances take turns (also across threads) but never run at the same time because "
                     "the symbol table of clingo 5.6.2 has a data race."),
    "P20": dict(shards=P8, quick=8000, thorough=250000, tool=True, nondet=True,
                technique="property-based testing: command line tool against library, reference answers and reference minimum",
                note=COMMON_NOTE + "Reads the default text output of the tool."),
    "P21": dict(shards=MIX, fuzz=True, quick=48000, thorough=1500000,
                technique="property-based testing: random ground terms with known value; sharing of variables decided through answers",
                note=COMMON_NOTE + "Terms up to depth three; arithmetic inside terms bounded such that nothing overflows."),
    "P22": dict(shards=["san"] * 8, quick=64000, thorough=2000000, fuzz=True, nondet=True,
                technique="fuzzing: grammar-based and mutated programs, intermediate format, and interface call sequences under sanitizers",
                note=COMMON_NOTE + "Numbers such that no sum of weights leaves the integer range; no infinite groundings; "
                     "background solving with several threads is not stopped early (crashes in clasp)."),
    "P23": dict(shards=P8, quick=8000, thorough=250000, tool=True, python=True, nondet=True,
                technique="property-based testing: random programs, Python module and application against the library",
                note=COMMON_NOTE + "The clingo Python package, which cannot be installed here, is replaced by a stand-in on top of "
                     "libclingo (pystub); Python sources, compiled binding, and library are the real ones."),
    "P24": dict(shards=MIX, fuzz=True, quick=80000, thorough=2500000,
                technique="property-based testing: random programs built through the backend against a brute-force reference",
                note=COMMON_NOTE + "Sequences are added as symbols and no constraint is added twice with different atoms "
                     "because the backend of clingo 5.6.2 gets these wrong; body constraints only for undefined atoms and facts."),
    "P25": dict(shards=MIX, fuzz=True, quick=48000, thorough=1500000, nondet=True,
                technique="property-based testing: every decision of the theory judged by the values reported when it is taken",
                note=COMMON_NOTE + "Decisions whose two outcomes both add or both avoid violated constraints are not judged."),
    "P26": dict(shards=MIX, fuzz=True, quick=60000, thorough=1500000, nondet=True,
                technique="property-based testing: reasoning modes of the solver against results computed from reference answers",
                note=COMMON_NOTE + "Programs small enough to compute all answers; subset-minimal answers are left out because clingo 5.6.2 misses some."),
}

NOT_APPLICABLE = {}

"""Check registry.

Kani harnesses are read from harness/src/cNN.rs (the contracts themselves);
lines starting with `//@` in front of a harness carry its metadata:
  //@ of: a::b, c::d        functions under contract in this group
  //@@ of: ...              the same, default for the harnesses that follow
  //@ bound: text           this obligation group is bounded (never counted
                            as proved)
  //@ timeout: N            seconds (quick tier)
  //@ thorough              thorough tier only
  //@ noreplay              counterexample not replayable natively
"""
import os, re
import engines

HERE = os.path.dirname(os.path.abspath(__file__))

TRUSTED_BASE = [
    "Kani 0.68.0 / rustc MIR / CBMC 6.11.0 and its SAT back ends "
    "(CaDiCaL, Kissat) translate and decide the compiled code correctly",
    "memory model and intrinsics of Kani (no concurrency in this crate)",
    "hooks under cfg(any(kani, demixer_verif)) in /repo only build or read "
    "private fields (commits 943d2c9, 778396c)",
]
VERUS_BASE = [
    "Verus 0.2026.09.13, its bundled Z3 and the std contracts of vstd",
    "the extraction tools/vx.py keeps the meaning of what it copies (rewrites "
    "listed under notes; a shape it does not know stops the check)",
]


def split_of(s):
    """`a::{b,c}, d::e` -> [a::b, a::c, d::e]"""
    out = []
    for part in re.split(r",\s*(?![^{]*\})", s.strip()):
        m = re.match(r"(.*)\{(.*)\}$", part)
        if m:
            out += [m.group(1) + x.strip() for x in m.group(2).split(",")]
        elif part:
            out.append(part)
    return out


class H:
    def __init__(self, name, module):
        self.name = name
        self.qual = "%s::%s" % (module, name)
        self.functions = []
        self.bound = None
        self.timeout = 240
        self.thorough = False
        self.replayable = True
        self.solver = "cadical"
        self.unwind = 20
        self.fallback_ms = 5000
        self.rejects = False
        self.search_only = False


def parse(module):
    path = os.path.join(HERE, "harness", "src", module + ".rs")
    out, evs = [], []
    if not os.path.exists(path):
        return out, evs
    default_of, pend, attrs = [], {}, []
    started = False
    for line in open(path):
        s = line.strip()
        if s.startswith("harnesses!"):
            started = "h"
            continue
        if s.startswith("evals!"):
            started = "e"
            continue
        if not started:
            continue
        m = re.match(r"//@@ of: (.*)", s)
        if m:
            default_of = split_of(m.group(1))
            continue
        m = re.match(r"//@ (\w+):? ?(.*)", s)
        if m:
            pend[m.group(1)] = m.group(2)
            continue
        if s.startswith("#[kani::"):
            attrs.append(s)
            continue
        m = re.match(r"fn (c\d\d_\w+)\(\)", s)
        if m:
            if started == "e":
                h = E(m.group(1))
                h.functions = (split_of(pend["of"]) if "of" in pend
                               else default_of)
                h.bound = pend.get("bound")
                h.rule = pend.get("rule", h.rule)
                h.thorough = "thorough" in pend
                h.timeout = int(pend.get("timeout", h.timeout))
                evs.append(h)
                pend, attrs = {}, []
                continue
            h = H(m.group(1), module)
            h.functions = (split_of(pend["of"])
                           if "of" in pend else default_of)
            h.bound = pend.get("bound")
            h.timeout = int(pend.get("timeout", h.timeout))
            h.thorough = "thorough" in pend
            h.replayable = "noreplay" not in pend
            for a in attrs:
                k = re.match(r"#\[kani::solver\((\w+)\)", a)
                if k:
                    h.solver = k.group(1)
                k = re.match(r"#\[kani::unwind\((\d+)\)", a)
                if k:
                    h.unwind = int(k.group(1))
                if "should_panic" in a:
                    h.rejects = True
            out.append(h)
            pend, attrs = {}, []
    return out, evs


class E:
    """Native evaluation of a finite domain (complete unless `bound`)."""
    def __init__(self, name):
        self.name = name
        self.functions = []
        self.bound = None
        self.rule = "every element of the stated finite domain, once"
        self.thorough = False
        self.timeout = 300


class Check:
    def __init__(self, pid, level="proof", assumptions=(), trusted=(),
                 engs=(), technique="", note=""):
        self.pid = pid
        self.module = pid.lower()
        self.level = level
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.kani, self.evals = parse(self.module)
        self.engines = list(engs)
        self.technique = technique
        self.note = note


CHECKS = {}


def check(*a, **k):
    c = Check(*a, **k)
    CHECKS[c.pid] = c


KANI = ("contracts on the real compiled functions, discharged by Kani/CBMC "
        "for all inputs; data-structure invariants by induction over "
        "operations")

FIXED = (["fixed_point::FixedPoint::new"]
         + ["fixed_point::fix_%s::scaled_down" % t for t in ("i16", "u16", "i32", "u32", "i64", "u64")]
         + ["fixed_point::fix_%s::div" % t for t in ("i32", "u32", "i64", "u64")]
         + ["fixed_point::fix_%s::%s" % (t, f) for t in ("i32", "u32") for f in ("mul", "mul_wide")]
         + ["fixed_point::Fix%s::%s" % (t, f) for t in ("I32", "U32", "I64", "U64")
            for f in ("ulp", "trunc", "add", "sub", "div", "to_fix_%s32" % t[0].lower(), "to_fix_%s64" % t[0].lower())]
         + ["fixed_point::FixI32::neg", "fixed_point::FixI64::neg"]
         + ["fixed_point::types::%s::%s" % (t, f) for t in (
             "NoFractI32", "NoFractU32", "NoFractI64", "NoFractU64",
             "FractOnlyI32", "FractOnlyU32", "FractOnlyI64", "FractOnlyU64",
             "Log2D", "Log2Q", "StretchedProbD", "StretchedProbQ", "MixerWeight")
            for f in ("raw", "new_unchecked")]
         + ["fixed_point::types::%s::within_bounds" % t for t in (
             "FractOnlyI32", "FractOnlyU32", "FractOnlyI64", "FractOnlyU64", "StretchedProbD")])
check("C05", technique="contracts on the functions extracted mechanically from "
      "/repo on every run, discharged by Verus/Z3 for all raw values, shifts, "
      "divisors and format pairs: once with the run-time checks as obligations "
      "(a result that fits is returned), once with them as stops (whatever is "
      "returned is exact); the compiled code in Kani for listed formats",
      engs=[engines.Verus("fixed", FIXED), engines.Verus("fixed_partial", [])],
      note="Every format (fractional bits below the word size), raw value, "
           "shift and divisor, unbounded, in Verus; Kani proves listed format "
           "pairs on the compiled code; the sampled evaluation only supplies "
           "failing inputs.",
      assumptions=[
          "std integer contracts: saturating_add, signum, checked_neg, "
          "min_value, max_value (stated in verus/fixed.py), and vstd's own "
          "checked_add, checked_sub, max, shifts, division",
          "an assert! or expect that fails stops the call",
          "within half a divisor of the type's extremes a saturated rounding "
          "may be one unit nearer to zero (stated in the property)",
          "conversions from and to floating point and log2 are not part of "
          "this property"])
check("C12", technique=KANI,
      note="Every reachable tracker satisfies the invariant (induction over "
           "operations); all 2^16 x bit states symbolic.")
VERUS = ("contracts on the functions extracted mechanically from /repo on "
         "every run, discharged by Verus/Z3 for all inputs; ")
CODER = ["coding::encoder::Encoder::" + f for f in (
    "new", "encode_bit", "encode_rare_event", "normalize", "output_byte",
    "add_with_carry", "drop")] + ["coding::decoder::Decoder::" + f for f in (
    "new", "decode_bit", "decode_rare_event", "input_byte", "normalize")]
CODER_ASSUME = [
    "Write::write_all appends exactly the given bytes and Read::read_exact "
    "yields the next byte, or the coder panics (std contracts, trusted)",
    "a run of pending 0xff digits stays below 2^31-256 (the counter is an "
    "i32): beyond it the encoder stops with an overflow panic in a checked "
    "build",
    "FinalProbability holds a raw value in 1..2^23-1 (proved: C03)"]
check("C01", technique=VERUS + "round trip as a lemma over the contracts of "
      "encoder and decoder", engs=[engines.Verus("coder", CODER)],
      note="Round trip of every event sequence is a theorem over the "
           "contracts of the extracted encoder and decoder (unbounded); "
           "steered and exhaustive short sequences on the compiled code give "
           "failing inputs and are labelled bounded.",
      assumptions=CODER_ASSUME)
check("C02", technique=VERUS + "bytes consumed as a postcondition of the "
      "round-trip lemma", engs=[engines.Verus("coder", CODER)],
      note="The round-trip theorem ends with the decoder at the end of the "
           "encoder's output, its length 4 plus the renormalisations; "
           "bounded evaluations give failing inputs.",
      assumptions=CODER_ASSUME)
WINDOW = (["history::window::get_bit", "history::window::WindowIndex::new",
           "history::window::WindowIndex::raw"]
          + ["history::window::InputWindow::" + f for f in (
              "new", "start", "cursor", "size", "max_size", "advance_start",
              "advance_cursor", "check_size_invariants", "index_add",
              "index_increment", "index_subtract", "index_decrement",
              "index_diff", "index_is_smaller", "index_is_smaller_or_equal",
              "compare_for_equal_prefix", "compare_for_equal_prefix_straight",
              "bytes_differ_on", "get_bit", "set_bit_at_cursor",
              "set_byte_at_cursor", "for_each_suffix", "index")])
check("C14", technique=VERUS + "the window's content as a ghost sequence",
      engs=[engines.Verus("window", WINDOW)],
      note="Every window size, position, content and prefix length "
           "(unbounded); for_each_suffix with its callback as a log of the "
           "calls.",
      assumptions=[
          "Vec<u8>::with_capacity(n) allocates exactly n bytes, at most "
          "isize::MAX, and a Vec keeps its capacity until it is full (std; "
          "the code asserts the former at run time)",
          "the initial shift is smaller than the window size",
          "the byte-append protocol of the callers: set_bit_at_cursor and "
          "set_byte_at_cursor are used on a non-empty window"])
POOL = (["history::tree::nodes::NodeIndex::" + f for f in ("new", "raw", "is_root")]
        + ["history::tree::nodes::Nodes::" + f for f in (
            "new", "add_node", "update_node", "delete_node",
            "live_nodes_count", "index", "index_mut")]
        + ["history::tree::node_child::NodeChild::" + f for f in (
            "is_valid", "is_node_index", "to_node_index", "from<NodeIndex>")]
        + ["history::tree::node_child::NodeChildren::" + f for f in (
            "index", "index_mut")] + ["history::tree::node::Node::is_valid"])
check("C15", technique=VERUS + "free list as a ghost sequence; Kani for "
      "symbolic small pools", engs=[engines.Verus("nodes", POOL)],
      note="Pools of any size and any history of operations (Verus, "
           "unbounded); Kani and native groups on small pools give failing "
           "inputs.",
      assumptions=[
          "Vec::capacity is what the vector holds before it reallocates (std)",
          "the statistics carried by a node record are opaque to the pool",
          "delete_node and update_node are called on a slot in use, delete "
          "never on a root (the tree's callers; see C19)"])
INDEXER = (["util::indexer::IndexDimension::new", "util::indexer::IndexCommon::new"]
           + ["util::indexer::Indexer::" + f for f in (
               "new", "get_array_size", "with_sub_index",
               "get_array_index_and_reset", "inputs_num")]
           + ["util::indexer::Indexer%d::%s" % (n, f) for n in range(1, 7)
              for f in ("new_uninitialized", "dimensions_mut", "common_mut")])
check("C21", technique=VERUS + "bijection as lemmas over the contracts; Kani "
      "for rejections", engs=[engines.Verus("indexer", INDEXER)],
      note="Every number of dimensions and every size whose table fits the "
           "address space (Verus, unbounded); rejections and small shapes in "
           "Kani.",
      assumptions=["the table fits the address space (get_array_size "
                   "otherwise stops)"])
NOTES = {
    "C03": ("Every raw value of both probability types, compiled code (Kani, no "
            "bound).", []),
    "C04": ("log2 of every 64-bit value symbolically (Kani); log2 of every "
            "32-bit value, every table cell and the cost of every admissible "
            "probability by complete evaluation of the compiled code.",
            ["the reference logarithm (integer arithmetic to 2^-60) is right"]),
    "C06": ("Both functions evaluated on their whole domain (complete, not "
            "sampled) and compared with exact bounds; rejections in Kani.",
            ["tables are built with this machine's floating point"]),
    "C08": ("refine and update for every table, weight, rate and bit "
            "(Kani, tables symbolic); interpolation on all stops by complete "
            "evaluation; histories are bounded and only supply inputs.", []),
    "C09": ("Range and direction of a step for every state, rate and bit "
            "(Kani, any rate); with the default rates every prediction and "
            "count also by complete evaluation.", []),
    "C10": ("Every state, rate and bit (Kani, no bound).", []),
    "C11": ("Every state, cost and bit (Kani, no bound).", []),
    "C13": ("Every reachable history: the invariant is preserved by every "
            "operation (induction; every step symbolic in Kani).", []),
    "C16": ("All 2^32 links and all field values (Kani); every operation of a "
            "record separately.", []),
    "C17": ("Every state and bit symbolically (Kani); runs of every length up "
            "to the cap replayed completely.",
            ["estimator, run and history updates by their contracts (C09, C12, "
             "C13)"]),
    "C20": ("Every state of the tracker and every bit (Kani; induction over "
            "bits).", []),
    "C22": ("The whole domain of each quantiser (Kani).", []),
    "C23": ("Every state and byte for one step, and each fold; strings of any "
            "length by induction over their bytes (the fold is a loop over "
            "single steps).", []),
    "C27": ("Lookups for every argument (Kani); every table entry replayed "
            "against its definition (complete evaluation).",
            ["tables are built with this machine's floating point"]),
}
for i in ("C17", "C08", "C27", "C06", "C16", "C03", "C04", "C09", "C10", "C11", "C13", "C20", "C22", "C23"):
    check(i, technique=KANI, note=NOTES[i][0], assumptions=NOTES[i][1])
MIXER = (["fixed_point::types::%s::clamped" % t for t in ("StretchedProbQ", "MixerWeight")]
         + ["mixing::mixer::fixed_update_factor", "mixing::mixer::update_factor_index"]
         + ["mixing::mixer::Mixer::" + f for f in (
             "prediction_sq", "prediction_st", "weight", "set_input",
             "assert_input_is_set", "mix_all", "update_and_reset")]
         + ["mixing::mixer::Mixer%s::%s" % (n, f) for n in ("1", "2", "3", "4", "5", "N")
            for f in ("size", "inputs", "inputs_mut", "common", "common_mut")])
check("C07", technique=VERUS + "once with the run-time checks as obligations "
      "(a call within the protocol returns the exact mixture and the exact "
      "gradient step), once with them as stops (whatever call returns was "
      "within the protocol); direction and bounds as lemmas; constructors and "
      "failing inputs from Kani on the compiled code",
      engs=[engines.Verus("mixer", MIXER), engines.Verus("mixer_partial", [])],
      note="Every mixer size up to 30, every weight, input, rate and bit "
           "(Verus, unbounded histories by invariant); constructors for every "
           "size, mode and rate index in Kani and by complete evaluation.",
      assumptions=[
          "callee contracts: fix_i32::mul, mul_wide, add, sub, to_fix_i32 "
          "(C05), squash (C06: a function of its argument, admissible), rate "
          "table (C27: a rate below one for every count)",
          "derived Ord of the one-field number types (max, min)",
          "set_input is given a log-odds value within the limit (its type's "
          "own check; C06 for the values that stretch returns)"])
check("C26", technique=VERUS + "exact step contracts of every counter and the "
      "balance of the accounts as an invariant over whole histories; printed "
      "reports and failing inputs by Kani and evaluation on the compiled code",
      engs=[engines.Verus("stats", ["predictor::stats::PredictionStatistics::" + f for f in (
          "new", "start_new_byte", "on_next_bit")]),
            engines.Verus("report", ["predictor::stats::PredictionStatistics::" + f for f in (
          "print_state", "print_costs_and_occurrences_by_context_type",
          "print_costs_and_occurrences_by_symbol_value")])],
      note="Every number of reported contexts, every maximal order and every "
           "history of less than 2^47 bits (Verus, unbounded by invariant); "
           "the single steps once more in Kani on the compiled code for up to "
           "six contexts.  Every value printed is the counter, sum or "
           "quotient that belongs there (Verus, for a maximal order of at "
           "least 4 and less than 2^61 bytes); the printed text bounded.",
      assumptions=[
          "callee contracts: Log2Q::add exact or stopping (C05), the cost of a "
          "bit is a function of probability, bit and table (C04), "
          "unfinished_byte and previous_byte_1 (C20)",
          "the number of contexts reported is at most one more than the "
          "maximal order (C18, C19)",
          "a counter of bits fits 47 bits; the sum of costs itself is proved "
          "to stop rather than wrap"])
check("C28", technique=VERUS + "the calls to the predictor as a ghost history, "
      "length and cost as functions of the file; the printed report by "
      "evaluation of the compiled program",
      engs=[engines.Verus("program", ["main::estimate_compression", "bit::Bit::from<bool>"])],
      note="The loop over the file for every file (Verus, unbounded by "
           "invariant) and the value printed under each label; the printed "
           "text bounded.",
      assumptions=[
          "Read::bytes of a BufReader gives every byte of the file in order, "
          "or an error (std)",
          "a prediction is a function of the calls made so far (C25)",
          "floating point operations are functions of their operands "
          "(uninterpreted; the evaluation compares the numbers)",
          "the statements that time, and how a value is formatted, are left "
          "out of the proof; a file has less than 2^61 bytes"])
check("C24", technique=VERUS + "the MT19937-64 recurrence as a recursive "
      "specification; Kani for derived numbers and failing inputs",
      engs=[engines.Verus("twister", ["random::MersenneTwister::" + f for f in (
          "new_by_scalar_seed", "new_by_vector_seed", "next_int64",
          "next_int63")])],
      note="Every seed (vectors of any positive length) and every position of "
           "the endless sequence (Verus, unbounded); derived reals in Kani.",
      assumptions=["usize has 64 bits", "a vector seed is not empty (the "
                   "generator then stops with an index panic)"])
EXPLORE = ("bounded stand-in: the compiled code followed step by step on "
           "enumerated and generated inputs against ")
SOURCES = (WINDOW
           + ["history::ContextState::" + f for f in (
               "is_for_node", "starting_state", "next_state",
               "last_occurrence_distance")]
           + ["history::tree::node::CostTrackers::new"]
           + ["history::naive::NaiveHistorySource::" + f for f in (
               "new", "start_new_byte", "gather_history_states",
               "process_input_bit")]
           + ["history::fat_map::FatMapHistorySource::" + f for f in (
               "new", "start_new_byte", "compute_hash",
               "gather_history_states", "process_input_bit")])
check("C18", technique=VERUS + "the definition of the context statistics as a "
      "recursive specification, the hash maps tied to it by an invariant; for "
      "the suffix tree a bounded stand-in (the compiled code followed step by "
      "step against the definition)",
      engs=[engines.Verus("sources", SOURCES, timeout=600)],
      note="That the brute-force and the hash-map source report the "
           "definition's statistics is proved for every input, order limit "
           "and bit position (unbounded); for the suffix tree the same "
           "comparison is a bounded enumeration on the compiled code, "
           "labelled bounded.",
      assumptions=[
          "std HashMap and hashing: entry/get/or_insert are those of a map, "
          "the hash is a function of the hasher's seed and of what was "
          "written to it (collisions are allowed)",
          "the statistics inside a state (estimator, recent bits, runs, costs) "
          "are opaque functions here; their own contracts are C09, C11, C12, "
          "C27",
          "the callers' protocol: cost trackers are passed for exactly the "
          "orders whose context is a node, all with the default value (the "
          "sources other than the tree require it by assertion)",
          "derived Clone and Eq of the state types copy and compare fields"])
TREE = (["history::tree::TreeHistorySource::" + f for f in (
            "new_special", "new", "start_new_byte", "gather_history_states",
            "process_input_bit")]
        + ["history::tree::Tree::" + f for f in (
            "new", "start_new_byte", "remove_leftmost_suffix",
            "gather_states", "extend", "split_edge", "setup_split_edge",
            "split_degenerate_root_edge", "get_root_node_index", "nodes",
            "nodes_mut", "tree_state")]
        + ["history::tree::context::ActiveContexts::" + f for f in (
            "new", "shift", "max_order", "count", "keep_only")]
        + ["history::tree::context::Context::descend"]
        + ["history::tree::node::Node::" + f for f in (
            "new", "update_on_next_bit", "text_start", "child", "depth",
            "probability_estimator", "cost_trackers", "left_count",
            "right_count", "bits_runs", "recent_bits")]
        + ["history::tree::node::CostTrackers::new"]
        + ["history::tree::node_child::NodeChildren::" + f for f in (
            "new", "items", "items_mut", "index", "index_mut")]
        + ["history::tree::node_child::NodeChild::" + f for f in (
            "from", "is_window_index", "is_node_index", "to_window_index",
            "to_node_index")]
        + ["history::tree::direction::Direction::" + f for f in (
            "from", "not")])
check("C19", level="exploration", technique=VERUS + "structure of the suffix "
      "tree and of the tracked contexts as an invariant over any history, each "
      "step of extension and removal under an exact contract; that the answers "
      "are those of the bytes in the window: bounded, the compiled code "
      "followed against a contract model",
      engs=[engines.Verus("tree", TREE)],
      note="Proved for every window, order and history as long as no run-time "
           "check of the tree stops it: no link dangles or is missing, no "
           "record is reached by two links or leads to the root, tracked "
           "contexts refer to live records, counts stay 1..1000, at most "
           "max_order + 1 contexts, and removal, extension and splits do "
           "exactly the stated step. Bounded (hence level exploration): that "
           "the answers are those of the bytes in the window, that no check "
           "stops, and that every suffix in the window is reachable.",
      assumptions=[
          "contracts of the record pool (C15) and of the window (C14) as "
          "proved there",
          "a run-time check that fails stops the program (explored: none "
          "does)",
          "the walk of remove_leftmost_suffix ends (not proved)",
          "an estimate stays in its range under updates (C09)",
          "Vec::with_capacity(n).capacity() is n",
          "lifetimes of the tables are written 'static in the verified copy"])
KITS = (["predictor::kits::EstimatorsWithIndexer::" + f for f in (
            "new", "predict", "update")]
        + ["predictor::kits::MixersWithIndexer::" + f for f in (
            "new", "pre_predict", "predict", "update", "current_mixer")]
        + ["predictor::single::SingleContextPredictor::" + f for f in (
            "new_edge_mixer", "edge_mixer_extra_dimensions", "new_node_mixer",
            "node_mixer_extra_dimensions", "new", "predict", "update")]
        + ["quantize_distance", "quantize_cost_trackers"]
        + ["predictor::chain::ContextsChainPredictionMixer::" + f for f in (
            "new", "predict", "update", "compare_context_states")]
        + ["predictor::post_process::PredictionFinalizer::" + f for f in (
            "new", "refine", "update")]
        + ["quantize_contexts_count", "history::ContextState::is_for_node"]
        + ["predictor::Predictor::" + f for f in (
            "new", "start_new_byte", "predict", "update")])
check("C25", technique=VERUS + "the predict/update pairing, every index, every "
      "mixer slot and the admissible result as an invariant of the whole "
      "predictor over any history; the lockstep of two sides over whole "
      "inputs bounded (second predictor, encoder and decoder)",
      engs=[engines.Verus("predictor", KITS)],
      note="That every prediction succeeds, is admissible and leaves the "
           "predictor ready for the next bit is proved for every history of "
           "bits and every report of the history source its contract allows "
           "(Verus, unbounded). Of that contract the suffix tree's counts, "
           "estimators and number of contexts are proved (C19), the order "
           "of contexts is only explored (bounded); that two predictors agree "
           "bit for bit on whole inputs is a bounded enumeration on the "
           "compiled code; beyond it the agreement rests on safe Rust "
           "without statics, clocks or threads being a function of its "
           "inputs.",
      assumptions=[
          "the history source reports at most one context per order, contexts "
          "that saw both bits first (explored), counts from 1 to 1000 and estimators "
          "within their range (C09, C17, C18, C19)",
          "callee contracts: indexers (C21), mixers (C07), probability maps "
          "(C08), last bytes (C20), estimators (C09), quantizer (C22), "
          "squash and stretch (C06), cost trackers (C27), statistics (C26)",
          "closures passed to the kits are replaced by the lists of their "
          "calls (purely syntactic; a different shape is not decided)",
          "Vec::with_capacity(n).capacity() is n",
          "lifetimes of the tables are written 'static in the verified copy"])


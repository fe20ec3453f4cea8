#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

H = "cfg(any(kani, demixer_verif)) constructors/readers for private fields"

p("C01", "Entropy coding is lossless for every event sequence",
  "Whatever sequence of bits (each with any admissible probability) and rare events is encoded, decoding the produced bytes with the same sequence of probabilities returns exactly the same bits and rare-event flags, in order. This holds whatever carries and runs of 0xFF bytes the encoder meets on the way.",
  ["inputs", "histories"], "every finite sequence of events, every probability, every carry/0xFF-run history",
  "coding_symbols.rs encodes a few pseudo-random sequences; long carry chains, ranges at the normalisation boundary and probabilities at the extremes are practically never sampled.",
  ["src/coding/encoder.rs", "src/coding/decoder.rs", "src/coding/mod.rs"],
  [("interval subdivision", "Encoder::encode_bit / Decoder::decode_bit, encode_rare_event / decode_rare_event"),
   ("carry propagation", "Encoder::output_byte, Encoder::add_with_carry"),
   ("renormalisation", "Encoder::normalize, Decoder::normalize, Decoder::input_byte")],
  [("rc_buffer, rc_range", "31-bit low end and width of the current interval", "coding/encoder.rs, coding/decoder.rs"),
   ("delay, last_output_byte, run_length_0xff, carry", "bytes not yet written because a carry may still reach them", "coding/encoder.rs")],
  ["bytes written by Encoder", "Decoder::decode_bit", "Decoder::decode_rare_event"], H)

p("C02", "Decoder consumes exactly the bytes the encoder wrote",
  "For every event sequence the decoder, having decoded the last event, has read no byte beyond those the encoder produced for that sequence, and after finishing the encoder has produced a number of bytes fixed by the renormalisations performed, none lost or duplicated in carry handling. So data placed after a compressed stream stays untouched and decoding never runs out of input.",
  ["inputs", "histories"], "every finite sequence of events and every carry/0xFF-run history",
  "the tests check total lengths for a few random sequences only; delayed bytes and 0xFF runs at the flush are rare.",
  ["src/coding/encoder.rs", "src/coding/decoder.rs"],
  [("delayed output", "Encoder::output_byte"), ("flush of five bytes on drop", "Encoder::drop"), ("four-byte priming and one byte per renormalisation", "Decoder::new, Decoder::normalize")],
  [("delay, run_length_0xff", "count of bytes held back", "coding/encoder.rs")],
  ["writer length", "reader position"], H)

p("C03", "Coder probabilities are never impossible or certain",
  "Every probability that reaches the entropy coder is strictly between impossible and certain, whatever estimate it was derived from, so that either bit value can always be coded. Estimates inside the representable range keep their value up to rounding; estimates at or beyond the ends are moved to the nearest admissible value.",
  ["inputs"], "every raw probability and every conversion from the 31-bit, 63-bit and estimator representations",
  "tests only reach estimates produced by sampled histories; the clamped ends need exact extreme values.",
  ["src/coding/mod.rs", "src/fixed_point/mod.rs", "src/fixed_point/types.rs"],
  [("clamping constructor", "FinalProbability::new_unchecked"), ("rounding conversion", "FixU32::to_fix_u32, FixU64::to_fix_u32")],
  [("raw", "23-bit fixed point probability of bit 0", "coding/mod.rs")],
  ["FinalProbability::raw", "Encoder::encode_bit"], None)

p("C04", "Bit-cost estimates are positive, symmetric and accurate",
  "The estimated cost of coding a bit is positive, is the same for a bit with probability p as for the opposite bit with probability 1-p, does not increase when the bit gets more probable, and differs from the exact -log2(p) by no more than the table's resolution (less than two units of 2^-11 bit). The integer logarithm used for it is defined for every non-zero fixed-point number.",
  ["inputs"], "every admissible probability and both bit values; every non-zero 32-bit mantissa",
  "cost tests compare a few probabilities with floating point.",
  ["src/coding/mod.rs", "src/fixed_point/mod.rs", "src/lut/log2.rs"],
  [("table lookup plus leading-zero count", "FixU32::log2, Log2Lut::log2_restricted"), ("cost", "FinalProbability::estimate_cost")],
  [("diff table", "log2(1+x)-x scaled", "lut/log2.rs")], ["FinalProbability::estimate_cost", "FixU32::log2"], H)

p("C05", "Fixed-point arithmetic rounds correctly and never wraps",
  "Every fixed-point operation (down-scaling, division, multiplication, addition, subtraction, negation, conversion between formats) returns the exact mathematical result rounded to nearest with halves away from zero, or stops with a panic when the result does not fit the target format; it never returns a silently wrapped value. Conversions to a finer format are exact and lossless. (Rounding goes through saturating intermediates: within half a divisor of the type's extremes the result may be one unit nearer to zero than the nearest.)",
  ["inputs"], "all raw values and all admissible shifts/divisors/format pairs used in the library",
  "fixed_point_numbers.rs samples a handful of values; saturation and the extremes of each format are not reached.",
  ["src/fixed_point/mod.rs", "src/fixed_point/types.rs"],
  [("rounding shift/division", "fix_{i16,u16,i32,u32,i64,u64}::scaled_down, ::div"), ("widening multiplication", "fix_{i32,u32}::mul, ::mul_wide"), ("checked add/sub and conversions", "FixI32, FixU32, FixI64, FixU64 trait methods")],
  [], ["return values", "panics"], None)

p("C06", "Stretch and squash are bounded, symmetric and monotone inverses",
  "Squash maps every admissible log-odds value to a probability strictly between 0 and 1 and stretch maps every probability strictly between 0 and 1 to log-odds within the supported limit; both are monotone up to one unit in the last place, stretch(1-p) equals -stretch(p) and squash(-x) equals 1-squash(x) exactly. Each undoes the other up to the resolution of the tables.",
  ["inputs"], "every 31-bit probability and every 21-bit fractional log-odds value within the limit",
  "sigmoid tests sample the domain; interpolation at table seams and level boundaries is where errors hide.",
  ["src/lut/stretch.rs", "src/lut/squash.rs", "src/lut/log2.rs"],
  [("two-level interpolated table", "StretchLut::stretch"), ("inverse table by bisection, interpolated", "SquashLut::new, SquashLut::squash")],
  [("stretch table", "log-odds at 8x512 stops", "lut/stretch.rs"), ("squash table", "probability at 3073 stops", "lut/squash.rs")],
  ["StretchLut::stretch", "SquashLut::squash"], H)

p("C07", "Mixing keeps outputs and weights bounded and respects its protocol",
  "A mixer returns a log-odds value within the supported limit together with exactly the probability squash assigns to it, for every set of inputs and weights; an update moves every weight in the direction that reduces the error on the coded bit, never by wrapping, and leaves each within the weight limit. Each input must be set exactly once per prediction and a mixer with a missing or repeated input is rejected rather than used.",
  ["inputs", "histories"], "every weight vector, every input vector, every order of set/mix/update calls, every mixer size",
  "mixing tests run a few synthetic sequences; saturation of the dot product and of weights is not reached.",
  ["src/mixing/mixer.rs"],
  [("dot product and clamp", "Mixer::mix_all"), ("gradient step and clamp, input mask", "Mixer::update_and_reset, Mixer::set_input")],
  [("weights", "21-bit fractional weights limited to +-8", "mixing/mixer.rs"), ("common.inputs_mask", "which inputs were set", "mixing/mixer.rs")],
  ["Mixer::mix_all", "Mixer::prediction_sq/st", "Mixer::weight"], H)

p("C08", "Adaptive probability maps interpolate and adapt within bounds",
  "A refined probability always lies, up to one unit of rounding, between the two neighbouring table entries it is interpolated from and is never 0 or 1; an update moves exactly the entries that were used for the last refinement towards the coded bit, keeps them strictly between 0 and 1 and leaves every other entry of every context unchanged.",
  ["inputs", "histories"], "every context, every stretched input, every rate, every table content reachable by updates",
  "mapping tests drive a single map with sampled probabilities.",
  ["src/mixing/apm.rs", "src/lut/apm.rs"],
  [("weighted interpolation", "AdaptiveProbabilityMap::refine"), ("entry update", "AdaptiveProbabilityMap::update_predictions"), ("precomputed stops and weights", "ApmWeightingLut")],
  [("mappings", "per context table of probabilities", "mixing/apm.rs"), ("saved_left_context_index, saved_left_weight", "what the last refinement used", "mixing/apm.rs")],
  ["refine", "update_predictions"], H)

p("C09", "Adaptive-rate estimator stays in range and moves towards the bit",
  "After any sequence of updates an adaptive-rate estimator predicts a probability strictly between 0 and 1, its usage count is the number of updates capped at the limit, and each update moves the prediction towards the observed bit (or leaves it when already at the end), by the fraction the rate table prescribes for the current count. Zero bits and one bits are treated symmetrically up to rounding.",
  ["inputs", "histories"], "every reachable estimator state, both bits, every update history",
  "estimator tests run a few fixed bit strings.",
  ["src/estimators/decelerating.rs", "src/lut/estimator.rs"],
  [("packed prediction and count update", "DeceleratingEstimator::update"), ("rate table", "DeceleratingEstimatorRates")],
  [("raw", "22-bit prediction and 10-bit count", "estimators/decelerating.rs")],
  ["prediction()", "usage_count()"], H)

p("C10", "Fixed-rate estimator stays in range and moves towards the bit",
  "After any sequence of updates a fixed-rate estimator predicts a probability strictly between 0 and 1, and every update moves the prediction towards the observed bit by 1/128 of its distance (rounded down), never past it and never in the other direction.",
  ["inputs", "histories"], "all 65535 states, both bits, hence every update history",
  "tests follow a few bit strings from the default state.",
  ["src/estimators/fixed_speed.rs"], [("shift-based update", "FixedSpeedEstimator::update")],
  [("raw", "16-bit probability", "estimators/fixed_speed.rs")], ["prediction()"], None)

p("C11", "Cost trackers follow an exponentially decaying average",
  "A cost tracker's value after an update is the previous value reduced by one sixteenth (rounded to nearest) plus the new cost, never wrapping around; it therefore stays within sixteen times the largest cost it was given (plus rounding) or decays towards that from its starting value, and two trackers fed the same costs stay ordered the same way. (Near saturation the rounded decay may be one unit smaller.)",
  ["inputs", "histories"], "every tracker value and every positive cost",
  "cost_tracking.rs follows two trajectories.",
  ["src/estimators/cost.rs"], [("decay and saturating add", "CostTracker::updated")],
  [("raw", "16-bit decayed cost", "estimators/cost.rs")], ["CostTracker::raw"], None)

p("C12", "Bit-run tracker remembers the last three run lengths",
  "After any sequence of bits the run tracker reports the last bit, the length of the current run, the length of the opposite run before it and of the run before that, each capped at the documented maximum, and reports a single-bit run exactly when only one run was seen. A tracker created for a run equals one that was fed the run bit by bit.",
  ["histories"], "every bit sequence of every length",
  "tests feed sampled sequences; the capped lengths and field boundaries need thousands of equal bits in a row in each field.",
  ["src/history/state/bits_runs.rs"], [("packed fields", "BitsRunsTracker::updated, for_bit_run, for_new_node")],
  [("raw", "bit, three 10-bit run lengths", "history/state/bits_runs.rs")], ["last_bit..last_bit_previous_run_length"], H)

p("C13", "Recent-bit history is exactly the most recent bits",
  "After any sequence of bits the recent-bit history holds exactly the last bits, up to fifteen, with their number; its histogram counts the zeros and ones among them and its short form gives the last seven (or all, when fewer). A history created for a run equals one that was fed the run bit by bit.",
  ["histories"], "every bit sequence of every length",
  "tests sample sequences shorter than the state space.",
  ["src/history/state/recent_bits.rs"], [("leading-one shift register", "RecentBitsHistory::updated, for_bit_run, for_new_node, histogram, last_7_bits")],
  [("raw", "leading one followed by the bits", "history/state/recent_bits.rs")], ["histogram()", "last_7_bits()"], H)

p("C14", "Input window is a faithful circular view of the most recent input",
  "For every window size and position, the window holds exactly the bytes appended and not yet dropped, in order; index arithmetic (add, subtract, difference, comparison) agrees with positions in that sequence also across the wrap, and prefix comparison answers true exactly when the given number of whole bytes and leading bits are equal. Bits are stored and read back individually without disturbing others.",
  ["inputs", "histories"], "every capacity, every initial shift, every append/drop history, every pair of positions and lengths",
  "array_indexing.rs and the tree tests use a few fixed sizes; wrap-around cases with long prefixes are rare.",
  ["src/history/window.rs"],
  [("modular index arithmetic", "InputWindow::index_add/index_subtract/index_diff/index_is_smaller"), ("prefix comparison", "compare_for_equal_prefix(_straight/_wrapping)"), ("append/drop", "advance_cursor, advance_start, set_bit_at_cursor")],
  [("buffer, start, cursor, size", "circular buffer", "history/window.rs")],
  ["Index<WindowIndex>", "get_bit", "compare_for_equal_prefix"], H)

p("C15", "Node pool never hands out a node that is in use",
  "The pool returns on each allocation a node that is neither a root nor currently in use, deleting a node makes exactly that node available again, and no allocation, deletion or update changes any other live node. The number of live nodes it reports is the number allocated minus the number deleted, for every sequence of operations.",
  ["histories"], "every sequence of allocate/update/delete and every capacity",
  "only exercised indirectly by tree tests.",
  ["src/history/tree/nodes.rs"], [("free list threaded through dead nodes", "Nodes::add_node, delete_node, update_node")],
  [("items, next_to_delete/first_removed", "storage and free-list head", "history/tree/nodes.rs")],
  ["Nodes::add_node", "Index<NodeIndex>"], H)

p("C16", "Packed tree links and node records round-trip without confusion",
  "A tree link built from a window position reads back as that window position and one built from a node index as that node index; the two kinds are never confused, no valid link equals the invalid link and roots are never stored as children. A node record returns every field it was created with, and updating it on a bit changes exactly the statistics of that bit.",
  ["inputs"], "every window index, node index and node field value",
  "tree tests reach small indices only.",
  ["src/history/tree/node_child.rs", "src/history/tree/node.rs", "src/history/tree/direction.rs"],
  [("sign-bit tagging", "NodeChild::from, to_window_index, to_node_index"), ("record", "Node::new, update_on_next_bit")],
  [("value", "i32 tag", "history/tree/node_child.rs")], ["NodeChild", "Node accessors"], H)

p("C17", "Context statistics evolve exactly as the bit history says",
  "The statistics of a context after any number of occurrences are those of its bit history: a context that has only seen one bit value reports that bit and the capped count, and one that has seen both reports the capped number of occurrences, the recent bits, the runs and the estimator obtained by replaying the history. In particular the jump from one-valued to two-valued context loses nothing.",
  ["histories"], "every bit history of a context, every distance",
  "the comparison tests sample short histories; counts at the cap and long runs before the first opposite bit are not reached.",
  ["src/history/mod.rs", "src/history/tree/node.rs"], [("state transition", "ContextState::starting_state, next_state"), ("incremental update", "Node::update_on_next_bit")],
  [("ForEdge/ForNode", "statistics of a context", "history/mod.rs")], ["HistorySource::gather_history_states"], H)

p("C18", "All history sources report identical context statistics",
  "The suffix-tree history, the hash-map history and the brute-force history report the same contexts with the same statistics for every prefix of every input, for every maximal order. The brute-force source is the definition.",
  ["inputs"], "every input, every order limit, every bit position",
  "compare_history_sources tests use some fixed and some random inputs.",
  ["src/history/tree/mod.rs", "src/history/tree/context.rs", "src/history/fat_map.rs", "src/history/naive.rs"],
  [("suffix tree with active contexts", "Tree::extend, ActiveContexts::shift, Context::descend"), ("hash of context", "FatMapHistorySource::compute_hash")],
  [("active_contexts", "positions of the current suffixes in the tree", "history/tree/context.rs")],
  ["gather_history_states"], None)

p("C19", "A sliding window forgets exactly the bytes that left it",
  "When the input exceeds the window, the contexts still held answer as before and the tree stays structurally sound: every suffix in the window is reachable, nothing outside it is referenced, and behaviour does not depend on where in the circular buffer the window happens to lie. Removing the oldest byte never corrupts the contexts being tracked.",
  ["inputs", "histories"], "every input longer than the window, every window size and initial shift",
  "sliding_window_trees.rs uses sampled strings and sizes.",
  ["src/history/tree/mod.rs", "src/history/window.rs", "src/history/tree/nodes.rs"],
  [("suffix removal", "Tree::remove_leftmost_suffix"), ("node recycling", "Nodes::delete_node")],
  [("window.start/cursor", "live part of the buffer", "history/window.rs")],
  ["gather_history_states", "check_integrity_on_next_byte"], None)

p("C20", "Last-bytes cache exposes exactly the last bytes and unfinished bits",
  "After any sequence of bytes and bits the cache reports the three previous bytes and the bits of the unfinished byte with their number; its order-1 hash identifies them injectively and the order-2 and order-3 hashes are functions of exactly the previous two or three bytes and the unfinished bits. Starting a byte before the previous one is finished, or adding bits without starting one, is rejected.",
  ["histories"], "every byte/bit sequence",
  "last_bytes_cache.rs follows one sequence.",
  ["src/util/last_bytes.rs"], [("shift register", "LastBytesCache::start_new_byte, on_next_bit, unfinished_byte, previous_byte_*, hash01_16..hash03_16")],
  [("bytes_cache, bit_index", "last four bytes and position", "util/last_bytes.rs")], ["accessors"], H)

p("C21", "Multi-dimensional indexing is a bijection onto the table",
  "For every list of dimension sizes, each tuple of in-range sub-indices maps to its own slot within the table and every slot is reached; out-of-range, missing or surplus sub-indices are rejected and the indexer is ready for the next tuple afterwards.",
  ["inputs", "configurations"], "every dimension vector (1 to 6 dimensions) whose product fits, every sub-index tuple",
  "indexing test enumerates one small shape.",
  ["src/util/indexer.rs"], [("mixed-radix accumulation", "Indexer::with_sub_index, get_array_index_and_reset, get_array_size")],
  [("dimensions, current_input_index", "limits and current tuple", "util/indexer.rs")], ["get_array_index_and_reset"], None)

p("C22", "Quantizers are monotone, gap-free and bounded",
  "Occurrence-count quantisation is monotone, exact for small counts, uses every level up to its declared maximum without gaps and keeps every level within a factor of 1.5 wide; distance and cost-ratio quantisation always yield a level inside the range their tables are sized for and are monotone in their argument.",
  ["inputs"], "all 65536 counts, every distance, every pair of tracker values, every number of contexts",
  "quantization.rs checks listed values.",
  ["src/util/quantizers.rs", "src/predictor/single.rs", "src/predictor/post_process.rs"],
  [("log-linear quantiser", "OccurrenceCountQuantizer::quantize"), ("distance/cost/context-count quantisers", "quantize_distance, quantize_cost_trackers, quantize_contexts_count")],
  [], ["quantize", "max_output"], H)

p("C23", "Hashes are FNV-1a",
  "The hash of any byte string equals its 64-bit FNV-1a value, independent of how it is fed, and the 32- and 16-bit forms are its xor-foldings.",
  ["inputs", "histories"], "every state and byte, hence every byte string",
  "hashing.rs checks some strings.",
  ["src/util/hash.rs"], [("xor-multiply step", "Fnv1A::mix_byte"), ("xor folding", "into_u32, into_u16")],
  [("state", "64-bit hash", "util/hash.rs")], ["into_u64/u32/u16"], H)

p("C24", "Random numbers are the MT19937-64 sequence",
  "Seeded with a scalar or a vector, the generator produces exactly the MT19937-64 sequence of that seed, at every position and across every block boundary; derived integers and reals lie in their documented intervals.",
  ["inputs", "histories"], "every seed (scalar or vector of any length) and every position",
  "one seed vector and its first 1000 outputs are compared.",
  ["src/random/mod.rs"], [("recurrence and tempering", "MersenneTwister::next_int64"), ("initialisation", "new_by_scalar_seed, new_by_vector_seed")],
  [("state, index", "312 words and position", "random/mod.rs")], ["next_int64", "next_int63", "next_real*"], H)

p("C25", "Compressor and decompressor stay in lockstep",
  "Two predictors fed the same bits give the same admissible probability before every bit, whatever the input, so a file coded with one and decoded with the other is restored exactly. Prediction never fails on any input and does not depend on when or how often predictors are created.",
  ["inputs", "histories"], "every input file",
  "no test drives the predictor and the coder together.",
  ["src/predictor/mod.rs", "src/predictor/chain.rs", "src/predictor/single.rs", "src/predictor/kits.rs", "src/predictor/post_process.rs"],
  [("predict/update pairing", "Predictor::predict, Predictor::update"), ("mixer and estimator selection", "kits.rs, chain.rs"), ("final adjustment", "FinalProbabilityAdjuster")],
  [("predictor state", "history, mixers, estimators", "predictor/*.rs")], ["Predictor::predict"], None)

p("C26", "Reported statistics account for every bit exactly once",
  "The total cost reported equals the sum of the estimated costs of all coded bits that had a context, the per-context-class costs and counts add up to the totals, and every finished byte is counted once under its own value. Accounting never wraps.",
  ["histories"], "every sequence of bytes, contexts and probabilities",
  "no test looks at the statistics.",
  ["src/predictor/stats.rs"], [("accumulation", "PredictionStatistics::on_next_bit, start_new_byte")],
  [("counters", "per class and per symbol", "predictor/stats.rs")], ["print_state"], H)

p("C27", "Precomputed tables equal what they stand for",
  "Each precomputed state (estimators and cost trackers for a context that has seen a run and possibly one opposite bit, predictions for runs, interpolation weights, update rates) equals the state obtained by actually replaying that run (predictions for runs start from one half with a count of one; estimators for a closing zero bit are the mirror image of those for a closing one bit, up to rounding), for every run length up to the cap and both bit values; longer runs give the capped entry.",
  ["inputs", "configurations"], "every run length, both bits, every table entry",
  "the table tests look at a few entries.",
  ["src/lut/estimator.rs", "src/lut/cost.rs", "src/lut/apm.rs", "src/lut/mod.rs"],
  [("caches", "DeceleratingEstimatorCache::for_new_node, DeceleratingEstimatorPredictions::for_0_bit_run, CostTrackersLut::for_new_node, ApmWeightingLut")],
  [("tables", "closed terms without inputs", "lut/*.rs")], ["for_new_node", "for_0_bit_run"], None)

p("C28", "The program reports a file's exact length and coding cost",
  "For every file it can read, the program announces each byte to the predictor once, in order, asks for a prediction before every bit (most significant first) and shows it exactly that bit afterwards; it reports the file's exact length and, as total cost, the sum over all bits of the information content of the bit under the prediction made before it was shown; the averages and the ratio follow from these two. A file that cannot be read to its end gives an error, never a report of a part.",
  ["inputs"], "every file, read in whatever pieces",
  "no test runs the program.",
  ["src/main.rs", "src/bit/mod.rs"], [("reading, predicting and adding up", "main::estimate_compression")],
  [("total_cost_in_bits, total_bytes", "what is reported", "main.rs")], ["standard output"], None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))

//! C12: bit-run tracker.
use crate::nd::*;
use demixer::bit::Bit;
use demixer::history::state::bits_runs::BitsRunsTracker;

const CAP: u16 = BitsRunsTracker::MAX_RUN_LENGTH;

/// Abstract view: (last bit, last run, opposite run before, run before that).
type View = (bool, u16, u16, u16);

fn view(t: &BitsRunsTracker) -> View {
    (t.last_bit().is_1(), t.last_bit_run_length(), t.opposite_bit_run_length(),
     t.last_bit_previous_run_length())
}

/// Representation invariant of every reachable tracker: lengths are capped, a
/// run further back exists only when the ones after it do.
fn inv(t: &BitsRunsTracker) -> bool {
    let v = view(t);
    v.1 <= CAP && v.2 <= CAP && v.3 <= CAP
        && t.is_single_bit_run() == (v.2 == 0 && v.3 == 0)
}

/// Specification of one more bit.
fn spec_updated(v: View, bit: bool) -> View {
    if bit == v.0 {
        (v.0, if v.1 < CAP { v.1 + 1 } else { CAP }, v.2, v.3)
    } else {
        (bit, 1, v.1, v.2)
    }
}

fn spec_run(bit: bool, len: u16) -> View {
    (bit, if len < CAP { len } else { CAP }, 0, 0)
}

harnesses! {
    //@@ of: history::state::bits_runs::BitsRunsTracker::{new,updated,for_bit_run,for_new_node,last_bit,last_bit_run_length,opposite_bit_run_length,last_bit_previous_run_length,is_single_bit_run}
    fn c12_updated() {
        let t = BitsRunsTracker::verif_from_raw(any());
        assume(inv(&t));
        let b = any_bit();
        reach!();
        let u = t.updated(b);
        assert!(view(&u) == spec_updated(view(&t), b.is_1()), "updated: spec");
        assert!(inv(&u), "updated: invariant preserved");
    }

    fn c12_new() {
        assert!(view(&BitsRunsTracker::new()) == (false, 0, 0, 0), "new: empty");
        assert!(inv(&BitsRunsTracker::new()), "new: invariant");
        assert!(BitsRunsTracker::NEW == BitsRunsTracker::new(), "new: NEW");
        reach!();
    }

    fn c12_for_bit_run() {
        let b = any_bit();
        let n: u16 = any();
        let t = BitsRunsTracker::for_bit_run(b, n);
        reach!();
        assert!(view(&t) == spec_run(b.is_1(), n), "for_bit_run: spec");
        assert!(inv(&t), "for_bit_run: invariant");
        assert!(t.is_single_bit_run(), "for_bit_run: single run");
        // feeding one more bit equals the run longer by one (induction step:
        // a run of n is n updates of the empty run)
        assert!(BitsRunsTracker::for_bit_run(b, n.saturating_add(1))
            == t.updated(b), "for_bit_run: step");
        // an empty run equals a new tracker up to the (unused) bit
        let z = BitsRunsTracker::for_bit_run(b, 0);
        assert!(z.updated(b) == BitsRunsTracker::for_bit_run(b, 1)
            && BitsRunsTracker::new().updated(b)
                == BitsRunsTracker::for_bit_run(b, 1), "for_bit_run: base");
    }

    fn c12_for_new_node() {
        let b = any_bit();
        let n: u16 = any();
        assume(n >= 1);
        reach!();
        let t = BitsRunsTracker::for_new_node(b, n);
        assert!(view(&t) == (b.is_1(), 1, n.min(CAP), 0), "for_new_node: spec");
        assert!(inv(&t), "for_new_node: invariant");
        assert!(t == BitsRunsTracker::for_bit_run(!b, n).updated(b),
                "for_new_node: replay");
    }
}

evals! {}

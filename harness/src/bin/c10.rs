//! C10: JSON string ordering is the ordering of decoded text.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::strs::{self, Repr};
use std::cmp::Ordering;

fn judge(case: &[u8], w: &mut W) {
    let Some((a, b)) = Repr::pair(case) else { return };
    let (Some(x), Some(y)) = (a.make(), b.make()) else {
        w.fail("rejected", "a representation was not accepted");
        return;
    };
    let want = a.text.as_str().cmp(b.text.as_str());
    w.traces += 1;
    w.state(a.state());
    w.edge(strs::relation(&a, &b), 0);
    let (s, t) = (a.text.as_str(), b.text.as_str());
    let mut cmp = |what: &str, got: Option<Ordering>, want: Ordering| {
        w.check(got == Some(want), what, || format!("{what}: {s:?} and {t:?} compare as {got:?}, expected {want:?}"));
    };
    cmp("cmp", Some(x.cmp(&y)), want);
    cmp("cmp-swapped", Some(y.cmp(&x)), want.reverse());
    cmp("partial_cmp", x.partial_cmp(&y), want);
    cmp("partial_cmp-str", x.partial_cmp(t), want);
    cmp("partial_cmp-ref-str", x.partial_cmp(&t), want);
    cmp("partial_cmp-str-swapped", y.partial_cmp(s), want.reverse());
    cmp("self", Some(x.cmp(&x.clone())), Ordering::Equal);
    let ops = (x < y, x <= y, x > y, x >= y, x < *t, x <= *t, x > *t, x >= *t);
    let (lt, gt) = (want == Ordering::Less, want == Ordering::Greater);
    let all = (lt, !gt, gt, !lt, lt, !gt, gt, !lt);
    w.check(ops == all, "operators", || format!("operators give {ops:?} for {s:?} and {t:?}"));
    w.check((x == y) == (x.cmp(&y) == Ordering::Equal), "eq-consistent", || {
        format!("== and cmp disagree for {s:?} and {t:?}")
    });
    let m = (&x).max(&y);
    w.check(m.decoded().eq(s.max(t).chars()), "max", || format!("max of {s:?} and {t:?}"));
    let (big, small) = (x.clone().max(y.clone()), x.clone().min(y.clone()));
    w.check(big.decoded().eq(s.max(t).chars()), "max", || format!("owned max of {s:?} and {t:?}"));
    w.check(small.decoded().eq(s.min(t).chars()), "min", || format!("owned min of {s:?} and {t:?}"));
    for (v, of) in [(&x, s), (&y, t)] {
        let got = v.clone().clamp(small.clone(), big.clone());
        w.check(got.decoded().eq(of.chars()), "clamp", || format!("{of:?} clamped between itself and another is {got:?}"));
    }
    // Sorting orders by the same relation.
    let mut v = [x.clone(), y.clone(), x.clone()];
    v.sort();
    let mut texts = [s, t, s];
    texts.sort();
    w.check(v.iter().zip(texts).all(|(v, t)| v.decoded().eq(t.chars())), "sort", || format!("sorting {s:?}, {t:?}, {s:?} gives {v:?}"));
}

fn families(tier: Tier) -> Vec<Family> {
    strs::pairs(tier)
}

fn main() {
    engine::main(Check {
        id: "C10",
        level: Level::ModelChecking,
        rule: "a state is a representation kind with its decoded text; a transition is a compared pair up to kinds, lengths, position of the first difference and order; each trace orders the real strings of one pair through every comparison form and compares with the ordering of the decoded texts",
        assumptions: &["decoded text is taken with the library's own reading of \\b (finding of C07)"],
        families,
        judge,
        stack_mb: 0,
        show: strs::show,
    })
}

//! C27: partially consumed string iterators still describe the remaining text.
use jjmc::engine::{self, hash_bytes, mix, Check, Family, Level, Tier, W};
use jjmc::{gen, util};
use jjmc::strs::{self, Repr};
use justjson::JsonString;
use std::fmt::{Display, Write};

/// A sink that accepts only so many characters.
struct Short(usize, String);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.0 == 0 {
                return Err(std::fmt::Error);
            }
            self.0 -= 1;
            self.1.push(c);
        }
        Ok(())
    }
}

fn prefixes<I>(w: &mut W, start: &I, want: &str, how: &str)
where
    I: Iterator<Item = char> + Clone + Display,
{
    let chars: Vec<char> = want.chars().collect();
    let n = chars.len();
    // Long strings: the first and last 40 places, and those around powers of two from either end.
    // Very long ones: the first and last few.
    let places = (0..=n).filter(|k| if n < 1 << 21 { gen::notable(*k, n + 1, 40) } else { *k < 2 || n - *k < 2 || *k == 1 << 20 });
    let mut it = start.clone();
    let mut taken = 0;
    let mut at = 0;
    for k in places {
        while taken < k {
            let got = it.next();
            if got != Some(chars[taken]) {
                w.fail("next", format!("{how}: character {taken} is {got:?}, expected {:?}", chars[taken]));
                return;
            }
            at += chars[taken].len_utf8();
            taken += 1;
        }
        let rest = &want[at..];
        let left = n - k;
        w.traces += 1;
        let (lo, hi) = it.size_hint();
        w.check(lo <= left && hi.is_none_or(|h| h >= left), "size_hint", || format!("{how}: after {k}: size hint {lo}..{hi:?}, {left} remain"));
        let mut shown = String::new();
        let ok = write!(shown, "{it}").is_ok();
        w.check(ok && shown == rest, "display", || format!("{how}: after {k}: displays {shown:?}, remaining {rest:?}"));
        if left < 70 || k % 16 == 0 {
            let drained: String = it.clone().collect();
            w.check(drained == rest, "drain", || format!("{how}: after {k}: clone drains to {drained:?}, remaining {rest:?}"));
            let c = it.clone().take(left + 5).count();
            w.check(c == left && it.clone().count() == left, "count", || format!("{how}: after {k}: count {c}, {left} remain"));
            w.check(it.clone().last() == chars[k..].last().copied(), "last", || format!("{how}: after {k}: last {:?}", it.clone().last()));
            w.check(it.clone().fold(0u64, |a, c| mix(a, c as u64)) == chars[k..].iter().fold(0, |a, c| mix(a, *c as u64)), "fold", || format!("{how}: after {k}: fold differs"));
            if n <= 3 {
                if let Some(m) = util::methods(&|| it.clone(), &chars[k..], &|c| *c) {
                    w.fail("method", format!("{how}: after {k}: {m}"));
                }
            }
            for j in [0, 1, 2, left.saturating_sub(1), left, left + 1] {
                let mut c = it.clone();
                let got = c.nth(j);
                let want = chars.get(k + j).copied();
                w.check(got == want, "nth", || format!("{how}: after {k}: nth({j}) {got:?}, expected {want:?}"));
                let after: String = c.collect();
                let expect: String = chars.get(k + j + 1..).unwrap_or(&[]).iter().collect();
                w.check(after == expect, "nth", || format!("{how}: after {k} and nth({j}): {after:?}, expected {expect:?}"));
            }
            // A failing display must not disturb the iterator, nor write anything else.
            for cut in [0, 1, left.saturating_sub(1)] {
                let mut s = Short(cut, String::new());
                let r = write!(s, "{it}");
                let expect: String = chars[k..].iter().take(cut).collect();
                w.check(r.is_err() == (cut < left) && s.1 == expect, "display-cut", || format!("{how}: after {k}: sink of {cut} got {:?}", s.1));
            }
        }
        // None of that advanced the iterator.
        let c = it.clone().next();
        w.check(c == chars.get(k).copied(), "undisturbed", || format!("{how}: after {k}: next is {c:?}"));
    }
    for round in 0..4 {
        let got = it.next();
        w.check(got.is_none() && it.size_hint().0 == 0, "exhausted", || format!("{how}: after the end, call {round}: {got:?} {:?}", it.size_hint()));
        w.check(it.to_string().is_empty() && it.clone().count() == 0, "exhausted", || format!("{how}: after the end: displays {:?}", it.to_string()));
    }
}

fn both(w: &mut W, s: &JsonString<'_>, r: &Repr<'_>, how: &str) {
    prefixes(w, &s.decoded(), &r.text, &format!("{how} decoded"));
    let json = match r.tag {
        b'P' => r.content.to_string(),
        // What encoding yields as a whole is C08's matter.
        _ => s.as_json().take(6 * r.text.len() + 1).collect(),
    };
    prefixes(w, &s.as_json(), &json, &format!("{how} as_json"));
    // Alternating the two iterators of one string: neither affects the other.
    let (mut a, mut b) = (s.decoded(), s.as_json());
    let (mut x, mut y) = (String::new(), String::new());
    loop {
        let (p, q) = (a.next(), b.next());
        x.extend(p);
        y.extend(q);
        if (p.is_none() && q.is_none()) || x.len() > r.text.len() + 8 || y.len() > json.len() + 8 {
            break;
        }
    }
    w.check(x == r.text && y == json, "interleaved", || format!("{how}: interleaved iteration gives {x:?} and {y:?}"));
}

fn judge(case: &[u8], w: &mut W) {
    let Some(r) = Repr::read(case) else { return };
    let Some(s) = r.make() else { return w.fail("rejected", "literal rejected") };
    // Model states: what remains after each prefix.
    let mut h = mix(r.state(), 1);
    w.state(h);
    for (i, c) in r.text.chars().enumerate().take(64) {
        w.edge(h, c as u64);
        h = mix(h, hash_bytes(i as u64, c.encode_utf8(&mut [0; 4]).as_bytes()));
        w.state(h);
    }
    both(w, &s, &r, "string");
    if r.text.len() < 8 && case.len() < 7 {
        both(w, &s.clone(), &r, "cloned string");
    }
}

fn families(tier: Tier) -> Vec<Family> {
    strs::singles(tier)
}

fn main() {
    engine::main(Check {
        id: "C27",
        level: Level::ModelChecking,
        rule: "state = (representation, characters consumed); transition = consuming one character; each trace examines one real iterator (decoded or as_json) after every number of consumed characters (for more than 80 characters: the first and last 40 places and those next to powers of two from either end): display, clone and drain, count, last, fold, nth, size hint, failing sink, exhaustion",
        assumptions: &["The complete encoding of converted text is checked by C08"],
        families,
        judge,
        stack_mb: 0,
        show: strs::show,
    })
}

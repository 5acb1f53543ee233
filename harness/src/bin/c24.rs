//! C24: an owned-or-borrowed string behaves exactly like its text.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::strs::{self, Repr};
use justjson::AnyStr;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{BuildHasher, Hash, Hasher};

/// Records what is fed to it, call by call.
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>);
macro_rules! rec {
    ($($name:ident $t:ty, $tag:expr;)*) => {
        $(fn $name(&mut self, n: $t) {
            self.0.push($tag);
            self.0.extend(n.to_le_bytes());
        })*
    };
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        engine::hash_bytes(0, &self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.push(b'w');
        self.0.extend((bytes.len() as u32).to_le_bytes());
        self.0.extend(bytes);
    }
    rec! {
        write_u8 u8, 1; write_u16 u16, 2; write_u32 u32, 3; write_u64 u64, 4; write_u128 u128, 5; write_usize usize, 6;
        write_i8 i8, 7; write_i16 i16, 8; write_i32 i32, 9; write_i64 i64, 10; write_i128 i128, 11; write_isize isize, 12;
    }
}
fn rec<T: Hash + ?Sized>(t: &T) -> Rec {
    let mut r = Rec::default();
    t.hash(&mut r);
    r
}

/// The ways to hold a text: converted, constructed, cloned, and out of the library's own hands.
fn holders<'a>(r: &'a Repr<'_>) -> Vec<(AnyStr<'a>, &'static str)> {
    let t: &'a str = &r.text;
    let mut roomy = String::with_capacity(t.len() + 17);
    roomy.push_str(t);
    let mut v = vec![
        (AnyStr::from(t), "from &str"),
        (AnyStr::Borrowed(t), "borrowed"),
        (AnyStr::from(t.to_string()), "from String"),
        (AnyStr::Owned(roomy), "owned"),
        (AnyStr::Owned(t.to_string()).clone(), "owned clone"),
        (AnyStr::Borrowed(t).clone(), "borrowed clone"),
    ];
    if r.tag == b'P' {
        // What decoding returns: borrowed without escapes, owned with them.
        if let Some(s) = r.make() {
            v.push((AnyStr::Owned(s.decode_if_needed().to_string()), "decoded text"));
            if r.escapes {
                if let AnyStr::Owned(o) = s.decode_if_needed() {
                    v.push((AnyStr::Owned(o), "decoded"));
                }
            }
        }
    }
    v
}

fn one(w: &mut W, x: &AnyStr<'_>, t: &str, how: &str) {
    w.traces += 1;
    w.check(x.as_str() == t, "as_str", || format!("{how}: as_str {:?}", x.as_str()));
    let r: &str = x.as_ref();
    w.check(r == t, "as_ref", || format!("{how}: as_ref {r:?}"));
    let r: &str = x.borrow();
    w.check(r == t, "borrow", || format!("{how}: borrow {r:?}"));
    w.check(**x == *t && x.len() == t.len() && x.chars().eq(t.chars()), "deref", || format!("{how}: deref {:?}", &**x));
    let p = x.as_str().as_ptr();
    let same = [<AnyStr<'_> as AsRef<str>>::as_ref(x).as_ptr(), <AnyStr<'_> as Borrow<str>>::borrow(x).as_ptr(), (**x).as_ptr()];
    w.check(same.iter().all(|q| *q == p), "same-place", || format!("{how}: views at different places"));
    if let AnyStr::Borrowed(b) = x {
        w.check(b.as_ptr() == p, "same-place", || format!("{how}: a borrowed string was moved"));
    }
    w.check(rec(x) == rec(t), "hash", || format!("{how}: hashes {:?}, the text {:?}", rec(x), rec(t)));
    let h = std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
    w.check(h.hash_one(x) == h.hash_one(t), "hash", || format!("{how}: SipHash differs from the text's"));
}

fn judge(case: &[u8], w: &mut W) {
    let Some((a, b)) = Repr::pair(case) else { return };
    w.state(a.state());
    w.state(b.state());
    w.edge(strs::relation(&a, &b), 0);
    let (t, u) = (a.text.as_str(), b.text.as_str());
    let want = t.cmp(u);
    let (xs, ys) = (holders(&a), holders(&b));
    for (x, how) in &xs {
        one(w, x, t, how);
        for (y, how2) in &ys {
            w.traces += 1;
            let how = || format!("{how} {t:?} with {how2} {u:?}");
            let o = x.partial_cmp(y);
            w.check(o == Some(want), "order", || format!("{}: {o:?}, expected {want:?}", how()));
            let ops = [x == y, x != y, x < y, x <= y, x > y, x >= y];
            let should = [t == u, t != u, t < u, t <= u, t > u, t >= u];
            w.check(ops == should, "operators", || format!("{}: == != < <= > >= give {ops:?}", how()));
        }
        w.traces += 1;
        let o = [PartialOrd::<&str>::partial_cmp(x, &u), PartialOrd::<str>::partial_cmp(x, u)];
        w.check(o == [Some(want); 2], "order-text", || format!("{how} {t:?} with plain {u:?}: {o:?}, expected {want:?}"));
        let ops = [x == &u, x != &u, *x == *u, *x != *u, *x < u, *x <= u, *x > u, *x >= u, *x < *u, *x <= *u, *x > *u, *x >= *u];
        let should = [t == u, t != u, t == u, t != u, t < u, t <= u, t > u, t >= u, t < u, t <= u, t > u, t >= u];
        w.check(ops == should, "operators-text", || format!("{how} {t:?} with plain {u:?}: {ops:?}"));
    }
    // Sets find an entry through any holder of its text and through the plain text.
    if mix(a.state(), b.state()) % 8 == 0 || want == Ordering::Equal {
        for (x, how) in xs {
            let set: HashSet<AnyStr<'_>> = std::iter::once(x).collect();
            let found = [set.contains(u), ys.iter().all(|(y, _)| set.contains(y) == (t == u))];
            w.check(found == [t == u, true], "set", || format!("set of {how} {t:?} looked up by {u:?}: {found:?}"));
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    strs::pairs(tier)
}

fn main() {
    engine::main(Check {
        id: "C24",
        level: Level::ModelChecking,
        rule: "state = (origin, text); transition = relation of the two texts (lengths, first difference, order) compared; each trace compares one pair of real AnyStr values (every combination of owned and borrowed) or one value with plain text, through every operator, hash and view, with the same operation on str",
        assumptions: &["str's own comparison and hashing are the reference"],
        families,
        judge,
        stack_mb: 0,
        show: strs::show,
    })
}

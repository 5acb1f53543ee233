//! C11: equal JSON strings hash equally, and like their decoded text.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::strs::{self, Repr};
use justjson::JsonString;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};

/// Records the bytes written, however they are split into writes.
#[derive(Default)]
struct Stream(Vec<u8>);
impl Hasher for Stream {
    fn finish(&self) -> u64 {
        engine::hash_bytes(0, &self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend(b);
    }
}
/// Records every write with its length.
#[derive(Default)]
struct Chunks(Vec<u8>);
impl Hasher for Chunks {
    fn finish(&self) -> u64 {
        engine::hash_bytes(0, &self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend((b.len() as u64).to_le_bytes());
        self.0.extend(b);
    }
}
#[derive(Clone)]
struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

fn h<H: Hasher + Default>(t: &(impl Hash + ?Sized)) -> u64 {
    let mut s = H::default();
    t.hash(&mut s);
    s.finish()
}

fn hashes(w: &mut W, r: &Repr<'_>, x: &JsonString<'_>) {
    w.traces += 1;
    let t = r.text.as_str();
    w.check(h::<DefaultHasher>(x) == h::<DefaultHasher>(t), "siphash", || format!("SipHash of {t:?} differs"));
    w.check(h::<Fnv>(x) == h::<Fnv>(t), "fnv", || format!("FNV hash of {t:?} differs"));
    let (mut a, mut b) = (Stream::default(), Stream::default());
    x.hash(&mut a);
    t.hash(&mut b);
    let same = a.0 == b.0;
    w.check(same, "hashed-bytes", || format!("hashed bytes {:02x?}, of the text {:02x?}", a.0, b.0));
    // As part of something larger.
    w.check(h::<Fnv>(&(1u8, x, x, 2u8)) == h::<Fnv>(&(1u8, t, t, 2u8)), "in-tuple", || format!("hash of a tuple with {t:?} differs"));
    // As elements of slices and vectors, which may hash in bulk.
    let slices = [
        h::<Fnv>(&[x.clone(), x.clone(), x.clone()][..]) == h::<Fnv>(&[t, t, t][..]),
        h::<Fnv>(&vec![x.clone()]) == h::<Fnv>(&vec![t]),
        h::<DefaultHasher>(&(Some(x), [x, x])) == h::<DefaultHasher>(&(Some(t), [t, t])),
    ];
    w.check(slices == [true; 3], "in-slice", || format!("hash of a slice with {t:?} differs: {slices:?}"));
    if same && h::<Chunks>(x) != h::<Chunks>(t) {
        let key = if r.escapes { "hash-chunking" } else { "chunked-without-escapes" };
        w.fail(key, format!("{t:?} is written to the hasher in other pieces than its text"));
    }
}

fn judge(case: &[u8], w: &mut W) {
    if let Some((a, b)) = Repr::pair(case) {
        let (Some(x), Some(y)) = (a.make(), b.make()) else {
            w.fail("rejected", "a representation was not accepted");
            return;
        };
        let want = a.text == b.text;
        w.state(a.state());
        w.edge(strs::relation(&a, &b), 0);
        w.traces += 1;
        if want {
            w.check(h::<DefaultHasher>(&x) == h::<DefaultHasher>(&y), "siphash", || format!("equal strings {:?} hash differently", a.text));
            w.check(h::<Fnv>(&x) == h::<Fnv>(&y), "fnv", || format!("equal strings {:?} hash differently", a.text));
        }
        let mut set: HashSet<JsonString<'_>, BuildHasherDefault<Fnv>> = HashSet::default();
        set.insert(x.clone());
        w.check(set.contains(&y) == want, "set", || format!("a set holding {:?} finds {:?}: {}", a.text, b.text, !want));
        w.check(set.insert(y.clone()) != want, "set-insert", || format!("a set holding {:?} accepts {:?} again", a.text, b.text));
        let mut map: HashMap<JsonString<'_>, u8> = HashMap::new();
        map.insert(x.clone(), 1);
        w.check(map.get(&y).is_some() == want, "map", || format!("a map holding {:?} finds {:?}: {}", a.text, b.text, !want));
        // Slices whose concatenation is the same but not their elements.
        let (left, right) = (h::<Fnv>(&[x.clone(), y.clone()][..]), h::<Fnv>(&[a.text.as_str(), b.text.as_str()][..]));
        w.check(left == right, "in-slice", || format!("hash of a slice of {:?} and {:?} differs", a.text, b.text));
        let tree: BTreeSet<JsonString<'_>> = [x, y.clone()].into();
        w.check(tree.len() == if want { 1 } else { 2 } && tree.contains(&y), "ordered-set", || {
            format!("an ordered set of {:?} and {:?} has {} members", a.text, b.text, tree.len())
        });
        return;
    }
    let Some(r) = Repr::read(case) else { return };
    let Some(x) = r.make() else {
        w.fail("rejected", "a representation was not accepted");
        return;
    };
    w.state(r.state());
    hashes(w, &r, &x);
    if let Some(justjson::Value::String(s)) = r.value() {
        hashes(w, &r, &s);
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = strs::singles(tier);
    v.extend(strs::pairs(tier));
    v
}

fn main() {
    engine::main(Check {
        id: "C11",
        level: Level::ModelChecking,
        rule: "a state is a representation kind with its decoded text, a transition a pair (up to kinds, lengths, position of the first difference and order) looked up in a set or map; each trace hashes the real string with SipHash, FNV, a byte-recording and a write-recording hasher and compares with the hash of the reference text, or performs the lookups of one pair",
        assumptions: &["decoded text is taken with the library's own reading of \\b (finding of C07)"],
        families,
        judge,
        stack_mb: 0,
        show: strs::show,
    })
}

//! C31: a copy says what its original says, whatever it replaces, and goes its own way.
use jjmc::engine::{self, hash_bytes, mix, Check, Family, Level, Tier, W};
use jjmc::gen;
use jjmc::pda::Cfg;
use jjmc::rp;
use jjmc::strs::{self, Repr};
use jjmc::util;
use justjson::doc::{Document, Node};
use justjson::parser::{Parser, Token, Tokenizer};
use justjson::{AnyStr, JsonNumber, JsonString};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Every byte a hasher is fed.
#[derive(Default, PartialEq, Clone)]
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        hash_bytes(0, &self.0)
    }
}
fn fed(t: &impl Hash) -> u64 {
    let mut f = Fed::default();
    t.hash(&mut f);
    f.finish()
}

/// All a string answers.
#[derive(PartialEq, Debug, Clone)]
struct Says {
    decoded: String,
    json: String,
    lens: (usize, usize, bool),
    as_str: Option<String>,
    as_json_str: Option<String>,
    decode: String,
    escape: String,
    hash: u64,
    shown: String,
}
fn says(s: &JsonString<'_>) -> Says {
    Says {
        decoded: s.decoded().collect(),
        json: s.as_json().collect(),
        lens: (s.len(), s.decoded_len(), s.is_empty()),
        as_str: s.as_str().map(str::to_string),
        as_json_str: s.as_json_str().map(|a| a.as_str().to_string()),
        decode: s.decode_if_needed().as_str().to_string(),
        escape: s.escape_if_needed().as_str().to_string(),
        hash: fed(s),
        shown: s.to_string(),
    }
}

/// `copy` against `orig`, what `orig` says being known.
fn same_string(w: &mut W, how: &str, copy: &JsonString<'_>, orig: &JsonString<'_>, want: &Says) {
    w.traces += 1;
    let got = says(copy);
    if got != *want {
        return w.fail("string", format!("{how}: the copy says {got:?}, the original {want:?}"));
    }
    let eq = copy == orig && orig == copy && *copy == *want.decoded && copy.cmp(orig).is_eq() && orig.cmp(copy).is_eq();
    w.check(eq, "string-unequal", || format!("{how}: a copy of {want:?} is unequal to its original"));
}

/// Copies of `y`, new and in the place of `x`.
fn strings(w: &mut W, x: &JsonString<'_>, y: &JsonString<'_>) {
    let want = says(y);
    same_string(w, "clone", &y.clone(), y, &want);
    let mut z = x.clone();
    z.clone_from(y);
    same_string(w, "clone_from", &z, y, &want);
    z.clone_from(x);
    same_string(w, "clone_from back", &z, x, &says(x));
    z.clone_from(&y.clone());
    same_string(w, "clone_from a copy", &z, y, &want);
    // In a list, longer, shorter and as long
    for n in 1..4 {
        let mut list = vec![x.clone(); n];
        list.clone_from(&vec![y.clone(), x.clone()]);
        same_string(w, "list clone_from", &list[0], y, &want);
        same_string(w, "list clone_from", &list[1], x, &says(x));
    }
    let mut o = Some(x.clone());
    o.clone_from(&Some(y.clone()));
    same_string(w, "option clone_from", o.as_ref().unwrap(), y, &want);
    // Tokens and nodes around them
    let mut t = Token::String(x.clone());
    t.clone_from(&Token::String(y.clone()));
    match &t {
        Token::String(s) => same_string(w, "token clone_from", s, y, &want),
        t => w.fail("token", format!("a copied string token is {t:?}")),
    }
    let mut n = Node::String(x.clone());
    n.clone_from(&Node::String(y.clone()));
    match &n {
        Node::String(s) => same_string(w, "node clone_from", s, y, &want),
        n => w.fail("node", format!("a copied string node is {n:?}")),
    }
    n = Node::Array { length: 3 };
    n.clone_from(&Node::String(y.clone()));
    w.check(n == Node::String(y.clone()), "node", || format!("a copied string node is {n:?}"));
    // Owned-or-borrowed forms
    let anys: Vec<AnyStr<'_>> = [x, y].iter().flat_map(|s| [s.decode_if_needed(), s.escape_if_needed()]).collect();
    let texts: Vec<String> = anys.iter().map(|a| a.as_str().to_string()).collect();
    for (a, t) in anys.iter().zip(&texts) {
        for (b, u) in anys.iter().zip(&texts) {
            w.traces += 1;
            let mut c = b.clone();
            let first = c.as_str() == u.as_str() && c == *b;
            c.clone_from(a);
            let ok = first && c.as_str() == t.as_str() && c == *a && fed(&c) == fed(t) && c.cmp_to(t) && a.as_str() == t.as_str();
            w.check(ok, "any", || format!("a copy of {t:?} over {u:?} is {:?}", c.as_str()));
        }
    }
}
trait CmpTo {
    fn cmp_to(&self, t: &str) -> bool;
}
impl CmpTo for AnyStr<'_> {
    fn cmp_to(&self, t: &str) -> bool {
        self.partial_cmp(t) == Some(std::cmp::Ordering::Equal)
    }
}

/// A copy of `b`'s rest put over `a` goes on like `b`; `b` is not disturbed.
fn iters<I>(w: &mut W, how: &str, a: &I, b: &I)
where
    I: Iterator<Item = char> + Clone + std::fmt::Display,
{
    let all: String = b.clone().collect();
    let n = all.chars().count();
    for j in (0..6).chain([n / 2, n]) {
        for k in (0..=n).filter(|k| gen::notable(*k, n + 1, 6)) {
            if n > 40 && j + k > 2 && (j + k) % if n > 1000 { 41 } else { 11 } != 0 {
                continue;
            }
            w.traces += 1;
            let (mut p, mut q) = (a.clone(), b.clone());
            for _ in 0..j {
                p.next();
            }
            for _ in 0..k {
                q.next();
            }
            let rest: String = all.chars().skip(k).collect();
            p.clone_from(&q);
            let (shown, hint) = (p.to_string(), p.size_hint() == q.size_hint());
            p.next();
            let r: String = p.clone().collect();
            let after: String = rest.chars().skip(1).collect();
            let left: String = q.collect();
            if shown != rest || !hint || r != after || left != rest {
                return w.fail("iterator", format!("{how}: a copy made after {k} of {all:?} over one after {j}: shows {shown:?}, then yields {r:?}; the original yields {left:?}"));
            }
        }
    }
}

/// Copies of every item, new and in the place of every other.
fn items<T: Clone + PartialEq + Debug>(w: &mut W, what: &str, list: &[T], same: impl Fn(&T, &T) -> bool) {
    let copy = list.to_vec();
    w.check(copy == *list && copy.iter().zip(list).all(|(a, b)| same(a, b)), what, || format!("{what}: {copy:?} is a copy of {list:?}"));
    let n = list.len();
    for (i, a) in list.iter().enumerate().filter(|(i, _)| gen::notable(*i, n, 4)) {
        for (_, b) in list.iter().enumerate().filter(|(j, _)| n < 12 || i.abs_diff(*j) < 3) {
            w.traces += 1;
            let mut c = b.clone();
            c.clone_from(a);
            if c != *a || !same(&c, a) {
                return w.fail(what, format!("{what}: a copy of {a:?} over {b:?} is {c:?}"));
            }
        }
    }
    // Whole lists over lists of other lengths
    for m in [0, n / 2, n] {
        let mut l: Vec<T> = list[m..].to_vec();
        l.clone_from(&copy);
        w.check(l == *list, what, || format!("{what}: {l:?} is a copy of {list:?}"));
    }
}
fn same_source(a: &JsonNumber<'_>, b: &JsonNumber<'_>) -> bool {
    a.source() == b.source() && a == b && a.as_f64().map(f64::to_bits) == b.as_f64().map(f64::to_bits) && a.as_i64() == b.as_i64() && a.as_u128() == b.as_u128()
}
fn same_node(a: &Node<'_>, b: &Node<'_>) -> bool {
    match (a, b) {
        (Node::Null, Node::Null) => true,
        (Node::Boolean(a), Node::Boolean(b)) => a == b,
        (Node::Number(a), Node::Number(b)) => same_source(a, b),
        (Node::String(a), Node::String(b)) => says(a) == says(b),
        (Node::Array { length: a }, Node::Array { length: b }) | (Node::Object { length: a }, Node::Object { length: b }) => a == b,
        _ => false,
    }
}
fn same_token(a: &Token<'_>, b: &Token<'_>) -> bool {
    match (a, b) {
        (Token::String(a), Token::String(b)) => says(a) == says(b),
        (Token::Number(a), Token::Number(b)) => same_source(a, b),
        (a, b) => a == b && std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}

const CFG: Cfg = Cfg { trailing: true, limit: None, root_any: true };

fn document(w: &mut W, doc: &[u8]) {
    let tokens: Vec<Token<'_>> = Tokenizer::for_json_bytes(doc).map_while(Result::ok).collect();
    items(w, "token", &tokens, same_token);
    let pc = util::config(&CFG);
    let pc2 = { pc };
    w.check(pc.clone() == pc2, "config", || "a copied configuration differs".into());
    let tree = rp::parse(doc, &CFG);
    w.state(tree.as_ref().map_or(1, util::shape_hash));
    w.edge(tree.as_ref().map_or(1, util::shape_hash), tokens.len() as u64);
    match Parser::validate_json_bytes_with_config(doc, pc) {
        Ok(k) => {
            let c = { k };
            w.check(c == k && util::kind_code(c) == util::kind_code(k), "kind", || format!("a copied kind is {c:?}"));
        }
        Err(e) => {
            let k = e.kind().clone();
            let mut l = justjson::ErrorKind::Unexpected(b'!');
            l.clone_from(e.kind());
            w.check(k == *e.kind() && l == k && k.to_string() == e.kind().to_string() && l.to_string() == k.to_string(), "error", || format!("copies of {:?} are {k:?} and {l:?}", e.kind()));
            return;
        }
    }
    let Ok(d) = Document::from_json_bytes_with_config(doc, pc2) else { return };
    let nodes: Vec<Node<'_>> = d.iter().collect();
    items(w, "node", &nodes, same_node);
    let n = nodes.len();
    for j in (0..=n).filter(|j| gen::notable(*j, n + 1, 3)) {
        for k in (0..=n).filter(|k| gen::notable(*k, n + 1, 3)) {
            w.traces += 1;
            let (mut p, mut q) = (d.iter(), d.iter());
            for _ in 0..j {
                p.next();
            }
            for _ in 0..k {
                q.next();
            }
            p.clone_from(&q);
            let hint = p.size_hint() == q.size_hint();
            p.skip_next_value();
            let got = (p.clone().count(), q.clone().next_value(), p.next());
            let left: Vec<Node<'_>> = q.collect();
            let rest = &nodes[k..];
            if !hint || left != rest || got.0 > rest.len() || got.2.is_some_and(|x| x != rest[rest.len() - got.0]) || got.1.is_some() == rest.is_empty() {
                return w.fail("document-iterator", format!("a copy made after {k} nodes over one after {j} disturbs it: {left:?}, expected {rest:?}"));
            }
        }
    }
    // Over the iterators of other documents, and they over this one's
    for other in [&b"null"[..], b"[]", b"[1,[2,{\"a\":null}],\"x\",{},[[],[3,4,5],6],7,8,9]", doc] {
        let Ok(o) = Document::from_json_bytes_with_config(other, pc2) else { return w.fail("rejected", "a document was not accepted") };
        let theirs: Vec<Node<'_>> = o.iter().collect();
        for k in [0, 1, n / 2, n] {
            for j in [0, 1, theirs.len()] {
                w.traces += 1;
                let (mut p, mut q) = (o.iter(), d.iter());
                for _ in 0..j {
                    p.next();
                }
                for _ in 0..k.min(n) {
                    q.next();
                }
                let (before, saved) = (p.clone(), q.clone());
                p.clone_from(&q);
                q.clone_from(&before);
                let ok = p.eq(nodes[k.min(n)..].iter().cloned()) && q.eq(theirs[j.min(theirs.len())..].iter().cloned()) && saved.eq(nodes[k.min(n)..].iter().cloned());
                w.check(ok, "document-iterator", || format!("iterators after {k} and {j} nodes of two documents, copied over each other, go on wrongly"));
            }
        }
    }
}

fn judge(case: &[u8], w: &mut W) {
    let Some((&tag, rest)) = case.split_first() else { return };
    match tag {
        b'J' => document(w, rest),
        _ => {
            let Some((a, b)) = Repr::pair(rest) else { return };
            let (Some(x), Some(y)) = (a.make(), b.make()) else { return w.fail("rejected", "a representation was not accepted") };
            w.state(a.state());
            w.state(b.state());
            w.edge(mix(a.state(), 1), b.state());
            strings(w, &x, &y);
            if tag == b'I' || b.text.len() > 60 {
                iters(w, "decoded", &x.decoded(), &y.decoded());
                iters(w, "as_json", &x.as_json(), &y.as_json());
                iters(w, "decoded over itself", &y.decoded(), &y.decoded());
                iters(w, "as_json over itself", &y.as_json(), &y.as_json());
            }
            // The original goes away, the copy stays.
            let want = says(&y);
            let copy = y.clone();
            let mut over = x;
            over.clone_from(&y);
            let iter = copy.decoded();
            drop(y);
            w.check(says(&copy) == want && says(&over) == want && iter.eq(want.decoded.chars()), "outlives", || format!("after the original is gone the copies say {:?} and {:?}, expected {want:?}", says(&copy), says(&over)));
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    let mut v: Vec<Family> = strs::copies(tier).into_iter().map(|f| gen::tagged(f, b'S')).collect();
    v.extend(strs::few_pairs(tier).into_iter().map(|f| gen::tagged(f, b'I')));
    v.extend(
        [
            gen::trees(tier.pick(5, 6), if q { 3 } else { 4 }, true, 3),
            gen::token_trie(CFG, tier.pick(7, 9)),
            gen::class_bytes(3),
            gen::wide(tier),
            gen::words("string atoms", &gen::all_atoms(), 2, b"[\"", b"\"]"),
            gen::shorter(gen::pumps(tier), tier.pick(300, 20_000)),
        ]
        .into_iter()
        .chain(gen::numbers(tier.pick(4, 5)))
        .map(|f| gen::tagged(f, b'J')),
    );
    v
}

fn main() {
    engine::main(Check {
        id: "C31",
        level: Level::ModelChecking,
        rule: "state = abstract content (tag and text of a string, shape of a document); transition = copying one content over another; each trace makes one copy (clone or clone_from, alone, in lists, in tokens and nodes, of an iterator after every number of steps over another after every number) and compares all it answers with what the original answers",
        assumptions: &["What the original answers is the matter of the other properties"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}

//! C16: skipping or reading a value consumes exactly that value's nodes.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::doc::{Document, DocumentIter, Node};
use justjson::Value;

/// The reference: for every node of the pre-order, the node, its value and the index after it.
struct Model<'t> {
    nodes: Vec<rp::RNode>,
    end: Vec<usize>,
    vals: Vec<Slot<'t>>,
}
#[derive(Clone, Copy)]
enum Slot<'t> {
    Val(&'t rp::RVal),
    Key(rp::Range),
}

fn fill<'t>(v: &'t rp::RVal, m: &mut Model<'t>) {
    let i = m.vals.len();
    m.vals.push(Slot::Val(v));
    m.end.push(0);
    match v {
        rp::RVal::Arr(a) => a.iter().for_each(|v| fill(v, m)),
        rp::RVal::Obj(o) => {
            for (k, v) in o {
                m.vals.push(Slot::Key(*k));
                let n = m.vals.len();
                m.end.push(n);
                fill(v, m);
            }
        }
        _ => {}
    }
    m.end[i] = m.vals.len();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Next,
    Value,
    Skip,
}
const OPS: [Op; 3] = [Op::Next, Op::Value, Op::Skip];

/// Performs one operation on the real iterator and on the model's position.
fn step(w: &mut W, doc: &[u8], m: &Model<'_>, it: &mut DocumentIter<'_, '_>, p: usize, op: Op) -> Result<usize, ()> {
    w.traces += 1;
    let n = m.vals.len();
    match op {
        Op::Next => match (it.next(), p < n) {
            (None, false) => Ok(p),
            (Some(x), true) => match util::same_node(&x, &m.nodes[p], doc) {
                Ok(()) => Ok(p + 1),
                Err(e) => {
                    w.fail("next", format!("node {p}: {e}"));
                    Err(())
                }
            },
            (x, _) => {
                w.fail("next", format!("at {p} of {n}: {x:?}"));
                Err(())
            }
        },
        Op::Value => match (it.next_value(), p < n) {
            (None, false) => Ok(p),
            (Some(x), true) => {
                let same = match (&m.vals[p], &x) {
                    (Slot::Val(t), x) => util::same_value(x, t, doc),
                    (Slot::Key(k), Value::String(s)) => util::same_string(s, doc, *k),
                    (Slot::Key(_), other) => Err(format!("{other:?} for a key")),
                };
                match same {
                    Ok(()) => Ok(m.end[p]),
                    Err(e) => {
                        w.fail("next_value", format!("at {p} of {n}: {e}"));
                        Err(())
                    }
                }
            }
            (x, _) => {
                w.fail("next_value", format!("at {p} of {n}: {x:?}"));
                Err(())
            }
        },
        Op::Skip => {
            it.skip_next_value();
            Ok(if p < n { m.end[p] } else { p })
        }
    }
}

/// The remaining nodes are exactly those from `p`.
fn rest(w: &mut W, doc: &[u8], m: &Model<'_>, it: DocumentIter<'_, '_>, p: usize, hist: &[Op]) {
    let mut q = p;
    for x in it {
        if q >= m.nodes.len() || util::same_node(&x, &m.nodes[q], doc).is_err() {
            w.fail("rest", format!("after {hist:?}: node {q} is {x:?}"));
            return;
        }
        q += 1;
    }
    w.check(q == m.nodes.len(), "rest", || format!("after {hist:?}: ends at {q} of {}", m.nodes.len()));
}

/// The methods every iterator has: the size hint, counting, jumping, folding.
fn adaptors(w: &mut W, doc: &[u8], m: &Model<'_>, it: &DocumentIter<'_, '_>, p: usize) {
    let n = m.nodes.len();
    w.traces += 1;
    let hint = |w: &mut W, it: &DocumentIter<'_, '_>, left: usize| {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            w.fail("size-hint", format!("at {} of {n}: size hint {lo}..{hi:?}", n - left));
        }
    };
    hint(w, it, n - p);
    let check = |w: &mut W, what: &str, got: Option<Node<'_>>, k: usize| {
        let ok = match (&got, m.nodes.get(k)) {
            (None, None) => true,
            (Some(x), Some(r)) => util::same_node(x, r, doc).is_ok(),
            _ => false,
        };
        w.check(ok, "adaptor", || format!("{what} from {p} of {n} gives {got:?}, expected node {k}"));
    };
    let (c, f) = (it.clone().count(), it.clone().fold(0, |n, _| n + 1));
    w.check((c, f) == (n - p, n - p), "adaptor", || format!("at {p} of {n}: count {c}, fold {f}"));
    check(w, "last", it.clone().last(), if p < n { n - 1 } else { n });
    for k in [0, 1, 2, (n - p).saturating_sub(1), n - p, n - p + 1, usize::MAX - p] {
        let mut i = it.clone();
        check(w, "nth", i.nth(k), p + k);
        let q = n.min(p.saturating_add(k).saturating_add(1));
        hint(w, &i, n - q);
        let v = i.clone().next_value().is_some();
        w.check(v == (q < n), "adaptor", || format!("next_value after nth({k}) from {p} of {n}: some is {v}"));
        check(w, "next after nth", i.next(), q);
    }
    if n <= 4 {
        let left: Vec<Node<'_>> = it.clone().collect();
        if let Some(m) = util::methods(&|| it.clone(), &left, &Node::clone) {
            w.fail("adaptor", format!("at {p} of {n}: {m}"));
        }
    }
    for (i, x) in it.clone().step_by(2).enumerate() {
        check(w, "step_by", Some(x), p + 2 * i);
    }
}

#[allow(clippy::too_many_arguments)]
fn explore(
    w: &mut W, doc: &[u8], m: &Model<'_>, d: &Document<'_>, it: &DocumentIter<'_, '_>, p: usize, depth: usize, over: usize, hist: &mut Vec<Op>, shape: u64,
) {
    w.state(mix(shape, p as u64));
    rest(w, doc, m, it.clone(), p, hist);
    if hist.last() != Some(&Op::Next) || hist.iter().all(|o| *o == Op::Next) {
        adaptors(w, doc, m, it, p);
    }
    if depth == 0 || (p == m.nodes.len() && over == 0) || !w.found.is_empty() {
        // Once more without any cloning.
        let mut plain = d.iter();
        let mut q = 0;
        for op in hist.iter() {
            match step(w, doc, m, &mut plain, q, *op) {
                Ok(r) => q = r,
                Err(()) => return,
            }
        }
        rest(w, doc, m, plain, q, hist);
        return;
    }
    for op in OPS {
        let mut c = it.clone();
        if let Ok(q) = step(w, doc, m, &mut c, p, op) {
            w.edge(mix(shape, p as u64), op as u64);
            hist.push(op);
            let over = if p == m.nodes.len() { over - 1 } else { over };
            explore(w, doc, m, d, &c, q, depth - 1, over, hist, shape);
            hist.pop();
        }
        // The original is where it was.
        rest(w, doc, m, it.clone(), p, hist);
    }
}

fn judge(doc: &[u8], w: &mut W) {
    let cfg = Cfg { trailing: true, limit: None, root_any: true };
    // Only the tree matters here.
    if rp::strip(doc) != doc {
        return;
    }
    let Some(tree) = rp::parse(doc, &cfg) else { return };
    let mut m = Model { nodes: Vec::new(), end: Vec::new(), vals: Vec::new() };
    rp::preorder(&tree, &mut m.nodes);
    fill(&tree, &mut m);
    let n = m.nodes.len();
    let Ok(d) = Document::from_json_bytes_with_config(doc, util::config(&cfg)) else { return };
    let shape = util::shape_hash(&tree);
    let it = d.iter();
    if n <= w.tier.pick(8, 10) {
        explore(w, doc, &m, &d, &it, 0, n + 2, 2, &mut Vec::new(), shape);
        return;
    }
    // From every position, reached by steps, every pair of operations.
    let positions: Vec<usize> = if n <= 200 { (0..=n).collect() } else { (0..80).chain(n - 80..=n).collect() };
    let mut at = d.iter();
    let mut p = 0;
    for pos in positions {
        while p < pos {
            match at.next() {
                Some(Node::Null) | Some(_) => p += 1,
                None => {
                    w.fail("next", format!("ends at {p} of {n}"));
                    return;
                }
            }
        }
        let hist = vec![Op::Next; p];
        let it = at.clone();
        w.state(mix(shape, p as u64));
        if n <= 200 {
            adaptors(w, doc, &m, &it, p);
        }
        for a in OPS {
            let mut c = it.clone();
            let Ok(q) = step(w, doc, &m, &mut c, p, a) else { return };
            w.edge(mix(shape, p as u64), a as u64);
            if n < 400 {
                rest(w, doc, &m, c.clone(), q, &hist);
            }
            for b in OPS {
                let mut e = c.clone();
                let Ok(r) = step(w, doc, &m, &mut e, q, b) else { return };
                match (e.next(), r < n) {
                    (None, false) => {}
                    (Some(x), true) if util::same_node(&x, &m.nodes[r], doc).is_ok() => {}
                    (x, _) => w.fail("rest", format!("{p} steps, {a:?}, {b:?}: then {x:?}")),
                }
            }
        }
        if !w.found.is_empty() {
            return;
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![
        gen::trees(tier.pick(6, 7), tier.pick(2, 3), false, 0),
        gen::trees(tier.pick(4, 5), 7, false, 0),
        gen::wide(tier),
        gen::pumps(tier),
        gen::token_trie(Cfg { trailing: false, limit: None, root_any: true }, tier.pick(8, 10)),
    ];
    v.extend(gen::far(tier, vec![b"\\n".to_vec()]));
    v
}

fn main() {
    engine::main(Check {
        id: "C16",
        level: Level::ModelChecking,
        rule: "a state is a document with a node index, a transition one of next / next_value / skip_next_value from it; for documents of at most 8 (thorough 10) nodes every operation sequence until two operations past the end is executed on the real iterator, with every intermediate iterator cloned, drained and left untouched; for larger ones every pair of operations from every position. size_hint, count, last, nth, fold and step_by are compared at the states. A trace is one executed operation compared with the index model",
        assumptions: &[],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}

//! C15: a document is the pre-order of the tree with exact lengths, and converts to the value.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, NodeCollection};
use justjson::Value;

fn one<'a, B: NodeCollection<'a>>(
    w: &mut W,
    how: &str,
    doc: &'a [u8],
    d: GenericDocument<'a, B>,
    tree: &rp::RVal,
    nodes: &[rp::RNode],
    v: &Value<'a>,
) {
    w.traces += 1;
    let mut n = 0;
    for got in d.iter() {
        match nodes.get(n) {
            None => {
                w.fail("extra-node", format!("{how}: node {n} is {got:?}, expected no more"));
                return;
            }
            Some(want) => {
                if let Err(e) = util::same_node(&got, want, doc) {
                    w.fail("node", format!("{how}: node {n}: {e}"));
                    return;
                }
            }
        }
        n += 1;
    }
    if n != nodes.len() {
        w.fail("missing-node", format!("{how}: {n} nodes, expected {}", nodes.len()));
        return;
    }
    let by_ref: usize = (&d).into_iter().count();
    w.check(by_ref == n, "into_iter", || format!("{how}: into_iter yields {by_ref} nodes, iter {n}"));
    let mut it = d.iter();
    if let Some(x) = it.next_value() {
        w.check(x == *v && *v == x, "next_value", || format!("{how}: next_value gives {x:?}, parsed value {v:?}"));
        w.check(it.next().is_none(), "next_value-end", || format!("{how}: nodes remain after the root value"));
    } else {
        w.fail("next_value", format!("{how}: next_value gives nothing"));
    }
    let x = Value::from(d);
    w.check(x == *v && *v == x, "value", || format!("{how}: converts to {x:?}, parsed value {v:?}"));
    if let Err(e) = util::same_value(&x, tree, doc) {
        w.fail("value-image", format!("{how}: converts to a wrong value: {e}"));
    }
}

fn judge(doc: &[u8], w: &mut W) {
    let cfg = Cfg { trailing: true, limit: None, root_any: true };
    let Some(tree) = rp::parse(doc, &cfg) else { return };
    let mut nodes = Vec::new();
    rp::preorder(&tree, &mut nodes);
    let shape = util::shape_hash(&tree);
    w.state(shape);
    w.edge(mix(shape, doc.len() as u64), 0);
    let pc = util::config(&cfg);
    let Ok(v) = Value::from_json_bytes_with_config(doc, pc) else { return };
    match Document::from_json_bytes_with_config(doc, pc) {
        Ok(d) => {
            if let Ok(e) = Document::from_json_bytes_with_config(doc, pc) {
                w.check(d == e, "eq", || "two documents of the same input are not equal".into());
            }
            one(w, "bytes", doc, d, &tree, &nodes, &v);
        }
        Err(e) => w.fail("rejected", format!("bytes: value accepted, document {e:?}")),
    }
    let text = std::str::from_utf8(doc).expect("accepted");
    match Document::from_json_with_config(text, pc) {
        Ok(d) => one(w, "text", doc, d, &tree, &nodes, &v),
        Err(e) => w.fail("rejected", format!("text: value accepted, document {e:?}")),
    }
    if nodes.len() <= 32 {
        match HeaplessDocument::<32>::from_json_with_config(text, pc) {
            Ok(d) => one(w, "heapless", doc, d, &tree, &nodes, &v),
            Err(e) => w.fail("rejected", format!("heapless: value accepted, document {e:?}")),
        }
    }
    // The entry points without a configuration, where they accept the same.
    let strict = Cfg { trailing: false, limit: Some(128), root_any: true };
    if rp::parse(doc, &strict).is_some() {
        if let Ok(d) = Document::from_json(text) {
            one(w, "default text", doc, d, &tree, &nodes, &v);
        }
        if let Ok(d) = Document::from_json_bytes(doc) {
            one(w, "default bytes", doc, d, &tree, &nodes, &v);
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    gen::documents(tier)
}

fn main() {
    engine::main(Check {
        id: "C15",
        level: Level::ModelChecking,
        rule: "a state is a tree shape (kinds and literal lengths), a transition a shape with a source length; each trace obtains the document through one entry point of the real code and compares every node, the converted value and the value read from the iterator with the reference tree and with the value parsed directly",
        assumptions: &["documents that the library wrongly rejects as values are C01's to report"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}

//! C17: capacity-limited documents hold exactly what fits, or report an error.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::parser::ParseConfig;
use justjson::{Error, ErrorKind};
use std::cell::RefCell;

/// A collection whose push fails once, at a chosen call, with a chosen error.
#[derive(Default, Debug)]
struct Fussy<'a>(Vec<Node<'a>>);
#[derive(Default, Clone)]
struct Plan {
    fail_at: Option<usize>,
    kind: Option<ErrorKind>,
    pushes: usize,
    failed: bool,
    after: usize,
}
thread_local! {
    static PLAN: RefCell<Plan> = RefCell::default();
}
impl<'a> AsRef<[Node<'a>]> for Fussy<'a> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.0
    }
}
impl<'a> AsMut<[Node<'a>]> for Fussy<'a> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.0
    }
}
impl<'a> IntoIterator for Fussy<'a> {
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    type Item = Node<'a>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a> NodeCollection<'a> for Fussy<'a> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let n = p.pushes;
            p.pushes += 1;
            if p.failed {
                p.after += 1;
            }
            if Some(n) == p.fail_at {
                p.failed = true;
                return Err(p.kind.clone().expect("kind"));
            }
            self.0.push(node);
            Ok(())
        })
    }
}

fn kinds() -> Vec<ErrorKind> {
    vec![
        ErrorKind::Utf8, ErrorKind::UnexpectedEof, ErrorKind::ExpectedObjectKey, ErrorKind::ExpectedColon,
        ErrorKind::ExpectedValue, ErrorKind::ExpectedCommaOrEndOfObject, ErrorKind::ExpectedCommaOrEndOfArray,
        ErrorKind::IllegalTrailingComma, ErrorKind::Unexpected(0), ErrorKind::Unexpected(255), ErrorKind::TrailingNonWhitespace,
        ErrorKind::ObjectKeysMustBeStrings, ErrorKind::ExpectedExponent, ErrorKind::ExpectedDecimalDigit, ErrorKind::ExpectedDigit,
        ErrorKind::InvalidHexadecimal, ErrorKind::InvalidEscape, ErrorKind::UnclosedObject, ErrorKind::UnclosedArray,
        ErrorKind::UnclosedString, ErrorKind::ExpectedString, ErrorKind::ExpectedNumber, ErrorKind::RecursionLimitReached,
        ErrorKind::PayloadsShouldBeObjectOrArray, ErrorKind::PaylodTooLarge,
    ]
}

type Full<'a> = Result<Document<'a>, Error>;

fn same<'a, B: NodeCollection<'a>>(
    w: &mut W, how: &str, doc: &[u8], full: &Full<'a>, got: Result<GenericDocument<'a, B>, Error>, pushes: usize, cap: usize,
) {
    w.evals += 1;
    match (full, &got) {
        (Ok(a), Ok(b)) => {
            let n = a.iter().count();
            w.check(n <= cap, "over-capacity", || format!("{how}: {n} nodes accepted with capacity {cap}"));
            w.check(a.iter().eq(b.iter()), "nodes", || format!("{how}: nodes differ from the unlimited document's"));
        }
        (Ok(a), Err(e)) => {
            let n = a.iter().count();
            w.check(n > cap, "fits-but-rejected", || format!("{how}: {n} nodes with capacity {cap}: {e:?}"));
            w.check(matches!(e.kind(), ErrorKind::PaylodTooLarge), "wrong-error", || format!("{how}: {n} nodes with capacity {cap}: {e:?}"));
            w.check(e.offset() <= doc.len(), "offset", || format!("{how}: {e:?}"));
        }
        (Err(x), Ok(_)) => w.fail("accepted", format!("{how}: accepted, unlimited document {x:?}")),
        (Err(x), Err(e)) => {
            if pushes > cap {
                w.check(matches!(e.kind(), ErrorKind::PaylodTooLarge), "later-error", || {
                    format!("{how}: {pushes} nodes precede {x:?}, capacity {cap}, but reported {e:?}")
                });
            } else {
                w.check(e == x, "earlier-error", || {
                    format!("{how}: {pushes} nodes precede {x:?}, capacity {cap}, but reported {e:?}")
                });
            }
        }
    }
}

/// The nodes pushed while parsing (including those before an error), and the error, if any.
fn observe(doc: &[u8], pc: ParseConfig) -> (Vec<Node<'_>>, usize) {
    PLAN.with(|p| *p.borrow_mut() = Plan::default());
    let r = GenericDocument::<Fussy<'_>>::from_json_bytes_with_config(doc, pc);
    let n = PLAN.with(|p| p.borrow().pushes);
    let nodes = r.map(|d| d.iter().collect()).unwrap_or_default();
    (nodes, n)
}

fn judge(doc: &[u8], w: &mut W) {
    for cfg in [Cfg { trailing: true, limit: Some(128), root_any: true }, Cfg { trailing: false, limit: Some(3), root_any: false }] {
        one(doc, w, &cfg);
    }
}

fn one(doc: &[u8], w: &mut W, cfg: &Cfg) {
    let pc = util::config(cfg);
    let text = std::str::from_utf8(doc).ok();
    let full = Document::from_json_bytes_with_config(doc, pc);
    // How many nodes the reference pushes before the first fault.
    let walk = rp::walk(doc, cfg);
    let pushes = walk
        .events
        .iter()
        .filter(|e| matches!(e, rp::Ev::Null | rp::Ev::Bool(_) | rp::Ev::Num(..) | rp::Ev::Str(..) | rp::Ev::BeginArr | rp::Ev::BeginObj | rp::Ev::Key(..)))
        .count();
    if full.is_ok() != rp::parse(doc, cfg).is_some() {
        // C01's or C03's to report.
        return;
    }
    let (_, seen) = observe(doc, pc);
    w.evals += 1;
    w.check(seen == pushes || full.is_err(), "push-count", || format!("{seen} nodes pushed, expected {pushes}"));
    let id = engine::hash_bytes(u64::from(cfg.trailing), doc);
    macro_rules! heapless {
        ($($n:literal)*) => {$(
            #[allow(unused_comparisons)]
            if $n <= pushes + 2 {
                w.nontrivial.insert(mix(id, $n));
                same(w, concat!("capacity ", $n, " bytes"), doc, &full, HeaplessDocument::<$n>::from_json_bytes_with_config(doc, pc), pushes, $n);
                if let Some(s) = text {
                    same(w, concat!("capacity ", $n, " text"), doc, &full, HeaplessDocument::<$n>::from_json_with_config(s, pc), pushes, $n);
                }
            }
        )*};
    }
    heapless!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 31 32 33 63 64 65 99 100 101 127 128 129 130 255 256 257 258 300 511 512 513 1000 1024 1025);
    // Every push fails once, with several errors (all of them for short documents).
    let kinds = kinds();
    let points: Vec<usize> = if pushes <= 80 { (0..pushes).collect() } else { (0..3).chain(pushes - 3..pushes).collect() };
    for k in points {
        for (i, kind) in kinds.iter().enumerate() {
            if (pushes > 7 && (i + k) % 6 != 0) || (pushes > 80 && i % 8 != 0) {
                continue;
            }
            PLAN.with(|p| *p.borrow_mut() = Plan { fail_at: Some(k), kind: Some(kind.clone()), ..Plan::default() });
            let r = GenericDocument::<Fussy<'_>>::from_json_bytes_with_config(doc, pc);
            let plan = PLAN.with(|p| p.borrow().clone());
            w.evals += 1;
            w.nontrivial.insert(mix(id, mix(k as u64 + 100, i as u64)));
            match r {
                Ok(_) => w.fail("push-error-swallowed", format!("push {k} failed with {kind:?}, parsing succeeded")),
                Err(e) => {
                    w.check(e.kind() == kind, "push-error-changed", || format!("push {k} failed with {kind:?}, parsing reported {e:?}"));
                    w.check(e.offset() <= doc.len(), "offset", || format!("push {k}: {e:?}"));
                }
            }
            w.check(plan.after == 0, "push-after-error", || format!("push {k} failed, {} more pushes", plan.after));
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let loose = Cfg { trailing: true, limit: None, root_any: true };
    let mut v = vec![
        gen::trees(tier.pick(5, 6), 3, true, 2),
        gen::token_trie(loose, tier.pick(7, 8)),
        gen::cover(loose, tier.pick(1, 2), false),
        gen::wide(tier),
        gen::pumps(tier),
        gen::mutations(false),
        gen::near(Tier::Quick),
    ];
    v.extend(gen::far(tier, gen::good_atoms()).into_iter().map(|f| gen::shorter(f, 5200)));
    v
}

fn main() {
    engine::main(Check {
        id: "C17",
        level: Level::FaultEnumeration,
        rule: "one evaluation parses one input into a document of one fixed capacity (0 to 16, around every power of two up to 1024, up to two more than needed), or into a caller-provided collection whose k-th push fails with one error kind, for every k; distinct (input, capacity) and (input, k, error) combinations are counted. The expected outcome is computed from the unlimited document and the reference walker's node count before the first fault",
        assumptions: &["inputs whose verdict is already wrong are C01's and C03's to report"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}

//! Built once per feature set of the library; writes down everything observable that is available
//! in all of them (and checks what is only available in some against it).
use justjson::doc::{GenericDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, Parser, Token, Tokenizer};
use justjson::{AnyStr, Error, ErrorKind, JsonNumber, JsonString};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A caller-provided collection.
#[derive(Default)]
struct Bag<'a, const N: usize>(Vec<Node<'a>>);
impl<'a, const N: usize> AsRef<[Node<'a>]> for Bag<'a, N> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.0
    }
}
impl<'a, const N: usize> AsMut<[Node<'a>]> for Bag<'a, N> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.0
    }
}
impl<'a, const N: usize> IntoIterator for Bag<'a, N> {
    type Item = Node<'a>;
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, const N: usize> NodeCollection<'a> for Bag<'a, N> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        if self.0.len() >= N {
            return Err(ErrorKind::PaylodTooLarge);
        }
        self.0.push(node);
        Ok(())
    }
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b'w');
        self.0.extend(b);
    }
    fn write_u8(&mut self, b: u8) {
        self.0.push(b'8');
        self.0.push(b);
    }
}

type T = Vec<u8>;
fn put(t: &mut T, s: impl AsRef<[u8]>) {
    t.extend(s.as_ref());
    t.push(b'\n');
}

fn error(t: &mut T, e: &Error) {
    put(t, format!("E {:?} {} {e}", e.kind(), e.offset()));
}
fn kind(t: &mut T, what: &str, r: &Result<JsonKind, Error>) {
    t.extend(what.as_bytes());
    match r {
        Ok(k) => put(t, format!("{k:?}")),
        Err(e) => error(t, e),
    }
}

fn string(t: &mut T, s: &JsonString<'_>, deep: bool) {
    t.push(b's');
    let decoded: String = s.decoded().collect();
    put(t, &decoded);
    let json: String = s.as_json().collect();
    put(t, &json);
    put(t, format!("{} {} {} {:?} {:?}", s.len(), s.decoded_len(), s.is_empty(), s.as_str(), s.as_json_str().map(AnyStr::as_str)));
    let mut h = Rec::default();
    s.hash(&mut h);
    put(t, &h.0);
    if deep {
        put(t, s.to_string());
        put(t, s.as_json().to_string());
        put(t, format!("{:?} {:?}", s.as_json().size_hint(), s.decoded().size_hint()));
        put(t, format!("{} {} {:?} {:?}", *s == *decoded.as_str(), *s == *json.as_str(), s.partial_cmp(decoded.as_str()), s.partial_cmp(json.as_str())));
        let plain = JsonString::from(decoded.as_str());
        put(t, format!("{} {} {:?} {:?}", *s == plain, plain == *s, s.cmp(&plain), plain.cmp(s)));
        if let Some(a) = s.as_json_str() {
            let mut h = Rec::default();
            a.hash(&mut h);
            put(t, &h.0);
            put(t, format!("{} {:?}", *a == *decoded.as_str(), a.partial_cmp(decoded.as_str())));
        }
    }
    #[cfg(feature = "alloc")]
    {
        // What only allocation allows agrees with what is always there.
        assert_eq!(s.decode_if_needed(), decoded.as_str(), "decode_if_needed");
        assert_eq!(s.escape_if_needed(), json.as_str(), "escape_if_needed");
        let owned = JsonString::from(decoded.clone());
        let plain = JsonString::from(decoded.as_str());
        assert!(owned == plain && *s == owned && owned.decoded().eq(plain.decoded()) && owned.as_json().eq(plain.as_json()), "owned string");
        assert_eq!((owned.len(), owned.decoded_len(), owned.is_empty()), (plain.len(), plain.decoded_len(), plain.is_empty()), "owned string");
        let (mut a, mut b) = (Rec::default(), Rec::default());
        owned.hash(&mut a);
        plain.hash(&mut b);
        assert!(a.0 == b.0, "owned string hash");
        assert_eq!(AnyStr::from(decoded.clone()), AnyStr::from(decoded.as_str()));
    }
}
fn number(t: &mut T, n: &JsonNumber<'_>) {
    t.push(b'n');
    put(t, n.source());
    put(t, format!("{:?} {:?} {:?} {:?}", n.as_u64(), n.as_i8(), n.as_i128(), n.as_f64().map(f64::to_bits)));
}
fn node(t: &mut T, n: &Node<'_>, deep: bool) {
    match n {
        Node::Null => put(t, "null"),
        Node::Boolean(b) => put(t, format!("{b}")),
        Node::String(s) => string(t, s, deep),
        Node::Number(n) => number(t, n),
        Node::Object { length } => put(t, format!("object {length}")),
        Node::Array { length } => put(t, format!("array {length}")),
    }
}

fn document<'a, B>(t: &mut T, what: &str, r: &Result<GenericDocument<'a, B>, Error>, deep: bool)
where
    B: NodeCollection<'a> + Default,
{
    put(t, what);
    match r {
        Err(e) => error(t, e),
        Ok(d) => {
            for n in d.iter() {
                node(t, &n, deep);
            }
            if !deep {
                return;
            }
            // Skipping from every node.
            let mut it = d.iter();
            loop {
                let mut skip = it.clone();
                skip.skip_next_value();
                t.extend((skip.count() as u32).to_le_bytes());
                if it.next().is_none() {
                    break;
                }
            }
            t.push(b'\n');
        }
    }
}

fn tokens<const U: bool>(t: &mut T, mut z: Tokenizer<'_, U>, n: usize, deep: bool) {
    for _ in 0..n + 2 {
        t.extend(format!("{:?} {} ", z.peek(), z.offset()).as_bytes());
        match z.next() {
            None => break,
            Some(Ok(tok)) => match tok {
                Token::String(s) => string(t, &s, deep),
                Token::Number(n) => number(t, &n),
                other => put(t, format!("{other:?}")),
            },
            Some(Err(e)) => {
                error(t, &e);
                break;
            }
        }
    }
    match z.next_or_eof() {
        Ok(tok) => put(t, format!("{tok:?}")),
        Err(e) => error(t, &e),
    }
}

fn configs() -> [ParseConfig; 4] {
    [
        ParseConfig::new(),
        ParseConfig::new().allowing_trailing_commas().without_recursion_limit(),
        ParseConfig::new().with_recursion_limit(1).allowing_all_types_at_root(false),
        ParseConfig::strict(),
    ]
}

fn json(t: &mut T, src: &[u8]) {
    let text = std::str::from_utf8(src).ok();
    let small = src.len() < 700;
    kind(t, "vb ", &Parser::validate_json_bytes(src));
    if let Some(text) = text {
        kind(t, "vt ", &Parser::validate_json(text));
    }
    for c in configs() {
        kind(t, "vc ", &Parser::validate_json_bytes_with_config(src, c.clone()));
        if let (Some(text), true) = (text, small) {
            kind(t, "vd ", &Parser::validate_json_with_config(text, c.clone()));
            document(t, "gc", &GenericDocument::<Bag<'_, 1000000>>::from_json_with_config(text, c), false);
        }
    }
    document(t, "gb", &GenericDocument::<Bag<'_, 1000000>>::from_json_bytes(src), small);
    document(t, "g0", &GenericDocument::<Bag<'_, 0>>::from_json_bytes(src), false);
    let three = GenericDocument::<Bag<'_, 3>>::from_json_bytes(src);
    document(t, "g3", &three, false);
    #[cfg(feature = "heapless")]
    {
        use justjson::doc::HeaplessDocument;
        let (mut a, mut b) = (T::new(), T::new());
        document(&mut a, "", &three, small);
        document(&mut b, "", &HeaplessDocument::<'_, 3>::from_json_bytes(src), small);
        assert!(a == b, "heapless document: {:?} instead of {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&a));
        if small {
            let (mut a, mut b) = (T::new(), T::new());
            document(&mut a, "", &GenericDocument::<Bag<'_, 32>>::from_json_bytes_with_config(src, configs()[1].clone()), true);
            document(&mut b, "", &HeaplessDocument::<'_, 32>::from_json_bytes_with_config(src, configs()[1].clone()), true);
            assert!(a == b, "heapless document: {:?} instead of {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&a));
        }
    }
    #[cfg(feature = "alloc")]
    {
        use justjson::doc::Document;
        use justjson::Value;
        let (mut a, mut b) = (T::new(), T::new());
        document(&mut a, "", &GenericDocument::<Bag<'_, 1000000>>::from_json_bytes(src), false);
        document(&mut b, "", &Document::from_json_bytes(src), false);
        assert!(a == b, "document: {:?} instead of {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&a));
        let v = Value::from_json_bytes(src);
        match (&v, &Parser::validate_json_bytes(src)) {
            (Ok(_), Ok(_)) => {}
            (Err(a), Err(b)) if a.kind() == b.kind() && a.offset() == b.offset() => {}
            (a, b) => panic!("value {a:?}, validation {b:?}"),
        }
        if let (Ok(v), true) = (v, small) {
            let d = GenericDocument::<Bag<'_, 1000000>>::from_json_bytes(src).expect("document");
            assert!(d.iter().next_value().as_ref() == Some(&v), "next_value");
            assert!(Value::from(d) == v, "value of a document");
        }
    }
    tokens(t, Tokenizer::for_json_bytes(src), src.len(), small);
    if let (Some(text), true) = (text, small) {
        tokens(t, Tokenizer::for_json(text), src.len(), false);
        match JsonString::from_json(text) {
            Ok(s) => string(t, &s, true),
            Err(e) => error(t, &e),
        }
        match JsonNumber::from_json(text) {
            Ok(n) => number(t, &n),
            Err(e) => error(t, &e),
        }
    }
}

/// Two representations: `P` literal content or `B` text, separated by 0xff.
fn pair(t: &mut T, case: &[u8]) {
    let Some(i) = case.iter().position(|b| *b == 0xff) else { return };
    let (a, b) = (&case[..i], &case[i + 1..]);
    let src = |c: &[u8]| match c.first() {
        Some(b'P') => format!("\"{}\"", String::from_utf8_lossy(&c[1..])),
        _ => String::from_utf8_lossy(c.get(1..).unwrap_or(&[])).into_owned(),
    };
    let (sa, sb) = (src(a), src(b));
    fn make<'s>(c: &[u8], s: &'s str) -> Option<JsonString<'s>> {
        if c.first() == Some(&b'P') {
            JsonString::from_json(s).ok()
        } else {
            Some(JsonString::from(s))
        }
    }
    let (Some(x), Some(y)) = (make(a, &sa), make(b, &sb)) else { return put(t, "none") };
    string(t, &x, true);
    put(t, format!("{} {} {:?} {:?} {:?}", x == y, y == x, x.cmp(&y), y.partial_cmp(&x), x == *sb.as_str()));
    put(t, format!("{:?} {:?}", x.partial_cmp(sb.as_str()), x.partial_cmp(&sb.as_str())));
    let (p, q) = (AnyStr::from(sa.as_str()), AnyStr::from(sb.as_str()));
    put(t, format!("{} {:?} {:?}", p == q, p.partial_cmp(&q), p.partial_cmp(sb.as_str())));
}

fn transcript(case: &[u8]) -> T {
    let mut t = T::new();
    let r = catch_unwind(AssertUnwindSafe(|| match case.split_first() {
        Some((b'J', rest)) => json(&mut t, rest),
        Some((b'R', rest)) => pair(&mut t, rest),
        _ => {}
    }));
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()));
        put(&mut t, format!("PANIC {}", m.unwrap_or_default()));
    }
    t
}

fn digest(t: &[u8]) -> u64 {
    t.chunks(8).fold(t.len() as u64, |h, c| {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
    })
}

/// The digest of the transcript of a case. The lowest bit tells whether something panicked.
///
/// # Safety
/// `case` points to `n` readable bytes.
#[no_mangle]
pub unsafe extern "C" fn jj_probe(case: *const u8, n: usize) -> u64 {
    let t = transcript(unsafe { std::slice::from_raw_parts(case, n) });
    digest(&t) << 1 | u64::from(t.windows(6).any(|w| w == b"PANIC ") && n > 0)
}

/// The transcript itself, cut to `cap` bytes; returns its length.
///
/// # Safety
/// `case` points to `n` readable bytes and `out` to `cap` writable ones.
#[no_mangle]
pub unsafe extern "C" fn jj_text(case: *const u8, n: usize, out: *mut u8, cap: usize) -> usize {
    let t = transcript(unsafe { std::slice::from_raw_parts(case, n) });
    let k = t.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), out, k) };
    k
}

/// Keeps panics of the code under test quiet.
#[no_mangle]
pub extern "C" fn jj_init() {
    std::panic::set_hook(Box::new(|_| {}));
}

//! C09: JSON string equality is equality of decoded text.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::strs::{self, Repr};
use justjson::{Entry, JsonString, Object, Value};

fn judge(case: &[u8], w: &mut W) {
    let Some((a, b)) = Repr::pair(case) else { return };
    let (Some(x), Some(y)) = (a.make(), b.make()) else {
        w.fail("rejected", "a representation was not accepted");
        return;
    };
    let want = a.text == b.text;
    w.traces += 1;
    w.state(a.state());
    w.edge(strs::relation(&a, &b), 0);
    let bad = |w: &mut W, what: &str| w.fail(what, format!("{what}: {:?} and {:?} are {}equal texts", a.text, b.text, if want { "" } else { "un" }));
    macro_rules! eq {
        ($what:expr, $e:expr) => {
            let got: bool = $e;
            if got != want {
                bad(w, $what);
            }
        };
    }
    eq!("eq", x == y);
    eq!("eq-swapped", y == x);
    eq!("ne", !(x != y));
    eq!("eq-str", x == *b.text.as_str());
    eq!("eq-ref-str", x == b.text.as_str());
    eq!("eq-str-swapped", y == *a.text.as_str());
    if x != x.clone() {
        bad(w, "reflexive");
    }
    // Values, keys and lookup.
    let (Some(v), Some(u)) = (a.value(), b.value()) else {
        w.fail("rejected", "a representation was not accepted as a value");
        return;
    };
    eq!("eq-value", v == u);
    eq!("eq-value-string", Value::String(x.clone()) == u);
    let mut o = Object::new();
    o.push(Entry::new(x.clone(), Value::Null));
    eq!("lookup", o.get(b.text.as_str()).is_some());
    eq!("lookup-mut", o.get_mut(b.text.as_str()).is_some());
    eq!("lookup-entry", o.get_entry_mut(b.text.as_str()).is_some());
    let mut p = Object::new();
    p.push(Entry::new(y.clone(), Value::Null));
    eq!("eq-object", o == p);
    let o = Value::Object(o);
    eq!("lookup-value", o.get(b.text.as_str()).is_some());
    eq!("eq-array", Value::from(vec![Value::String(x)]) == Value::from(vec![Value::String(y)]));
    if a.tag == b'P' && b.tag == b'P' {
        // as members of parsed documents
        let (s, t) = (format!("{{{}:[{}]}}", a.src, a.src), format!("{{{}:[{}]}}", b.src, b.src));
        let (d, e) = (Value::from_json(&s), Value::from_json(&t));
        if let (Ok(d), Ok(e)) = (d, e) {
            eq!("eq-document", d == e);
        } else {
            w.fail("rejected", "a document of the representation was not accepted");
        }
    }
    let owned = JsonString::from(b.text.clone());
    eq!("eq-owned", a.make().is_some_and(|x| x == owned));
}

fn families(tier: Tier) -> Vec<Family> {
    strs::pairs(tier)
}

fn main() {
    engine::main(Check {
        id: "C09",
        level: Level::ModelChecking,
        rule: "a state is a representation kind with its decoded text (the reference decoder's); a transition is a compared pair up to kinds, lengths, position of the first difference and order; each trace compares the real strings of one pair in all equality, lookup and container forms with text equality",
        assumptions: &["decoded text is taken with the library's own reading of \\b (finding of C07)"],
        families,
        judge,
        stack_mb: 0,
        show: strs::show,
    })
}

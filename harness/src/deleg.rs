//! A recording delegate and the reference log of a parse.
use crate::rp::{self, Ev};
use justjson::parser::{JsonKind, ParseDelegate};
use justjson::{JsonNumber, JsonString};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Null(usize),
    Bool(bool, usize),
    /// literal as offset range, id of the returned value
    Num(usize, usize, usize),
    Str(usize, usize, usize),
    BeginArr(usize),
    /// container, value
    ArrVal(usize, usize),
    /// container, returned value
    EndArr(usize, usize),
    BeginObj(usize),
    /// container, literal, returned key
    Key(usize, usize, usize, usize),
    /// container, key, value
    ObjVal(usize, usize, usize),
    EndObj(usize, usize),
}

#[derive(Default, Debug)]
pub struct Log {
    pub calls: Vec<Call>,
    pub next: usize,
    /// fail at this call
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_failure: usize,
    pub queries_after_failure: usize,
    pub problems: Vec<String>,
    pub live: usize,
    /// containers begun and not yet ended, innermost last: (id, members)
    pub open: Vec<(usize, usize)>,
    pub kind_queries: usize,
}

pub type Shared = Rc<RefCell<Log>>;

/// Handles are not Clone: each is given to the parser once. Dropping one counts down `live`.
pub struct Handle {
    pub id: usize,
    kind: u8,
    log: Shared,
}
impl Drop for Handle {
    fn drop(&mut self) {
        self.log.borrow_mut().live -= 1;
    }
}

/// The error a delegate fails with: the number of the failing call.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Fail(pub usize);
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "fail {}", self.0)
    }
}

pub struct Recorder<'a> {
    pub src: &'a [u8],
    pub log: Shared,
}

impl<'a> Recorder<'a> {
    pub fn new(src: &'a [u8], fail_at: Option<usize>) -> (Self, Shared) {
        let log: Shared = Rc::new(RefCell::new(Log { fail_at, ..Log::default() }));
        (Recorder { src, log: log.clone() }, log)
    }
    fn call(&self, c: impl FnOnce(usize) -> Call) -> Result<usize, Fail> {
        let mut l = self.log.borrow_mut();
        if l.failed {
            l.after_failure += 1;
        }
        let n = l.calls.len();
        let id = l.next;
        l.next += 1;
        let c = c(id);
        l.calls.push(c);
        if l.fail_at == Some(n) {
            l.failed = true;
            return Err(Fail(n));
        }
        Ok(id)
    }
    fn handle(&self, id: usize, kind: u8) -> Handle {
        self.log.borrow_mut().live += 1;
        Handle { id, kind, log: self.log.clone() }
    }
    fn range(&self, s: &str) -> (usize, usize) {
        let a = (s.as_ptr() as usize).wrapping_sub(self.src.as_ptr() as usize);
        (a, a.wrapping_add(s.len()))
    }
    fn string(&self, s: &JsonString<'_>) -> (usize, usize) {
        match s.as_json_str() {
            Some(x) => self.range(x.as_str()),
            None => (usize::MAX, usize::MAX),
        }
    }
    fn problem(&self, s: String) {
        self.log.borrow_mut().problems.push(s);
    }
    fn query(&self, h: &Handle) -> bool {
        let mut l = self.log.borrow_mut();
        if l.failed {
            l.queries_after_failure += 1;
        }
        match l.open.last() {
            Some((id, n)) if *id == h.id => *n == 0,
            _ => {
                let id = h.id;
                l.problems.push(format!("asked whether container {id} is empty, which is not the innermost open one"));
                false
            }
        }
    }
}

impl<'a> ParseDelegate<'a> for Recorder<'a> {
    type Array = Handle;
    type Error = Fail;
    type Key = Handle;
    type Object = Handle;
    type Value = Handle;

    fn null(&mut self) -> Result<Handle, Fail> {
        let id = self.call(Call::Null)?;
        Ok(self.handle(id, b'n'))
    }
    fn boolean(&mut self, value: bool) -> Result<Handle, Fail> {
        let id = self.call(|id| Call::Bool(value, id))?;
        Ok(self.handle(id, b'b'))
    }
    fn number(&mut self, value: JsonNumber<'a>) -> Result<Handle, Fail> {
        let (a, b) = self.range(value.source());
        let id = self.call(|id| Call::Num(a, b, id))?;
        Ok(self.handle(id, b'#'))
    }
    fn string(&mut self, value: JsonString<'a>) -> Result<Handle, Fail> {
        let (a, b) = Recorder::string(self, &value);
        let id = self.call(|id| Call::Str(a, b, id))?;
        Ok(self.handle(id, b's'))
    }
    fn begin_object(&mut self) -> Result<Handle, Fail> {
        let id = self.call(Call::BeginObj)?;
        self.log.borrow_mut().open.push((id, 0));
        Ok(self.handle(id, b'O'))
    }
    fn object_key(&mut self, object: &mut Handle, key: JsonString<'a>) -> Result<Handle, Fail> {
        let (a, b) = Recorder::string(self, &key);
        let o = object.id;
        let id = self.call(|id| Call::Key(o, a, b, id))?;
        Ok(self.handle(id, b'k'))
    }
    fn object_value(&mut self, object: &mut Handle, key: Handle, value: Handle) -> Result<(), Fail> {
        let o = object.id;
        self.call(|_| Call::ObjVal(o, key.id, value.id))?;
        if let Some(t) = self.log.borrow_mut().open.last_mut() {
            t.1 += 1;
        }
        Ok(())
    }
    fn object_is_empty(&self, object: &Handle) -> bool {
        self.query(object)
    }
    fn end_object(&mut self, object: Handle) -> Result<Handle, Fail> {
        let o = object.id;
        let id = self.call(|id| Call::EndObj(o, id))?;
        self.log.borrow_mut().open.pop();
        Ok(self.handle(id, b'o'))
    }
    fn begin_array(&mut self) -> Result<Handle, Fail> {
        let id = self.call(Call::BeginArr)?;
        self.log.borrow_mut().open.push((id, 0));
        Ok(self.handle(id, b'A'))
    }
    fn array_value(&mut self, array: &mut Handle, value: Handle) -> Result<(), Fail> {
        let a = array.id;
        self.call(|_| Call::ArrVal(a, value.id))?;
        if let Some(t) = self.log.borrow_mut().open.last_mut() {
            t.1 += 1;
        }
        Ok(())
    }
    fn array_is_empty(&self, array: &Handle) -> bool {
        self.query(array)
    }
    fn end_array(&mut self, array: Handle) -> Result<Handle, Fail> {
        let a = array.id;
        let id = self.call(|id| Call::EndArr(a, id))?;
        self.log.borrow_mut().open.pop();
        Ok(self.handle(id, b'a'))
    }
    fn kind_of(&self, value: &Handle) -> JsonKind {
        {
            let mut l = self.log.borrow_mut();
            l.kind_queries += 1;
            if l.failed {
                l.queries_after_failure += 1;
            }
        }
        match value.kind {
            b'n' => JsonKind::Null,
            b'b' => JsonKind::Boolean,
            b'#' => JsonKind::Number,
            b's' => JsonKind::String,
            b'a' => JsonKind::Array,
            b'o' => JsonKind::Object,
            k => {
                self.problem(format!("asked for the kind of a {} handle", k as char));
                JsonKind::Null
            }
        }
    }
}

/// The calls the reference walker's events stand for, with ids assigned in the same way.
pub fn expected(events: &[Ev]) -> Vec<Call> {
    let mut out = Vec::new();
    // open containers; pending keys; last completed value
    let mut open: Vec<usize> = Vec::new();
    let mut keys: Vec<usize> = Vec::new();
    let mut value = usize::MAX;
    for e in events {
        let id = out.len();
        out.push(match *e {
            Ev::Null => {
                value = id;
                Call::Null(id)
            }
            Ev::Bool(b) => {
                value = id;
                Call::Bool(b, id)
            }
            Ev::Num(a, b) => {
                value = id;
                Call::Num(a, b, id)
            }
            Ev::Str(a, b) => {
                value = id;
                Call::Str(a, b, id)
            }
            Ev::BeginArr => {
                open.push(id);
                Call::BeginArr(id)
            }
            Ev::BeginObj => {
                open.push(id);
                Call::BeginObj(id)
            }
            Ev::ArrVal => Call::ArrVal(*open.last().expect("open"), value),
            Ev::Key(a, b) => {
                keys.push(id);
                Call::Key(*open.last().expect("open"), a, b, id)
            }
            Ev::ObjVal => Call::ObjVal(*open.last().expect("open"), keys.pop().expect("key"), value),
            Ev::EndArr => {
                let c = open.pop().expect("open");
                value = id;
                Call::EndArr(c, id)
            }
            Ev::EndObj => {
                let c = open.pop().expect("open");
                value = id;
                Call::EndObj(c, id)
            }
        });
    }
    out
}

/// Id of the root value of a completed walk.
pub fn root_id(events: &[Ev]) -> usize {
    events.len() - 1
}

pub fn reference(src: &[u8], cfg: &crate::pda::Cfg) -> (Vec<Call>, bool) {
    let w = rp::walk(src, cfg);
    (expected(&w.events), w.fault.is_none())
}

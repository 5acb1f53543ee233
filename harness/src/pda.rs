//! Reference model 1: a byte-at-a-time deterministic pushdown acceptor for RFC 8259 JSON, written
//! from the RFC and RFC 3629 (UTF-8), extended by the three documented parse options.
//! It dies on the first byte after which no continuation can be accepted ("viable prefix").

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Cfg {
    pub trailing: bool,
    pub limit: Option<usize>,
    pub root_any: bool,
}
impl Cfg {
    pub const DEFAULT: Cfg = Cfg { trailing: false, limit: Some(128), root_any: true };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Frame {
    Arr,
    Obj,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Num {
    Minus,
    Zero,
    Int,
    Dot,
    Frac,
    E,
    ESign,
    Exp,
}

/// What the first hex digits of a \u escape already determine.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cls {
    Start,
    D,
    High,
    Other,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum StrSt {
    Norm,
    Esc,
    U(u8, Cls),
    NeedBackslash,
    NeedU,
    Low(u8),
    /// UTF-8: continuation bytes still needed; the next one must lie in lo..=hi.
    Utf(u8, u8, u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ph {
    RootStart,
    ArrFirst,
    ArrNext,
    ObjFirst,
    ObjNext,
    Colon,
    ObjVal,
    After,
    /// keyword index (0 true, 1 false, 2 null) and characters already read
    Lit(u8, u8),
    Num(Num),
    Str(bool, StrSt),
}

pub const KEYWORDS: [&[u8]; 3] = [b"true", b"false", b"null"];

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Pda {
    pub stack: Vec<Frame>,
    pub ph: Ph,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Death {
    Syntax,
    Depth,
    RootType,
}

pub fn is_ws(b: u8) -> bool {
    b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d
}

impl Default for Pda {
    fn default() -> Self {
        Self::new()
    }
}

impl Pda {
    pub fn new() -> Self {
        Pda { stack: Vec::new(), ph: Ph::RootStart }
    }

    pub fn reset(&mut self) {
        self.stack.clear();
        self.ph = Ph::RootStart;
    }

    fn begin_value(&mut self, b: u8, cfg: &Cfg) -> Result<(), Death> {
        let root = self.stack.is_empty();
        let next = match b {
            b'{' => {
                self.open(Frame::Obj, cfg)?;
                return Ok(());
            }
            b'[' => {
                self.open(Frame::Arr, cfg)?;
                return Ok(());
            }
            b'"' => Ph::Str(false, StrSt::Norm),
            b't' => Ph::Lit(0, 1),
            b'f' => Ph::Lit(1, 1),
            b'n' => Ph::Lit(2, 1),
            b'-' => Ph::Num(Num::Minus),
            b'0' => Ph::Num(Num::Zero),
            b'1'..=b'9' => Ph::Num(Num::Int),
            _ => return Err(Death::Syntax),
        };
        if root && !cfg.root_any {
            return Err(Death::RootType);
        }
        self.ph = next;
        Ok(())
    }

    fn open(&mut self, f: Frame, cfg: &Cfg) -> Result<(), Death> {
        if let Some(l) = cfg.limit {
            if self.stack.len() >= l {
                return Err(Death::Depth);
            }
        }
        self.stack.push(f);
        self.ph = match f {
            Frame::Arr => Ph::ArrFirst,
            Frame::Obj => Ph::ObjFirst,
        };
        Ok(())
    }

    fn close(&mut self) {
        self.stack.pop();
        self.ph = Ph::After;
    }

    /// A complete value was read and `b` follows it.
    fn after(&mut self, b: u8) -> Result<(), Death> {
        self.ph = Ph::After;
        if is_ws(b) {
            return Ok(());
        }
        match (self.stack.last(), b) {
            (Some(Frame::Arr), b']') | (Some(Frame::Obj), b'}') => {
                self.close();
                Ok(())
            }
            (Some(Frame::Arr), b',') => {
                self.ph = Ph::ArrNext;
                Ok(())
            }
            (Some(Frame::Obj), b',') => {
                self.ph = Ph::ObjNext;
                Ok(())
            }
            _ => Err(Death::Syntax),
        }
    }

    pub fn step(&mut self, b: u8, cfg: &Cfg) -> Result<(), Death> {
        const DEAD: Result<(), Death> = Err(Death::Syntax);
        match self.ph {
            Ph::RootStart | Ph::ObjVal => {
                if is_ws(b) {
                    Ok(())
                } else {
                    self.begin_value(b, cfg)
                }
            }
            Ph::ArrFirst | Ph::ArrNext => {
                if is_ws(b) {
                    Ok(())
                } else if b == b']' && (self.ph == Ph::ArrFirst || cfg.trailing) {
                    self.close();
                    Ok(())
                } else {
                    self.begin_value(b, cfg)
                }
            }
            Ph::ObjFirst | Ph::ObjNext => {
                if is_ws(b) {
                    Ok(())
                } else if b == b'}' && (self.ph == Ph::ObjFirst || cfg.trailing) {
                    self.close();
                    Ok(())
                } else if b == b'"' {
                    self.ph = Ph::Str(true, StrSt::Norm);
                    Ok(())
                } else {
                    DEAD
                }
            }
            Ph::Colon => {
                if is_ws(b) {
                    Ok(())
                } else if b == b':' {
                    self.ph = Ph::ObjVal;
                    Ok(())
                } else {
                    DEAD
                }
            }
            Ph::After => self.after(b),
            Ph::Lit(k, n) => {
                let word = KEYWORDS[k as usize];
                if word[n as usize] != b {
                    return DEAD;
                }
                self.ph = if n as usize + 1 == word.len() { Ph::After } else { Ph::Lit(k, n + 1) };
                Ok(())
            }
            Ph::Num(n) => {
                let digit = b.is_ascii_digit();
                let exp = b == b'e' || b == b'E';
                let next = match n {
                    Num::Minus if b == b'0' => Num::Zero,
                    Num::Minus if digit => Num::Int,
                    Num::Minus => return DEAD,
                    Num::Zero | Num::Int if b == b'.' => Num::Dot,
                    Num::Zero | Num::Int if exp => Num::E,
                    Num::Int if digit => Num::Int,
                    Num::Dot if digit => Num::Frac,
                    Num::Dot => return DEAD,
                    Num::Frac if digit => Num::Frac,
                    Num::Frac if exp => Num::E,
                    Num::E if b == b'+' || b == b'-' => Num::ESign,
                    Num::E | Num::ESign | Num::Exp if digit => Num::Exp,
                    Num::E | Num::ESign => return DEAD,
                    Num::Zero | Num::Int | Num::Frac | Num::Exp => return self.after(b),
                };
                self.ph = Ph::Num(next);
                Ok(())
            }
            Ph::Str(key, st) => {
                let next = match st {
                    StrSt::Norm => match b {
                        b'"' => {
                            self.ph = if key { Ph::Colon } else { Ph::After };
                            return Ok(());
                        }
                        b'\\' => StrSt::Esc,
                        0x00..=0x1f => return DEAD,
                        0x20..=0x7f => StrSt::Norm,
                        0xc2..=0xdf => StrSt::Utf(1, 0x80, 0xbf),
                        0xe0 => StrSt::Utf(2, 0xa0, 0xbf),
                        0xed => StrSt::Utf(2, 0x80, 0x9f),
                        0xe1..=0xef => StrSt::Utf(2, 0x80, 0xbf),
                        0xf0 => StrSt::Utf(3, 0x90, 0xbf),
                        0xf1..=0xf3 => StrSt::Utf(3, 0x80, 0xbf),
                        0xf4 => StrSt::Utf(3, 0x80, 0x8f),
                        _ => return DEAD,
                    },
                    StrSt::Utf(n, lo, hi) => {
                        if b < lo || b > hi {
                            return DEAD;
                        }
                        if n == 1 {
                            StrSt::Norm
                        } else {
                            StrSt::Utf(n - 1, 0x80, 0xbf)
                        }
                    }
                    StrSt::Esc => match b {
                        b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => StrSt::Norm,
                        b'u' => StrSt::U(0, Cls::Start),
                        _ => return DEAD,
                    },
                    StrSt::U(n, cls) => {
                        let Some(v) = (b as char).to_digit(16) else { return DEAD };
                        let cls = match (n, cls) {
                            (0, _) if v == 0xd => Cls::D,
                            (0, _) => Cls::Other,
                            (1, Cls::D) if v < 8 => Cls::Other,
                            (1, Cls::D) if v < 0xc => Cls::High,
                            // a low surrogate that no high surrogate precedes
                            (1, Cls::D) => return DEAD,
                            (_, c) => c,
                        };
                        match (n, cls) {
                            (3, Cls::High) => StrSt::NeedBackslash,
                            (3, _) => StrSt::Norm,
                            _ => StrSt::U(n + 1, cls),
                        }
                    }
                    StrSt::NeedBackslash if b == b'\\' => StrSt::NeedU,
                    StrSt::NeedU if b == b'u' => StrSt::Low(0),
                    StrSt::NeedBackslash | StrSt::NeedU => return DEAD,
                    StrSt::Low(n) => {
                        let Some(v) = (b as char).to_digit(16) else { return DEAD };
                        let ok = match n {
                            0 => v == 0xd,
                            1 => v >= 0xc,
                            _ => true,
                        };
                        if !ok {
                            return DEAD;
                        }
                        if n == 3 {
                            StrSt::Norm
                        } else {
                            StrSt::Low(n + 1)
                        }
                    }
                };
                self.ph = Ph::Str(key, next);
                Ok(())
            }
        }
    }

    pub fn accepting(&self) -> bool {
        self.stack.is_empty()
            && matches!(
                self.ph,
                Ph::After | Ph::Num(Num::Zero | Num::Int | Num::Frac | Num::Exp)
            )
    }

    /// Stack as a compact number (depth <= 60 exact; deeper stacks keep depth and the top 60).
    pub fn stack_code(&self) -> u64 {
        let mut c = 1u64;
        for f in self.stack.iter().rev().take(60) {
            c = c << 1 | u64::from(*f == Frame::Obj);
        }
        c ^ ((self.stack.len() as u64) << 48).rotate_left(7)
    }

    pub fn ph_code(&self) -> u64 {
        match self.ph {
            Ph::RootStart => 0,
            Ph::ArrFirst => 1,
            Ph::ArrNext => 2,
            Ph::ObjFirst => 3,
            Ph::ObjNext => 4,
            Ph::Colon => 5,
            Ph::ObjVal => 6,
            Ph::After => 7,
            Ph::Lit(k, n) => 16 + u64::from(k) * 8 + u64::from(n),
            Ph::Num(n) => 48 + n as u64,
            Ph::Str(key, st) => {
                let s = match st {
                    StrSt::Norm => 0,
                    StrSt::Esc => 1,
                    StrSt::U(n, c) => 8 + u64::from(n) * 4 + c as u64,
                    StrSt::NeedBackslash => 2,
                    StrSt::NeedU => 3,
                    StrSt::Low(n) => 32 + u64::from(n),
                    StrSt::Utf(n, lo, hi) => {
                        (1 << 10) + (u64::from(n) << 16) + (u64::from(lo) << 24) + u64::from(hi)
                    }
                };
                (1 << 7) + s * 2 + u64::from(key) + (s << 9)
            }
        }
    }

    pub fn code(&self) -> u64 {
        self.stack_code().wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ self.ph_code().wrapping_mul(0xD6E8_FEB8_6659_FD93)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Run {
    Accept,
    /// Every byte was viable but the text is not complete.
    Incomplete,
    Dead { at: usize, why: Death, ph: Ph, stack: Vec<Frame> },
}

/// Runs the acceptor over the whole text.
pub fn run(doc: &[u8], cfg: &Cfg, p: &mut Pda) -> Run {
    p.reset();
    for (i, b) in doc.iter().enumerate() {
        let before = p.ph;
        if let Err(why) = p.step(*b, cfg) {
            return Run::Dead { at: i, why, ph: before, stack: p.stack.clone() };
        }
    }
    if p.accepting() {
        Run::Accept
    } else {
        Run::Incomplete
    }
}

pub fn accepts(doc: &[u8], cfg: &Cfg, p: &mut Pda) -> bool {
    p.reset();
    for b in doc {
        if p.step(*b, cfg).is_err() {
            return false;
        }
    }
    p.accepting()
}

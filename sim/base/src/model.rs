//! The reference model: a small, independent implementation of the JSON
//! grammar (RFC 8259), of this library's configuration options and of its
//! output layouts. Iterative, byte based, shares no code with the library.

use std::sync::atomic::{AtomicBool, Ordering};

/// Known finding: the library decodes `\b` as U+0007 (see known_findings.txt).
pub static B_DECODES_TO_BEL: AtomicBool = AtomicBool::new(false);
/// Known finding: the library encodes U+0007 as `\b`.
pub static BEL_ENCODES_AS_B: AtomicBool = AtomicBool::new(false);

pub fn b_char() -> char {
    if B_DECODES_TO_BEL.load(Ordering::Relaxed) {
        '\x07'
    } else {
        '\x08'
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Null,
    True,
    False,
    Str,
    Num,
    LBrace,
    RBrace,
    LBrack,
    RBrack,
    Colon,
    Comma,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok {
    pub k: K,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bad {
    pub start: usize,
    /// the input ends inside this token, and some continuation would be valid
    pub cut: bool,
    /// ... and it ends inside a multi-byte character
    pub cut_in_char: bool,
    pub why: Why,
}

/// What is wrong with the first thing that is wrong.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    /// the input ends between tokens
    End,
    /// the input ends in a string, outside an escape sequence
    StrEnd,
    /// the input ends in an escape sequence; true: of a surrogate pair that
    /// no continuation makes valid
    EscEnd(bool),
    /// a control character in a string
    Control(u8),
    Escape,
    Hex,
    Surrogate,
    Utf8,
    /// an integer, decimal or exponent digit is missing
    Digit(Option<u8>),
    Decimal(Option<u8>),
    Exponent(Option<u8>),
    /// a misspelt word; None: the input ends in it
    Word(Option<u8>),
    /// a byte that begins no token
    Stray(u8),
    /// a well-formed token that does not belong here, and its first byte
    Token(u8),
    /// not a matter of syntax
    Config,
}

/// Where in the grammar the first defect is.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spot {
    Value,
    Key,
    Colon,
    Comma,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lex {
    Tok(Tok),
    End,
    Bad(Bad),
}

pub fn is_ws(b: u8) -> bool {
    b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d
}

fn hexval(b: u8) -> Option<u32> {
    (b as char).to_digit(16)
}

enum Uni {
    Ok(usize),
    Cut,
    Invalid,
}

/// Well-formed UTF-8 sequences, Unicode table 3-7.
fn utf8_len(b: &[u8]) -> Uni {
    let (n, lo, hi) = match b[0] {
        0x00..=0x7f => return Uni::Ok(1),
        0xc2..=0xdf => (2, 0x80, 0xbf),
        0xe0 => (3, 0xa0, 0xbf),
        0xe1..=0xec | 0xee | 0xef => (3, 0x80, 0xbf),
        0xed => (3, 0x80, 0x9f),
        0xf0 => (4, 0x90, 0xbf),
        0xf1..=0xf3 => (4, 0x80, 0xbf),
        0xf4 => (4, 0x80, 0x8f),
        _ => return Uni::Invalid,
    };
    for i in 1..n {
        let (l, h) = if i == 1 { (lo, hi) } else { (0x80, 0xbf) };
        match b.get(i) {
            None => return Uni::Cut,
            Some(x) if *x < l || *x > h => return Uni::Invalid,
            Some(_) => {}
        }
    }
    Uni::Ok(n)
}

pub fn valid_utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        match utf8_len(&b[i..]) {
            Uni::Ok(n) => i += n,
            _ => return false,
        }
    }
    true
}

fn lex_string(b: &[u8], start: usize) -> Lex {
    let bad = |cut: bool, cut_in_char: bool, why: Why| {
        Lex::Bad(Bad {
            start,
            cut,
            cut_in_char,
            why,
        })
    };
    // reads \uXXXX digits at i; Ok(value), Err(true)=input ended, Err(false)=bad
    let four = |i: usize| -> Result<u32, bool> {
        let mut v = 0;
        for j in i..i + 4 {
            match b.get(j) {
                None => return Err(true),
                Some(x) => match hexval(*x) {
                    None => return Err(false),
                    Some(d) => v = v * 16 + d,
                },
            }
        }
        Ok(v)
    };
    let mut i = start + 1;
    loop {
        let Some(&c) = b.get(i) else {
            return bad(true, false, Why::StrEnd);
        };
        match c {
            b'"' => {
                return Lex::Tok(Tok {
                    k: K::Str,
                    start,
                    end: i + 1,
                })
            }
            b'\\' => match b.get(i + 1) {
                None => return bad(true, false, Why::EscEnd(false)),
                Some(b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't') => i += 2,
                Some(b'u') => match four(i + 2) {
                    Err(cut) => {
                        // a low surrogate cannot come first
                        let dead = matches!(b.get(i + 2), Some(b'd' | b'D'))
                            && matches!(b.get(i + 3), Some(b'c'..=b'f' | b'C'..=b'F'));
                        let why = if cut { Why::EscEnd(dead) } else { Why::Hex };
                        return bad(cut && !dead, false, why);
                    }
                    Ok(v) if (0xD800..0xDC00).contains(&v) => {
                        for (at, want) in [(i + 6, b'\\'), (i + 7, b'u')] {
                            match b.get(at) {
                                None => return bad(true, false, Why::EscEnd(false)),
                                Some(x) if *x != want => return bad(false, false, Why::Surrogate),
                                Some(_) => {}
                            }
                        }
                        match four(i + 8) {
                            Err(cut) => {
                                let first = b.get(i + 8);
                                let second = b.get(i + 9);
                                let alive = matches!(first, None | Some(b'd' | b'D'))
                                    && matches!(
                                        second,
                                        None | Some(b'c'..=b'f' | b'C'..=b'F')
                                    );
                                let why = if cut { Why::EscEnd(!alive) } else { Why::Hex };
                                return bad(cut && alive, false, why);
                            }
                            Ok(w) if (0xDC00..0xE000).contains(&w) => i += 12,
                            Ok(_) => return bad(false, false, Why::Surrogate),
                        }
                    }
                    Ok(v) if (0xDC00..0xE000).contains(&v) => {
                        return bad(false, false, Why::Surrogate)
                    }
                    Ok(_) => i += 6,
                },
                Some(_) => return bad(false, false, Why::Escape),
            },
            0..=0x1f => return bad(false, false, Why::Control(c)),
            0x20..=0x7f => i += 1,
            _ => match utf8_len(&b[i..]) {
                Uni::Ok(n) => i += n,
                Uni::Cut => return bad(true, true, Why::Utf8),
                Uni::Invalid => return bad(false, false, Why::Utf8),
            },
        }
    }
}

fn lex_number(b: &[u8], start: usize) -> Lex {
    let digit = |i: usize| b.get(i).is_some_and(u8::is_ascii_digit);
    let bad = |i: usize, why: fn(Option<u8>) -> Why| {
        Lex::Bad(Bad {
            start,
            cut: i >= b.len(),
            cut_in_char: false,
            why: why(b.get(i).copied()),
        })
    };
    let mut i = start;
    if b[i] == b'-' {
        i += 1;
    }
    if !digit(i) {
        return bad(i, Why::Digit);
    }
    if b[i] == b'0' {
        i += 1;
    } else {
        while digit(i) {
            i += 1;
        }
    }
    if b.get(i) == Some(&b'.') {
        i += 1;
        if !digit(i) {
            return bad(i, Why::Decimal);
        }
        while digit(i) {
            i += 1;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if !digit(i) {
            return bad(i, Why::Exponent);
        }
        while digit(i) {
            i += 1;
        }
    }
    Lex::Tok(Tok {
        k: K::Num,
        start,
        end: i,
    })
}

pub fn skip_ws(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && is_ws(b[i]) {
        i += 1;
    }
    i
}

/// The token at or after `pos`.
pub fn lex_at(b: &[u8], pos: usize) -> Lex {
    let i = skip_ws(b, pos);
    let Some(&c) = b.get(i) else { return Lex::End };
    let one = |k: K| {
        Lex::Tok(Tok {
            k,
            start: i,
            end: i + 1,
        })
    };
    let word = |k: K, w: &[u8]| {
        let have = &b[i..b.len().min(i + w.len())];
        if have == w {
            Lex::Tok(Tok {
                k,
                start: i,
                end: i + w.len(),
            })
        } else {
            Lex::Bad(Bad {
                start: i,
                cut: w.starts_with(have),
                cut_in_char: false,
                why: Why::Word((0..w.len()).find(|j| b.get(i + j) != Some(&w[*j])).and_then(|j| b.get(i + j)).copied()),
            })
        }
    };
    match c {
        b'{' => one(K::LBrace),
        b'}' => one(K::RBrace),
        b'[' => one(K::LBrack),
        b']' => one(K::RBrack),
        b',' => one(K::Comma),
        b':' => one(K::Colon),
        b'n' => word(K::Null, b"null"),
        b't' => word(K::True, b"true"),
        b'f' => word(K::False, b"false"),
        b'"' => lex_string(b, i),
        b'-' | b'0'..=b'9' => lex_number(b, i),
        _ => Lex::Bad(Bad {
            start: i,
            cut: false,
            cut_in_char: false,
            why: Why::Stray(c),
        }),
    }
}

/// All tokens up to the first malformed one.
pub fn lex_all(b: &[u8]) -> (Vec<Tok>, Option<Bad>) {
    let mut toks = Vec::new();
    let mut pos = 0;
    loop {
        match lex_at(b, pos) {
            Lex::End => return (toks, None),
            Lex::Bad(bad) => return (toks, Some(bad)),
            Lex::Tok(t) => {
                pos = t.end;
                toks.push(t);
            }
        }
    }
}

/// What the text between the quotes of a valid JSON string stands for.
pub fn decode(json: &str) -> String {
    decode_with(json, b_char())
}

pub fn decode_with(json: &str, b_is: char) -> String {
    let b = json.as_bytes();
    let mut out = String::with_capacity(b.len());
    let mut i = 0;
    let hex4 = |at: usize| -> u32 {
        let mut v = 0;
        for j in at..at + 4 {
            v = v * 16 + hexval(b[j]).unwrap_or(0);
        }
        v
    };
    while i < b.len() {
        if b[i] != b'\\' {
            let n = match utf8_len(&b[i..]) {
                Uni::Ok(n) => n,
                _ => 1,
            };
            out.push_str(&json[i..i + n]);
            i += n;
            continue;
        }
        match b[i + 1] {
            b'b' => out.push(b_is),
            b'f' => out.push('\u{c}'),
            b'n' => out.push('\n'),
            b'r' => out.push('\r'),
            b't' => out.push('\t'),
            b'u' => {
                let v = hex4(i + 2);
                if (0xD800..0xDC00).contains(&v) {
                    let w = hex4(i + 8);
                    let cp = 0x10000 + ((v & 0x3ff) << 10) + (w & 0x3ff);
                    out.push(char::from_u32(cp).unwrap_or('\u{fffd}'));
                    i += 12;
                } else {
                    out.push(char::from_u32(v).unwrap_or('\u{fffd}'));
                    i += 6;
                }
                continue;
            }
            c => out.push(c as char),
        }
        i += 2;
    }
    out
}

/// Is `json` (without quotes) a valid JSON string content that encodes `text`?
pub fn encodes(json: &str, text: &str) -> bool {
    let mut quoted = Vec::with_capacity(json.len() + 2);
    quoted.push(b'"');
    quoted.extend_from_slice(json.as_bytes());
    quoted.push(b'"');
    match lex_at(&quoted, 0) {
        Lex::Tok(t) if t.k == K::Str && t.end == quoted.len() => {}
        _ => return false,
    }
    if decode_with(json, '\x08') == text {
        return true;
    }
    // known finding: BEL is written as \b
    BEL_ENCODES_AS_B.load(Ordering::Relaxed)
        && text.contains('\x07')
        && !text.contains('\x08')
        && decode_with(json, '\x07') == text
        || BEL_ENCODES_AS_B.load(Ordering::Relaxed)
            && text.contains('\x07')
            && text.contains('\x08')
            && mixed_b(json, text)
}

/// `\b` may stand for BEL where the text has BEL, for BS where it has BS.
fn mixed_b(json: &str, text: &str) -> bool {
    // decode with a marker for \b
    let marked = decode_with(json, '\u{f8ff}');
    let mut a = marked.chars();
    let mut t = text.chars();
    loop {
        match (a.next(), t.next()) {
            (None, None) => return true,
            (Some('\u{f8ff}'), Some('\x07' | '\x08' | '\u{f8ff}')) => {}
            (Some(x), Some(y)) if x == y => {}
            _ => return false,
        }
    }
}

// ---------------------------------------------------------------- grammar

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cfg {
    pub limit: Option<usize>,
    pub trailing: bool,
    pub all_roots: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            limit: Some(128),
            trailing: false,
            all_roots: true,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Null,
    Bool(bool),
    Num(usize, usize),
    /// content without quotes
    Str(usize, usize),
    BeginObj,
    Key(usize, usize),
    ObjVal,
    EndObj(usize),
    BeginArr,
    ArrVal,
    EndArr(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK {
    Syntax,
    Depth,
    Root,
    TrailingComma,
    TrailingData,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MErr {
    pub kind: EK,
    /// end of the last good token: a refusal may not point before this
    pub from: usize,
    /// the payload is a proper beginning of a valid one
    pub cut: bool,
    pub cut_in_char: bool,
    pub why: Why,
    pub spot: Spot,
    /// the innermost open container: an object?
    pub inside: Option<bool>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub events: Vec<Ev>,
    pub err: Option<MErr>,
    pub max_depth: usize,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
}

pub fn parse(b: &[u8], cfg: Cfg) -> Outcome {
    #[derive(Clone, Copy, PartialEq)]
    enum St {
        Value,
        FirstOrEndArr,
        NextOrEndArr, // after a comma
        FirstKeyOrEnd,
        NextKeyOrEnd, // after a comma
        Colon,
        CommaOrEnd,
    }
    let mut events = Vec::new();
    // (is_object, members so far)
    let mut stack: Vec<(bool, usize)> = Vec::new();
    let mut st = St::Value;
    let mut pos = 0;
    let mut max_depth = 0;
    let mut root_scalar = false;
    macro_rules! fail {
        ($kind:expr, $cut:expr, $cic:expr) => {
            fail!($kind, $cut, $cic, Why::Config)
        };
        ($kind:expr, $cut:expr, $cic:expr, $why:expr) => {
            return Outcome {
                events,
                err: Some(MErr {
                    kind: $kind,
                    from: pos,
                    // where only containers are allowed, a cut scalar has no
                    // valid continuation
                    cut: $cut && (cfg.all_roots || !stack.is_empty() || skip_ws(b, 0) >= b.len()),
                    cut_in_char: $cic,
                    why: $why,
                    spot: match st {
                        St::Value | St::FirstOrEndArr | St::NextOrEndArr => Spot::Value,
                        St::FirstKeyOrEnd | St::NextKeyOrEnd => Spot::Key,
                        St::Colon => Spot::Colon,
                        St::CommaOrEnd => Spot::Comma,
                    },
                    inside: stack.last().map(|s| s.0),
                }),
                max_depth,
            }
        };
    }
    loop {
        let t = match lex_at(b, pos) {
            Lex::End => fail!(EK::Syntax, true, false, Why::End),
            Lex::Bad(bad) => {
                // A damaged token is only "cut" if this token was allowed here.
                let c = b[bad.start];
                let is_str = c == b'"';
                let allowed = match st {
                    St::Value | St::FirstOrEndArr => true,
                    St::NextOrEndArr => true,
                    St::FirstKeyOrEnd | St::NextKeyOrEnd => is_str,
                    St::Colon | St::CommaOrEnd => false,
                };
                fail!(EK::Syntax, bad.cut && allowed, bad.cut_in_char, bad.why)
            }
            Lex::Tok(t) => t,
        };
        let mut closed = false;
        match st {
            St::Value | St::FirstOrEndArr | St::NextOrEndArr => match t.k {
                K::RBrack if st == St::FirstOrEndArr => closed = true,
                K::RBrack if st == St::NextOrEndArr => {
                    if !cfg.trailing {
                        fail!(EK::TrailingComma, false, false);
                    }
                    closed = true;
                }
                K::RBrace | K::RBrack | K::Colon | K::Comma => fail!(EK::Syntax, false, false, Why::Token(b[t.start])),
                K::LBrace | K::LBrack => {
                    if cfg.limit.is_some_and(|l| stack.len() >= l) {
                        fail!(EK::Depth, false, false);
                    }
                    let obj = t.k == K::LBrace;
                    events.push(if obj { Ev::BeginObj } else { Ev::BeginArr });
                    stack.push((obj, 0));
                    max_depth = max_depth.max(stack.len());
                    st = if obj {
                        St::FirstKeyOrEnd
                    } else {
                        St::FirstOrEndArr
                    };
                    pos = t.end;
                    continue;
                }
                _ => {
                    if stack.is_empty() {
                        root_scalar = true;
                    }
                    events.push(match t.k {
                        K::Null => Ev::Null,
                        K::True => Ev::Bool(true),
                        K::False => Ev::Bool(false),
                        K::Num => Ev::Num(t.start, t.end),
                        _ => Ev::Str(t.start + 1, t.end - 1),
                    });
                }
            },
            St::FirstKeyOrEnd | St::NextKeyOrEnd => match t.k {
                K::Str => {
                    events.push(Ev::Key(t.start + 1, t.end - 1));
                    st = St::Colon;
                    pos = t.end;
                    continue;
                }
                K::RBrace if st == St::FirstKeyOrEnd || cfg.trailing => closed = true,
                K::RBrace => fail!(EK::TrailingComma, false, false),
                _ => fail!(EK::Syntax, false, false, Why::Token(b[t.start])),
            },
            St::Colon => {
                if t.k != K::Colon {
                    fail!(EK::Syntax, false, false, Why::Token(b[t.start]));
                }
                st = St::Value;
                pos = t.end;
                continue;
            }
            St::CommaOrEnd => {
                let obj = stack.last().is_some_and(|s| s.0);
                match t.k {
                    K::Comma => {
                        st = if obj {
                            St::NextKeyOrEnd
                        } else {
                            St::NextOrEndArr
                        };
                        pos = t.end;
                        continue;
                    }
                    K::RBrace if obj => closed = true,
                    K::RBrack if !obj => closed = true,
                    _ => fail!(EK::Syntax, false, false, Why::Token(b[t.start])),
                }
            }
        }
        pos = t.end;
        if closed {
            let (obj, n) = stack.pop().unwrap_or((false, 0));
            events.push(if obj { Ev::EndObj(n) } else { Ev::EndArr(n) });
        }
        // a value is complete
        match stack.last_mut() {
            Some((true, n)) => {
                *n += 1;
                events.push(Ev::ObjVal);
                st = St::CommaOrEnd;
            }
            Some((false, n)) => {
                *n += 1;
                events.push(Ev::ArrVal);
                st = St::CommaOrEnd;
            }
            None => break,
        }
    }
    if root_scalar && !cfg.all_roots {
        pos = 0;
        fail!(EK::Root, false, false);
    }
    if skip_ws(b, pos) < b.len() {
        fail!(EK::TrailingData, false, false);
    }
    Outcome {
        events,
        err: None,
        max_depth,
    }
}

// ---------------------------------------------------------------- trees

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MStr {
    pub text: String,
    /// JSON source, if the string was parsed
    pub src: Option<String>,
}

impl MStr {
    pub fn raw(text: &str) -> MStr {
        MStr {
            text: text.to_string(),
            src: None,
        }
    }
    pub fn parsed(src: &str) -> MStr {
        MStr {
            text: decode(src),
            src: Some(src.to_string()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MV {
    Null,
    Bool(bool),
    Num(String),
    Str(MStr),
    Arr(Vec<MV>),
    Obj(Vec<(MStr, MV)>),
}

impl MV {
    pub fn nodes(&self) -> usize {
        match self {
            MV::Arr(a) => 1 + a.iter().map(MV::nodes).sum::<usize>(),
            MV::Obj(o) => 1 + o.iter().map(|(_, v)| 1 + v.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn is_container(&self) -> bool {
        matches!(self, MV::Arr(_) | MV::Obj(_))
    }
    pub fn depth(&self) -> usize {
        match self {
            MV::Arr(a) => 1 + a.iter().map(MV::depth).max().unwrap_or(0),
            MV::Obj(o) => 1 + o.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// The same document as a reader sees it after it was written: text of
    /// strings and literals of numbers, not their representation.
    pub fn same_content(&self, other: &MV) -> bool {
        match (self, other) {
            (MV::Null, MV::Null) => true,
            (MV::Bool(a), MV::Bool(b)) => a == b,
            (MV::Num(a), MV::Num(b)) => a == b,
            (MV::Str(a), MV::Str(b)) => a.text == b.text,
            (MV::Arr(a), MV::Arr(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same_content(y))
            }
            (MV::Obj(a), MV::Obj(b)) => {
                a.len() == b.len()
                    && a.iter()
                        .zip(b)
                        .all(|(x, y)| x.0.text == y.0.text && x.1.same_content(&y.1))
            }
            _ => false,
        }
    }
}

fn slice(b: &[u8], s: usize, e: usize) -> &str {
    std::str::from_utf8(&b[s..e]).unwrap_or("<model: not utf-8>")
}

/// The tree described by the events of an accepted payload.
pub fn tree(b: &[u8], events: &[Ev]) -> MV {
    enum Fr {
        A(Vec<MV>),
        O(Vec<(MStr, MV)>, Option<MStr>),
    }
    let mut stack: Vec<Fr> = Vec::new();
    let mut last = MV::Null;
    for e in events {
        match *e {
            Ev::Null => last = MV::Null,
            Ev::Bool(x) => last = MV::Bool(x),
            Ev::Num(s, e) => last = MV::Num(slice(b, s, e).to_string()),
            Ev::Str(s, e) => last = MV::Str(MStr::parsed(slice(b, s, e))),
            Ev::BeginObj => stack.push(Fr::O(Vec::new(), None)),
            Ev::BeginArr => stack.push(Fr::A(Vec::new())),
            Ev::Key(s, e) => {
                if let Some(Fr::O(_, k)) = stack.last_mut() {
                    *k = Some(MStr::parsed(slice(b, s, e)));
                }
            }
            Ev::ObjVal => {
                if let Some(Fr::O(m, k)) = stack.last_mut() {
                    if let Some(k) = k.take() {
                        m.push((k, std::mem::replace(&mut last, MV::Null)));
                    }
                }
            }
            Ev::ArrVal => {
                if let Some(Fr::A(a)) = stack.last_mut() {
                    a.push(std::mem::replace(&mut last, MV::Null));
                }
            }
            Ev::EndObj(_) => {
                if let Some(Fr::O(m, _)) = stack.pop() {
                    last = MV::Obj(m);
                }
            }
            Ev::EndArr(_) => {
                if let Some(Fr::A(a)) = stack.pop() {
                    last = MV::Arr(a);
                }
            }
        }
    }
    last
}

pub fn parse_tree(b: &[u8], cfg: Cfg) -> Option<MV> {
    let o = parse(b, cfg);
    o.ok().then(|| tree(b, &o.events))
}

/// Flat node list, as documents store it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MNode {
    Null,
    Bool(bool),
    Num(usize, usize),
    Str(usize, usize),
    Obj(usize),
    Arr(usize),
}

/// One node per scalar, key and container, in document order; containers with
/// their complete element counts (of the members announced so far).
pub fn flat(events: &[Ev]) -> Vec<MNode> {
    let mut out = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    for e in events {
        match *e {
            Ev::Null => out.push(MNode::Null),
            Ev::Bool(b) => out.push(MNode::Bool(b)),
            Ev::Num(s, e) => out.push(MNode::Num(s, e)),
            Ev::Str(s, e) | Ev::Key(s, e) => out.push(MNode::Str(s, e)),
            Ev::BeginObj => {
                open.push(out.len());
                out.push(MNode::Obj(0));
            }
            Ev::BeginArr => {
                open.push(out.len());
                out.push(MNode::Arr(0));
            }
            Ev::EndObj(n) => {
                if let Some(i) = open.pop() {
                    out[i] = MNode::Obj(n);
                }
            }
            Ev::EndArr(n) => {
                if let Some(i) = open.pop() {
                    out[i] = MNode::Arr(n);
                }
            }
            Ev::ObjVal | Ev::ArrVal => {}
        }
    }
    out
}

/// For each node: the index just past the value starting there. For keys:
/// past the key itself.
pub fn spans(nodes: &[MNode]) -> Vec<usize> {
    // walk with an explicit stack of (index, remaining child values)
    let mut end = vec![0; nodes.len()];
    let mut stack: Vec<(usize, usize)> = Vec::new();
    for (i, n) in nodes.iter().enumerate() {
        let children = match n {
            MNode::Obj(n) => n * 2,
            MNode::Arr(n) => *n,
            _ => 0,
        };
        if children > 0 {
            stack.push((i, children));
            continue;
        }
        end[i] = i + 1;
        while let Some((at, left)) = stack.pop() {
            if left > 1 {
                stack.push((at, left - 1));
                break;
            }
            end[at] = i + 1;
        }
    }
    end
}

// ---------------------------------------------------------------- writing

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Lit(String),
    /// an encoding of this text
    Enc(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Style {
    Compact,
    Pretty { indent: String, eol: String },
}

struct Out(Vec<Seg>);
impl Out {
    fn lit(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if let Some(Seg::Lit(l)) = self.0.last_mut() {
            l.push_str(s);
        } else {
            self.0.push(Seg::Lit(s.to_string()));
        }
    }
    fn string(&mut self, s: &MStr) {
        self.lit("\"");
        match &s.src {
            Some(src) => self.lit(src),
            None => self.0.push(Seg::Enc(s.text.clone())),
        }
        self.lit("\"");
    }
    fn nl(&mut self, style: &Style, level: usize) {
        if let Style::Pretty { indent, eol } = style {
            self.lit(eol);
            for _ in 0..level {
                self.lit(indent);
            }
        }
    }
    fn value(&mut self, v: &MV, style: &Style, level: usize) {
        match v {
            MV::Null => self.lit("null"),
            MV::Bool(true) => self.lit("true"),
            MV::Bool(false) => self.lit("false"),
            MV::Num(n) => self.lit(n),
            MV::Str(s) => self.string(s),
            MV::Arr(a) if a.is_empty() => self.lit("[]"),
            MV::Obj(o) if o.is_empty() => self.lit("{}"),
            MV::Arr(a) => {
                self.lit("[");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.lit(",");
                    }
                    self.nl(style, level + 1);
                    self.value(x, style, level + 1);
                }
                self.nl(style, level);
                self.lit("]");
            }
            MV::Obj(o) => {
                self.lit("{");
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        self.lit(",");
                    }
                    self.nl(style, level + 1);
                    self.string(k);
                    self.lit(if *style == Style::Compact { ":" } else { ": " });
                    self.value(x, style, level + 1);
                }
                self.nl(style, level);
                self.lit("}");
            }
        }
    }
}

pub fn layout(v: &MV, style: &Style) -> Vec<Seg> {
    let mut o = Out(Vec::new());
    o.value(v, style, 0);
    o.0
}

/// Does the complete text match the layout? Encoded strings may be encoded
/// in any valid way. Err: description of the first difference.
pub fn matches_layout(text: &str, segs: &[Seg]) -> Result<(), String> {
    let mut at = 0;
    for (i, s) in segs.iter().enumerate() {
        match s {
            Seg::Lit(l) => {
                if !text[at..].starts_with(l.as_str()) {
                    let common = text[at..]
                        .bytes()
                        .zip(l.bytes())
                        .take_while(|(a, b)| a == b)
                        .count();
                    let w = at + common;
                    return Err(format!(
                        "at byte {w}: got {}, expected {}",
                        crate::ctx::Show(&text.as_bytes()[w..text.len().min(w + 40)]),
                        crate::ctx::Show(&l.as_bytes()[common..l.len().min(common + 40)])
                    ));
                }
                at += l.len();
            }
            Seg::Enc(t) => {
                // the encoding ends at the next unescaped quote
                let b = text.as_bytes();
                let mut j = at;
                while j < b.len() && b[j] != b'"' {
                    j += if b[j] == b'\\' { 2 } else { 1 };
                }
                if j > b.len() || j == b.len() && i + 1 < segs.len() {
                    return Err(format!("at byte {at}: string is not closed"));
                }
                if !encodes(&text[at..j], t) {
                    return Err(format!(
                        "at byte {at}: {} does not encode {}",
                        crate::ctx::Show(&b[at..j]),
                        crate::ctx::Show(t.as_bytes())
                    ));
                }
                at = j;
            }
        }
    }
    if at != text.len() {
        return Err(format!(
            "at byte {at}: surplus text {}",
            crate::ctx::Show(&text.as_bytes()[at..])
        ));
    }
    Ok(())
}

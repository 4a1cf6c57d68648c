//! C09: a token reader recovers from damage with bounded progress.

use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Bad, Lex, Tok, K};
use crate::sut;
use crate::{ensure, ev};
use justjson::parser::{PeekableTokenKind, Token, Tokenizer};
use justjson::{Error, ErrorKind};

enum T<'a> {
    Text(Tokenizer<'a, true>),
    Bytes(Tokenizer<'a, false>),
}

impl<'a> T<'a> {
    fn next(&mut self) -> Option<Result<Token<'a>, Error>> {
        match self {
            T::Text(t) => t.next(),
            T::Bytes(t) => t.next(),
        }
    }
    fn next_or_eof(&mut self) -> Result<Token<'a>, Error> {
        match self {
            T::Text(t) => t.next_or_eof(),
            T::Bytes(t) => t.next_or_eof(),
        }
    }
    /// The next token, by way of `nth` (0) or of `take`.
    fn next_by(&mut self, way: usize) -> Option<Result<Token<'a>, Error>> {
        match (self, way) {
            (T::Text(t), 0) => t.nth(0),
            (T::Bytes(t), 0) => t.nth(0),
            (T::Text(t), _) => t.by_ref().take(1).fold(None, |_, x| Some(x)),
            (T::Bytes(t), _) => t.by_ref().take(1).fold(None, |_, x| Some(x)),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            T::Text(t) => t.size_hint(),
            T::Bytes(t) => t.size_hint(),
        }
    }
    fn peek(&mut self) -> Option<PeekableTokenKind> {
        match self {
            T::Text(t) => t.peek(),
            T::Bytes(t) => t.peek(),
        }
    }
    fn offset(&self) -> usize {
        match self {
            T::Text(t) => t.offset(),
            T::Bytes(t) => t.offset(),
        }
    }
}

fn kind_of(t: &Token<'_>) -> PeekableTokenKind {
    match t {
        Token::Null => PeekableTokenKind::Null,
        Token::Bool(true) => PeekableTokenKind::True,
        Token::Bool(false) => PeekableTokenKind::False,
        Token::String(_) => PeekableTokenKind::String,
        Token::Number(_) => PeekableTokenKind::Number,
        Token::Object => PeekableTokenKind::Object,
        Token::ObjectEnd => PeekableTokenKind::ObjectEnd,
        Token::Array => PeekableTokenKind::Array,
        Token::ArrayEnd => PeekableTokenKind::ArrayEnd,
        Token::Colon => PeekableTokenKind::Colon,
        Token::Comma => PeekableTokenKind::Comma,
    }
}

fn model_kind(k: K) -> PeekableTokenKind {
    match k {
        K::Null => PeekableTokenKind::Null,
        K::True => PeekableTokenKind::True,
        K::False => PeekableTokenKind::False,
        K::Str => PeekableTokenKind::String,
        K::Num => PeekableTokenKind::Number,
        K::LBrace => PeekableTokenKind::Object,
        K::RBrace => PeekableTokenKind::ObjectEnd,
        K::LBrack => PeekableTokenKind::Array,
        K::RBrack => PeekableTokenKind::ArrayEnd,
        K::Colon => PeekableTokenKind::Colon,
        K::Comma => PeekableTokenKind::Comma,
    }
}

/// The only kind of token that begins with this.
fn begins(b: u8) -> Option<PeekableTokenKind> {
    Some(match b {
        b'n' => PeekableTokenKind::Null,
        b't' => PeekableTokenKind::True,
        b'f' => PeekableTokenKind::False,
        b'"' => PeekableTokenKind::String,
        b'-' | b'0'..=b'9' => PeekableTokenKind::Number,
        b'{' => PeekableTokenKind::Object,
        b'}' => PeekableTokenKind::ObjectEnd,
        b'[' => PeekableTokenKind::Array,
        b']' => PeekableTokenKind::ArrayEnd,
        b':' => PeekableTokenKind::Colon,
        b',' => PeekableTokenKind::Comma,
        _ => return None,
    })
}

struct Reader<'a, 'x> {
    t: T<'a>,
    b: &'a [u8],
    toks: &'x [Tok],
    bad: Option<Bad>,
    /// tokens read so far, while the input is intact
    at: usize,
    /// the first error was reported
    damaged: bool,
    ended: bool,
    steps: usize,
    offset: usize,
    /// result of looking ahead since the last read
    peeked: Option<Option<PeekableTokenKind>>,
}

/// Is this token as the text has it?
pub fn check_token(t: &Token<'_>, m: Tok, b: &[u8], what: &str) -> Res {
    ensure!(
        kind_of(t) == model_kind(m.k),
        "wrong token",
        "{what}: token {t:?}, expected {m:?}"
    );
    let text = |s: usize, e: usize| std::str::from_utf8(&b[s..e]).unwrap_or("<not utf-8>");
    match t {
        Token::String(s) => {
            let src = text(m.start + 1, m.end - 1);
            ensure!(
                s.as_json().eq(src.chars()),
                "wrong token",
                "{what}: string {}, expected {}",
                Show(s.as_json().collect::<String>().as_bytes()),
                Show(src.as_bytes())
            );
            sut::check_str(s, &model::MStr::parsed(src), what)?;
        }
        Token::Number(n) => ensure!(
            n.source() == text(m.start, m.end),
            "wrong token",
            "{what}: number {}, expected {}",
            n.source(),
            text(m.start, m.end)
        ),
        _ => {}
    }
    Ok(())
}

/// A token read after an error is well formed in itself.
fn check_formed(t: &Token<'_>, what: &str) -> Res {
    match t {
        Token::String(s) => {
            let Some(j) = s.as_json_str() else {
                return viol("malformed token", format!("{what}: a raw string token"));
            };
            let j = j.as_bytes();
            ensure!(
                model::valid_utf8(j),
                "malformed token",
                "{what}: string token {} is not UTF-8",
                Show(j)
            );
            let mut q = vec![b'"'];
            q.extend_from_slice(j);
            q.push(b'"');
            let ok = matches!(model::lex_at(&q, 0), Lex::Tok(t) if t.k == K::Str && t.end == q.len());
            ensure!(ok, "malformed token", "{what}: string token {}", Show(&q));
            let src = std::str::from_utf8(j).unwrap_or("");
            sut::check_str(s, &model::MStr::parsed(src), what)?;
        }
        Token::Number(n) => {
            let q = n.source().as_bytes();
            let ok = !q.is_empty()
                && matches!(model::lex_at(q, 0), Lex::Tok(t) if t.k == K::Num && t.start == 0 && t.end == q.len());
            ensure!(ok, "malformed token", "{what}: number token {}", Show(q));
        }
        _ => {}
    }
    Ok(())
}

impl<'a> Reader<'a, '_> {
    fn moved(&mut self, must: bool, what: &str) -> Res {
        let o = self.t.offset();
        ensure!(
            o <= self.b.len(),
            "position outside",
            "{what}: position {o} of {}",
            self.b.len()
        );
        ensure!(
            o >= self.offset && (!must || o > self.offset),
            "no progress",
            "{what}: position {o} after {}",
            self.offset
        );
        self.offset = o;
        Ok(())
    }

    fn peek(&mut self, what: &str) -> Res {
        let before = self.offset;
        let p = self.t.peek();
        self.moved(false, what)?;
        ensure!(
            self.b[before..self.offset].iter().all(|x| model::is_ws(*x)),
            "look-ahead consumed input",
            "{what}: position moved from {before} to {}",
            self.offset
        );
        if let Some(q) = &self.peeked {
            ensure!(
                *q == p,
                "look-ahead changed",
                "{what}: {p:?} after {q:?}"
            );
        }
        if !self.damaged {
            match self.toks.get(self.at) {
                Some(m) => ensure!(
                    p == Some(model_kind(m.k)),
                    "wrong look-ahead",
                    "{what}: {p:?}, expected {m:?}"
                ),
                None if self.bad.is_some() => ensure!(
                    p.is_some(),
                    "wrong look-ahead",
                    "{what}: end reported before a malformed token"
                ),
                None => ensure!(
                    p.is_none(),
                    "wrong look-ahead",
                    "{what}: {p:?} at the end"
                ),
            }
        }
        // whatever follows, no kind is named that cannot begin like this
        let first = self.b[self.offset..].iter().find(|x| !model::is_ws(**x));
        ensure!(
            p.is_some() == first.is_some(),
            "wrong look-ahead",
            "{what}: {p:?}, what follows is {first:?}"
        );
        if let (Some(p), Some(first)) = (p, first) {
            ensure!(
                p == PeekableTokenKind::Unrecognized || Some(p) == begins(*first),
                "wrong look-ahead",
                "{what}: {p:?}, what follows begins with {:?}",
                char::from(*first)
            );
        }
        self.peeked = Some(p);
        Ok(())
    }

    /// What is left, and what the reader thinks is left.
    fn estimate(&mut self, what: &str) -> Res {
        if self.damaged || self.bad.is_some() {
            return Ok(());
        }
        let (lo, hi) = self.t.size_hint();
        let left = self.toks.len() - self.at;
        ensure!(
            lo <= left && hi.is_none_or(|h| left <= h),
            "wrong size estimate",
            "{what}: {lo}..{hi:?}, {left} tokens are left"
        );
        Ok(())
    }

    fn read(&mut self, or_eof: bool, way: usize, what: &str) -> Res {
        let r = if or_eof {
            match self.t.next_or_eof() {
                Err(e) if *e.kind() == ErrorKind::UnexpectedEof && self.at_end() => {
                    ensure!(
                        e.offset() == self.b.len(),
                        "wrong end",
                        "{what}: end reported at {} of {}",
                        e.offset(),
                        self.b.len()
                    );
                    None
                }
                r => Some(r),
            }
        } else if way < 2 {
            self.t.next_by(way)
        } else {
            self.t.next()
        };
        self.steps += 1;
        ensure!(
            self.steps <= self.b.len() + 2,
            "no progress",
            "{what}: {} steps for {} bytes",
            self.steps,
            self.b.len()
        );
        let peeked = self.peeked.take();
        match &r {
            None => {
                ensure!(
                    peeked.is_none() || peeked == Some(None),
                    "wrong look-ahead",
                    "{what}: {peeked:?} was announced, then the end"
                );
                ensure!(
                    self.damaged || self.at == self.toks.len() && self.bad.is_none(),
                    "ended early",
                    "{what}: end after {} of {} tokens",
                    self.at,
                    self.toks.len()
                );
                self.moved(false, what)?;
                ensure!(
                    self.b[self.offset..].iter().all(|x| model::is_ws(*x)),
                    "ended early",
                    "{what}: end at {} of {}",
                    self.offset,
                    self.b.len()
                );
                self.ended = true;
                // more reading is allowed, and still the end
                self.steps -= 1;
            }
            Some(r) => {
                ensure!(
                    !self.ended,
                    "read on after the end",
                    "{what}: {r:?} after the end"
                );
                ensure!(
                    peeked != Some(None),
                    "wrong look-ahead",
                    "{what}: the end was announced, then {r:?}"
                );
                self.moved(true, what)?;
                match r {
                    Ok(t) => {
                        if let Some(Some(p)) = peeked {
                            ensure!(
                                p == kind_of(t) || p == PeekableTokenKind::Unrecognized && self.damaged,
                                "wrong look-ahead",
                                "{what}: {p:?} was announced, then {t:?}"
                            );
                        }
                        if self.damaged {
                            check_formed(t, what)?;
                        } else {
                            let Some(m) = self.toks.get(self.at) else {
                                return viol(
                                    "malformed token accepted",
                                    format!(
                                        "{what}: {t:?} where the text has {:?}: {}",
                                        self.bad,
                                        Show(self.b)
                                    ),
                                );
                            };
                            check_token(t, *m, self.b, what)?;
                            ensure!(
                                self.offset == m.end,
                                "wrong position",
                                "{what}: position {} after token {m:?}",
                                self.offset
                            );
                            self.at += 1;
                        }
                    }
                    Err(e) => {
                        ensure!(
                            e.offset() <= self.b.len(),
                            "position outside",
                            "{what}: {} of {}",
                            sut::err_name(e),
                            self.b.len()
                        );
                        if !self.damaged {
                            let Some(bad) = self.bad.filter(|_| self.at == self.toks.len()) else {
                                return viol(
                                    "valid token refused",
                                    format!(
                                        "{what}: {} where the text has {:?}: {}",
                                        sut::err_name(e),
                                        self.toks.get(self.at),
                                        Show(self.b)
                                    ),
                                );
                            };
                            ensure!(
                                e.offset() >= bad.start,
                                "position before the damage",
                                "{what}: {}, the malformed token starts at {}",
                                sut::err_name(e),
                                bad.start
                            );
                            if bad.cut && !bad.cut_in_char {
                                ensure!(
                                    e.offset() == self.b.len(),
                                    "cut not reported at the end",
                                    "{what}: {} of {}",
                                    sut::err_name(e),
                                    self.b.len()
                                );
                            }
                            self.damaged = true;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn at_end(&self) -> bool {
        self.b[self.offset..].iter().all(|x| model::is_ws(*x))
    }
}

pub fn run(c: &Ctx) -> Res {
    let mut k = gen::knobs(c);
    k.trailing = *c.pick(&[0, 30]);
    let mut b = match c.weighted(&[60, 25, 15, 6]) {
        0 => gen::doc(c, &k).into_bytes(),
        1 => {
            // tokens in any order, with or without space
            let n = c.draw(14);
            let mut s = String::new();
            for _ in 0..n {
                match c.draw(12) {
                    0 => s.push('{'),
                    1 => s.push('}'),
                    2 => s.push('['),
                    3 => s.push(']'),
                    4 => s.push(':'),
                    5 => s.push(','),
                    6 => s.push_str("null"),
                    7 => s.push_str("true"),
                    8 => s.push_str("false"),
                    9 => s.push_str(&gen::number(c)),
                    10 => {
                        let t = gen::text(c, &k);
                        s.push('"');
                        s.push_str(&gen::encode(c, &t, k.escape));
                        s.push('"');
                    }
                    _ => s.push(*c.pick(&[' ', '\n', '\t', '\r'])),
                }
                if c.chance(k.ws, 100) {
                    s.push(' ');
                }
            }
            s.into_bytes()
        }
        2 => {
            let n = c.draw(30);
            (0..n).map(|_| *c.pick(gen::BYTES)).collect()
        }
        _ => {
            // tokens put together from right and wrong pieces
            let mut b = vec![b' '; c.draw(*c.pick(&[8, 70, 600]))];
            for _ in 0..1 + c.draw(4) {
                b.extend_from_slice(&gen::pieces(c));
                if c.coin() {
                    b.push(*c.pick(b" ,\n:]"));
                }
            }
            c.hit("probe.pieces");
            b
        }
    };
    let faults = c.draw(4);
    for _ in 0..faults {
        let kind = gen::damage(c, &mut b, b"[\"x\", 1.5e3, {\"k\\u00e9\":null}]");
        c.fault(kind);
    }
    let (toks, bad) = model::lex_all(&b);
    ev!(c, "{}: {} tokens, {bad:?}", Show(&b), toks.len());
    let text = std::str::from_utf8(&b).ok();
    let n = 1 + c.draw(3);
    let mut readers: Vec<Reader<'_, '_>> = (0..n)
        .map(|_| Reader {
            t: match text {
                Some(s) if c.coin() => T::Text(Tokenizer::for_json(s)),
                _ => T::Bytes(Tokenizer::for_json_bytes(&b)),
            },
            b: &b,
            toks: &toks,
            bad,
            at: 0,
            damaged: false,
            ended: false,
            steps: 0,
            offset: 0,
            peeked: None,
        })
        .collect();
    if n > 1 {
        c.nontrivial();
    }
    let mut over = 0;
    let peeks = *c.pick(&[1, 0, 3]);
    while readers.iter().any(|r| !r.ended) || over < 2 * n {
        if readers.iter().all(|r| r.ended) {
            over += 1;
        }
        let i = c.draw(n);
        // skip readers that are done, so that each step is progress
        let i = if readers[i].ended && over == 0 {
            match readers.iter().position(|r| !r.ended) {
                Some(j) => j,
                None => i,
            }
        } else {
            i
        };
        let r = &mut readers[i];
        let what = format!("reader {i}, step {}", r.steps);
        for _ in 0..c.draw(peeks + 1) {
            r.peek(&what)?;
        }
        let or_eof = c.coin();
        let before = r.offset;
        r.estimate(&what)?;
        r.read(or_eof, if c.chance(1, 8) { c.draw(2) } else { 2 }, &what)?;
        ev!(c, "reader {i}: {before} -> {}{}", r.offset, if r.damaged { " damaged" } else { "" });
        if r.damaged && !r.ended {
            c.hit("probe.read_on_after_damage");
        }
    }
    Ok(())
}

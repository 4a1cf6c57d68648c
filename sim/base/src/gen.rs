//! Workload generators: texts, encodings, numbers, documents, values and
//! damage. Every choice is a draw from the run's tape; 0 is the simplest.

use crate::ctx::Ctx;
use crate::model::{self, MStr, MV};

const EDGE_CHARS: &[char] = &[
    '\u{7f}', '\u{80}', '\u{81}', '\u{9f}', '\u{a0}', '\u{e9}', '\u{ff}', '\u{100}', '\u{7ff}',
    '\u{800}', '\u{fff}', '\u{1000}', '\u{2028}', '\u{25ef}', '\u{d7ff}', '\u{e000}', '\u{fdd0}',
    '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10001}', '\u{103ff}', '\u{10400}',
    '\u{1f600}', '\u{1ffff}', '\u{20000}', '\u{2f800}', '\u{40000}', '\u{80000}', '\u{fffff}',
    '\u{100000}', '\u{10fffd}', '\u{10ffff}',
];

pub const SIZES: &[usize] = &[
    15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024,
    1025, 2047, 2049, 4095, 4096, 4097,
];

#[derive(Clone, Copy, Debug)]
pub struct Knobs {
    /// 0 ascii words, 1 mixed, 2 nasty
    pub alphabet: usize,
    pub max_str: usize,
    /// out of 100: a string of boundary length
    pub long_str: usize,
    /// out of 100: a character that could be literal is escaped
    pub escape: usize,
    /// out of 100, between tokens
    pub ws: usize,
    pub nodes: usize,
    pub depth: usize,
    pub width: usize,
    /// number of distinct keys; small numbers force duplicates
    pub keys: usize,
    /// out of 100: trailing comma at the end of a non-empty container
    pub trailing: usize,
    /// out of 100: a repeated-element array or chain of containers
    pub bulk: usize,
    pub containers: usize,
}

pub fn knobs(c: &Ctx) -> Knobs {
    let size = c.weighted(&[40, 40, 16, 4]);
    let (nodes, depth, width) = match size {
        0 => (6, 3, 4),
        1 => (24, 5, 6),
        2 => (90, 8, 12),
        _ => (500, 12, 40),
    };
    Knobs {
        alphabet: c.draw(3),
        max_str: *c.pick(&[6, 3, 12, 40]),
        long_str: *c.pick(&[0, 0, 2, 6]),
        escape: *c.pick(&[0, 10, 40, 90]),
        ws: *c.pick(&[0, 8, 35, 80]),
        nodes,
        depth,
        width,
        keys: *c.pick(&[8, 3, 1, 30]),
        trailing: 0,
        bulk: *c.pick(&[0, 2, 8]),
        containers: *c.pick(&[45, 25, 70]),
    }
}

pub fn ch(c: &Ctx, alphabet: usize) -> char {
    let w: &[usize] = match alphabet {
        0 => &[90, 10, 0, 0, 0, 0, 0],
        1 => &[55, 15, 10, 8, 6, 4, 2],
        _ => &[15, 5, 20, 20, 15, 15, 10],
    };
    match c.weighted(w) {
        0 => (b'a' + c.draw(26) as u8) as char,
        1 => *c.pick(&['0', ' ', 'Z', '.', '-', ':', ',', '{', '}', '[', ']', '\'', '~']),
        2 => *c.pick(&['"', '\\', '/', '\n', '\t', '\r', '\u{c}', '\u{7}', '\u{8}']),
        3 => char::from_u32(c.draw(0x20) as u32).unwrap_or('a'),
        4 => char::from_u32(0x80 + c.draw(0x80) as u32).unwrap_or('a'),
        5 => *c.pick(EDGE_CHARS),
        _ => {
            let plane = c.draw(17) as u32;
            let cp = plane * 0x10000 + c.draw(0x10000) as u32;
            char::from_u32(cp).unwrap_or('\u{4e00}')
        }
    }
}

fn boundary_size(c: &Ctx) -> usize {
    if c.chance(1, 60) {
        *c.pick(&[16383, 16384, 32768, 65535, 65536, 65537, 70000])
    } else {
        *c.pick(SIZES)
    }
}

/// Any text.
pub fn text(c: &Ctx, k: &Knobs) -> String {
    if k.long_str > 0 && c.chance(k.long_str, 100) {
        return long_text(c, k);
    }
    let n = c.draw(k.max_str + 1);
    if n > 2 && c.chance(1, 60) {
        // one character after the other
        let first = match c.draw(4) {
            0 => c.draw(0x100),
            1 => c.draw(17) * 0x10000 + c.draw(0x10000),
            _ => c.draw(0x10000),
        };
        return (first..first + 8 * n)
            .filter_map(|x| char::from_u32(x as u32))
            .collect();
    }
    (0..n).map(|_| ch(c, k.alphabet)).collect()
}

/// A text whose length (in bytes) is near a boundary: a short pattern
/// repeated, with one other character somewhere.
pub fn long_text(c: &Ctx, k: &Knobs) -> String {
    let size = boundary_size(c) + c.draw(3);
    let pat: String = (0..=c.draw(3)).map(|_| ch(c, k.alphabet)).collect();
    let odd = ch(c, 2);
    let at = match c.draw(4) {
        0 => size,
        1 => 0,
        2 => size.saturating_sub(c.draw(5)),
        _ => c.draw(size + 1),
    };
    let mut s = String::with_capacity(size + 16);
    let mut placed = false;
    while s.len() < size {
        for x in pat.chars() {
            if !placed && s.len() >= at {
                s.push(odd);
                placed = true;
            }
            if s.len() >= size {
                break;
            }
            s.push(x);
        }
    }
    if !placed {
        s.push(odd);
    }
    s
}

fn push_u(c: &Ctx, out: &mut String, unit: u32, style: usize) {
    out.push_str("\\u");
    for sh in [12, 8, 4, 0] {
        let d = (unit >> sh) & 0xf;
        let lower = char::from_digit(d, 16).unwrap_or('0');
        let upper = match style {
            0 => false,
            1 => true,
            _ => d > 9 && c.coin(),
        };
        out.push(if upper { lower.to_ascii_uppercase() } else { lower });
    }
}

fn push_u_char(c: &Ctx, out: &mut String, x: char, style: usize) {
    let cp = x as u32;
    if cp >= 0x10000 {
        let v = cp - 0x10000;
        push_u(c, out, 0xD800 + (v >> 10), style);
        push_u(c, out, 0xDC00 + (v & 0x3ff), style);
    } else {
        push_u(c, out, cp, style);
    }
}

/// A JSON encoding (without quotes) of `text`; `escape` percent of the
/// characters that could be literal are escaped.
pub fn encode(c: &Ctx, text: &str, escape: usize) -> String {
    let mut out = String::with_capacity(text.len() + 8);
    let style = c.draw(3);
    let long = text.len() > 200;
    // long texts: escape decisions are periodic instead of per character
    let period = if long && escape > 0 { 1 + c.draw(40) } else { 0 };
    let phase = if period > 0 { c.draw(period) } else { 0 };
    for (i, x) in text.chars().enumerate() {
        let must = (x as u32) < 0x20 || x == '"' || x == '\\';
        let want = if must {
            true
        } else if escape == 0 {
            false
        } else if long {
            i % period == phase
        } else {
            c.chance(escape, 100)
        };
        if !want {
            out.push(x);
            continue;
        }
        let short = match x {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            '\u{c}' => Some('f'),
            x if x == model::b_char() => Some('b'),
            _ => None,
        };
        match short {
            Some(s) if long || !c.chance(1, 4) => {
                out.push('\\');
                out.push(s);
            }
            _ => push_u_char(c, &mut out, x, style),
        }
    }
    out
}

pub fn number(c: &Ctx) -> String {
    let mut s = String::new();
    match c.weighted(&[30, 10, 20, 20, 20]) {
        0 => return c.draw(10).to_string(),
        1 if c.chance(1, 3) => return midway(c),
        1 if c.chance(1, 2) => {
            // next to the limits of the integer types
            let bits = *c.pick(&[7_u32, 8, 15, 16, 31, 32, 63, 64, 127]);
            let n = (1_u128 << bits) - 1 + c.draw(3) as u128;
            if c.coin() {
                s.push('-');
            }
            s.push_str(&n.to_string());
        }
        1 => {
            return (*c.pick(&[
                "340282366920938463463374607431768211455",
                "340282366920938463463374607431768211456",
                "-170141183460469231731687303715884105728",
                "-170141183460469231731687303715884105729",
                "16777217", "3.4028236e38", "0", "-0", "1", "-1", "0.0", "-0.0", "1e0", "0e0", "0E+0", "-0e-0", "1E5", "0.1",
                "255", "256", "-128", "65536", "4294967296", "9007199254740993",
                "18446744073709551615", "18446744073709551616", "-9223372036854775808",
                "1e308", "1e309", "-1e-400", "2.2250738585072014e-308", "0.30000000000000004",
            ]))
            .to_string()
        }
        2 => {
            if c.coin() {
                s.push('-');
            }
            digits(c, &mut s, true);
        }
        3 => {
            if c.coin() {
                s.push('-');
            }
            digits(c, &mut s, true);
            s.push('.');
            digits(c, &mut s, false);
        }
        _ => {
            if c.coin() {
                s.push('-');
            }
            digits(c, &mut s, true);
            if c.coin() {
                s.push('.');
                digits(c, &mut s, false);
            }
            s.push(*c.pick(&['e', 'E']));
            s.push_str(c.pick::<&str>(&["", "+", "-"]));
            digits(c, &mut s, false);
        }
    }
    s
}

/// Halfway between two floating-point numbers next to each other, exactly or
/// by the least bit.
fn midway(c: &Ctx) -> String {
    let mut s = if c.chance(2, 3) {
        // of 32 bits, neither very large nor very small
        let bits = (87 + c.draw(100) as u32) << 23 | c.draw(1 << 23) as u32;
        let (a, b) = (f32::from_bits(bits), f32::from_bits(bits + 1));
        let s = format!("{:.110}", (f64::from(a) + f64::from(b)) / 2.0);
        s.trim_end_matches('0').to_string()
    } else {
        let n = (1_u64 << 53) + 2 * c.draw(1 << 30) as u64 + 1;
        format!("{n}.")
    };
    match c.draw(4) {
        0 => s.push('0'),
        // a little less
        1 => {
            let whole = s.trim_end_matches('.').len();
            s.truncate(whole);
            if let Some(d) = s.pop() {
                let d = if d > '0' { (d as u8 - 1) as char } else { d };
                s.push(d);
            }
            if !s.contains('.') {
                s.push('.');
            }
            s.push_str(&"9".repeat(1 + c.draw(40)));
        }
        // a little more
        _ => {
            s.push_str(&"0".repeat(c.draw(40)));
            s.push('1');
        }
    }
    if c.coin() {
        s.insert(0, '-');
    }
    s
}

fn digits(c: &Ctx, s: &mut String, integer: bool) {
    let n = match c.weighted(&[60, 30, 8, 2]) {
        0 => 1 + c.draw(3),
        1 => 1 + c.draw(20),
        2 => 1 + c.draw(80),
        _ => *c.pick(SIZES),
    };
    let first = c.draw(10) as u8;
    if integer && first == 0 {
        s.push('0');
        return;
    }
    s.push((b'0' + first) as char);
    let (a, b) = (c.draw(10) as u8, c.draw(10) as u8);
    for i in 1..n {
        s.push((b'0' + if i % 3 == 0 { a } else { b }) as char);
    }
}

pub struct DocGen<'c> {
    pub c: &'c Ctx,
    pub k: Knobs,
    left: usize,
    pub out: String,
}

impl<'c> DocGen<'c> {
    pub fn new(c: &'c Ctx, k: Knobs) -> Self {
        DocGen {
            c,
            k,
            left: k.nodes,
            out: String::new(),
        }
    }

    fn ws(&mut self) {
        if self.k.ws > 0 && self.c.chance(self.k.ws, 100) {
            let n = if self.c.chance(1, 40) {
                *self.c.pick(SIZES) / 4
            } else {
                1 + self.c.draw(3)
            };
            let one = *self.c.pick(&[' ', '\n', '\t', '\r']);
            let two = *self.c.pick(&[' ', '\n', '\t', '\r']);
            for i in 0..n {
                self.out.push(if i % 2 == 0 { one } else { two });
            }
        }
    }

    fn string(&mut self) {
        let t = text(self.c, &self.k);
        let e = encode(self.c, &t, self.k.escape);
        self.out.push('"');
        self.out.push_str(&e);
        self.out.push('"');
    }

    fn key(&mut self) {
        let t = key_text(self.c, &self.k);
        let e = encode(self.c, &t, self.k.escape);
        self.out.push('"');
        self.out.push_str(&e);
        self.out.push('"');
    }

    fn scalar(&mut self) {
        match self.c.weighted(&[25, 35, 15, 12, 13]) {
            0 => {
                let n = number(self.c);
                self.out.push_str(&n);
            }
            1 => self.string(),
            2 => self.out.push_str("null"),
            3 => self.out.push_str("true"),
            _ => self.out.push_str("false"),
        }
    }

    fn value(&mut self, depth: usize) {
        self.left = self.left.saturating_sub(1);
        let can_nest = depth < self.k.depth && self.left > 0;
        if !can_nest || !self.c.chance(self.k.containers, 100) {
            // an empty container is fine at any depth below the limit
            if depth < self.k.depth && self.c.chance(1, 12) {
                self.out.push_str(self.c.pick::<&str>(&["[]", "{}"]));
            } else {
                self.scalar();
            }
            return;
        }
        if self.k.bulk > 0 && self.c.chance(self.k.bulk, 100) {
            return self.bulk(depth);
        }
        self.container(depth);
    }

    fn container(&mut self, depth: usize) {
        let n = self.c.draw(self.k.width.min(self.left) + 1);
        let obj = self.c.coin();
        self.out.push(if obj { '{' } else { '[' });
        self.ws();
        for i in 0..n {
            if i > 0 {
                self.out.push(',');
                self.ws();
            }
            if obj {
                self.key();
                self.ws();
                self.out.push(':');
                self.ws();
            }
            self.value(depth + 1);
            self.ws();
        }
        if n > 0 && self.k.trailing > 0 && self.c.chance(self.k.trailing, 100) {
            self.out.push(',');
            self.ws();
        }
        self.out.push(if obj { '}' } else { ']' });
    }

    /// many equal elements, or a chain of nested containers
    fn bulk(&mut self, depth: usize) {
        let room = self.k.depth.saturating_sub(depth);
        if room > 2 && self.c.coin() {
            let n = 1 + self.c.draw(room - 1);
            let style = self.c.draw(3);
            let mut closers = Vec::new();
            for i in 0..n {
                if style == 0 || style == 2 && i % 2 == 0 {
                    self.out.push('[');
                    closers.push(']');
                } else {
                    self.out.push('{');
                    self.key();
                    self.out.push(':');
                    closers.push('}');
                }
            }
            self.scalar();
            while let Some(x) = closers.pop() {
                self.out.push(x);
            }
        } else {
            let n = if self.c.chance(1, 50) {
                *self.c.pick(&[1024, 4097, 65_536, 65_537, 66_000])
            } else {
                1 + self.c.draw(*self.c.pick(&[20, 70, 300]))
            };
            let keep = std::mem::take(&mut self.out);
            let obj = self.c.coin();
            if obj {
                self.key();
                self.out.push(':');
            }
            self.left = self.left.min(4);
            if n < 400 {
                self.value(depth + 1);
            } else {
                self.scalar();
            }
            let one = std::mem::replace(&mut self.out, keep);
            let n = n.min(600_000 / one.len().max(1)).max(1);
            let n = if one.len() > 200 { n.min(50) } else { n };
            self.out.push(if obj { '{' } else { '[' });
            for i in 0..n {
                if i > 0 {
                    self.out.push(',');
                }
                self.out.push_str(&one);
            }
            self.out.push(if obj { '}' } else { ']' });
        }
    }

    pub fn doc(mut self) -> String {
        self.ws();
        // mostly containers at the root
        if self.c.chance(1, 8) {
            self.scalar();
        } else if self.k.bulk > 0 && self.c.chance(self.k.bulk, 40) {
            self.bulk(0);
        } else {
            self.container(0);
        }
        self.ws();
        self.out
    }
}

pub fn key_text(c: &Ctx, k: &Knobs) -> String {
    // a pool of keys that collide in interesting ways
    let i = c.draw(k.keys);
    match i {
        0 => "a".into(),
        1 => String::new(),
        2 => "b".into(),
        3 => "a\u{0}".into(),
        4 => "\u{e9}".into(),
        5 => "ab".into(),
        6 => "\u{1f600}".into(),
        7 => "a\"b\\".into(),
        8..=11 => text(c, k),
        n => format!("k{n}"),
    }
}

/// A well-formed payload.
pub fn doc(c: &Ctx, k: &Knobs) -> String {
    DocGen::new(c, *k).doc()
}

/// A chain of `n` nested containers (well-formed), for depth limits.
pub fn chain(c: &Ctx, n: usize) -> String {
    let style = c.draw(4);
    let mut s = String::new();
    let mut close = Vec::new();
    for i in 0..n {
        let arr = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => c.coin(),
        };
        if arr {
            s.push('[');
            close.push("]");
        } else if i + 1 == n {
            s.push('{');
            close.push("}");
        } else {
            s.push_str("{\"a\":");
            close.push("}");
        }
    }
    if s.ends_with('[') && c.coin() {
        s.push('0');
    }
    while let Some(x) = close.pop() {
        s.push_str(x);
    }
    s
}

/// A model value, as a program would build it: raw or parsed strings.
pub fn mv(c: &Ctx, k: &Knobs, left: &mut usize, depth: usize) -> MV {
    *left = left.saturating_sub(1);
    if depth < k.depth && *left > 0 && c.chance(k.containers, 100) {
        let n = c.draw(k.width.min(*left) + 1);
        if c.coin() {
            MV::Obj(
                (0..n)
                    .map(|_| (mkey(c, k), mv(c, k, left, depth + 1)))
                    .collect(),
            )
        } else {
            MV::Arr((0..n).map(|_| mv(c, k, left, depth + 1)).collect())
        }
    } else {
        match c.weighted(&[25, 35, 14, 13, 13]) {
            0 => MV::Num(number(c)),
            1 => MV::Str(mstr(c, k)),
            2 => MV::Null,
            3 => MV::Bool(true),
            _ => MV::Bool(false),
        }
    }
}

pub fn mstr(c: &Ctx, k: &Knobs) -> MStr {
    let t = text(c, k);
    represent(c, k, t)
}

pub fn mkey(c: &Ctx, k: &Knobs) -> MStr {
    let t = key_text(c, k);
    represent(c, k, t)
}

fn represent(c: &Ctx, k: &Knobs, t: String) -> MStr {
    if c.coin() {
        let e = encode(c, &t, k.escape);
        MStr {
            text: t,
            src: Some(e),
        }
    } else {
        MStr { text: t, src: None }
    }
}

// ---------------------------------------------------------------- damage

pub const BYTES: &[u8] = b"\"\\,:[]{}0-.eEu+ntf/b d\n\x00\x1f\x7f\x80\xbf\xc0\xc2\xe0\xed\xf0\xf4\xf5\xff19aAdD8cC";

fn any_byte(c: &Ctx) -> u8 {
    if c.chance(1, 4) {
        c.draw(256) as u8
    } else {
        *c.pick(BYTES)
    }
}

/// A position: uniform, at token boundaries, or inside tokens.
fn position(c: &Ctx, b: &[u8], marks: &[usize]) -> usize {
    if b.is_empty() {
        return 0;
    }
    match c.draw(3) {
        0 => c.draw(b.len() + 1),
        1 if !marks.is_empty() => (*c.pick(marks)).min(b.len()),
        _ if !marks.is_empty() => {
            let m = *c.pick(marks);
            let d = c.draw(7);
            (m + d).saturating_sub(3).min(b.len())
        }
        _ => c.draw(b.len() + 1),
    }
}

/// Interesting places of a payload: token edges and escape sequences.
pub fn marks(b: &[u8]) -> Vec<usize> {
    let (toks, bad) = model::lex_all(b);
    let mut m = Vec::with_capacity(toks.len() * 2 + 2);
    let dense = toks.len() > 400;
    for (i, t) in toks.iter().enumerate() {
        if dense && i % 16 != 0 {
            continue;
        }
        m.push(t.start);
        m.push(t.end);
        if t.k == model::K::Str && !dense {
            for j in t.start..t.end {
                if b[j] == b'\\' || b[j] >= 0x80 && m.len() < 4000 {
                    m.push(j);
                }
            }
        }
    }
    if let Some(x) = bad {
        m.push(x.start);
    }
    m
}

/// Code units on either side of every limit that matters for surrogates.
const UNITS: &[u32] = &[
    0x0, 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfffe, 0xffff,
];

fn a_unit(c: &Ctx) -> u32 {
    match c.draw(8) {
        0 => c.draw(0x1_0000) as u32,
        1 => 0xd000 + c.draw(0x3000) as u32,
        _ => *c.pick(UNITS),
    }
}

/// What a component in between makes of a character when its idea of the
/// encoding is another one.
fn foreign(c: &Ctx) -> Vec<u8> {
    let mut v = Vec::new();
    let unit = |v: &mut Vec<u8>, u: u32| {
        let s = match c.draw(12) {
            0 => format!("\\U{u:04x}"),
            x if x % 2 == 1 => format!("\\u{u:04x}"),
            _ => format!("\\u{u:04X}"),
        };
        v.extend_from_slice(s.as_bytes());
    };
    // bytes as UTF-8 would have them, without its rules
    let raw = |v: &mut Vec<u8>, x: u32, n: u32| match n {
        2 => v.extend_from_slice(&[0xc0 | (x >> 6) as u8 & 0x1f, 0x80 | x as u8 & 0x3f]),
        3 => v.extend_from_slice(&[
            0xe0 | (x >> 12) as u8 & 0xf,
            0x80 | (x >> 6) as u8 & 0x3f,
            0x80 | x as u8 & 0x3f,
        ]),
        _ => v.extend_from_slice(&[
            0xf0 | (x >> 18) as u8 & 7,
            0x80 | (x >> 12) as u8 & 0x3f,
            0x80 | (x >> 6) as u8 & 0x3f,
            0x80 | x as u8 & 0x3f,
        ]),
    };
    match c.draw(8) {
        0 => unit(&mut v, a_unit(c)),
        1 | 2 => {
            unit(&mut v, a_unit(c));
            unit(&mut v, a_unit(c));
        }
        3 => raw(&mut v, a_unit(c), 3),
        4 => {
            let x = *c.pick(&[0x0, 0x2f, 0x7f, 0x80, 0x7ff]);
            let n = 2 + c.draw(3) as u32;
            raw(&mut v, x, n);
        }
        5 => {
            let x = *c.pick(&[0xffff, 0x1_0000, 0x10_ffff, 0x11_0000, 0x1f_ffff]);
            raw(&mut v, x, 4);
        }
        6 => {
            let e: &[u8] = *c.pick(&[
                &b"\\x41"[..], b"\\'", b"\\0", b"\\a", b"\\v", b"\\U00000041", b"\\u{41}", b"\\N", b"\\B",
                b"\\u+123", b"\\u 123", b"\\u-001", b"\\u12", b"\\ud83d\\", b"\\ud83d\\n", b"\\ud83dx", b"\\\n", b"\\\xc3\xa9",
            ]);
            v.extend_from_slice(e);
        }
        _ => {
            let e: &[u8] = *c.pick(&[
                &b"+1"[..], b".5", b"1.", b"01", b"-", b"-01", b"0x1f", b"1e", b"1e+", b"1_000", b"NaN", b"-Infinity", b"True", b"None",
                b"nul", b"nulll", b"undefined", b"'a'", b"/**/", b"\xef\xbb\xbf", b"\xc2\xa0", b"\x0c", b"\x0b", b"\xe2\x80\xa8", b"\x85",
            ]);
            v.extend_from_slice(e);
        }
    }
    v
}

/// A token put together from pieces, most of them right.
pub fn pieces(c: &Ctx) -> Vec<u8> {
    let bad = |c: &Ctx| c.chance(1, 4);
    let mut v = Vec::new();
    let from = |c: &Ctx, v: &mut Vec<u8>, good: &[&'static str], wrong: &[&'static str]| {
        let x: &&str = if bad(c) { c.pick(wrong) } else { c.pick(good) };
        v.extend_from_slice(x.as_bytes());
    };
    match c.draw(5) {
        0 | 1 => {
            from(c, &mut v, &["", "-"], &["+", "--", "- "]);
            from(c, &mut v, &["0", "7", "10", "2000", "1234567890123456789"], &["", "00", "01", "x", "0x1", "1_0", "\u{664}"]);
            from(c, &mut v, &["", ".5", ".0", ".00125"], &[".", "..5", ".-5", ".e", ",5", ". 5"]);
            from(c, &mut v, &["", "e5", "E+0", "e-12"], &["e", "E+", "e+-5", "ee5", "e 5", "e.5", "e5.", "e5e5"]);
        }
        2 => {
            from(c, &mut v, &["true", "false", "null"], &["tru", "True", "fals3", "nulL", "nul", "truee", "t", "nan", "fa\u{131}se"]);
        }
        _ => {
            v.push(b'"');
            for _ in 0..c.draw(4) {
                match c.draw(4) {
                    0 => {
                        let n = c.draw(20);
                        v.extend_from_slice(&b"abcdefghijklmnopqrst"[..n]);
                    }
                    1 => from(
                        c,
                        &mut v,
                        &["\\n", "\\\"", "\\u0041", "\\uD83D\\uDE39", "\\\\", "\\/", "\\uffff"],
                        &[
                            "\\x", "\\u004", "\\u004g", "\\uD83D", "\\uD83Dx", "\\uD83D\\n", "\\uD83D\\u0041", "\\uDE39",
                            "\\uDE39\\uD83D", "\\U0041", "\\uD83D\\UDE39", "\\u00:1", "\\u{41}", "\\u+041", "\\N", "\\ ",
                        ],
                    ),
                    2 => from(c, &mut v, &["\u{e9}", "\u{20ac}", "\u{1f639}", "\u{7f}"], &["\0", "\u{1f}", "\n", "\"", "\t", "\u{b}"]),
                    _ if bad(c) => {
                        let wrong: &[&[u8]] = &[
                            &b"\x80"[..], b"\xc3", b"\xc0\xaf", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xff", b"\xc3(",
                        ];
                        v.extend_from_slice(c.pick(wrong));
                    }
                    _ => v.push(b'a'),
                }
            }
            if !c.chance(1, 16) {
                v.push(b'"');
            }
        }
    }
    v
}

/// One storage or transport fault; returns its counter name.
pub fn damage(c: &Ctx, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    let m = marks(b);
    let m: &[usize] = &m;
    let at = position(c, b, m);
    let span = |c: &Ctx, b: &[u8]| {
        let to = if c.coin() {
            position(c, b, m)
        } else {
            (at + 1 + c.draw(6)).min(b.len())
        };
        (at.min(to), at.max(to))
    };
    match c.weighted(&[20, 14, 14, 10, 10, 8, 6, 6, 4, 4, 4, 10]) {
        11 => {
            let v = foreign(c);
            // in the middle of a text, or in place of a token
            let toks = model::lex_all(b).0;
            let t = if toks.is_empty() { None } else { Some(toks[c.draw(toks.len())]) };
            match t {
                Some(t) if t.k == model::K::Str => {
                    let mut i = t.start + 1 + c.draw(t.end - 1 - t.start);
                    while i < t.end - 1 && b[i] & 0xc0 == 0x80 {
                        i += 1;
                    }
                    let e = if c.coin() { t.end - 1 } else { i };
                    b.splice(i..e, v);
                }
                Some(t) if c.chance(3, 4) => {
                    b.splice(t.start..t.end, v);
                }
                _ => {
                    b.splice(at..at, v);
                }
            }
            "fault.foreign_encoding"
        }
        0 => {
            b.truncate(at);
            "fault.truncated"
        }
        1 => {
            let i = at.min(b.len().saturating_sub(1));
            if let Some(x) = b.get_mut(i) {
                *x ^= 1 << c.draw(8);
            }
            "fault.bit_flip"
        }
        2 => {
            let i = at.min(b.len().saturating_sub(1));
            let v = any_byte(c);
            if let Some(x) = b.get_mut(i) {
                *x = v;
            }
            "fault.byte_overwritten"
        }
        3 => {
            let v = any_byte(c);
            b.insert(at, v);
            "fault.byte_inserted"
        }
        4 => {
            let (s, e) = span(c, b);
            b.drain(s..e);
            "fault.chunk_lost"
        }
        5 => {
            let (s, e) = span(c, b);
            let e = e.min(s + 4096);
            let dup = b[s..e].to_vec();
            let tail = b.split_off(e);
            b.extend_from_slice(&dup);
            b.extend_from_slice(&tail);
            "fault.chunk_duplicated"
        }
        6 => {
            let (s, e) = span(c, b);
            let third = position(c, b, m);
            let mid = if third > s && third < e { third } else { s + (e - s) / 2 };
            b[s..e].rotate_left(mid - s);
            "fault.chunks_reordered"
        }
        7 => {
            for x in &mut b[at..] {
                *x = 0;
            }
            "fault.tail_zeroed"
        }
        8 => {
            // the tail still holds an older payload
            let mut t = b[..at].to_vec();
            t.extend_from_slice(other.get(at..).unwrap_or(&[]));
            *b = t;
            "fault.stale_tail"
        }
        9 => {
            let cut = position(c, other, &[]);
            let mut t = b[..at].to_vec();
            t.extend_from_slice(&other[cut.min(other.len())..]);
            *b = t;
            "fault.spliced"
        }
        _ => {
            b.extend_from_slice(other);
            "fault.concatenated"
        }
    }
}

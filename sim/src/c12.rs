//! C12: hostile payloads cannot exhaust the stack or the heap.
//!
//! Payloads of drawn size and shape (deep, wide, both, one huge token), often
//! cut or damaged, are read, walked, compared, written and released under a
//! stack budget that depends on nesting alone and a heap budget that depends
//! on the payload's size alone.
//!
//! C13: the same in a stepped build, under a budget of ticks of the simulated
//! clock: work is proportional to size, and everything comes to an end.

use crate::alloc::{self, pause, Mode};
use crate::c01::{gen_json_style, write_styled};
use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Cfg, Outcome, Style, EK};
use crate::stack::measured;
use crate::sut::{self, Arena, Caught};
use crate::{clock, ensure, ev};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node};
use justjson::parser::{JsonKind, ParseDelegate, Parser, Tokenizer};
use justjson::{Error, ErrorKind, JsonNumber, JsonString, Value};
use std::fmt;
use std::hash::{Hash, Hasher};

/// Stack: this much, and this much more per level of nesting.
const STACK_BASE: usize = 64 << 10;
const STACK_LEVEL: usize = 4 << 10;
/// Heap: this much, and this much more per byte of payload.
const HEAP_BASE: usize = 64 << 10;
const HEAP_BYTE: usize = 512;

/// Work: this many ticks, and this many more per byte that goes in or out.
const WORK_BASE: u64 = 20_000;
const WORK_BYTE: u64 = 160;

#[derive(Clone, Copy, PartialEq)]
enum Meter {
    Memory,
    Work,
}

#[derive(Clone, Copy)]
struct Budget {
    meter: Meter,
    /// bytes that may be written or looked at in addition
    more: usize,
    /// levels of nesting that may be open at a time
    levels: usize,
    /// bytes of input
    len: usize,
}

impl Budget {
    fn more(mut self, bytes: usize) -> Budget {
        self.more += bytes;
        self
    }

    fn work<T>(&self, c: &Ctx, what: &str, f: impl FnOnce() -> T) -> Res<T> {
        let size = (self.len + self.more) as u64;
        let most = WORK_BASE + WORK_BYTE * size;
        let (r, n) = clock::ticks(8 * most, || sut::catch(f));
        c.hits("budget.operations", 1);
        c.hits("clock.ticks", n);
        if std::env::var_os("JJSIM_MOST").is_some() && size > 500 {
            eprintln!("MOST {} {what}", n / size);
        }
        ensure!(
            n <= most,
            "too much work",
            "{what}: {n} steps for {} bytes in and at most {} bytes out",
            self.len,
            self.more
        );
        match r {
            Ok(v) => Ok(v),
            Err(x) => viol("harness", format!("{what}: {x:?}")),
        }
    }

    fn run<T>(&self, c: &Ctx, what: &str, f: impl FnOnce() -> T) -> Res<T> {
        if self.meter == Meter::Work {
            return self.work(c, what, f);
        }
        let heap = HEAP_BASE + HEAP_BYTE * self.len;
        let stack = STACK_BASE + STACK_LEVEL * self.levels;
        alloc::start(Mode::Budget(heap as i64));
        let (r, used) = measured(|| sut::catch(f));
        alloc::stop();
        c.hits("budget.operations", 1);
        ensure!(
            used <= stack,
            "too much stack",
            "{what}: more than {stack} bytes of stack for {} levels of nesting",
            self.levels
        );
        match r {
            Ok(v) => Ok(v),
            Err(Caught::Oom) => viol(
                "too much memory",
                format!("{what}: more than {heap} bytes of heap for {} bytes", self.len),
            ),
            Err(x) => viol("harness", format!("{what}: {x:?}")),
        }
    }
}

// ---------------------------------------------------------------- payloads

fn many(c: &Ctx) -> usize {
    match c.weighted(&[50, 30, 16, if c.thorough { 10 } else { 4 }]) {
        0 => c.draw(20),
        1 => c.draw(600),
        2 => 600 + c.draw(4000),
        _ => 5000 + c.draw(60_000),
    }
}

fn repeat(s: &mut String, one: &str, n: usize) {
    let n = n.min(600_000 / one.len().max(1));
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        s.push_str(one);
    }
}

fn hostile(c: &Ctx, cfg: Cfg, meter: Meter) -> Vec<u8> {
    let mut s = String::new();
    match c.draw(8) {
        // nested far beyond any limit
        0 => {
            let n = many(c);
            // without a limit the stack is the caller's business
            let n = if cfg.limit.is_none() { n.min(1500) } else { n };
            let close = c.chance(1, 3);
            let style = c.draw(4);
            let mut shut = Vec::new();
            for i in 0..n {
                match (style, i % 2) {
                    (0, _) | (2, 0) => {
                        s.push('[');
                        shut.push(']');
                    }
                    (3, _) => {
                        s.push_str("[0,");
                        shut.push(']');
                    }
                    _ => {
                        s.push_str("{\"\":");
                        shut.push('}');
                    }
                }
            }
            if close {
                s.push('0');
                while let Some(x) = shut.pop() {
                    s.push(x);
                }
            }
        }
        // wide, nested to the limit or not at all
        1..=3 => {
            let levels = if c.coin() {
                0
            } else {
                c.draw(cfg.limit.unwrap_or(40).min(300).max(1))
            };
            let mut shut = Vec::new();
            let comb = c.coin();
            for _ in 0..levels {
                if c.coin() {
                    s.push('[');
                    if comb {
                        repeat(&mut s, "[]", 1 + c.draw(30));
                        s.push(',');
                    }
                    shut.push("]");
                } else {
                    s.push_str("{\"a\":");
                    shut.push("}");
                }
            }
            let obj = c.coin();
            let one = *c.pick(&[
                "0", "[]", "{}", "\"\"", "[0]", "{\"\":0}", "null", "[[],[]]", "\"\\n\"", "[{}]",
                "{\"a\":[]}", "-1.5e3", "[0,0,0,0,0]",
            ]);
            let n = many(c);
            s.push(if obj { '{' } else { '[' });
            if obj {
                let one = format!("\"{}\":{one}", c.pick(&["", "a", "\\u0061"]));
                repeat(&mut s, &one, n);
            } else {
                repeat(&mut s, one, n);
            }
            if !c.chance(1, 5) {
                s.push(if obj { '}' } else { ']' });
                while let Some(x) = shut.pop() {
                    s.push_str(x);
                }
            }
        }
        // one huge token, or white space
        4 => {
            let mut n = many(c);
            if meter == Meter::Work && c.chance(1, 800) {
                // what the clock cannot see must at least not go on forever
                n = 700_000;
            }
            let root = c.coin();
            if !root {
                s.push_str("[0,");
            }
            match c.draw(6) {
                0 => {
                    s.push('"');
                    s.push_str(&c.pick(&["a", "\\n", "\\u0000", "\u{e9}", "a\u{e9}", "\\ud83d\\ude00", "\u{1f600}", "\\\\"]).repeat(n));
                    s.push('"');
                }
                1 => s.push_str(&"7".repeat(n + 1)),
                2 => {
                    s.push_str("0.");
                    s.push_str(&"3".repeat(n + 1));
                }
                3 => {
                    s.push_str("1e");
                    s.push_str(&"0".repeat(n + 1));
                }
                4 => s.push_str(&"\"a\"".repeat(n.min(3))),
                _ => s.push('0'),
            }
            s.push_str(&c.pick(&[" ", "\n", "\t\r"]).repeat(if c.coin() { 0 } else { n }));
            if !root {
                s.push(']');
            }
        }
        // separators and other junk
        5 => {
            let one = *c.pick(&[",", ":", "]", "}", "\"", "\\", "[]", "{}", "\"\"", "0 ", "-", "nul", "[,", "{\"a\":,", "\"\\u", "\"\\ud800"]);
            if c.coin() {
                s.push_str(c.pick::<&str>(&["[", "{", "[[", "{\"a\":"]));
            }
            let n = many(c).min(600_000 / one.len());
            let n = if cfg.limit.is_none() { n.min(1500) } else { n };
            s.push_str(&one.repeat(n));
        }
        _ => {
            let mut k = gen::knobs(c);
            k.bulk = 8;
            if let Some(l) = cfg.limit {
                k.depth = k.depth.min(l.max(1));
            }
            s = gen::doc(c, &k);
        }
    }
    s.into_bytes()
}

/// The deepest nesting that is open anywhere in the payload, valid or not.
fn nesting(o: &Outcome) -> usize {
    o.max_depth
}

// ---------------------------------------------------------------- consumers

/// Counts events, fails at the chosen one; holds nothing.
struct Counting {
    left: usize,
}
impl Counting {
    fn event(&mut self) -> Result<(), u8> {
        let _h = clock::Hold::new();
        if self.left == 0 {
            return Err(1);
        }
        self.left -= 1;
        Ok(())
    }
}
impl<'a> ParseDelegate<'a> for &mut Counting {
    type Value = JsonKind;
    type Object = bool;
    type Array = bool;
    type Key = ();
    type Error = u8;
    fn null(&mut self) -> Result<JsonKind, u8> {
        self.event().map(|()| JsonKind::Null)
    }
    fn boolean(&mut self, _: bool) -> Result<JsonKind, u8> {
        self.event().map(|()| JsonKind::Boolean)
    }
    fn number(&mut self, _: JsonNumber<'a>) -> Result<JsonKind, u8> {
        self.event().map(|()| JsonKind::Number)
    }
    fn string(&mut self, _: JsonString<'a>) -> Result<JsonKind, u8> {
        self.event().map(|()| JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<bool, u8> {
        self.event().map(|()| true)
    }
    fn object_key(&mut self, _: &mut bool, _: JsonString<'a>) -> Result<(), u8> {
        self.event()
    }
    fn object_value(&mut self, o: &mut bool, (): (), _: JsonKind) -> Result<(), u8> {
        *o = false;
        self.event()
    }
    fn object_is_empty(&self, o: &bool) -> bool {
        *o
    }
    fn end_object(&mut self, _: bool) -> Result<JsonKind, u8> {
        self.event().map(|()| JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<bool, u8> {
        self.event().map(|()| true)
    }
    fn array_value(&mut self, a: &mut bool, _: JsonKind) -> Result<(), u8> {
        *a = false;
        self.event()
    }
    fn array_is_empty(&self, a: &bool) -> bool {
        *a
    }
    fn end_array(&mut self, _: bool) -> Result<JsonKind, u8> {
        self.event().map(|()| JsonKind::Array)
    }
    fn kind_of(&self, k: &JsonKind) -> JsonKind {
        *k
    }
}

/// Takes any text and keeps only its length.
struct Null {
    len: usize,
    left: usize,
}
impl fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _h = clock::Hold::new();
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.len += s.len();
        Ok(())
    }
}

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let _h = clock::Hold::new();
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
}

// ---------------------------------------------------------------- operations

struct Case<'a> {
    b: &'a [u8],
    text: Option<&'a str>,
    cfg: Cfg,
    o: &'a Outcome,
    nodes: usize,
    budget: Budget,
}

impl<'a> Case<'a> {
    fn verdict<T, E: fmt::Debug>(&self, what: &str, r: &Result<T, Error<E>>) -> Res<bool> {
        match (r, &self.o.err) {
            (Ok(_), None) => Ok(true),
            (Err(e), Some(m)) => sut::check_reason(e.kind(), m, what).map(|()| false),
            (Ok(_), Some(m)) => viol("invalid payload accepted", format!("{what}: {}: {m:?}", Show(self.b))),
            (Err(e), None) => viol(
                "valid payload refused",
                format!("{what}: {}: {}", Show(self.b), sut::err_name(e)),
            ),
        }
    }

    fn value(&self, c: &Ctx) -> Res<Result<Value<'a>, Error>> {
        let pc = sut::pcfg(self.cfg);
        let bytes = c.coin();
        let r = self.budget.run(c, "parse into a value", || match self.text {
            Some(t) if !bytes => Value::from_json_with_config(t, pc),
            _ => Value::from_json_bytes_with_config(self.b, pc),
        })?;
        self.verdict("value", &r)?;
        Ok(r)
    }

    fn document(&self, c: &Ctx) -> Res<Result<Document<'a>, Error>> {
        let pc = sut::pcfg(self.cfg);
        let bytes = c.coin();
        let r: Result<GenericDocument<'a, Vec<Node<'a>>>, Error> =
            self.budget.run(c, "parse into a document", || match self.text {
                Some(t) if !bytes => Document::from_json_with_config(t, pc),
                _ => Document::from_json_bytes_with_config(self.b, pc),
            })?;
        self.verdict("document", &r)?;
        Ok(r)
    }

    /// No more than this is written.
    fn written(&self, style: &Style) -> usize {
        match style {
            Style::Compact => self.b.len(),
            Style::Pretty { indent, eol } => {
                // what comes before each node and each end
                let before = (self.budget.levels + 1) * indent.len().max(1) + eol.len() + 4;
                self.b.len() + 2 * self.nodes * before
            }
        }
    }

    fn values(&self, c: &Ctx) -> Res {
        let Ok(mut v) = self.value(c)? else { return Ok(()) };
        for _ in 0..1 + c.draw(3) {
            match c.draw(8) {
                0 => {
                    let style = gen_json_style(c);
                    let left = if c.chance(1, 3) { c.draw(self.b.len() + 1) } else { usize::MAX };
                    let mut sink = Null { len: 0, left };
                    let r = self.budget.more(self.written(&style)).run(c, "write", || write_styled(c, &v, &style, &mut sink))?;
                    if r.is_err() {
                        c.fault("fault.destination_full");
                    }
                    ensure!(r.is_ok() || left < usize::MAX, "failure not reported", "{r:?}");
                }
                1 => {
                    let t = self.budget.more(self.b.len()).run(c, "write to a string", || v.to_json())?;
                    // white space is all that may be lost
                    ensure!(
                        self.cfg.trailing || t.len() <= self.b.len(),
                        "wrong text",
                        "{} bytes from {}",
                        t.len(),
                        self.b.len()
                    );
                    pause(|| drop(t));
                }
                2 => {
                    let eq = self.budget.run(c, "comparison", || v == v)?;
                    ensure!(eq, "wrong equality", "a value differs from itself");
                }
                3 => {
                    let other = Value::from_json_bytes_with_config(self.b, sut::pcfg(self.cfg));
                    let Ok(other) = other else { continue };
                    let eq = self.budget.run(c, "comparison", || v == other)?;
                    ensure!(eq, "wrong equality", "the same payload differs");
                    self.budget.run(c, "release", || drop(other))?;
                }
                4 => {
                    let hit = self.budget.run(c, "lookup", || {
                        (v.get("no such key").is_none(), v.get_index(usize::MAX).is_none())
                    })?;
                    ensure!(hit == (true, true), "wrong lookup", "{hit:?}");
                }
                5 => {
                    let most = if self.budget.meter == Meter::Work { 40 } else { 3 };
                    let times = 1 + c.draw(most);
                    // each may look at every member, and at all its text
                    let budget = self.budget.more(self.b.len() * times);
                    let n = budget.run(c, "lookups", || {
                        let mut n = 0;
                        for i in 0..times {
                            n += usize::from(v.get(["a", "", "\u{0}"][i % 3]).is_some());
                            n += usize::from(v.get_mut("no such key").is_some());
                            n += usize::from(v.get_index(i).is_some());
                            if let Some(o) = v.as_object_mut() {
                                n += usize::from(o.get_entry_mut("a").is_some());
                            }
                        }
                        n
                    })?;
                    ensure!(n <= 4 * times, "wrong lookup", "{n}");
                }
                6 => {
                    if let Value::Array(a) = &mut v {
                        // half of it is dropped
                        let n = a.len() / 2;
                        self.budget.run(c, "shorten", || a.truncate(n))?;
                        break;
                    }
                }
                _ => {
                    let mut sink = Null { len: 0, left: usize::MAX };
                    self.budget.more(self.b.len()).run(c, "format", || fmt::write(&mut sink, format_args!("{v}")))?.ok();
                }
            }
        }
        self.budget.run(c, "release", || drop(v))
    }

    fn documents(&self, c: &Ctx) -> Res {
        let Ok(d) = self.document(c)? else { return Ok(()) };
        for _ in 0..1 + c.draw(3) {
            match c.draw(5) {
                0 => {
                    let n = self.budget.run(c, "walk", || d.iter().count())?;
                    ensure!(n == self.nodes, "wrong node", "{n} nodes of {}", self.nodes);
                }
                1 => {
                    let left = self.budget.run(c, "skip", || {
                        let mut it = d.iter();
                        it.skip_next_value();
                        it.count()
                    })?;
                    ensure!(left == 0, "wrong node", "{left} nodes after the only value");
                }
                2 => {
                    let from = c.draw(self.nodes.max(1));
                    self.budget.run(c, "read a part", || {
                        let mut it = d.iter();
                        for _ in 0..from {
                            let _ = it.next();
                        }
                        let v = it.next_value();
                        pause(|| drop(it));
                        drop(v);
                    })?;
                }
                3 => {
                    let from = c.draw(self.nodes.max(1));
                    self.budget.run(c, "skip a part", || {
                        let mut it = d.iter();
                        for _ in 0..from {
                            let _ = it.next();
                        }
                        while it.clone().next().is_some() {
                            it.skip_next_value();
                        }
                    })?;
                }
                _ => {
                    let v = self.budget.run(c, "conversion", || Value::from(d))?;
                    self.budget.run(c, "release", || drop(v))?;
                    return Ok(());
                }
            }
        }
        self.budget.run(c, "release", || drop(d))
    }

    fn consumers(&self, c: &Ctx) -> Res {
        let pc = sut::pcfg(self.cfg);
        let fails = c.coin().then(|| c.draw(self.o.events.len() + 1));
        let mut n = Counting { left: fails.unwrap_or(usize::MAX) };
        let r = self.budget.run(c, "parse for a consumer", || {
            Parser::parse_json_bytes_with_config(self.b, pc, &mut n)
        })?;
        match (&r, fails) {
            (Err(e), Some(_)) if *e.kind() == ErrorKind::ErrorFromDelegate(1) => {
                c.fault("fault.consumer_failed");
                Ok(())
            }
            _ => self.verdict("consumer", &r).map(|_| ()),
        }
    }

    fn others(&self, c: &Ctx) -> Res {
        let pc = sut::pcfg(self.cfg);
        match c.draw(if self.budget.meter == Meter::Work { 9 } else { 4 }) {
            0 => {
                let r = self.budget.run(c, "validation", || Parser::validate_json_bytes_with_config(self.b, pc))?;
                self.verdict("validation", &r).map(|_| ())
            }
            1 => {
                let n = self.budget.run(c, "tokens", || match self.text {
                    Some(t) => Tokenizer::for_json(t).take(t.len() + 1).count(),
                    None => Tokenizer::for_json_bytes(self.b).take(self.b.len() + 1).count(),
                })?;
                ensure!(n <= self.b.len(), "no progress", "{n} steps for {} bytes", self.b.len());
                Ok(())
            }
            2 => {
                let r = self.budget.run(c, "parse into bounded storage", || {
                    HeaplessDocument::<'_, 32>::from_json_bytes_with_config(self.b, pc)
                        .map(|d| d.iter().count())
                })?;
                match &r {
                    Err(e) if *e.kind() == ErrorKind::PaylodTooLarge && self.nodes > 32 => {
                        c.fault("fault.bounded_storage_full");
                        Ok(())
                    }
                    _ => self.verdict("bounded storage", &r).map(|_| ()),
                }
            }
            _ => self.strings(c),
        }
    }

    /// The longest string and number of the payload.
    fn strings(&self, c: &Ctx) -> Res {
        let (toks, _) = model::lex_all(self.b);
        let pick = |k: model::K| {
            toks.iter()
                .filter(|t| t.k == k)
                .max_by_key(|t| t.end - t.start)
                .and_then(|t| std::str::from_utf8(&self.b[t.start..t.end]).ok())
        };
        if let Some(t) = pick(model::K::Num) {
            let f = self.budget.run(c, "number", || JsonNumber::from_json(t).map(|n| (n.as_f64(), n.as_u64())))?;
            ensure!(f.is_ok(), "valid number refused", "{}", Show(t.as_bytes()));
        }
        let Some(t) = pick(model::K::Str) else { return Ok(()) };
        let text = model::decode(&t[1..t.len() - 1]);
        let budget = Budget { levels: 0, len: t.len(), more: 0, meter: self.budget.meter };
        if budget.meter == Meter::Work {
            self.string_steps(c, t, &text)?;
        }
        // many passes over it
        let ok = budget.more(3 * t.len()).run(c, "string", || {
            let s = JsonString::from_json(t).ok()?;
            let mut h = Sum(1);
            s.hash(&mut h);
            let raw = JsonString::from(text.as_str());
            let mut h2 = Sum(1);
            raw.hash(&mut h2);
            let d = s.decode_if_needed();
            let e = raw.escape_if_needed();
            Some(
                s == raw
                    && s.cmp(&raw).is_eq()
                    && h.finish() == h2.finish()
                    && d.len() == text.len()
                    && e.len() >= text.len()
                    && s.decoded().count() == raw.decoded().count()
                    && raw.as_json().count() >= s.decoded().count()
                    && s.as_json().count() <= t.len(),
            )
        })?;
        ensure!(ok == Some(true), "wrong string", "{}: {ok:?}", Show(t.as_bytes()));
        Ok(())
    }
}

impl<'a> Case<'a> {
    /// One operation at a time on one string in several representations.
    fn string_steps(&self, c: &Ctx, json: &'a str, text: &str) -> Res {
        let Ok(parsed) = JsonString::from_json(json) else {
            return viol("valid string refused", format!("{}", Show(json.as_bytes())));
        };
        let raw = JsonString::from(text);
        let owned = JsonString::from(text.to_string());
        let decoded = JsonString::from(parsed.decoded().collect::<String>());
        let longer = JsonString::from(format!("{text}x"));
        let all = [&parsed, &raw, &owned, &decoded, &longer];
        let a = *c.pick(&all);
        let b = *c.pick(&all);
        let bytes = 2 * (json.len() + text.len());
        let work = Budget { levels: 0, len: bytes, more: 0, meter: Meter::Work };
        for _ in 0..1 + c.draw(4) {
            match c.draw(12) {
                0 => {
                    let r = work.run(c, "comparison of strings", || (a == b, a.cmp(b), a == text))?;
                    let long = |x| std::ptr::eq(x, &longer);
                    ensure!(r.0 == (long(a) == long(b)), "wrong comparison", "{r:?}");
                }
                1 => {
                    work.run(c, "hash", || {
                        let mut h = Sum(1);
                        a.hash(&mut h);
                        h.0
                    })?;
                }
                2 | 3 => {
                    // remaining lengths are asked for now and then
                    let json = c.coin();
                    let n = work.run(c, "characters and estimates", || {
                        fn go(mut it: impl Iterator<Item = char>) -> usize {
                            let mut n = 0;
                            loop {
                                if n < 5 {
                                    let _ = it.size_hint();
                                }
                                match it.next() {
                                    Some(_) => n += 1,
                                    None => return n,
                                }
                            }
                        }
                        if json { go(a.as_json()) } else { go(a.decoded()) }
                    })?;
                    ensure!(json || n <= text.chars().count() + 1, "wrong text", "{n} characters");
                }
                4 => {
                    let k = 1 + c.draw(9);
                    work.run(c, "characters by nth", || {
                        let mut it = a.decoded();
                        let mut n = 0;
                        while it.nth(k).is_some() {
                            n += 1;
                        }
                        n
                    })?;
                }
                5 => {
                    // many looks at a string of any length
                    let many = Budget { len: bytes.max(64), ..work };
                    many.run(c, "properties", || {
                        let mut n = 0;
                        for _ in 0..8 {
                            n += usize::from(a.as_str().is_some());
                            n += a.decoded().size_hint().0;
                            n += a.as_json().size_hint().0;
                        }
                        n
                    })?;
                }
                6 => {
                    work.run(c, "decode_if_needed", || a.decode_if_needed().len())?;
                }
                7 => {
                    work.more(5 * text.len()).run(c, "escape_if_needed", || a.escape_if_needed().len())?;
                }
                8 => {
                    let mut sink = Null { len: 0, left: usize::MAX };
                    work.more(5 * text.len())
                        .run(c, "print", || fmt::write(&mut sink, format_args!("{a}{}", a.as_json())))?
                        .ok();
                }
                9 => {
                    work.run(c, "clone", || a.clone() == *a)?;
                }
                10 => {
                    let v = Value::String(a.clone());
                    work.more(6 * text.len()).run(c, "write a string", || v.to_json().len())?;
                }
                _ => {
                    work.run(c, "from a text", || JsonString::from(text).decoded().next())?;
                }
            }
        }
        Ok(())
    }
}

/// C12
pub fn run(c: &Ctx) -> Res {
    scenario(c, Meter::Memory)
}

/// C13
pub fn run_work(c: &Ctx) -> Res {
    ensure!(clock::stepped(), "harness", "C13 needs the stepped build");
    scenario(c, Meter::Work)
}

fn scenario(c: &Ctx, meter: Meter) -> Res {
    let ar = Arena::default();
    let cfg = Cfg {
        limit: match c.draw(6) {
            0 | 1 => Some(128),
            2 => Some(c.draw(4)),
            3 => Some(c.draw(30)),
            4 => Some(*c.pick(&[64, 127, 129, 256, 1000])),
            _ => None,
        },
        trailing: c.chance(1, 4),
        all_roots: !c.chance(1, 6),
    };
    let mut b = hostile(c, cfg, meter);
    if c.chance(1, 3) {
        let kind = gen::damage(c, &mut b, b"[[1,{\"a\":[]}],\"x\"]");
        c.fault(kind);
    }
    let b = ar.bytes(b);
    let o = model::parse(b, cfg);
    let nodes = o.events.iter().filter(|e| {
        !matches!(e, model::Ev::ObjVal | model::Ev::ArrVal | model::Ev::EndObj(_) | model::Ev::EndArr(_))
    });
    let nodes = nodes.count();
    if o.err.is_some_and(|e| e.kind == EK::Depth) {
        c.fault("fault.nested_beyond_the_limit");
    }
    let case = Case {
        b,
        text: std::str::from_utf8(b).ok(),
        cfg,
        o: &o,
        nodes,
        budget: Budget { levels: nesting(&o), len: b.len(), more: 0, meter },
    };
    if case.budget.levels >= 64 {
        c.hit("probe.deep");
    }
    if nodes >= 5000 {
        c.hit("probe.wide");
    }
    c.fault(match meter {
        Meter::Memory => "fault.stack_and_heap_budget",
        Meter::Work => "fault.step_budget",
    });
    ev!(c, "{cfg:?} {} -> {:?}, {nodes} nodes, {} levels", Show(b), o.err, case.budget.levels);
    for _ in 0..1 + c.draw(2) {
        match c.draw(if meter == Meter::Work { 7 } else { 5 }) {
            0 | 5.. => case.others(c)?,
            1 => case.consumers(c)?,
            2 => case.documents(c)?,
            _ => case.values(c)?,
        }
    }
    Ok(())
}

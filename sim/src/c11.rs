//! C11: interrupted text streams resume without loss, repetition or
//! corruption.

use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model;
use crate::sut::{self, Arena, Caught, SimSink, SinkFault};
use crate::{ensure, ev};
use justjson::{AnyStr, JsonString};
use std::fmt::{Display, Write as _};

#[derive(Clone)]
enum Stream<D, J> {
    Decoded(D),
    Json(J),
}

/// What the library's stream types (which have no public names) offer.
trait Text: Iterator<Item = char> + Clone + Display {}
impl<T: Iterator<Item = char> + Clone + Display> Text for T {}

impl<D: Text, J: Text> Iterator for Stream<D, J> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        match self {
            Stream::Decoded(s) => s.next(),
            Stream::Json(s) => s.next(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            Stream::Decoded(s) => s.size_hint(),
            Stream::Json(s) => s.size_hint(),
        }
    }
    fn nth(&mut self, n: usize) -> Option<char> {
        match self {
            Stream::Decoded(s) => s.nth(n),
            Stream::Json(s) => s.nth(n),
        }
    }
    fn count(self) -> usize {
        match self {
            Stream::Decoded(s) => s.count(),
            Stream::Json(s) => s.count(),
        }
    }
    fn last(self) -> Option<char> {
        match self {
            Stream::Decoded(s) => s.last(),
            Stream::Json(s) => s.last(),
        }
    }
    fn fold<B, F: FnMut(B, char) -> B>(self, init: B, f: F) -> B {
        match self {
            Stream::Decoded(s) => s.fold(init, f),
            Stream::Json(s) => s.fold(init, f),
        }
    }
}

impl<D: Text, J: Text> Stream<D, J> {
    fn shown(&self) -> &dyn Display {
        match self {
            Stream::Decoded(s) => s,
            Stream::Json(s) => s,
        }
    }
}

struct Cursor<D, J> {
    it: Stream<D, J>,
    at: usize,
    /// which of the references it must follow
    of: usize,
}

/// The text a stream must deliver.
struct Reference {
    name: &'static str,
    chars: Vec<char>,
    /// byte offset of each character, and the end
    offs: Vec<usize>,
    text: String,
}

fn reference(name: &'static str, text: String) -> Reference {
    let chars: Vec<char> = text.chars().collect();
    let mut offs: Vec<usize> = text.char_indices().map(|x| x.0).collect();
    offs.push(text.len());
    Reference {
        name,
        chars,
        offs,
        text,
    }
}

impl Reference {
    fn rest(&self, at: usize) -> &str {
        &self.text[self.offs[at]..]
    }
}

/// A step of the stream, or several.
fn advance<D: Text, J: Text>(c: &Ctx, cur: &mut Cursor<D, J>, r: &Reference, i: usize) -> Res {
    let left = r.chars.len() - cur.at;
    let n = match c.draw(4) {
        0 | 1 => 1,
        2 => c.draw(9),
        _ => c.draw(left + 2),
    };
    let by = c.draw(4);
    let what = format!("{} stream {i} at character {}", r.name, cur.at);
    match by {
        0 | 1 => {
            for _ in 0..n {
                let want = r.chars.get(cur.at).copied();
                let got = cur.it.next();
                ensure!(
                    got == want,
                    "wrong character",
                    "{what}: character {} is {got:?}, expected {want:?}",
                    cur.at
                );
                if want.is_some() {
                    cur.at += 1;
                }
            }
        }
        2 => {
            let want = r.chars.get(cur.at + n).copied();
            let got = cur.it.nth(n);
            ensure!(
                got == want,
                "wrong character",
                "{what}: character {} is {got:?}, expected {want:?}",
                cur.at + n
            );
            cur.at = (cur.at + n + 1).min(r.chars.len());
        }
        _ => {
            let got: String = cur.it.by_ref().take(n).collect();
            let to = (cur.at + n).min(r.chars.len());
            let want = &r.text[r.offs[cur.at]..r.offs[to]];
            ensure!(
                got == want,
                "wrong character",
                "{what}: next {n} are {}, expected {}",
                Show(got.as_bytes()),
                Show(want.as_bytes())
            );
            cur.at = to;
        }
    }
    ev!(c, "{} {i}: to {}", r.name, cur.at);
    Ok(())
}

/// Prints what is left into a destination that may fail, and then delivers
/// the remainder from a copy.
fn print_rest<D: Text, J: Text>(c: &Ctx, cur: &Cursor<D, J>, r: &Reference, i: usize) -> Res {
    let rest = r.rest(cur.at);
    let left = r.chars.len() - cur.at;
    let fault = match c.draw(5) {
        0 => SinkFault::None,
        1 => SinkFault::Panic(c.draw(left + 1) as u64),
        2 => SinkFault::Budget(c.draw(rest.len() + 1)),
        _ => SinkFault::Err(c.draw(left + 1) as u64),
    };
    let mut sink = SimSink::new(fault);
    let what = format!("{} stream {i} printed from character {}", r.name, cur.at);
    let res = sut::catch(|| write!(sink, "{}", cur.it.shown()));
    ev!(c, "{} {i}: printed {} of {} bytes, {fault:?}, {res:?}", r.name, sink.out.len(), rest.len());
    ensure!(
        rest.starts_with(&sink.out),
        "wrong text",
        "{what}: {} arrived, expected a beginning of {}",
        Show(sink.out.as_bytes()),
        Show(rest.as_bytes())
    );
    ensure!(
        sink.after == 0,
        "text after the failure",
        "{what}: {} calls after the destination had failed",
        sink.after
    );
    if sink.failed {
        c.fault(match fault {
            SinkFault::Panic(_) => "fault.destination_panicked",
            SinkFault::Budget(_) => "fault.destination_full",
            _ => "fault.destination_refused",
        });
        match (fault, &res) {
            (SinkFault::Panic(k), Err(Caught::Sim(id))) if *id == k => {}
            (SinkFault::Panic(_), _) => {
                return viol("panic swallowed", format!("{what}: {res:?}"));
            }
            (_, Ok(Err(_))) => {}
            _ => {
                return viol("failure not reported", format!("{what}: {res:?}"));
            }
        }
    } else {
        ensure!(
            matches!(res, Ok(Ok(()))),
            "failure without cause",
            "{what}: {res:?}"
        );
        ensure!(
            sink.out == rest,
            "wrong text",
            "{what}: {} arrived, expected {}",
            Show(sink.out.as_bytes()),
            Show(rest.as_bytes())
        );
    }
    // go on where the destination stopped
    let mut copy = cur.it.clone();
    let got = sink.out.chars().count();
    if got > 0 {
        copy.nth(got - 1);
    }
    let mut total = sink.out;
    if c.coin() {
        total.extend(copy);
    } else {
        let _ = write!(total, "{}", copy.shown());
    }
    ensure!(
        total == rest,
        "wrong text",
        "{what}, then resumed: {} in total, expected {}",
        Show(total.as_bytes()),
        Show(rest.as_bytes())
    );
    Ok(())
}

fn estimate<D: Text, J: Text>(cur: &Cursor<D, J>, r: &Reference, i: usize) -> Res {
    let (lo, hi) = cur.it.size_hint();
    let left = r.chars.len() - cur.at;
    ensure!(
        lo <= left && hi.map_or(true, |h| left <= h),
        "wrong size estimate",
        "{} stream {i} at {}: {lo}..{hi:?}, {left} characters are left",
        r.name,
        cur.at
    );
    Ok(())
}

/// The representation-independent facts about a string.
fn facts(s: &JsonString<'_>, text: &str, json: &str, src: Option<&str>) -> Res {
    let what = || format!("string {} as {}", Show(text.as_bytes()), Show(json.as_bytes()));
    ensure!(
        s.len() == json.len(),
        "wrong length",
        "{}: len is {}, the JSON text has {} bytes",
        what(),
        s.len(),
        json.len()
    );
    ensure!(
        s.decoded_len() == text.len(),
        "wrong length",
        "{}: decoded_len is {}, the text has {} bytes",
        what(),
        s.decoded_len(),
        text.len()
    );
    ensure!(
        s.is_empty() == text.is_empty(),
        "wrong length",
        "{}: is_empty is {}",
        what(),
        s.is_empty()
    );
    let plain = src.map_or(true, |s| !s.contains('\\'));
    match s.as_str() {
        Some(t) => ensure!(t == text, "wrong text", "{}: as_str is {}", what(), Show(t.as_bytes())),
        None => ensure!(!plain, "wrong text", "{}: as_str gives nothing", what()),
    }
    match s.as_json_str() {
        Some(t) => ensure!(
            t == json,
            "wrong text",
            "{}: as_json_str is {}",
            what(),
            Show(t.as_bytes())
        ),
        None => ensure!(src.is_none(), "wrong text", "{}: as_json_str gives nothing", what()),
    }
    ensure!(
        s.decode_if_needed() == text,
        "wrong text",
        "{}: decode_if_needed is {}",
        what(),
        Show(s.decode_if_needed().as_bytes())
    );
    let e = s.escape_if_needed();
    ensure!(
        e == json,
        "wrong text",
        "{}: escape_if_needed is {}",
        what(),
        Show(e.as_bytes())
    );
    ensure!(
        s.to_string() == text && s.decoded().count() == text.chars().count(),
        "wrong text",
        "{}: printed as {}",
        what(),
        Show(s.to_string().as_bytes())
    );
    let any: AnyStr<'_> = s.decode_if_needed();
    ensure!(any.as_str() == text && &*any == text, "wrong text", "{}", what());
    Ok(())
}

pub fn run(c: &Ctx) -> Res {
    let ar = Arena::default();
    let mut k = gen::knobs(c);
    k.max_str = *c.pick(&[6, 3, 12, 60]);
    if c.chance(1, 6) {
        k.long_str = 60;
    }
    let text = gen::text(c, &k);
    let (s, src) = sut::deliver(c, &ar, &text)?;
    let json: String = match &src {
        Some(s) => s.clone(),
        None => {
            // whatever the encoder chose, it must encode the text, and it
            // must choose the same every time
            let j: String = s.as_json().collect();
            ensure!(
                model::encodes(&j, &text),
                "wrong encoding",
                "{} is not an encoding of {}",
                Show(j.as_bytes()),
                Show(text.as_bytes())
            );
            j
        }
    };
    ev!(c, "{} as {} ({})", Show(text.as_bytes()), Show(json.as_bytes()), if src.is_some() { "parsed" } else { "plain" });
    if src.is_none() && json.len() > text.len() {
        c.hit("probe.text_needed_escapes");
    }
    facts(&s, &text, &json, src.as_deref())?;
    let refs = [reference("decoded", text.clone()), reference("JSON", json.clone())];
    let start = |of: usize| Cursor {
        it: if of == 0 {
            Stream::Decoded(s.decoded())
        } else {
            Stream::Json(s.as_json())
        },
        at: 0,
        of,
    };
    stream(c, &refs, &start)?;
    facts(&s, &text, &json, src.as_deref())
}

fn stream<D: Text, J: Text>(
    c: &Ctx,
    refs: &[Reference; 2],
    start: &dyn Fn(usize) -> Cursor<D, J>,
) -> Res {
    let mut cs: Vec<Cursor<D, J>> = (0..1 + c.draw(3)).map(|_| start(c.draw(2))).collect();
    // checkpoints a crashed consumer resumes from
    let mut saved: Vec<Cursor<D, J>> = Vec::new();
    c.nontrivial();
    let steps = 4 + c.draw(if c.thorough { 60 } else { 24 });
    for _ in 0..steps {
        let i = c.draw(cs.len());
        let r = &refs[cs[i].of];
        match c.weighted(&[50, 12, 10, 16, 12]) {
            0 => advance(c, &mut cs[i], r, i)?,
            1 => {
                ev!(c, "{} {i}: checkpoint at {}", r.name, cs[i].at);
                let cp = Cursor {
                    it: cs[i].it.clone(),
                    ..cs[i]
                };
                if saved.len() < 6 {
                    saved.push(cp);
                } else {
                    let j = c.draw(6);
                    saved[j] = cp;
                }
            }
            2 => {
                // crash: what the consumer had is gone
                let of = cs[i].of;
                let cp = saved.iter().rev().find(|s| s.of == of);
                let from = cp.map_or(0, |s| s.at);
                ev!(c, "{} {i}: crash at {}, resumed from {from}", r.name, cs[i].at);
                c.fault("fault.consumer_crashed");
                cs[i] = match cp {
                    Some(s) => Cursor {
                        it: s.it.clone(),
                        ..*s
                    },
                    None => start(of),
                };
            }
            3 => print_rest(c, &cs[i], r, i)?,
            _ => {
                // all that is left, in one of the ways iterators offer
                let it = cs[i].it.clone();
                let left = &r.chars[cs[i].at..];
                let what = format!("{} stream {i} from character {}", r.name, cs[i].at);
                match c.draw(4) {
                    0 => {
                        let n = it.count();
                        ensure!(n == left.len(), "wrong text", "{what}: {n} characters, {} expected", left.len());
                    }
                    1 => {
                        let x = it.last();
                        ensure!(x == left.last().copied(), "wrong text", "{what}: last is {x:?}");
                    }
                    2 => {
                        let t = it.fold(String::new(), |mut s, x| {
                            s.push(x);
                            s
                        });
                        ensure!(t == r.rest(cs[i].at), "wrong text", "{what}: {}", Show(t.as_bytes()));
                    }
                    _ => {
                        let t: String = it.collect();
                        ensure!(t == r.rest(cs[i].at), "wrong text", "{what}: {}", Show(t.as_bytes()));
                    }
                }
            }
        }
        estimate(&cs[i], r, i)?;
    }
    // once faults stop, every consumer gets the rest
    for (i, mut cur) in cs.into_iter().enumerate() {
        let r = &refs[cur.of];
        let mut got = String::new();
        let mut n = r.chars.len() - cur.at;
        while let Some(x) = cur.it.next() {
            got.push(x);
            ensure!(n > 0, "wrong text", "{} stream {i} goes on after the end with {x:?}", r.name);
            n -= 1;
            cur.at += 1;
            if n < 8 || n % 64 == 0 {
                estimate(&cur, r, i)?;
            }
        }
        let from = r.chars.len() - got.chars().count() - n;
        ensure!(
            n == 0 && r.rest(from) == got,
            "wrong text",
            "{} stream {i}: rest is {}, expected {}",
            r.name,
            Show(got.as_bytes()),
            Show(r.rest(from).as_bytes())
        );
        ensure!(cur.it.next().is_none(), "wrong text", "{} stream {i} goes on after the end", r.name);
    }
    Ok(())
}

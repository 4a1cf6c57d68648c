//! C07: running out of memory is survived or avoided.

use crate::alloc::{self, pause, Mode, Report};
use crate::c01::{gen_style, gen_value, write_styled};
use crate::c03::gen_payload;
use crate::c09::check_token;
use crate::ctx::{hash_bytes, viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Cfg, MNode, Outcome, MV};
use crate::sut::{self, Arena, Caught, SimSink, SinkFault};
use crate::{ensure, ev};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, Parser, Token, Tokenizer};
use justjson::{AnyStr, Error, JsonNumber, JsonString, Value};
use std::hash::{Hash, Hasher};

/// Runs `f` under a memory plan. What `f` returns is dropped under the same
/// plan after `look` has seen it, so that everything it took is accounted for.
fn tracked<T>(
    mode: Mode,
    f: impl FnOnce() -> T,
    look: impl FnOnce(&T) -> Res,
) -> (Result<Res, Caught>, Report) {
    alloc::start(mode);
    let r = sut::catch(|| {
        let v = f();
        let res = pause(|| look(&v));
        drop(v);
        res
    });
    let rep = alloc::stop();
    (r, rep)
}

/// No memory at all: the operation must work all the same.
fn without_memory<T>(c: &Ctx, what: &str, f: impl FnOnce() -> T, look: impl FnOnce(&T) -> Res) -> Res {
    c.fault("fault.no_memory_at_all");
    let (r, rep) = tracked(Mode::FailAll, f, look);
    ev!(c, "no memory: {what}: {} requests", rep.allocations);
    match r {
        Err(Caught::Oom) => viol(
            "allocated",
            format!("{what}: gave up because it could not get memory"),
        ),
        Err(x) => viol("harness", format!("{what}: {x:?}")),
        Ok(r) => {
            r?;
            ensure!(
                rep.live_blocks == 0 && rep.live_bytes == 0,
                "not released",
                "{what}: {} blocks, {} bytes are left",
                rep.live_blocks,
                rep.live_bytes
            );
            Ok(())
        }
    }
}

/// Some allocations fail: everything is released, the inputs are unchanged,
/// and once there is memory again the same call works.
fn with_failures<T>(
    c: &Ctx,
    what: &str,
    f: &dyn Fn() -> T,
    look: &dyn Fn(&T) -> Res,
    unchanged: &dyn Fn() -> Res,
) -> Res {
    let once = |mode: Mode| -> Res<Report> {
        let (r, rep) = tracked(mode, f, look);
        let what = format!("{what} ({mode:?})");
        match r {
            Ok(r) => r?,
            Err(Caught::Oom) if rep.failed > 0 => {
                c.fault(match mode {
                    Mode::FailAt(_) => "fault.allocation_failed_once",
                    _ => "fault.allocations_failed_from",
                });
            }
            Err(x) => return viol("harness", format!("{what}: {x:?}")),
        }
        ensure!(
            rep.live_blocks == 0 && rep.live_bytes == 0,
            "not released",
            "{what}: {} of {} blocks, {} bytes are left",
            rep.live_blocks,
            rep.allocations,
            rep.live_bytes
        );
        unchanged()?;
        Ok(rep)
    };
    let n = once(Mode::Count)?.allocations;
    ev!(c, "{what}: {n} allocations");
    if n > 0 {
        let all = n <= 4;
        let tries = if all { n } else { 1 + c.draw(5) as u64 };
        for i in 0..tries {
            let k = if all {
                i
            } else {
                match c.draw(4) {
                    0 => n - 1,
                    1 => 0,
                    _ => c.draw(n as usize) as u64,
                }
            };
            let mode = if c.coin() { Mode::FailAt(k) } else { Mode::FailFrom(k) };
            let rep = once(mode)?;
            ev!(c, "{what}: {mode:?}: {} requests, {} failed", rep.allocations, rep.failed);
        }
        // memory is back
        once(Mode::Count)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- borrowing

fn inside(b: &[u8], s: &str) -> bool {
    let r = b.as_ptr_range();
    let t = s.as_bytes().as_ptr_range();
    r.start <= t.start && t.end <= r.end
}

fn borrowed_str(b: &[u8], s: &JsonString<'_>) -> Res {
    match s.as_json_str() {
        Some(AnyStr::Borrowed(t)) if inside(b, t) => Ok(()),
        Some(AnyStr::Borrowed(t)) => viol(
            "copied",
            format!("string {} lies outside the input", Show(t.as_bytes())),
        ),
        other => viol("copied", format!("parsed string is {other:?}")),
    }
}

fn borrowed_num(b: &[u8], n: &JsonNumber<'_>) -> Res {
    ensure!(
        inside(b, n.source()),
        "copied",
        "number {} lies outside the input",
        n.source()
    );
    Ok(())
}

fn borrowed(b: &[u8], v: &Value<'_>) -> Res {
    match v {
        Value::String(s) => borrowed_str(b, s),
        Value::Number(n) => borrowed_num(b, n),
        Value::Array(a) => a.iter().try_for_each(|x| borrowed(b, x)),
        Value::Object(o) => o.iter().try_for_each(|e| {
            borrowed_str(b, &e.key)?;
            borrowed(b, &e.value)
        }),
        _ => Ok(()),
    }
}

fn borrowed_node(b: &[u8], n: &Node<'_>) -> Res {
    match n {
        Node::String(s) => borrowed_str(b, s),
        Node::Number(n) => borrowed_num(b, n),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- readers

fn verdict<T>(r: &Result<T, Error>, o: &Outcome, b: &[u8], what: &str) -> Res {
    match (r, &o.err) {
        (Ok(_), None) => Ok(()),
        (Err(e), Some(m)) => sut::check_reason(e.kind(), m, what),
        (Ok(_), Some(m)) => viol("invalid payload accepted", format!("{what}: {}: {m:?}", Show(b))),
        (Err(e), None) => viol(
            "valid payload refused",
            format!("{what}: {}: {}", Show(b), sut::err_name(e)),
        ),
    }
}

struct Payload<'a> {
    b: &'a [u8],
    text: Option<&'a str>,
    cfg: Cfg,
    o: Outcome,
    flat: Vec<MNode>,
    tree: Option<MV>,
    hash: u64,
}

fn doc<'a, B>(p: &Payload<'a>, bytes: bool) -> Result<GenericDocument<'a, B>, Error>
where
    B: NodeCollection<'a> + Default,
{
    match p.text {
        Some(t) if !bytes => GenericDocument::from_json_with_config(t, sut::pcfg(p.cfg)),
        _ => GenericDocument::from_json_bytes_with_config(p.b, sut::pcfg(p.cfg)),
    }
}

fn value<'a>(p: &Payload<'a>, bytes: bool) -> Result<Value<'a>, Error> {
    match p.text {
        Some(t) if !bytes => Value::from_json_with_config(t, sut::pcfg(p.cfg)),
        _ => Value::from_json_bytes_with_config(p.b, sut::pcfg(p.cfg)),
    }
}

fn root_kind(m: &MV) -> JsonKind {
    match m {
        MV::Null => JsonKind::Null,
        MV::Bool(_) => JsonKind::Boolean,
        MV::Num(_) => JsonKind::Number,
        MV::Str(_) => JsonKind::String,
        MV::Arr(_) => JsonKind::Array,
        MV::Obj(_) => JsonKind::Object,
    }
}

fn bounded<const N: usize>(c: &Ctx, p: &Payload<'_>) -> Res {
    let bytes = c.coin();
    let what = format!("parse into storage of {N}");
    without_memory(
        c,
        &what,
        || {
            let r: Result<HeaplessDocument<'_, N>, Error> = doc(p, bytes);
            r
        },
        |r| match r {
            Ok(d) => {
                verdict(&Ok::<_, Error>(()), &p.o, p.b, &what)?;
                let nodes: Vec<Node<'_>> = d.iter().collect();
                sut::check_nodes(&nodes, &p.flat, p.b, &what)?;
                nodes.iter().try_for_each(|n| borrowed_node(p.b, n))
            }
            Err(e) if p.flat.len() > N && *e.kind() == justjson::ErrorKind::PaylodTooLarge => {
                c.hit("probe.bounded_storage_full");
                Ok(())
            }
            Err(_) => verdict(r, &p.o, p.b, &what),
        },
    )
}

fn tokens(c: &Ctx, p: &Payload<'_>) -> Res {
    let (toks, bad) = model::lex_all(p.b);
    fn read<'a, const G: bool>(mut t: Tokenizer<'a, G>, toks: &[model::Tok], bad: bool, b: &[u8]) -> Res
    where
        Tokenizer<'a, G>: Iterator<Item = Result<Token<'a>, Error>>,
    {
        for m in toks {
            match t.next() {
                Some(Ok(x)) => pause(|| {
                    check_token(&x, *m, b, "token without memory")?;
                    match &x {
                        Token::String(s) => borrowed_str(b, s),
                        Token::Number(n) => borrowed_num(b, n),
                        _ => Ok(()),
                    }
                })?,
                r => return pause(|| viol("wrong token", format!("{r:?}, expected {m:?}"))),
            }
        }
        // read on, a few steps past the damage
        for i in 0..4 {
            let r = t.next();
            let wrong = match (&r, bad, i) {
                (Some(Err(_)), true, 0) => false,
                (None, false, _) => false,
                (_, true, 1..) => false,
                _ => true,
            };
            if wrong {
                return pause(|| viol("wrong token", format!("{r:?} after the last token")));
            }
        }
        Ok(())
    }
    let text = p.text.filter(|_| c.coin());
    without_memory(
        c,
        "tokens",
        || match text {
            Some(t) => read(Tokenizer::for_json(t), &toks, bad.is_some(), p.b),
            None => read(Tokenizer::for_json_bytes(p.b), &toks, bad.is_some(), p.b),
        },
        Clone::clone,
    )
}

/// Single strings and numbers of the payload.
fn scalars<'a>(c: &Ctx, ar: &'a Arena, p: &Payload<'a>) -> Res {
    for _ in 0..3 {
        if p.flat.is_empty() {
            break;
        }
        match *c.pick(&p.flat) {
            MNode::Str(s, e) => {
                let src = std::str::from_utf8(&p.b[s..e]).unwrap_or("");
                let quoted = ar.text(format!("\"{src}\""));
                let m = model::MStr::parsed(src);
                without_memory(
                    c,
                    "read a string",
                    || JsonString::from_json(quoted),
                    |r| match r {
                        Ok(s) => {
                            sut::check_str(s, &m, "string")?;
                            borrowed_str(quoted.as_bytes(), s)
                        }
                        Err(e) => viol("valid string refused", sut::err_name(e)),
                    },
                )?;
            }
            MNode::Num(s, e) => {
                let src = std::str::from_utf8(&p.b[s..e]).unwrap_or("");
                without_memory(
                    c,
                    "read a number",
                    || {
                        let n = JsonNumber::from_json(src);
                        let conv = n.as_ref().ok().map(|n| (n.as_f64(), n.as_u64(), n.as_i32()));
                        (n, conv)
                    },
                    |(r, _)| match r {
                        Ok(n) => {
                            ensure!(n.source() == src, "wrong number", "{}", n.source());
                            borrowed_num(src.as_bytes(), n)
                        }
                        Err(e) => viol("valid number refused", sut::err_name(e)),
                    },
                )?;
            }
            _ => {}
        }
    }
    Ok(())
}

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
}

fn strings<'a>(c: &Ctx, ar: &'a Arena, k: &gen::Knobs) -> Res {
    let t1 = gen::text(c, k);
    let t2 = if c.coin() { t1.clone() } else { crate::c08::similar(c, &t1, k) };
    let (a, src) = sut::deliver(c, ar, &t1)?;
    let (b, _) = sut::deliver(c, ar, &t2)?;
    let plain = ar.text(t1.clone());
    match c.draw(5) {
        0 => without_memory(
            c,
            "string from text",
            || JsonString::from(plain),
            |s| {
                sut::check_str(s, &model::MStr::raw(plain), "string")?;
                match s.decode_if_needed() {
                    AnyStr::Borrowed(t) if inside(plain.as_bytes(), t) => Ok(()),
                    t => viol("copied", format!("{t:?}")),
                }
            },
        ),
        1 => without_memory(
            c,
            "comparison",
            || {
                let mut h = (Sum(7), Sum(7));
                a.hash(&mut h.0);
                b.hash(&mut h.1);
                (
                    a == b,
                    a == t2.as_str(),
                    a.cmp(&b),
                    a.partial_cmp(t2.as_str()),
                    h.0.finish() == h.1.finish(),
                    (a.len(), a.decoded_len(), a.is_empty(), a.as_str().map(str::len)),
                )
            },
            |(eq, eqs, ord, pord, h, l)| {
                let want = t1 == t2;
                ensure!(
                    *eq == want && *eqs == want && *ord == t1.cmp(&t2) && *pord == Some(t1.cmp(&t2)) && (*h || !want) && l.1 == t1.len(),
                    "wrong comparison",
                    "{} and {}: {eq} {eqs} {ord:?} {pord:?} {h} {l:?}",
                    Show(t1.as_bytes()),
                    Show(t2.as_bytes())
                );
                Ok(())
            },
        ),
        2 => {
            let json: String = a.as_json().collect();
            without_memory(
                c,
                "streams",
                || {
                    let d = a.decoded().eq(t1.chars());
                    let mut it = a.as_json();
                    let half = json.chars().count() / 2;
                    let first = it.by_ref().take(half).eq(json.chars().take(half));
                    let copy = it.clone();
                    let rest = it.eq(json.chars().skip(half)) && copy.eq(json.chars().skip(half));
                    d && first && rest
                },
                |ok| {
                    ensure!(*ok, "wrong text", "{}", Show(t1.as_bytes()));
                    Ok(())
                },
            )?;
            without_memory(
                c,
                "printing",
                || {
                    use std::fmt::Write as _;
                    let mut s = [SimSink::new(SinkFault::None), SimSink::new(SinkFault::None), SimSink::new(SinkFault::None)];
                    let r = (
                        write!(s[0], "{a}"),
                        write!(s[1], "{}", a.decoded()),
                        write!(s[2], "{}", a.as_json()),
                    );
                    let ok = r == (Ok(()), Ok(()), Ok(())) && s[0].out == t1 && s[1].out == t1 && s[2].out == json;
                    pause(|| drop(s));
                    ok
                },
                |ok| {
                    ensure!(*ok, "wrong text", "{}", Show(t1.as_bytes()));
                    Ok(())
                },
            )
        }
        3 => {
            // conversions that are not needed
            let Some(src) = src else { return Ok(()) };
            if !matches!(a.as_json_str(), Some(AnyStr::Borrowed(_))) {
                return Ok(());
            }
            without_memory(
                c,
                "conversion that is not needed",
                || (a.escape_if_needed(), (!src.contains('\\')).then(|| a.decode_if_needed()), a.clone()),
                |(e, d, copy)| {
                    ensure!(
                        *e == src.as_str() && d.as_ref().map_or(true, |d| *d == t1.as_str()) && *copy == a,
                        "wrong text",
                        "{}",
                        Show(t1.as_bytes())
                    );
                    Ok(())
                },
            )
        }
        _ => {
            let json: String = a.as_json().collect();
            let before = hash_bytes(json.as_bytes());
            with_failures(
                c,
                "string conversions",
                &|| (a.decode_if_needed(), a.escape_if_needed(), a.clone(), a.decoded().collect::<String>()),
                &|(d, e, copy, s)| {
                    ensure!(
                        *d == t1.as_str() && *e == json.as_str() && *copy == a && *s == t1,
                        "wrong text",
                        "{}: {} {}",
                        Show(t1.as_bytes()),
                        Show(d.as_bytes()),
                        Show(e.as_bytes())
                    );
                    Ok(())
                },
                &|| {
                    let now: String = a.as_json().collect();
                    ensure!(hash_bytes(now.as_bytes()) == before, "input changed", "{}", Show(now.as_bytes()));
                    Ok(())
                },
            )
        }
    }
}

/// Looking things up and writing, with no memory at all.
fn value_without_memory(c: &Ctx, ar: &Arena, k: &gen::Knobs) -> Res {
    let (v, m) = gen_value(c, ar, k)?;
    let style = gen_style(c);
    let segs = model::layout(&m, &style);
    let fault = match c.draw(4) {
        0 => SinkFault::Err(c.draw(20) as u64),
        1 => SinkFault::Budget(c.draw(60)),
        _ => SinkFault::None,
    };
    let (r, rep) = {
        let mut sink = SimSink::new(fault);
        alloc::start(Mode::FailAll);
        let r = sut::catch(|| write_styled(c, &v, &style, &mut sink));
        let rep = alloc::stop();
        c.fault("fault.no_memory_at_all");
        ev!(c, "no memory: write {style:?}, {fault:?}: {} bytes, {r:?}", sink.out.len());
        match r {
            Err(Caught::Oom) => {
                return viol("allocated", "writing to the caller's destination asked for memory".into())
            }
            Err(x) => return viol("harness", format!("{x:?}")),
            Ok(r) => {
                ensure!(r.is_err() == sink.failed, "failure not reported", "{fault:?}: {r:?}");
                if !sink.failed {
                    if let Err(e) = model::matches_layout(&sink.out, &segs) {
                        return viol("wrong text", format!("{style:?}: {e}"));
                    }
                }
                (r, rep)
            }
        }
    };
    let _ = r;
    ensure!(
        rep.live_blocks == 0,
        "not released",
        "writing: {} blocks are left",
        rep.live_blocks
    );
    match (&v, &m) {
        (Value::Object(o), MV::Obj(mo)) => {
            for _ in 0..2 {
                let key = if mo.is_empty() || c.chance(1, 4) {
                    gen::key_text(c, k)
                } else {
                    mo[c.draw(mo.len())].0.text.clone()
                };
                let want = mo.iter().position(|e| e.0.text == key);
                without_memory(
                    c,
                    "lookup",
                    || {
                        let x = v.get(&key);
                        let y = o.get(&key);
                        let p = o.iter().position(|e| x.is_some_and(|x| std::ptr::eq(x, &e.value)));
                        let q = o.iter().position(|e| y.is_some_and(|y| std::ptr::eq(y, &e.value)));
                        let same = want.map_or(true, |_| std::ptr::eq(&v[key.as_str()], x.unwrap_or(&v)));
                        (p, q, same)
                    },
                    |(p, q, same)| {
                        ensure!(
                            *p == want && *q == want && *same,
                            "wrong lookup",
                            "{}: member {p:?} and {q:?}, expected {want:?}",
                            Show(key.as_bytes())
                        );
                        Ok(())
                    },
                )?;
            }
        }
        (Value::Array(a), MV::Arr(ma)) => {
            let i = c.draw(ma.len() + 2);
            without_memory(
                c,
                "lookup",
                || {
                    v.get_index(i).map(|x| std::ptr::eq(x, &a[i]) && std::ptr::eq(x, &v[i]))
                        == (i < ma.len()).then_some(true)
                },
                |ok| {
                    ensure!(*ok, "wrong lookup", "element {i} of {}", ma.len());
                    Ok(())
                },
            )?;
        }
        _ => {}
    }
    without_memory(
        c,
        "comparison of values",
        || v == v,
        |eq| {
            ensure!(*eq, "wrong equality", "a value differs from itself");
            Ok(())
        },
    )
}

fn cursors(c: &Ctx, p: &Payload<'_>) -> Res {
    let d: Document<'_> = match doc(p, false) {
        Ok(d) => d,
        Err(_) => return verdict(&doc::<Vec<Node<'_>>>(p, false), &p.o, p.b, "document"),
    };
    verdict(&Ok::<_, Error>(()), &p.o, p.b, "document")?;
    let spans = model::spans(&p.flat);
    without_memory(
        c,
        "walk of a document",
        || {
            let mut it = d.iter();
            let mut at = 0;
            let mut copy = None;
            while at < p.flat.len() {
                if c.chance(1, 4) {
                    it.skip_next_value();
                    at = spans[at];
                } else {
                    let Some(n) = it.next() else {
                        return pause(|| viol("wrong node", format!("end at {at} of {}", p.flat.len())));
                    };
                    pause(|| sut::check_node(&n, p.flat[at], p.b, "walk"))?;
                    at += 1;
                }
                if c.chance(1, 8) {
                    copy = Some((it.clone(), at));
                }
            }
            if let Some((copy, from)) = copy {
                let n = copy.count();
                if n != p.flat.len() - from {
                    return pause(|| viol("wrong node", format!("copy at {from} has {n} more of {}", p.flat.len())));
                }
            }
            Ok(())
        },
        Clone::clone,
    )?;
    // reading a value midway, while memory runs out
    let to = c.draw(p.flat.len());
    let mut it = d.iter();
    for _ in 0..to {
        let _ = it.next();
    }
    let Some(root) = &p.tree else { return Ok(()) };
    let mut at = to;
    let want = crate::c10::part(p.b, &p.flat, &mut at);
    let _ = root;
    with_failures(
        c,
        "value read from a document",
        &|| it.clone().next_value(),
        &|v| match v {
            Some(v) => sut::check_value(v, &want, "value read from a document"),
            None => viol("wrong value", "none".into()),
        },
        &|| {
            let nodes: Vec<Node<'_>> = d.iter().collect();
            sut::check_nodes(&nodes, &p.flat, p.b, "document afterwards")
        },
    )
}

fn parse_with_failures(c: &Ctx, p: &Payload<'_>) -> Res {
    let bytes = c.coin();
    let same = || -> Res {
        ensure!(hash_bytes(p.b) == p.hash, "input changed", "payload");
        Ok(())
    };
    match c.draw(4) {
        0 => with_failures(
            c,
            "parse into a value",
            &|| value(p, bytes),
            &|r| {
                verdict(r, &p.o, p.b, "value")?;
                if let (Ok(v), Some(m)) = (r, &p.tree) {
                    sut::check_value(v, m, "value")?;
                    borrowed(p.b, v)?;
                }
                Ok(())
            },
            &same,
        ),
        1 => with_failures(
            c,
            "parse into a document",
            &|| doc::<Vec<Node<'_>>>(p, bytes),
            &|r| {
                verdict(r, &p.o, p.b, "document")?;
                if let Ok(d) = r {
                    let nodes: Vec<Node<'_>> = d.iter().collect();
                    sut::check_nodes(&nodes, &p.flat, p.b, "document")?;
                    nodes.iter().try_for_each(|n| borrowed_node(p.b, n))?;
                }
                Ok(())
            },
            &same,
        ),
        2 => with_failures(
            c,
            "parse into a document and conversion",
            &|| doc::<Vec<Node<'_>>>(p, bytes).map(Value::from),
            &|r| {
                verdict(r, &p.o, p.b, "value from a document")?;
                if let (Ok(v), Some(m)) = (r, &p.tree) {
                    sut::check_value(v, m, "value from a document")?;
                    borrowed(p.b, v)?;
                }
                Ok(())
            },
            &same,
        ),
        _ => {
            let Ok(v) = value(p, bytes) else { return Ok(()) };
            let Some(m) = &p.tree else { return Ok(()) };
            let style = gen_style(c);
            let segs = model::layout(m, &style);
            with_failures(
                c,
                "write to a string",
                &|| crate::c01::to_string_styled(c, &v, &style),
                &|t| match model::matches_layout(t, &segs) {
                    Ok(()) => Ok(()),
                    Err(e) => viol("wrong text", format!("{style:?}: {e}")),
                },
                &|| sut::check_value(&v, m, "value afterwards"),
            )
        }
    }
}

pub fn run(c: &Ctx) -> Res {
    let ar = Arena::default();
    let cfg = sut::gen_cfg(c);
    let mut b = gen_payload(c, cfg);
    if c.chance(1, 4) {
        let kind = gen::damage(c, &mut b, b"{\"a\":[1,\"x\"]}");
        c.fault(kind);
    }
    let k = gen::knobs(c);
    let b = ar.bytes(b);
    let o = model::parse(b, cfg);
    let flat = model::flat(&o.events);
    let tree = o.ok().then(|| model::tree(b, &o.events));
    let p = Payload {
        b,
        text: std::str::from_utf8(b).ok(),
        cfg,
        o,
        flat,
        tree,
        hash: hash_bytes(b),
    };
    ev!(c, "{cfg:?} payload {} -> {:?}", Show(b), p.o.err);
    for _ in 0..1 + c.draw(3) {
        match c.draw(9) {
            0 => {
                let bytes = c.coin();
                without_memory(
                    c,
                    "validation",
                    || match p.text {
                        Some(t) if !bytes => Parser::validate_json_with_config(t, sut::pcfg(cfg)),
                        _ => Parser::validate_json_bytes_with_config(b, sut::pcfg(cfg)),
                    },
                    |r| {
                        verdict(r, &p.o, b, "validation")?;
                        if let (Ok(k), Some(m)) = (r, &p.tree) {
                            ensure!(*k == root_kind(m), "wrong kind", "{k:?}");
                        }
                        Ok(())
                    },
                )?;
            }
            1 => tokens(c, &p)?,
            2 => match c.draw(5) {
                0 => bounded::<4>(c, &p)?,
                1 => bounded::<16>(c, &p)?,
                2 => bounded::<64>(c, &p)?,
                3 => bounded::<256>(c, &p)?,
                _ => bounded::<1024>(c, &p)?,
            },
            3 => scalars(c, &ar, &p)?,
            4 => strings(c, &ar, &k)?,
            5 => value_without_memory(c, &ar, &k)?,
            6 => cursors(c, &p)?,
            _ => parse_with_failures(c, &p)?,
        }
    }
    Ok(())
}

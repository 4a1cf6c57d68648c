//! C06: operations in flight do not influence one another.

use crate::c01::{gen_value, write_styled};
use crate::c03::{self, Consumer, Fault, Rec, Seen};
use crate::c09::check_token;
use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Bad, Cfg, MNode, Outcome, Style, Tok, MV};
use crate::sut::{self, Arena, Caught, PushFault, SimDocument, SimSink, SinkFault};
use crate::{alloc, clock, cold, ensure, ev, sched};
use justjson::doc::{Document, Node};
use justjson::parser::{Parser, Token, Tokenizer};
use justjson::{Error, JsonNumber, JsonString, Value};
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// What all operations share. Only ever touched by the task whose turn it is.
struct Shared<'a> {
    payloads: Vec<Payload<'a>>,
    values: Vec<Val<'a>>,
    docs: Vec<(Document<'a>, usize)>,
    strings: Vec<Text<'a>>,
    /// what the tasks do most of the time: kind of operation, what with
    theme: Option<(usize, usize)>,
    /// only payloads are there
    cold: bool,
}
// SAFETY: the scheduler lets exactly one thread run at any time.
unsafe impl Sync for Shared<'_> {}

struct Payload<'a> {
    b: &'a [u8],
    text: Option<&'a str>,
    cfg: Cfg,
    o: Outcome,
    flat: Vec<MNode>,
    spans: Vec<usize>,
    tree: Option<MV>,
    events: Vec<Seen>,
    toks: Vec<Tok>,
    bad: Option<Bad>,
    /// the refusal when nothing else was in flight
    alone: Option<String>,
}

struct Val<'a> {
    v: Value<'a>,
    m: MV,
    /// the texts when nothing else was in flight
    texts: Vec<(Style, String)>,
}

struct Text<'a> {
    s: JsonString<'a>,
    text: String,
    json: String,
    hash: u64,
}

/// A hasher at whose calls other operations go on.
struct Slow(u64);
impl Hasher for Slow {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let _h = clock::Hold::new();
        sched::yield_point();
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = self.0.rotate_left(9);
    }
}

fn slow_hash(s: &JsonString<'_>) -> u64 {
    let mut h = Slow(1);
    clock::run(|| s.hash(&mut h));
    h.finish()
}

/// Memory requests of the library are scheduling points, too; in a stepped
/// build, every basic block may be one.
fn yielding<T>(f: impl FnOnce() -> T) -> T {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            alloc::set_yield(None);
        }
    }
    let _g = Guard;
    alloc::set_yield(Some(sched::switch_point));
    clock::run(f)
}

fn refusal(p: &Payload<'_>, e: &Error, what: &str) -> Res {
    let Some(m) = &p.o.err else {
        return viol(
            "valid payload refused",
            format!("{what}: {} refused with {}", Show(p.b), sut::err_name(e)),
        );
    };
    sut::check_reason(e.kind(), m, what)?;
    ensure!(
        p.alone.is_none() || p.alone.as_deref() == Some(sut::err_name(e).as_str()),
        "other outcome than alone",
        "{what}: {}, alone {:?}, payload {}",
        sut::err_name(e),
        p.alone,
        Show(p.b)
    );
    Ok(())
}

fn accepted(p: &Payload<'_>, what: &str) -> Res {
    ensure!(
        p.o.ok(),
        "invalid payload accepted",
        "{what}: {} accepted, expected {:?}",
        Show(p.b),
        p.o.err
    );
    Ok(())
}

fn op_value(c: &Ctx, p: &Payload<'_>, what: &str) -> Res {
    let bytes = c.coin();
    let r = yielding(|| match p.text {
        Some(t) if !bytes => Value::from_json_with_config(t, sut::pcfg(p.cfg)),
        _ => Value::from_json_bytes_with_config(p.b, sut::pcfg(p.cfg)),
    });
    match (&r, &p.tree) {
        (Ok(v), Some(m)) => sut::check_value(v, m, what),
        (Ok(_), None) => accepted(p, what),
        (Err(e), _) => refusal(p, e, what),
    }
}

fn op_document(c: &Ctx, p: &Payload<'_>, what: &str) -> Res {
    let convert = c.coin();
    let r: Result<Document<'_>, Error> =
        yielding(|| Document::from_json_bytes_with_config(p.b, sut::pcfg(p.cfg)));
    match r {
        Ok(d) => {
            accepted(p, what)?;
            let nodes: Vec<Node<'_>> = yielding(|| d.iter().collect());
            sut::check_nodes(&nodes, &p.flat, p.b, what)?;
            if convert {
                let v = yielding(|| Value::from(d));
                if let Some(m) = &p.tree {
                    sut::check_value(&v, m, what)?;
                }
            }
            Ok(())
        }
        Err(e) => refusal(p, &e, what),
    }
}

fn op_validate(c: &Ctx, p: &Payload<'_>, what: &str) -> Res {
    let bytes = c.coin();
    let r = yielding(|| match p.text {
        Some(t) if !bytes => Parser::validate_json_with_config(t, sut::pcfg(p.cfg)),
        _ => Parser::validate_json_bytes_with_config(p.b, sut::pcfg(p.cfg)),
    });
    match &r {
        Ok(_) => accepted(p, what),
        Err(e) => refusal(p, e, what),
    }
}

fn op_consumer(c: &Ctx, p: &Payload<'_>, what: &str) -> Res {
    let n = p.events.len();
    let fault = match c.draw(4) {
        0 | 1 => Fault::None,
        2 => Fault::Err(c.draw(n + 1)),
        _ => Fault::Panic(c.draw(n + 1)),
    };
    let rec = Rc::new(RefCell::new(Rec::default()));
    let d = Consumer {
        rec: rec.clone(),
        fault,
    };
    let r = sut::catch(|| clock::run(|| c03::feed(c, p.b, p.cfg, d)));
    if rec.borrow().failed {
        c.fault(match fault {
            Fault::Panic(_) => "fault.consumer_panicked",
            _ => "fault.consumer_failed",
        });
    }
    c03::judge(what, p.b, &p.o, &p.events, fault, r, &rec)
}

/// Uses the plan of this thread: not while another one is in progress on it.
fn op_storage(c: &Ctx, p: &Payload<'_>, what: &str) -> Res {
    let n = p.flat.len();
    let reason = c.draw(sut::REASONS);
    let plan = match c.draw(4) {
        0 | 1 => PushFault::None,
        2 => PushFault::Capacity(c.draw(n + 1), reason),
        _ => PushFault::Panic(c.draw(n + 1)),
    };
    sut::plan_store(plan.clone());
    let r = sut::catch(|| {
        let d: Result<SimDocument<'_>, Error> =
            clock::run(|| SimDocument::from_json_bytes_with_config(p.b, sut::pcfg(p.cfg)));
        d
    });
    let log = sut::store_log();
    sut::plan_store(PushFault::None);
    ensure!(log.after == 0, "inserted after the failure", "{what}: {plan:?}");
    if log.failed_at.is_some() {
        c.fault("fault.storage_failed");
        return match (&r, &plan) {
            (Err(Caught::Sim(_)), PushFault::Panic(_)) => Ok(()),
            (Ok(Err(e)), PushFault::Capacity(..)) if *e.kind() == sut::reason(reason) => Ok(()),
            _ => viol(
                "failure not reported",
                format!("{what}: {plan:?}: {:?}", r.map(|r| r.map(|_| ()).map_err(|e| sut::err_name(&e)))),
            ),
        };
    }
    match r {
        Ok(Ok(d)) => {
            accepted(p, what)?;
            let nodes: Vec<Node<'_>> = d.iter().collect();
            sut::check_nodes(&nodes, &p.flat, p.b, what)
        }
        Ok(Err(e)) => refusal(p, &e, what),
        Err(x) => viol("harness", format!("{what}: {x:?}")),
    }
}

fn op_write(c: &Ctx, v: &Val<'_>, what: &str) -> Res {
    let (style, full) = c.pick(&v.texts);
    let fault = match c.draw(6) {
        0 => SinkFault::Err(c.draw(30) as u64),
        1 => SinkFault::Budget(c.draw(full.len() + 1)),
        2 => SinkFault::Panic(c.draw(30) as u64),
        _ => SinkFault::None,
    };
    let mut sink = SimSink::new(fault);
    let r = sut::catch(|| yielding(|| write_styled(c, &v.v, style, &mut sink)));
    if sink.failed {
        c.fault("fault.destination_failed");
        ensure!(sink.after == 0, "text after the failure", "{what}");
    }
    let ok = match (&r, fault, sink.failed) {
        (Ok(Ok(())), _, false) => sink.out == *full,
        (Ok(Err(_)), SinkFault::Err(_) | SinkFault::Budget(_), true) => full.starts_with(&sink.out),
        (Err(Caught::Sim(_)), SinkFault::Panic(_), true) => full.starts_with(&sink.out),
        _ => false,
    };
    ensure!(
        ok,
        "other outcome than alone",
        "{what}: {style:?}, {fault:?}: {r:?}, {} arrived, alone {}",
        Show(sink.out.as_bytes()),
        Show(full.as_bytes())
    );
    Ok(())
}

fn op_to_string(c: &Ctx, v: &Val<'_>, what: &str) -> Res {
    let (style, full) = c.pick(&v.texts);
    let t = yielding(|| crate::c01::to_string_styled(c, &v.v, style));
    ensure!(
        t == *full,
        "other outcome than alone",
        "{what}: {style:?}: {}, alone {}",
        Show(t.as_bytes()),
        Show(full.as_bytes())
    );
    Ok(())
}

fn op_tokens(c: &Ctx, p: &Payload<'_>, what: &str) -> Res {
    fn go<'a, const G: bool>(c: &Ctx, mut t: Tokenizer<'a, G>, p: &Payload<'_>, stop: usize, what: &str) -> Res
    where
        Tokenizer<'a, G>: Iterator<Item = Result<Token<'a>, Error>>,
    {
        for (i, m) in p.toks.iter().enumerate() {
            sched::yield_point();
            if i == stop {
                c.fault("fault.reader_abandoned");
                return Ok(());
            }
            match yielding(|| t.next()) {
                Some(Ok(x)) => check_token(&x, *m, p.b, what)?,
                r => return viol("wrong token", format!("{what}: {r:?}, expected {m:?}")),
            }
        }
        sched::yield_point();
        match yielding(|| t.next()) {
            None if p.bad.is_none() => Ok(()),
            Some(Err(_)) if p.bad.is_some() => Ok(()),
            r => viol("wrong token", format!("{what}: {r:?}, expected {:?}", p.bad)),
        }
    }
    let stop = if c.chance(1, 4) { c.draw(p.toks.len() + 1) } else { usize::MAX };
    match p.text {
        Some(t) if c.coin() => go(c, Tokenizer::for_json(t), p, stop, what),
        _ => go(c, Tokenizer::for_json_bytes(p.b), p, stop, what),
    }
}

fn op_stream(c: &Ctx, s: &Text<'_>, what: &str) -> Res {
    let want = if c.coin() { &s.text } else { &s.json };
    let decoded = std::ptr::eq(want, &s.text);
    let n = want.chars().count();
    // a switch now and then; a character at a time for short texts
    let each = 1 + n / 24;
    let stop = if c.chance(1, 4) { c.draw(n + 1) } else { usize::MAX };
    let step = |mut it: &mut dyn Iterator<Item = char>| -> Res {
        let mut w = want.chars();
        for i in 0..=n {
            if i % each == 0 {
                sched::yield_point();
            }
            if i == stop {
                c.fault("fault.reader_abandoned");
                return Ok(());
            }
            let (a, b) = (clock::run(|| (&mut it).next()), w.next());
            ensure!(
                a == b,
                "other outcome than alone",
                "{what}: character {i} is {a:?}, expected {b:?}, text {}",
                Show(want.as_bytes())
            );
        }
        Ok(())
    };
    if decoded {
        step(&mut s.s.decoded())
    } else {
        step(&mut s.s.as_json())
    }
}

fn op_string(c: &Ctx, a: &Text<'_>, b: &Text<'_>, what: &str) -> Res {
    match c.draw(4) {
        0 => {
            let h = slow_hash(&a.s);
            ensure!(
                h == a.hash,
                "other outcome than alone",
                "{what}: hash of {}",
                Show(a.text.as_bytes())
            );
        }
        1 => {
            let (eq, ord, own) = yielding(|| (a.s == b.s, a.s.cmp(&b.s), a.s == a.text.as_str()));
            ensure!(
                eq == (a.text == b.text) && ord == a.text.cmp(&b.text) && own,
                "wrong comparison",
                "{what}: {} and {}",
                Show(a.text.as_bytes()),
                Show(b.text.as_bytes())
            );
        }
        2 => {
            let (d, e) = yielding(|| (a.s.decode_if_needed(), a.s.escape_if_needed()));
            ensure!(
                d == a.text.as_str() && e == a.json.as_str(),
                "other outcome than alone",
                "{what}: conversions of {}: {} and {}",
                Show(a.text.as_bytes()),
                Show(d.as_bytes()),
                Show(e.as_bytes())
            );
        }
        _ => {
            use std::fmt::Write as _;
            let json = c.coin();
            let want = if json { &a.json } else { &a.text };
            let fault = match c.draw(3) {
                0 => SinkFault::Err(c.draw(want.chars().count() + 1) as u64),
                _ => SinkFault::None,
            };
            let mut sink = SimSink::new(fault);
            let r = yielding(|| {
                if json {
                    write!(sink, "{}", a.s.as_json())
                } else {
                    write!(sink, "{}", a.s)
                }
            });
            ensure!(
                r.is_err() == sink.failed && want.starts_with(&sink.out) && (sink.failed || *want == sink.out),
                "other outcome than alone",
                "{what}: printed {}, expected {}",
                Show(sink.out.as_bytes()),
                Show(want.as_bytes())
            );
        }
    }
    Ok(())
}

fn op_scalar(c: &Ctx, p: &Payload<'_>, what: &str) -> Res {
    if p.flat.is_empty() {
        return Ok(());
    }
    let text = |s: usize, e: usize| std::str::from_utf8(&p.b[s..e]).unwrap_or("");
    match *c.pick(&p.flat) {
        MNode::Str(s, e) => match yielding(|| JsonString::from_json(text(s - 1, e + 1))) {
            Ok(x) => sut::check_str(&x, &model::MStr::parsed(text(s, e)), what),
            Err(e) => viol("valid string refused", format!("{what}: {}", sut::err_name(&e))),
        },
        MNode::Num(s, e) => match yielding(|| JsonNumber::from_json(text(s, e))) {
            Ok(x) => {
                ensure!(x.source() == text(s, e), "wrong number", "{what}: {}", x.source());
                Ok(())
            }
            Err(e) => viol("valid number refused", format!("{what}: {}", sut::err_name(&e))),
        },
        _ => Ok(()),
    }
}

fn op_cursor(c: &Ctx, sh: &Shared<'_>, what: &str) -> Res {
    let (d, i) = c.pick(&sh.docs);
    let p = &sh.payloads[*i];
    let mut it = d.iter();
    let mut at = 0;
    loop {
        sched::yield_point();
        match c.draw(8) {
            0 => {
                clock::run(|| it.skip_next_value());
                at = p.spans.get(at).copied().unwrap_or(at);
            }
            1 => {
                let got = yielding(|| it.next_value());
                if at < p.flat.len() {
                    let want = crate::c10::part(p.b, &p.flat, &mut at);
                    match got {
                        Some(v) => sut::check_value(&v, &want, what)?,
                        None => return viol("wrong value", format!("{what}: none")),
                    }
                } else {
                    ensure!(got.is_none(), "wrong value", "{what}: {got:?} at the end");
                }
            }
            2 if c.chance(1, 4) => {
                c.fault("fault.reader_abandoned");
                return Ok(());
            }
            _ => match (it.next(), p.flat.get(at)) {
                (Some(n), Some(m)) => {
                    sut::check_node(&n, *m, p.b, what)?;
                    at += 1;
                }
                (None, None) => return Ok(()),
                (g, m) => return viol("wrong node", format!("{what}: {g:?}, expected {m:?}")),
            },
        }
    }
}

/// Messages of much the same kind and length read into one buffer, some of
/// them damaged, with the same configuration and by the same entry points.
fn op_messages(c: &Ctx, k: &gen::Knobs, what: &str) -> Res {
    let cfg = sut::gen_cfg(c);
    let pc = sut::pcfg(cfg);
    let way = c.draw(6);
    let first = if c.coin() {
        gen::doc(c, k)
    } else {
        // no very short message
        let mut s = String::from("[");
        for i in 0..6 + c.draw(30) {
            if i > 0 {
                s.push(',');
            }
            s.push_str(c.pick::<&str>(&["true", "null", "17", "\"ab\"", "[{}]", "{\"a\":0}"]));
        }
        s.push(']');
        s
    }
    .into_bytes();
    let mut buf: Vec<u8> = Vec::with_capacity(first.len() + 4096);
    for round in 0..2 + c.draw(3) {
        buf.clear();
        buf.extend_from_slice(&first);
        if c.chance(2, 3) {
            let at = c.draw(first.len());
            match c.draw(4) {
                // as long as the others
                0 => buf[at] = *c.pick(gen::BYTES),
                1 | 2 => {
                    let toks = model::lex_all(&first).0;
                    let t = toks[c.draw(toks.len())];
                    let new: &[u8] = match t.end - t.start {
                        1 => *c.pick(&[&b","[..], b"]", b"}", b":", b"7", b"[", b"\""]),
                        2 => *c.pick(&[&b"{}"[..], b"[]", b"01", b"-1", b"\"\"", b"1."]),
                        4 => *c.pick(&[&b"null"[..], b"true", b"trua", b"1234", b"\"\\n\"", b"\"\\q\"", b"[{}]"]),
                        _ => b"0",
                    };
                    for (x, y) in buf[t.start..t.end].iter_mut().zip(new) {
                        *x = *y;
                    }
                }
                _ => {
                    let kind = gen::damage(c, &mut buf, &first);
                    c.fault(kind);
                }
            }
        }
        let b: &[u8] = &buf;
        let what = format!("{what}, message {round}");
        ev!(c, "{what}: way {way} {cfg:?} {}", Show(b));
        let o = model::parse(b, cfg);
        let text = std::str::from_utf8(b).ok();
        sched::yield_point();
        let flat = model::flat(&o.events);
        let tree = o.ok().then(|| model::tree(b, &o.events));
        let r: Result<(), Error> = match (way, text) {
            (0 | 1, None) | (0, _) => yielding(|| Parser::validate_json_bytes_with_config(b, pc)).map(|_| ()),
            (1, Some(t)) => yielding(|| Parser::validate_json_with_config(t, pc)).map(|_| ()),
            (2 | 3, t) => {
                let r = yielding(|| match t {
                    Some(t) if way == 2 => Value::from_json_with_config(t, pc),
                    _ => Value::from_json_bytes_with_config(b, pc),
                });
                match (r, &tree) {
                    (Ok(v), Some(m)) => {
                        sut::check_value(&v, m, &what)?;
                        Ok(())
                    }
                    (r, _) => r.map(|_| ()),
                }
            }
            (_, t) => {
                let r = yielding(|| match t {
                    Some(t) if way == 4 => Document::from_json_with_config(t, pc),
                    _ => Document::from_json_bytes_with_config(b, pc),
                });
                match (r, o.ok()) {
                    (Ok(d), true) => {
                        let nodes: Vec<Node<'_>> = d.iter().collect();
                        sut::check_nodes(&nodes, &flat, b, &what)?;
                        Ok(())
                    }
                    (r, _) => r.map(|_| ()),
                }
            }
        };
        match (&r, &o.err) {
            (Ok(()), None) => {}
            (Err(e), Some(m)) => sut::check_reason(e.kind(), m, &what)?,
            (r, m) => {
                return viol(
                    "other outcome than alone",
                    format!("{what}: {}: {r:?}, expected {m:?}", Show(b)),
                )
            }
        }
    }
    c.hit("probe.messages_in_one_buffer");
    Ok(())
}

/// Different inputs, one after the other in the same place in memory, as when
/// a program reads messages into one buffer.
fn op_reused(c: &Ctx, what: &str) -> Res {
    let mut k = gen::knobs(c);
    k.nodes = k.nodes.min(8);
    if c.chance(1, 3) {
        return op_messages(c, &k, what);
    }
    let mut text = gen::text(c, &k);
    let mut buf = String::with_capacity(text.len() + 64);
    let mut slot: Value<'_> = Value::Null;
    for round in 0..2 + c.draw(3) {
        if round > 0 {
            // the next one, often as long as the last
            text = match c.draw(3) {
                0 | 1 => {
                    let ascii: Vec<usize> = text
                        .char_indices()
                        .filter_map(|(i, x)| x.is_ascii().then_some(i))
                        .collect();
                    match ascii.get(c.draw(ascii.len().max(1))) {
                        Some(i) => {
                            let x = *c.pick(&["\"", "a", "\\", "\n", "/", "\u{1}", "0"]);
                            format!("{}{x}{}", &text[..*i], &text[i + 1..])
                        }
                        None => crate::c08::similar(c, &text, &k),
                    }
                }
                _ => crate::c08::similar(c, &text, &k),
            };
        }
        let kind = c.draw(5);
        buf.clear();
        match kind {
            0 | 1 => buf.push_str(&text),
            2 => {
                buf.push('"');
                buf.push_str(&gen::encode(c, &text, 20));
                buf.push('"');
            }
            3 => {
                buf.push_str(&gen::number(c));
            }
            _ => {
                // as it is: often no JSON
                buf.push('"');
                buf.push_str(&text);
                buf.push('"');
            }
        }
        let what = format!("{what}, round {round}");
        ev!(c, "{what}: {}", Show(buf.as_bytes()));
        sched::yield_point();
        match kind {
            0 | 1 => {
                let js = if kind == 0 {
                    yielding(|| JsonString::from(buf.as_str()))
                } else {
                    yielding(|| JsonString::from(buf.clone()))
                };
                sched::yield_point();
                let json: String = yielding(|| js.as_json().collect());
                ensure!(
                    clock::run(|| js.decoded()).eq(text.chars())
                        && model::encodes(&json, &text)
                        && js == text.as_str(),
                    "other outcome than alone",
                    "{what}: text {} has JSON text {}",
                    Show(text.as_bytes()),
                    Show(json.as_bytes())
                );
                let mut v = Value::from(text.clone());
                std::mem::swap(&mut v, &mut slot);
                let out = yielding(|| slot.to_json());
                ensure!(
                    out.len() == json.len() + 2 && out[1..].starts_with(&json),
                    "other outcome than alone",
                    "{what}: value written as {}, JSON text is {}",
                    Show(out.as_bytes()),
                    Show(json.as_bytes())
                );
            }
            _ => {
                let b = buf.as_bytes();
                let o = model::parse(b, Cfg::default());
                let alone = |r: Result<(), Error>| -> Res {
                    match (&o.err, r) {
                        (None, Ok(())) => Ok(()),
                        (Some(m), Err(e)) => sut::check_reason(e.kind(), m, &what),
                        (m, r) => viol(
                            "other outcome than alone",
                            format!(
                                "{what}: {}: {:?}, expected {m:?}",
                                Show(b),
                                r.map_err(|e| sut::err_name(&e))
                            ),
                        ),
                    }
                };
                let r = yielding(|| Value::from_json(&buf));
                if let Ok(v) = &r {
                    if o.ok() {
                        sut::check_value(v, &model::tree(b, &o.events), &what)?;
                    }
                }
                alone(r.map(|_| ()))?;
                sched::yield_point();
                let flat = model::flat(&o.events);
                let r = yielding(|| Document::from_json(&buf));
                if let Ok(d) = &r {
                    if o.ok() {
                        let nodes: Vec<Node<'_>> = d.iter().collect();
                        sut::check_nodes(&nodes, &flat, b, &what)?;
                    }
                }
                alone(r.map(|_| ()))?;
                sched::yield_point();
                let (toks, bad) = model::lex_all(b);
                let mut n = 0;
                for t in Tokenizer::for_json(&buf) {
                    match (t, toks.get(n)) {
                        (Ok(t), Some(m)) => check_token(&t, *m, b, &what)?,
                        (Err(_), None) if bad.is_some() => break,
                        (t, m) => return viol("wrong token", format!("{what}: {t:?}, expected {m:?}")),
                    }
                    n += 1;
                }
                ensure!(n == toks.len(), "wrong token", "{what}: {n} instead of {}", toks.len());
                if kind != 3 {
                    let js = yielding(|| JsonString::from_json(&buf));
                    if let (Ok(js), true) = (js, o.ok()) {
                        let m = model::MStr::parsed(&buf[1..buf.len() - 1]);
                        sut::check_str(&js, &m, &what)?;
                        ensure!(
                            yielding(|| js.decode_if_needed()) == m.text.as_str(),
                            "other outcome than alone",
                            "{what}: decode_if_needed"
                        );
                    }
                }
            }
        }
    }
    c.hit("probe.reused_memory");
    Ok(())
}

/// One operation; others may be started from within it.
fn op(c: &Ctx, sh: &Shared<'_>, me: usize, depth: usize, near: Option<usize>) -> Res {
    let kind = kind_of(c, sh, depth, near);
    if depth < 2 && c.chance(1, 3) {
        let k = match c.draw(4) {
            0 => 0,
            1 => c.draw(6),
            2 => c.draw(40),
            _ => c.draw(400),
        };
        // often of the same kind
        let same = Some(kind).filter(|_| c.coin());
        let nested = || {
            ev!(c, "task {me}: nested operation at point {k}");
            c.switched(me, me);
            // memory requests of the outer operation yield; those of the
            // nested one decide for themselves
            alloc::set_yield(None);
            if let Err(v) = op(c, sh, me, depth + 1, same) {
                c.report(&v.class, v.msg);
            }
        };
        let (r, ran) = sched::with_nested(k as u64, &nested, || one(c, sh, me, depth, kind));
        if ran {
            c.hit("probe.nested_operation");
        }
        r
    } else {
        one(c, sh, me, depth, kind)
    }
}

const KINDS: usize = 13;

/// Larger payloads and values are not shared: a run should not take seconds.
const LARGEST: usize = 200_000;

/// What the next operation is.
fn kind_of(c: &Ctx, sh: &Shared<'_>, depth: usize, near: Option<usize>) -> usize {
    let theme = sh.theme.filter(|_| depth == 0 && !c.chance(1, 8));
    let kind = near.or(theme.map(|t| t.0)).unwrap_or_else(|| c.draw(KINDS));
    match kind {
        // what needs something that was read before
        4 | 5 | 7 | 8 | 9 if sh.cold => [0, 2, 11, 12, 12][kind % 5],
        _ => kind,
    }
}

fn one(c: &Ctx, sh: &Shared<'_>, me: usize, depth: usize, kind: usize) -> Res {
    fn of<'x, T>(c: &Ctx, all: &'x [T], same: Option<usize>) -> &'x T {
        match same {
            Some(i) => &all[i % all.len()],
            None => c.pick(all),
        }
    }
    let same = sh.theme.filter(|t| t.0 == kind).map(|t| t.1).filter(|_| c.coin());
    let p = of(c, &sh.payloads, same);
    let name = [
        "value parse", "consumer", "document parse", "storage", "write", "to string", "tokens",
        "stream", "string", "cursor", "validation", "scalar", "reused memory",
    ][kind];
    ev!(c, "task {me} depth {depth}: {name}");
    let what = format!("task {me}, {name}");
    let r = match kind {
        0 => op_value(c, p, &what),
        1 => op_consumer(c, p, &what),
        2 => op_document(c, p, &what),
        3 if depth == 0 => op_storage(c, p, &what),
        3 => op_document(c, p, &what),
        4 => op_write(c, of(c, &sh.values, same), &what),
        5 => op_to_string(c, of(c, &sh.values, same), &what),
        6 => op_tokens(c, p, &what),
        7 => op_stream(c, of(c, &sh.strings, same), &what),
        8 => op_string(c, of(c, &sh.strings, same), c.pick(&sh.strings), &what),
        9 if !sh.docs.is_empty() => op_cursor(c, sh, &what),
        9 | 10 => op_validate(c, p, &what),
        11 => op_scalar(c, p, &what),
        _ => op_reused(c, &what),
    };
    ev!(c, "task {me} depth {depth}: {name} done");
    sched::progress();
    r
}

/// What is shared, and what becomes of it when nothing else is in flight. If
/// the library has just been started, the tasks are the first to use it.
fn setup<'a>(c: &Ctx, ar: &'a Arena, cold: bool) -> Res<Shared<'a>> {
    let mut k = gen::knobs(c);
    k.nodes = k.nodes.min(60);
    let mut sh = Shared {
        payloads: Vec::new(),
        values: Vec::new(),
        docs: Vec::new(),
        strings: Vec::new(),
        theme: None,
        cold,
    };
    for _ in 0..1 + c.draw(3) {
        let cfg = sut::gen_cfg(c);
        let mut b = match c.draw(3) {
            0 => c03::gen_payload(c, cfg),
            _ => gen::doc(c, &k).into_bytes(),
        };
        if b.len() > LARGEST {
            k.long_str = 0;
            b = gen::doc(c, &k).into_bytes();
        }
        if c.chance(1, 4) {
            let kind = gen::damage(c, &mut b, b"{\"a\":[1,2,{}]}");
            c.fault(kind);
        }
        let b = ar.bytes(b);
        let o = model::parse(b, cfg);
        let flat = model::flat(&o.events);
        let (toks, bad) = model::lex_all(b);
        let mut p = Payload {
            b,
            text: std::str::from_utf8(b).ok(),
            cfg,
            spans: if o.ok() { model::spans(&flat) } else { Vec::new() },
            tree: o.ok().then(|| model::tree(b, &o.events)),
            events: c03::seen(b, &o.events),
            flat,
            toks,
            bad,
            o,
            alone: None,
        };
        ev!(c, "payload {} {cfg:?} -> {:?}", Show(b), p.o.err);
        if cold {
            sh.payloads.push(p);
            continue;
        }
        let alone = Value::from_json_bytes_with_config(b, sut::pcfg(cfg));
        match &alone {
            Ok(v) => match &p.tree {
                Some(m) => sut::check_value(v, m, "alone")?,
                None => accepted(&p, "alone")?,
            },
            Err(e) => {
                p.alone = Some(sut::err_name(e));
                refusal(&p, e, "alone")?;
            }
        }
        drop(alone);
        if p.o.ok() {
            match Document::from_json_bytes_with_config(b, sut::pcfg(cfg)) {
                Ok(d) => sh.docs.push((d, sh.payloads.len())),
                Err(e) => refusal(&p, &e, "alone")?,
            }
        }
        sh.payloads.push(p);
    }
    if cold {
        return Ok(sh);
    }
    for _ in 0..1 + c.draw(2) {
        let (mut v, mut m) = gen_value(c, ar, &k)?;
        if v.to_json().len() > LARGEST {
            k.long_str = 0;
            (v, m) = gen_value(c, ar, &k)?;
        }
        if c.chance(1, 3) {
            // deeper
            for _ in 0..*c.pick(&[4, 8, 20, 70]) {
                if c.coin() {
                    v = Value::Array(vec![v]);
                    m = MV::Arr(vec![m]);
                } else {
                    v = Value::Object([justjson::Entry::new("a", v)].into_iter().collect());
                    m = MV::Obj(vec![(model::MStr::parsed("a"), m)]);
                }
            }
        }
        let styles = [
            Style::Compact,
            Style::Pretty { indent: "  ".into(), eol: "\n".into() },
            Style::Pretty { indent: "\t".into(), eol: "\r\n".into() },
        ];
        let mut texts = Vec::new();
        for s in styles {
            let mut t = String::new();
            let _ = write_styled(c, &v, &s, &mut t);
            if let Err(e) = model::matches_layout(&t, &model::layout(&m, &s)) {
                return viol("wrong text", format!("alone: {s:?}: {e}"));
            }
            texts.push((s, t));
        }
        ev!(c, "value {}", Show(texts[0].1.as_bytes()));
        sh.values.push(Val { v, m, texts });
    }
    for i in 0..1 + c.draw(3) {
        let text = match sh.strings.last() {
            Some(t) if c.coin() => {
                let t: &Text<'_> = t;
                if c.coin() { t.text.clone() } else { crate::c08::similar(c, &t.text, &k) }
            }
            _ => gen::text(c, &k),
        };
        let (s, _) = sut::deliver(c, ar, &text)?;
        let json: String = s.as_json().collect();
        ensure!(
            model::encodes(&json, &text) || s.decoded().eq(text.chars()),
            "wrong encoding",
            "alone: {}",
            Show(text.as_bytes())
        );
        ev!(c, "string {i} {} as {}", Show(text.as_bytes()), Show(json.as_bytes()));
        let hash = slow_hash(&s);
        sh.strings.push(Text { s, text, json, hash });
    }
    Ok(sh)
}

pub fn run(c: &Ctx) -> Res {
    let ar = Arena::default();
    let cold = c.chance(1, 5) && alloc::kept() < 256 << 20;
    if cold {
        // as if the program had just been started
        ev!(c, "restart");
        if let Some(changed) = cold::restart() {
            c.fault("fault.library_restarted");
            if changed {
                c.hit("probe.library_had_state");
            }
        }
    }
    let mut sh = setup(c, &ar, cold)?;
    let mut den = *c.pick(&[3, 1, 2, 8, 24]);
    let mut budget = *c.pick(&[40, 15, 120]);
    let mut reach = if clock::stepped() { *c.pick(&[0, 30, 6000, 300]) } else { 0 };
    if clock::stepped() && c.chance(1, if cold { 2 } else { 3 }) {
        // the same operations side by side, a few basic blocks at a time
        sh.theme = Some((c.draw(KINDS), c.draw(6)));
        den = 24;
        budget = *c.pick(&[300, 60, 1200]);
        reach = *c.pick(&[12, 5, 60]);
        c.hit("probe.side_by_side");
    }
    let n = match c.draw(8) {
        0 => 1,
        1..=4 => 2,
        5 | 6 => 3,
        _ => 4,
    };
    let r = if n == 1 {
        // nested operations only
        c.nontrivial();
        (0..2 + c.draw(5)).try_for_each(|_| op(c, &sh, 0, 0, None))
    } else {
        let shr = &sh;
        let tasks: Vec<Box<dyn FnOnce() -> Res + Send + '_>> = (0..n)
            .map(|me| {
                let ops = 1 + c.draw(4);
                let t: Box<dyn FnOnce() -> Res + Send + '_> =
                    Box::new(move || (0..ops).try_for_each(|_| op(c, shr, me, 0, None)));
                t
            })
            .collect();
        sched::run(c, den, budget, reach, |t| sut::guarded(t), tasks)
    };
    c.take_reported()?;
    r?;
    // nothing of it all is left
    for p in &sh.payloads {
        op_value(c, p, "afterwards")?;
        op_validate(c, p, "afterwards")?;
    }
    for v in &sh.values {
        sut::check_value(&v.v, &v.m, "shared value afterwards")?;
        op_to_string(c, v, "afterwards")?;
    }
    for (d, i) in &sh.docs {
        let nodes: Vec<Node<'_>> = d.iter().collect();
        let p = &sh.payloads[*i];
        sut::check_nodes(&nodes, &p.flat, p.b, "shared document afterwards")?;
    }
    for s in &sh.strings {
        ensure!(
            s.s.decoded().eq(s.text.chars()) && s.s.as_json().eq(s.json.chars()) && slow_hash(&s.s) == s.hash,
            "other outcome than before",
            "string {}",
            Show(s.text.as_bytes())
        );
    }
    Ok(())
}

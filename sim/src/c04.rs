//! C04: damaged payloads are judged by the JSON grammar, alike at every
//! entry point.

use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Cfg, MNode, Outcome, EK, MV};
use crate::sut::{self, SimDocument};
use crate::{ensure, ev};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{JsonKind, Parser};
use justjson::{Error, ErrorKind, JsonNumber, JsonString, Value};

struct Case<'x> {
    b: &'x [u8],
    cfg: Cfg,
    o: &'x Outcome,
    flat: &'x [MNode],
    tree: Option<&'x MV>,
    /// reason and position of the first entry point
    first: Option<(String, &'static str)>,
}

impl Case<'_> {
    /// Verdict, reason and position of one entry point.
    fn verdict(&mut self, name: &'static str, e: Option<&Error>, bytes: bool) -> Res<bool> {
        match (e, &self.o.err) {
            (None, None) => Ok(true),
            (None, Some(m)) => viol(
                "invalid payload accepted",
                format!("{name} accepted {}, expected {m:?}", Show(self.b)),
            ),
            (Some(e), None) => viol(
                "valid payload refused",
                format!("{name} refused {} with {}", Show(self.b), sut::err_name(e)),
            ),
            (Some(e), Some(m)) => {
                let what = format!("{name}, payload {}", Show(self.b));
                sut::check_reason(e.kind(), m, &what)?;
                sut::check_refusal(e.offset(), self.b.len(), m, bytes, &what)?;
                if let ErrorKind::Unexpected(x) = e.kind() {
                    // at the position, or the next thing after white space
                    let there = self.b.get(model::skip_ws(self.b, e.offset()));
                    ensure!(
                        there == Some(x) || self.b.get(e.offset()) == Some(x),
                        "wrong position",
                        "{what}: unexpected {x} at {}, where {there:?} is found",
                        e.offset()
                    );
                }
                let s = sut::err_name(e);
                match &self.first {
                    None => self.first = Some((s, name)),
                    Some((t, other)) => ensure!(
                        s == *t,
                        "entry points disagree",
                        "{what}: {s}, but {other}: {t}"
                    ),
                }
                Ok(false)
            }
        }
    }

    fn value(&mut self, name: &'static str, r: Result<Value<'_>, Error>, bytes: bool) -> Res {
        if self.verdict(name, r.as_ref().err(), bytes)? {
            if let (Ok(v), Some(t)) = (r, self.tree) {
                sut::check_value(&v, t, name)?;
            }
        }
        Ok(())
    }

    fn nodes(&mut self, name: &'static str, r: Result<Vec<Node<'_>>, Error>, bytes: bool) -> Res {
        if self.verdict(name, r.as_ref().err(), bytes)? {
            if let Ok(n) = r {
                sut::check_nodes(&n, self.flat, self.b, name)?;
            }
        }
        Ok(())
    }

    fn kind(&mut self, name: &'static str, r: Result<JsonKind, Error>, bytes: bool) -> Res {
        if self.verdict(name, r.as_ref().err(), bytes)? {
            let want = match self.tree {
                Some(MV::Null) => JsonKind::Null,
                Some(MV::Bool(_)) => JsonKind::Boolean,
                Some(MV::Num(_)) => JsonKind::Number,
                Some(MV::Str(_)) => JsonKind::String,
                Some(MV::Arr(_)) => JsonKind::Array,
                _ => JsonKind::Object,
            };
            ensure!(
                r == Ok(want),
                "wrong value",
                "{name} found {r:?}, expected {want:?}"
            );
        }
        Ok(())
    }

    fn bounded<const N: usize>(&mut self, name: &'static str, c: &Ctx) -> Res {
        let pc = sut::pcfg(self.cfg);
        let s = std::str::from_utf8(self.b).ok();
        let r: Result<HeaplessDocument<'_, N>, Error> = match s {
            Some(s) if c.coin() => HeaplessDocument::from_json_with_config(s, pc),
            _ => HeaplessDocument::from_json_bytes_with_config(self.b, pc),
        };
        let fits = self.flat.len() <= N;
        match (&r, fits) {
            (Ok(_), false) => viol(
                "failure not reported",
                format!("{name}: {} nodes accepted by storage of {N}", self.flat.len()),
            ),
            (Err(e), false) => {
                c.fault("fault.bounded_storage_full");
                let boundary = !self.o.ok() && self.flat.len() == N + 1;
                ensure!(
                    boundary || *e.kind() == ErrorKind::PaylodTooLarge,
                    "wrong reason",
                    "{name}: {} does not fit, refused with {}",
                    self.flat.len(),
                    sut::err_name(e)
                );
                Ok(())
            }
            _ => self.nodes(name, r.map(|d| d.iter().collect()), true),
        }
    }
}

/// Everything that can read the payload reads it.
pub fn examine(c: &Ctx, b: &[u8], cfg: Cfg) -> Res {
    let o = model::parse(b, cfg);
    let flat = model::flat(&o.events);
    let tree = o.ok().then(|| model::tree(b, &o.events));
    let mut k = Case {
        b,
        cfg,
        o: &o,
        flat: &flat,
        tree: tree.as_ref(),
        first: None,
    };
    ev!(c, "{cfg:?} {} -> {:?}, {} nodes", Show(b), o.err, flat.len());
    match &o.err {
        None => c.hit("probe.accepted"),
        Some(e) => {
            if e.cut {
                c.hit("probe.cut_short");
            }
            match e.kind {
                EK::Syntax => c.hit("probe.refused_syntax"),
                EK::Depth => c.hit("probe.refused_depth"),
                EK::Root => c.hit("probe.refused_root"),
                EK::TrailingComma => c.hit("probe.refused_trailing_comma"),
                EK::TrailingData => c.hit("probe.refused_trailing_data"),
            }
        }
    }
    let pc = sut::pcfg(cfg);
    let default = cfg == Cfg::default();
    // bytes
    k.value("Value::from_json_bytes_with_config", Value::from_json_bytes_with_config(b, pc), true)?;
    k.nodes(
        "Document::from_json_bytes_with_config",
        Document::from_json_bytes_with_config(b, pc).map(|d| d.iter().collect()),
        true,
    )?;
    k.kind(
        "Parser::validate_json_bytes_with_config",
        Parser::validate_json_bytes_with_config(b, pc),
        true,
    )?;
    if default {
        match c.draw(3) {
            0 => k.value("Value::from_json_bytes", Value::from_json_bytes(b), true)?,
            1 => k.nodes(
                "Document::from_json_bytes",
                Document::from_json_bytes(b).map(|d| d.iter().collect()),
                true,
            )?,
            _ => k.kind("Parser::validate_json_bytes", Parser::validate_json_bytes(b), true)?,
        }
    }
    match c.draw(4) {
        0 => k.bounded::<64>("HeaplessDocument<64>", c)?,
        1 => k.bounded::<8>("HeaplessDocument<8>", c)?,
        2 => {
            sut::plan_store(sut::PushFault::None);
            let r: Result<SimDocument<'_>, Error> =
                SimDocument::from_json_bytes_with_config(b, pc);
            k.nodes("GenericDocument", r.map(|d| d.iter().collect()), true)?;
        }
        _ => {
            // a document turned into a value
            let r = Document::from_json_bytes_with_config(b, pc).map(Value::from);
            k.value("Value::from(Document)", r, true)?;
        }
    }
    // text
    let text = std::str::from_utf8(b);
    ensure!(text.is_ok() == model::valid_utf8(b), "harness", "utf-8 model");
    if let Ok(s) = text {
        // Where the bytes are valid UTF-8, reading them as text and as bytes
        // agrees on everything.
        k.value("Value::from_json_with_config", Value::from_json_with_config(s, pc), false)?;
        k.nodes(
            "Document::from_json_with_config",
            Document::from_json_with_config(s, pc).map(|d| d.iter().collect()),
            false,
        )?;
        k.kind(
            "Parser::validate_json_with_config",
            Parser::validate_json_with_config(s, pc),
            false,
        )?;
        if default {
            match c.draw(3) {
                0 => k.value("Value::from_json", Value::from_json(s), false)?,
                1 => k.nodes(
                    "Document::from_json",
                    Document::from_json(s).map(|d| d.iter().collect()),
                    false,
                )?,
                _ => k.kind("Parser::validate_json", Parser::validate_json(s), false)?,
            }
            single(s, &o, tree.as_ref())?;
        }
    } else {
        c.hit("probe.not_utf8");
    }
    Ok(())
}

/// Readers of a single string or number.
fn single(s: &str, o: &Outcome, tree: Option<&MV>) -> Res {
    let r = JsonString::from_json(s);
    match (&r, tree) {
        (Ok(js), Some(MV::Str(m))) => sut::check_str(js, m, "JsonString::from_json")?,
        (Err(e), Some(MV::Str(_))) => {
            return viol(
                "valid payload refused",
                format!("JsonString::from_json refused {} with {}", Show(s.as_bytes()), sut::err_name(e)),
            )
        }
        (Ok(_), _) => {
            return viol(
                "invalid payload accepted",
                format!("JsonString::from_json accepted {}", Show(s.as_bytes())),
            )
        }
        (Err(e), _) => ensure!(
            e.offset() <= s.len(),
            "position outside",
            "JsonString::from_json: {} of {}",
            e.offset(),
            s.len()
        ),
    }
    let r = JsonNumber::from_json(s);
    match (&r, tree) {
        (Ok(n), Some(MV::Num(m))) => {
            ensure!(
                n.source() == m,
                "wrong number",
                "JsonNumber::from_json({}) is {}",
                Show(s.as_bytes()),
                n.source()
            );
        }
        (Err(e), Some(MV::Num(_))) => {
            return viol(
                "valid payload refused",
                format!("JsonNumber::from_json refused {} with {}", Show(s.as_bytes()), sut::err_name(e)),
            )
        }
        (Ok(_), _) => {
            return viol(
                "invalid payload accepted",
                format!("JsonNumber::from_json accepted {}", Show(s.as_bytes())),
            )
        }
        (Err(e), _) => ensure!(
            e.offset() <= s.len(),
            "position outside",
            "JsonNumber::from_json: {} of {}",
            e.offset(),
            s.len()
        ),
    }
    let _ = o;
    Ok(())
}

/// A string or number without anything remarkable, of any length, and then
/// one wrong byte in it.
fn plain_scalar(c: &Ctx, cfg: Cfg) -> Res {
    let n = c.draw(*c.pick(&[12, 40, 90, 300]));
    let mut b = Vec::with_capacity(n + 2);
    let text = c.coin();
    if text {
        b.push(b'"');
        let odd = if c.coin() { n } else { c.draw(n + 1) };
        for i in 0..n {
            b.extend_from_slice(match c.draw(if i == odd { 3 } else { 1 }) {
                0 => &b"kilometres per hour"[i % 19..=i % 19],
                1 => "\u{e9}".as_bytes(),
                _ => b"\\n",
            });
        }
        b.push(b'"');
    } else {
        b.push(b'1' + c.draw(9) as u8);
        for _ in 0..n {
            b.push(b'0' + c.draw(10) as u8);
        }
        if n > 2 && c.coin() {
            b[1 + c.draw(n - 1)] = b'.';
        }
    }
    examine(c, &b, cfg)?;
    for _ in 0..2 {
        let mut d = b.clone();
        let at = if c.chance(3, 4) { c.draw(b.len()) } else { b.len() - 1 };
        let x = *c.pick(if text {
            &b"\n\0\x1f\t\"\\\x7f\xc3\x80\r"[..]
        } else {
            &b".e-+ a,E\0_/:"[..]
        });
        match c.draw(3) {
            0 => d.insert(at, x),
            _ => d[at] = x,
        }
        c.fault("fault.byte_overwritten");
        examine(c, &d, cfg)?;
    }
    c.hit("probe.plain_scalar");
    Ok(())
}

/// A token of right and wrong pieces, at all sorts of positions.
fn at_positions(c: &Ctx, cfg: Cfg) -> Res {
    let token = gen::pieces(c);
    let (head, tail): (&[u8], &[u8]) = *c.pick(&[
        (&b""[..], &b""[..]),
        (b"[", b"]"),
        (b"[1,", b",{}]"),
        (b"{\"a\":", b"}"),
        (b"[\"text\", ", b"\n]"),
    ]);
    let first = c.draw(*c.pick(&[8, 70, 600]));
    let n = *c.pick(&[1, 2, 8, 70]);
    let by = *c.pick(&[b' ', b'\n']);
    for pad in first..first + n {
        let mut b = vec![by; pad];
        b.extend_from_slice(head);
        b.extend_from_slice(&token);
        b.extend_from_slice(tail);
        examine(c, &b, cfg)?;
    }
    c.fault("fault.foreign_encoding");
    c.hit("probe.same_at_many_positions");
    Ok(())
}

pub fn run(c: &Ctx) -> Res {
    let cfg = sut::gen_cfg(c);
    if c.chance(1, 20) {
        return at_positions(c, cfg);
    }
    let mut k = gen::knobs(c);
    if cfg.trailing || c.chance(1, 6) {
        k.trailing = *c.pick(&[30, 0, 90]);
    }
    let mut b = match c.weighted(&[70, 12, 8, 10]) {
        0 => gen::doc(c, &k).into_bytes(),
        1 => {
            // a single scalar
            let s = if c.chance(1, 3) {
                return plain_scalar(c, cfg);
            } else if c.coin() {
                gen::number(c)
            } else {
                let t = gen::text(c, &k);
                format!("\"{}\"", gen::encode(c, &t, k.escape.max(30)))
            };
            s.into_bytes()
        }
        2 => {
            let l = cfg.limit.unwrap_or(40).min(300);
            gen::chain(c, (l + c.draw(4)).saturating_sub(1).max(1)).into_bytes()
        }
        _ => {
            // raw bytes that look a bit like JSON
            let n = c.draw(24);
            (0..n).map(|_| *c.pick(gen::BYTES)).collect()
        }
    };
    let other = if c.coin() {
        gen::doc(c, &k).into_bytes()
    } else {
        b.clone()
    };
    // the intact payload first, then one fault after the other
    examine(c, &b, cfg)?;
    let rounds = c.draw(4);
    let mut damaged = b.clone();
    for _ in 0..rounds {
        if c.coin() {
            damaged.clone_from(&b);
        }
        for _ in 0..1 + c.draw(2) {
            let kind = gen::damage(c, &mut damaged, &other);
            c.fault(kind);
            ev!(c, "{kind}");
        }
        examine(c, &damaged, cfg)?;
    }
    // torn at several places in turn
    if c.chance(1, 6) && b.len() < 400 {
        let step = 1 + c.draw(7);
        let mut at = c.draw(step);
        while at < b.len() {
            c.fault("fault.truncated");
            let r = Value::from_json_bytes_with_config(&b[..at], sut::pcfg(cfg));
            let o = model::parse(&b[..at], cfg);
            match (&r, &o.err) {
                (Ok(_), None) => {}
                (Err(e), Some(m)) => {
                    sut::check_reason(e.kind(), m, "truncated")?;
                    sut::check_refusal(e.offset(), at, m, true, "truncated")?;
                }
                _ => {
                    return viol(
                        "wrong verdict",
                        format!("{}: {:?}, expected {:?}", Show(&b[..at]), r.err(), o.err),
                    )
                }
            }
            at += step;
        }
    }
    b.clear();
    Ok(())
}

//! C01: interrupted writing leaves an exact prefix and reports the failure.

use crate::ctx::{Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Style, MV};
use crate::sut::{self, Arena, Caught, SimSink, SinkFault};
use crate::{ensure, ev};
use justjson::doc::Document;
use justjson::Value;
use std::fmt::Write as _;

/// Styles whose text is JSON again.
pub fn gen_json_style(c: &Ctx) -> Style {
    match gen_style(c) {
        Style::Pretty { indent, eol } => Style::Pretty {
            indent: if indent.bytes().all(crate::model::is_ws) { indent } else { "\t ".into() },
            eol: if eol.bytes().all(crate::model::is_ws) { eol } else { "\n".into() },
        },
        s => s,
    }
}

pub fn gen_style(c: &Ctx) -> Style {
    match c.draw(4) {
        0 => Style::Compact,
        1 => Style::Pretty {
            indent: "  ".into(),
            eol: "\n".into(),
        },
        _ => Style::Pretty {
            indent: (*c.pick(&["\t", "", " ", "    ", "\u{a0}", "--", "          "])).to_string(),
            eol: (*c.pick(&["\r\n", "", "\n", " ", "\n\n", "<br>", "\u{2028}"])).to_string(),
        },
    }
}

fn is_default_pretty(s: &Style) -> bool {
    matches!(s, Style::Pretty { indent, eol } if indent == "  " && eol == "\n")
}

/// Ways of asking for one style.
pub fn write_styled<W: std::fmt::Write>(
    c: &Ctx,
    v: &Value<'_>,
    style: &Style,
    mut w: W,
) -> std::fmt::Result {
    match style {
        Style::Compact => match c.draw(2) {
            0 => v.write_json_to(w),
            _ => write!(w, "{v}"),
        },
        s if is_default_pretty(s) => match c.draw(3) {
            0 => v.pretty_write_json_to(w),
            1 => write!(w, "{v:#}"),
            _ => v.pretty_write_json_to_custom("  ", "\n", w),
        },
        Style::Pretty { indent, eol } => v.pretty_write_json_to_custom(indent, eol, w),
    }
}

pub fn to_string_styled(c: &Ctx, v: &Value<'_>, style: &Style) -> String {
    match style {
        Style::Compact => match c.draw(2) {
            0 => v.to_json(),
            _ => v.to_string(),
        },
        s if is_default_pretty(s) => match c.draw(3) {
            0 => v.to_json_pretty(),
            1 => format!("{v:#}"),
            _ => v.to_json_pretty_custom("  ", "\n"),
        },
        Style::Pretty { indent, eol } => v.to_json_pretty_custom(indent, eol),
    }
}

/// A value and its model: parsed, built, or parsed and then edited.
pub fn gen_value<'a>(c: &Ctx, ar: &'a Arena, k: &gen::Knobs) -> Res<(Value<'a>, MV)> {
    let how = c.draw(4);
    if how == 0 {
        let mut left = k.nodes;
        let m = gen::mv(c, k, &mut left, 0);
        let v = sut::build(ar, &m, c.coin())?;
        return Ok((v, m));
    }
    let text = if c.chance(1, 20) {
        gen::chain(c, 1 + c.draw(300))
    } else {
        gen::doc(c, k)
    };
    let cfg = model::Cfg {
        limit: None,
        ..model::Cfg::default()
    };
    let Some(mut m) = model::parse_tree(text.as_bytes(), cfg) else {
        return crate::ctx::viol("harness", format!("generated {text:?}"));
    };
    let text = ar.text(text);
    let pc = sut::pcfg(cfg);
    let r = match how {
        1 => Value::from_json_with_config(text, pc),
        2 => Value::from_json_bytes_with_config(text.as_bytes(), pc),
        _ => Document::from_json_with_config(text, pc).map(Value::from),
    };
    let mut v = match r {
        Ok(v) => v,
        Err(e) => {
            return crate::ctx::viol(
                "valid payload refused",
                format!("{}: {}", Show(text.as_bytes()), sut::err_name(&e)),
            )
        }
    };
    // edits: replace or append in a few containers
    let edits = c.draw(3);
    for _ in 0..edits {
        let mut left = 4;
        let nm = gen::mv(c, k, &mut left, k.depth.saturating_sub(1));
        let nv = sut::build(ar, &nm, c.coin())?;
        edit(c, ar, k, &mut v, &mut m, nv, nm)?;
    }
    Ok((v, m))
}

fn edit<'a>(
    c: &Ctx,
    ar: &'a Arena,
    k: &gen::Knobs,
    v: &mut Value<'a>,
    m: &mut MV,
    nv: Value<'a>,
    nm: MV,
) -> Res {
    match (v, m) {
        (Value::Array(a), MV::Arr(b)) => {
            if !a.is_empty() && c.coin() {
                let i = c.draw(a.len());
                if b[i].is_container() && c.coin() {
                    return edit(c, ar, k, &mut a[i], &mut b[i], nv, nm);
                }
                a[i] = nv;
                b[i] = nm;
            } else {
                a.push(nv);
                b.push(nm);
            }
        }
        (Value::Object(a), MV::Obj(b)) => {
            if !a.is_empty() && c.coin() {
                let i = c.draw(a.len());
                if b[i].1.is_container() && c.coin() {
                    return edit(c, ar, k, &mut a[i].value, &mut b[i].1, nv, nm);
                }
                if c.coin() {
                    a[i].value = nv;
                    b[i].1 = nm;
                } else {
                    a.remove(i);
                    b.remove(i);
                }
            } else {
                let key = gen::mkey(c, k);
                a.push(justjson::Entry::new(sut::build_str(ar, &key, c.coin())?, nv));
                b.push((key, nm));
            }
        }
        (v, m) => {
            *v = nv;
            *m = nm;
        }
    }
    Ok(())
}

/// A place to fail, given the size of the undisturbed writing.
fn gen_fault(c: &Ctx, calls: u64, bytes: usize) -> SinkFault {
    let calls = calls.max(1) as usize;
    match c.draw(4) {
        0 => SinkFault::Budget(c.draw(bytes + 1)),
        1 => SinkFault::Err(c.draw(calls) as u64),
        2 => match c.draw(3) {
            0 => SinkFault::Err(calls as u64 - 1),
            1 => SinkFault::Budget(bytes.saturating_sub(1)),
            _ => SinkFault::Err(0),
        },
        _ => SinkFault::Panic(c.draw(calls) as u64),
    }
}

/// Drives one interrupted writing and checks it against the complete text.
pub fn interrupted(
    c: &Ctx,
    full: &str,
    fault: SinkFault,
    what: &str,
    write: &mut dyn FnMut(&mut SimSink) -> std::fmt::Result,
) -> Res {
    let mut sink = SimSink::new(fault);
    let r = sut::catch(|| write(&mut sink));
    ev!(
        c,
        "{what}: {fault:?} -> {:?}, {} bytes, failed {}",
        r,
        sink.out.len(),
        sink.failed
    );
    ensure!(
        full.starts_with(&sink.out),
        "not a prefix",
        "{what}, {fault:?}: accepted {}, which is not the beginning of {}",
        Show(sink.out.as_bytes()),
        Show(full.as_bytes())
    );
    ensure!(
        sink.after == 0,
        "written after the failure",
        "{what}, {fault:?}: {} more calls after the destination had failed",
        sink.after
    );
    match (fault, &r) {
        (_, Err(Caught::Oom)) => unreachable!(),
        (SinkFault::Panic(_), Err(Caught::Sim(_))) => {
            ensure!(sink.failed, "harness", "panic without cause");
            c.fault("fault.destination_panicked");
        }
        (_, Err(Caught::Sim(_))) => {
            return crate::ctx::viol("harness", "unexpected injected panic".into())
        }
        (_, Ok(Ok(()))) => {
            ensure!(
                !sink.failed,
                "failure not reported",
                "{what}, {fault:?}: the destination failed after {} bytes, success was reported",
                sink.out.len()
            );
            ensure!(
                sink.out == full,
                "incomplete",
                "{what}, {fault:?}: success, but only {} of {} bytes were written",
                sink.out.len(),
                full.len()
            );
        }
        (_, Ok(Err(_))) => {
            ensure!(
                sink.failed,
                "spurious failure",
                "{what}, {fault:?}: the destination never failed, an error was reported"
            );
            match fault {
                SinkFault::Budget(_) => c.fault("fault.destination_full_partial_write"),
                _ => c.fault("fault.destination_refused"),
            }
        }
    }
    if sink.failed && !sink.out.is_empty() && sink.out.len() < full.len() {
        c.hit("probe.failed_midway");
    }
    Ok(())
}

pub fn run(c: &Ctx) -> Res {
    let ar = Arena::default();
    let k = gen::knobs(c);
    let (v, m) = gen_value(c, &ar, &k)?;
    ev!(c, "value: {} nodes, depth {}", m.nodes(), m.depth());
    if m.depth() > 20 {
        c.hit("probe.deep_value");
    }
    sut::check_value(&v, &m, "before writing")?;
    let rounds = 1 + c.draw(3);
    for _ in 0..rounds {
        let style = gen_style(c);
        let segs = model::layout(&m, &style);
        let mut healthy = SimSink::new(SinkFault::None);
        let r = write_styled(c, &v, &style, &mut healthy);
        ensure!(
            r.is_ok(),
            "spurious failure",
            "{style:?}: a healthy destination, but an error was reported"
        );
        let full = healthy.out;
        if let Err(e) = model::matches_layout(&full, &segs) {
            return crate::ctx::viol("wrong text", format!("{style:?}: {e}"));
        }
        let s = to_string_styled(c, &v, &style);
        ensure!(
            s == full,
            "styles disagree",
            "{style:?}: to a String: {}, to a destination: {}",
            Show(s.as_bytes()),
            Show(full.as_bytes())
        );
        ev!(c, "{style:?}: {} bytes #{:x}", full.len(), crate::ctx::hash_bytes(full.as_bytes()));
        let attempts = 1 + c.draw(6);
        for _ in 0..attempts {
            let fault = gen_fault(c, healthy.calls, full.len());
            interrupted(c, &full, fault, &format!("{style:?}"), &mut |w| {
                write_styled(c, &v, &style, w)
            })?;
        }
        // the value is as it was, and a healthy destination gets everything
        sut::check_value(&v, &m, "after failed writing")?;
        let mut again = String::new();
        let r = write_styled(c, &v, &style, &mut again);
        ensure!(
            r.is_ok() && again == full,
            "retry differs",
            "{style:?}: writing again gave {r:?} and {}, before {}",
            Show(again.as_bytes()),
            Show(full.as_bytes())
        );
    }
    strings(c, &v)
}

/// The strings of the value, printed decoded and encoded.
fn strings(c: &Ctx, v: &Value<'_>) -> Res {
    let mut at = v;
    for _ in 0..8 {
        match at {
            Value::Array(a) if !a.is_empty() => at = &a[c.draw(a.len())],
            Value::Object(o) if !o.is_empty() => {
                let e = &o[c.draw(o.len())];
                one_string(c, &e.key)?;
                at = &e.value;
            }
            Value::String(s) => return one_string(c, s),
            _ => return Ok(()),
        }
    }
    Ok(())
}

fn one_string(c: &Ctx, s: &justjson::JsonString<'_>) -> Res {
    let text: String = s.decoded().collect();
    let json: String = s.as_json().collect();
    for _ in 0..1 + c.draw(3) {
        let which = c.draw(3);
        let full = if which == 2 { &json } else { &text };
        // number of calls is at most one per character here
        let fault = gen_fault(c, full.chars().count() as u64, full.len());
        interrupted(c, full, fault, "string", &mut |w| match which {
            0 => write!(w, "{s}"),
            1 => write!(w, "{}", s.decoded()),
            _ => write!(w, "{}", s.as_json()),
        })?;
    }
    Ok(())
}

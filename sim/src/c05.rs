//! C05: checkpointed documents survive crashes; torn checkpoints are refused.

use crate::c01::{gen_json_style, to_string_styled, write_styled};
use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Cfg, MStr, MV};
use crate::sut::{self, Arena, SimDocument, SimSink, SinkFault};
use crate::{ensure, ev};
use justjson::doc::{Document, HeaplessDocument};
use justjson::parser::{ParseConfig, Parser};
use justjson::{Entry, Error, Object, Value};

/// What is on the simulated disk.
#[derive(Clone)]
struct Slot {
    bytes: Vec<u8>,
    /// how much of the last writing is known to be there
    state: State,
    snapshot: MV,
    stamp: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Complete,
    /// a proper beginning of the snapshot's text
    Torn,
    /// a beginning followed by what was there before
    Mixed,
}

struct Node<'a> {
    v: Value<'a>,
    m: MV,
    slots: [Option<Slot>; 2],
    stamp: u64,
}

/// Configurations under which a document of this depth is allowed.
fn fitting(c: &Ctx, depth: usize) -> Cfg {
    let d = Cfg::default();
    match c.draw(4) {
        0 | 1 if depth <= 128 => d,
        2 => Cfg {
            limit: Some(depth),
            ..d
        },
        3 => Cfg {
            limit: Some(depth + 1 + c.draw(3)),
            trailing: c.coin(),
            ..d
        },
        _ => Cfg { limit: None, ..d },
    }
}

/// Reads by any entry point. The bytes live as long as the run.
fn read<'a>(c: &Ctx, b: &'a [u8], cfg: Cfg) -> Result<Value<'a>, Error> {
    let pc = sut::pcfg(cfg);
    let text = std::str::from_utf8(b).ok();
    let r = match c.draw(6) {
        0 => match text {
            Some(s) => Value::from_json_with_config(s, pc),
            None => Value::from_json_bytes_with_config(b, pc),
        },
        1 => Value::from_json_bytes_with_config(b, pc),
        2 => match text {
            Some(s) => Document::from_json_with_config(s, pc).map(Value::from),
            None => Document::from_json_bytes_with_config(b, pc).map(Value::from),
        },
        3 => {
            let d: Result<HeaplessDocument<'a, 300>, Error> =
                HeaplessDocument::from_json_bytes_with_config(b, pc);
            match d {
                Err(e) if *e.kind() == justjson::ErrorKind::PaylodTooLarge => {
                    Value::from_json_bytes_with_config(b, pc)
                }
                d => d.map(Value::from),
            }
        }
        4 => SimDocument::from_json_bytes_with_config(b, pc).map(Value::from),
        _ => Document::from_json_bytes_with_config(b, pc).map(|d| {
            let mut it = d.iter();
            match it.next_value() {
                Some(v) if it.next().is_none() => v,
                _ => Value::Null,
            }
        }),
    };
    r
}

/// What was written in full is read back as it was.
fn read_complete<'a>(c: &Ctx, ar: &'a Arena, b: &[u8], snap: &MV, what: &str) -> Res<(Value<'a>, MV)> {
    let cfg = fitting(c, snap.depth());
    let b = ar.bytes(b.to_vec());
    let v = match read(c, b, cfg) {
        Ok(v) => v,
        Err(e) => {
            return viol(
                "own output refused",
                format!("{what}: {} refused with {}", Show(b), sut::err_name(&e)),
            )
        }
    };
    let Some(m) = model::parse_tree(b, cfg) else {
        return viol("wrong text", format!("{what}: {} is not JSON", Show(b)));
    };
    ensure!(
        m.same_content(snap),
        "content changed",
        "{what}: {} does not stand for the document that was written",
        Show(b)
    );
    sut::check_value(&v, &m, what)?;
    // the library's own reading of it is also the text that was written
    content(&v, snap, what)?;
    Ok((v, m))
}

/// Compares what the value says with the model's texts, not the sources.
fn content(v: &Value<'_>, m: &MV, what: &str) -> Res {
    match (v, m) {
        (Value::String(s), MV::Str(t)) => sut::check_str(s, &MStr::raw(&t.text), what),
        (Value::Array(a), MV::Arr(b)) if a.len() == b.len() => {
            a.iter().zip(b).try_for_each(|(x, y)| content(x, y, what))
        }
        (Value::Object(a), MV::Obj(b)) if a.len() == b.len() => {
            a.iter().zip(b).try_for_each(|(x, y)| {
                sut::check_str(&x.key, &MStr::raw(&y.0.text), what)?;
                content(&x.value, &y.1, what)
            })
        }
        (v, m) => sut::check_value(v, m, what),
    }
}

/// What is only partly there is refused (containers), or judged like any
/// other text.
fn read_partial(c: &Ctx, ar: &Arena, slot: &Slot) -> Res {
    let cfg = fitting(c, slot.snapshot.depth());
    let b = ar.bytes(slot.bytes.clone());
    let o = model::parse(b, cfg);
    if slot.state == State::Torn && slot.snapshot.is_container() {
        ensure!(!o.ok(), "harness", "a proper prefix of a container is valid");
    }
    let what = format!("{:?} checkpoint", slot.state);
    for _ in 0..2 {
        let err = if c.chance(1, 4) {
            match std::str::from_utf8(b) {
                Ok(s) => Parser::validate_json_with_config(s, sut::pcfg(cfg)).err(),
                Err(_) => Parser::validate_json_bytes_with_config(b, sut::pcfg(cfg)).err(),
            }
        } else {
            let r = read(c, b, cfg);
            if let (Ok(v), true) = (&r, o.ok()) {
                sut::check_value(v, &model::tree(b, &o.events), &what)?;
            }
            r.err()
        };
        match (&err, &o.err) {
            (None, None) => {}
            (Some(e), Some(m)) => {
                sut::check_reason(e.kind(), m, &what)?;
                sut::check_refusal(e.offset(), b.len(), m, true, &what)?;
            }
            (None, Some(_)) => {
                return viol(
                    "torn checkpoint accepted",
                    format!("{what}: {} was accepted", Show(b)),
                )
            }
            (Some(e), None) => {
                return viol(
                    "valid payload refused",
                    format!("{what}: {} refused with {}", Show(b), sut::err_name(e)),
                )
            }
        }
    }
    Ok(())
}

fn new_value<'a>(c: &Ctx, ar: &'a Arena, k: &gen::Knobs) -> Res<(Value<'a>, MV)> {
    let mut left = *c.pick(&[1, 3, 8]);
    let m = gen::mv(c, k, &mut left, k.depth.saturating_sub(2));
    let v = sut::build(ar, &m, c.coin())?;
    Ok((v, m))
}

/// One edit somewhere in the document.
fn edit<'a>(c: &Ctx, ar: &'a Arena, k: &gen::Knobs, v: &mut Value<'a>, m: &mut MV) -> Res {
    if c.chance(1, 6) {
        absent_mut(c, k, v, m)?;
    }
    // go down a drawn path, by every way of naming a member
    let down = c.chance(2, 3);
    match m {
        MV::Obj(mo) if down && !mo.is_empty() => {
            let i = c.draw(mo.len());
            let key = mo[i].0.text.clone();
            // lookups find the first member with that text
            let first = mo.iter().position(|e| e.0.text == key).unwrap_or(i);
            if !mo[first].1.is_container() && c.coin() {
                return edit_object(c, ar, k, v, mo);
            }
            let child = match c.draw(5) {
                0 => v.get_mut(&key),
                1 => v.as_object_mut().and_then(|o| o.get_mut(&key)),
                2 => v
                    .as_object_mut()
                    .and_then(|o| o.get_entry_mut(&key))
                    .map(|e| &mut e.value),
                3 => Some(&mut v[key.as_str()]),
                _ => v
                    .as_object_mut()
                    .and_then(|o| o.iter_mut().nth(first))
                    .map(|e| &mut e.value),
            };
            let Some(child) = child else {
                return viol(
                    "lookup failed",
                    format!("member {} not found", Show(key.as_bytes())),
                );
            };
            edit(c, ar, k, child, &mut mo[first].1)
        }
        MV::Arr(ma) if down && !ma.is_empty() => {
            let i = c.draw(ma.len());
            let child = match c.draw(3) {
                0 => v.get_index_mut(i),
                1 => v.as_array_mut().and_then(|a| a.get_mut(i)),
                _ => Some(&mut v[i]),
            };
            let Some(child) = child else {
                return viol("lookup failed", format!("element {i} not found"));
            };
            edit(c, ar, k, child, &mut ma[i])
        }
        MV::Obj(mo) => edit_object(c, ar, k, v, mo),
        MV::Arr(ma) => edit_array(c, ar, k, v, ma),
        m => {
            let (nv, nm) = new_value(c, ar, k)?;
            *v = nv;
            *m = nm;
            Ok(())
        }
    }
}

/// Reads one part of the document in every way there is, after having gone to
/// it by drawn ways. Changes nothing.
fn survey(c: &Ctx, v: &Value<'_>, m: &MV) -> Res {
    match m {
        MV::Obj(mo) if !mo.is_empty() && c.chance(4, 5) => {
            let key = &mo[c.draw(mo.len())].0.text;
            let first = mo.iter().position(|e| e.0.text == *key).unwrap_or(0);
            let child = match c.draw(4) {
                0 => v.get(key),
                1 => v.as_object().and_then(|o| o.get(key)),
                2 => Some(&v[key.as_str()]),
                _ => v
                    .as_object()
                    .and_then(|o| o.iter().find(|e| e.key == key.as_str()))
                    .map(|e| &e.value),
            };
            match child {
                Some(child) => survey(c, child, &mo[first].1),
                None => viol("lookup failed", format!("{}", Show(key.as_bytes()))),
            }
        }
        MV::Arr(ma) if !ma.is_empty() && c.chance(4, 5) => {
            let i = c.draw(ma.len());
            let child = match c.draw(3) {
                0 => v.get_index(i),
                1 => v.as_array().and_then(|a| a.get(i)),
                _ => Some(&v[i]),
            };
            match child {
                Some(child) => survey(c, child, &ma[i]),
                None => viol("lookup failed", format!("element {i}")),
            }
        }
        m => typed_reads(c, v, m),
    }
}

/// The whole number a literal stands for, if it is written as one: sign and
/// magnitude, as far as 128 bits go.
fn whole(lit: &str) -> Option<(bool, Option<u128>)> {
    let (neg, digits) = match lit.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, lit),
    };
    if !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n = Some(0_u128);
    for b in digits.bytes() {
        n = n
            .and_then(|n| n.checked_mul(10))
            .and_then(|n| n.checked_add(u128::from(b - b'0')));
    }
    Some((neg, n))
}

fn typed_reads(c: &Ctx, v: &Value<'_>, m: &MV) -> Res {
    c.hit("probe.typed_reads");
    sut::check_value(v, m, "part")?;
    let kinds = (
        v.is_null(),
        v.as_bool(),
        v.as_number().is_some(),
        v.as_string().is_some(),
        v.as_array().map(<[_]>::len),
        v.as_object().map(|o| o.len()),
    );
    let want = (
        matches!(m, MV::Null),
        match m {
            MV::Bool(b) => Some(*b),
            _ => None,
        },
        matches!(m, MV::Num(_)),
        matches!(m, MV::Str(_)),
        match m {
            MV::Arr(a) => Some(a.len()),
            _ => None,
        },
        match m {
            MV::Obj(o) => Some(o.len()),
            _ => None,
        },
    );
    ensure!(
        kinds == want,
        "wrong type",
        "null, boolean, number, string, array, object: {kinds:?}, expected {want:?}"
    );
    // text
    let plain = match m {
        MV::Str(s) if s.src.as_ref().is_none_or(|s| !s.contains('\\')) => Some(s.text.as_str()),
        _ => None,
    };
    ensure!(
        v.as_str() == plain,
        "wrong type",
        "text {:?}, expected {plain:?}",
        v.as_str()
    );
    // numbers
    let lit = match m {
        MV::Num(l) => Some(l.as_str()),
        _ => None,
    };
    let n = lit.and_then(whole);
    macro_rules! integers {
        ($($name:ident: $t:ty),*) => {$(
            let want = match n {
                Some((false, Some(n))) => <$t>::try_from(n).ok(),
                Some((true, Some(0))) if <$t>::MIN != 0 => Some(0),
                Some((true, Some(n))) if <$t>::MIN != 0 => {
                    // -n, without leaving the type
                    <$t>::try_from(n - 1).ok().map(|n| -1 - n as i128).and_then(|n| <$t>::try_from(n).ok())
                }
                _ => None,
            };
            let got = (v.$name(), v.as_number().and_then(|n| n.$name()));
            ensure!(
                got == (want, want),
                "wrong number",
                "{} of {lit:?}: {got:?}, expected {want:?}",
                stringify!($name)
            );
        )*};
    }
    integers!(
        as_u8: u8, as_u16: u16, as_u32: u32, as_u64: u64, as_u128: u128, as_usize: usize,
        as_i8: i8, as_i16: i16, as_i32: i32, as_i64: i64, as_i128: i128, as_isize: isize
    );
    let want = lit.and_then(|l| l.parse::<f64>().ok()).map(f64::to_bits);
    let got = (
        v.as_f64().map(f64::to_bits),
        v.as_number().and_then(|n| n.as_f64()).map(f64::to_bits),
    );
    ensure!(got == (want, want), "wrong number", "as_f64 of {lit:?}: {got:x?}, expected {want:x?}");
    let want = lit.and_then(|l| l.parse::<f32>().ok()).map(f32::to_bits);
    let got = (
        v.as_f32().map(f32::to_bits),
        v.as_number().and_then(|n| n.as_f32()).map(f32::to_bits),
    );
    ensure!(got == (want, want), "wrong number", "as_f32 of {lit:?}: {got:x?}, expected {want:x?}");
    // what is not there is not found, and asking for it changes nothing
    let len = want_len(m);
    let i = match c.draw(3) {
        0 => len,
        1 => len + 1 + c.draw(70),
        _ => usize::MAX - c.draw(2),
    };
    let mut absent = match m {
        MV::Obj(o) if !o.is_empty() => o[c.draw(o.len())].0.text.clone(),
        _ => "a".to_string(),
    };
    if let MV::Obj(o) = m {
        while o.iter().any(|e| e.0.text == absent) {
            match c.draw(4) {
                0 => absent.push('\0'),
                1 => absent.insert(0, '\\'),
                2 if !absent.is_empty() => {
                    absent.pop();
                }
                _ => absent.push('\u{e9}'),
            }
        }
    }
    ensure!(
        v.get_index(i).is_none() && v.get(&absent).is_none(),
        "lookup failed",
        "element {i} or member {} of {} was found",
        Show(absent.as_bytes()),
        sut::kind_m(m)
    );
    if c.chance(1, 8) {
        c.hit("probe.refused_index");
        let (a, b) = (
            sut::panics(|| {
                let _ = &v[i];
            }),
            sut::panics(|| {
                let _ = &v[absent.as_str()];
            }),
        );
        ensure!(
            a && b,
            "lookup failed",
            "indexing what is not there: panicked {a}, {b}"
        );
    }
    Ok(())
}

fn want_len(m: &MV) -> usize {
    match m {
        MV::Arr(a) => a.len(),
        _ => 0,
    }
}

/// Asking for writing what is not there.
fn absent_mut(c: &Ctx, k: &gen::Knobs, v: &mut Value<'_>, m: &MV) -> Res {
    let i = want_len(m) + c.draw(3);
    let mut absent = gen::key_text(c, k);
    if let MV::Obj(o) = m {
        while o.iter().any(|e| e.0.text == absent) {
            absent.push('x');
        }
    }
    let found = v.get_index_mut(i).is_some()
        || v.get_mut(&absent).is_some()
        || v.as_object_mut().is_some_and(|o| o.get_mut(&absent).is_some() || o.get_entry_mut(&absent).is_some())
        || v.as_object_mut().is_some() != matches!(m, MV::Obj(_))
        || v.as_array_mut().is_some() != matches!(m, MV::Arr(_));
    ensure!(!found, "lookup failed", "element {i} or member {} of {}", Show(absent.as_bytes()), sut::kind_m(m));
    if c.chance(1, 8) {
        c.hit("probe.refused_index");
        let ok = if c.coin() {
            sut::panics(|| v[i] = Value::Null)
        } else {
            sut::panics(|| v[absent.as_str()] = Value::Null)
        };
        ensure!(ok, "lookup failed", "writing to what is not there");
    }
    Ok(())
}

fn edit_object<'a>(
    c: &Ctx,
    ar: &'a Arena,
    k: &gen::Knobs,
    v: &mut Value<'a>,
    mo: &mut Vec<(MStr, MV)>,
) -> Res {
    let Some(o) = v.as_object_mut() else {
        return viol("wrong value", "object expected".into());
    };
    let n = mo.len();
    if n < 400 && c.chance(1, 80) {
        return many_members(c, ar, o, mo);
    }
    match c.draw(9) {
        // insert or update, as a program does it
        0 | 1 => {
            let key = gen::mkey(c, k);
            let (nv, nm) = new_value(c, ar, k)?;
            let at = mo.iter().position(|e| e.0.text == key.text);
            ev!(c, "upsert {} at {at:?}", Show(key.text.as_bytes()));
            match (o.get_mut(&key.text), at) {
                (Some(x), Some(i)) => {
                    *x = nv;
                    mo[i].1 = nm;
                }
                (None, None) => {
                    o.push(Entry::new(sut::build_str(ar, &key, c.coin())?, nv));
                    mo.push((key, nm));
                }
                (x, at) => {
                    return viol(
                        "lookup failed",
                        format!("{}: found {}, expected {at:?}", Show(key.text.as_bytes()), x.is_some()),
                    )
                }
            }
        }
        2 => {
            let key = gen::mkey(c, k);
            let (nv, nm) = new_value(c, ar, k)?;
            let i = c.draw(n + 1);
            o.insert(i, Entry::new(sut::build_str(ar, &key, c.coin())?, nv));
            mo.insert(i, (key, nm));
        }
        3 if n > 0 => {
            let i = c.draw(n);
            let e = o.remove(i);
            let (mk, mv) = mo.remove(i);
            sut::check_str(&e.key, &mk, "removed key")?;
            sut::check_value(&e.value, &mv, "removed value")?;
        }
        4 if n > 0 => {
            let (i, j) = (c.draw(n), c.draw(n));
            o.swap(i, j);
            mo.swap(i, j);
        }
        5 if n > 0 => {
            // rename the first member of that name
            let text = mo[c.draw(n)].0.text.clone();
            let at = mo.iter().position(|e| e.0.text == text).unwrap_or(0);
            let key = gen::mkey(c, k);
            let nk = sut::build_str(ar, &key, c.coin())?;
            match o.get_entry_mut(&text) {
                Some(e) => {
                    e.key = nk;
                    mo[at].0 = key;
                }
                None => return viol("lookup failed", format!("entry {}", Show(text.as_bytes()))),
            }
        }
        6 => {
            // remove all members of one name
            let text = gen::key_text(c, k);
            o.retain(|e| e.key != text.as_str());
            mo.retain(|e| e.0.text != text);
        }
        7 => {
            // members with equal names next to each other, stable
            o.sort_by(|a, b| a.key.cmp(&b.key));
            mo.sort_by(|a, b| a.0.text.cmp(&b.0.text));
        }
        _ => {
            // lookups change nothing and see the first member
            for _ in 0..3 {
                let key = gen::key_text(c, k);
                let want = mo.iter().find(|e| e.0.text == key).map(|e| &e.1);
                let got = o.get(&key);
                match (got, want) {
                    (Some(g), Some(w)) => sut::check_value(g, w, "lookup")?,
                    (None, None) => {}
                    (g, _) => {
                        return viol(
                            "lookup failed",
                            format!("{}: found {}", Show(key.as_bytes()), g.is_some()),
                        )
                    }
                }
            }
        }
    }
    Ok(())
}

/// A lot of members at once; then some are looked up.
fn many_members<'a>(c: &Ctx, ar: &'a Arena, o: &mut Object<'a>, mo: &mut Vec<(MStr, MV)>) -> Res {
    let n = 1 + c.draw(*c.pick(&[40, 140, 270, 530]));
    let step = 1 + c.draw(3);
    c.hit("probe.many_members");
    let mut new = Vec::new();
    for i in 0..n {
        let key = match c.draw(8) {
            0 => format!("k\\n{}", i / step),
            _ => format!("k{}", i / step),
        };
        let key = if c.chance(1, 4) { MStr::raw(&key) } else { MStr::parsed(&key) };
        new.push((key, MV::Num(i.to_string())));
    }
    ev!(c, "{n} more members");
    let mut entries = Vec::new();
    for (key, v) in &new {
        let k = sut::build_str(ar, key, false)?;
        entries.push((k, sut::build(ar, v, false)?));
    }
    let made: Object<'a> = match c.draw(3) {
        0 => entries.into_iter().collect(),
        1 => entries.into_iter().map(|(k, v)| Entry::new(k, v)).collect(),
        _ => {
            let mut made = Object::with_capacity(c.draw(n));
            made.extend(entries.into_iter().map(|(key, value)| Entry { key, value }));
            made
        }
    };
    if c.coin() {
        *o = made;
        mo.clear();
    } else {
        let mut made = made;
        o.append(&mut made);
    }
    mo.append(&mut new);
    for _ in 0..24 {
        let key = match c.draw(3) {
            0 => mo[c.draw(mo.len())].0.text.clone(),
            _ => {
                let i = *c.pick(&[0, 7, 15, 31, 63, 127, 128, 255, 256, 511, 512]);
                match mo.get(i) {
                    Some(e) => e.0.text.clone(),
                    None => format!("k{i}"),
                }
            }
        };
        let at = mo.iter().position(|e| e.0.text == key);
        let found = o.get(&key).map(std::ptr::from_ref);
        let found_mut = o.get_mut(&key).map(std::ptr::from_mut).map(<*mut _>::cast_const);
        let entry = o.get_entry_mut(&key).map(|e| std::ptr::from_ref(&e.value));
        let want = at.map(|i| std::ptr::from_ref(&o[i].value));
        ensure!(
            found == want && found_mut == want && entry == want,
            "lookup failed",
            "member {} of {}: expected at {at:?}",
            Show(key.as_bytes()),
            mo.len()
        );
    }
    Ok(())
}

fn edit_array<'a>(
    c: &Ctx,
    ar: &'a Arena,
    k: &gen::Knobs,
    v: &mut Value<'a>,
    ma: &mut Vec<MV>,
) -> Res {
    let Some(a) = v.as_array_mut() else {
        return viol("wrong value", "array expected".into());
    };
    let n = ma.len();
    match c.draw(6) {
        0 => {
            let (nv, nm) = new_value(c, ar, k)?;
            a.push(nv);
            ma.push(nm);
        }
        1 => {
            let (nv, nm) = new_value(c, ar, k)?;
            let i = c.draw(n + 1);
            a.insert(i, nv);
            ma.insert(i, nm);
        }
        2 if n > 0 => {
            let i = c.draw(n);
            sut::check_value(&a.remove(i), &ma.remove(i), "removed element")?;
        }
        3 if n > 0 => {
            let (i, j) = (c.draw(n), c.draw(n));
            a.swap(i, j);
            ma.swap(i, j);
        }
        4 if n > 0 => {
            let i = c.draw(n);
            let (nv, nm) = new_value(c, ar, k)?;
            a[i] = nv;
            ma[i] = nm;
        }
        _ => {
            a.clear();
            ma.clear();
        }
    }
    Ok(())
}

fn checkpoint<'a>(c: &Ctx, n: &mut Node<'a>) -> Res<bool> {
    let style = gen_json_style(c);
    n.stamp += 1;
    let which = (n.stamp % 2) as usize;
    let old = n.slots[which].take();
    let text = to_string_styled(c, &n.v, &style);
    let len = text.len();
    let mut slot = Slot {
        bytes: text.clone().into_bytes(),
        state: State::Complete,
        snapshot: n.m.clone(),
        stamp: n.stamp,
    };
    let mut crash = false;
    let kind = c.draw(7);
    let cut = if len == 0 {
        0
    } else {
        match c.draw(3) {
            0 => c.draw(len),
            1 => len - 1 - c.draw(len.min(4)),
            _ => {
                let m = gen::marks(text.as_bytes());
                m.get(c.draw(m.len().max(1))).copied().unwrap_or(0).min(len - 1)
            }
        }
    };
    match kind {
        0..=2 => {}
        3 => {
            // crash while writing: the disk holds the beginning
            slot.bytes.truncate(cut);
            slot.state = State::Torn;
            crash = true;
            c.fault("fault.crash_during_write");
        }
        4 => {
            // written directly to the device, which fills up
            let mut sink = SimSink::new(SinkFault::Budget(cut));
            let r = write_styled(c, &n.v, &style, &mut sink);
            ensure!(
                r.is_err() && sink.failed && text.starts_with(&sink.out),
                "failure not reported",
                "device full after {cut} of {len} bytes: {r:?}"
            );
            slot.bytes = sink.out.into_bytes();
            slot.state = State::Torn;
            c.fault("fault.device_full");
        }
        5 => {
            // the write is lost entirely; the slot keeps what it had
            ev!(c, "checkpoint {} lost", n.stamp);
            n.slots[which] = old;
            c.fault("fault.write_lost");
            return Ok(c.coin());
        }
        _ => {
            // the beginning is new, the rest is what was there before
            if let Some(old) = &old {
                slot.bytes.truncate(cut);
                slot.bytes
                    .extend_from_slice(old.bytes.get(cut..).unwrap_or(&[]));
                slot.state = State::Mixed;
                c.fault("fault.torn_over_older_checkpoint");
            } else {
                slot.bytes.truncate(cut);
                slot.state = State::Torn;
                c.fault("fault.torn_write");
            }
            crash = c.coin();
        }
    }
    ev!(
        c,
        "checkpoint {} {style:?}: {} of {len} bytes, {:?}, #{:x}",
        n.stamp,
        slot.bytes.len(),
        slot.state,
        crate::ctx::hash_bytes(&slot.bytes)
    );
    n.slots[which] = Some(slot);
    Ok(crash)
}

/// Only what is on the disk survives.
fn recover<'a>(c: &Ctx, ar: &'a Arena, k: &gen::Knobs, n: &mut Node<'a>) -> Res {
    c.fault("fault.crash_and_restart");
    let mut slots: Vec<Slot> = n.slots.iter().flatten().cloned().collect();
    slots.sort_by_key(|s| std::cmp::Reverse(s.stamp));
    for s in &slots {
        match s.state {
            State::Complete => {
                ev!(c, "recover checkpoint {}", s.stamp);
                c.hit("probe.recovered");
                let (v, m) = read_complete(c, ar, &s.bytes, &s.snapshot, "recovery")?;
                n.v = v;
                n.m = m;
                return Ok(());
            }
            _ => {
                ev!(c, "refuse checkpoint {}", s.stamp);
                c.hit("probe.partial_checkpoint_read");
                read_partial(c, ar, s)?;
            }
        }
    }
    // nothing usable: start over
    let (v, m) = new_value(c, ar, k)?;
    n.v = v;
    n.m = m;
    Ok(())
}

/// Some place in the document.
fn place<'m>(c: &Ctx, m: &'m mut MV) -> &'m mut MV {
    let n = match m {
        MV::Arr(a) => a.len(),
        MV::Obj(o) => o.len(),
        _ => 0,
    };
    if n == 0 || c.chance(1, 5) {
        return m;
    }
    let i = c.draw(n);
    match m {
        MV::Arr(a) => place(c, &mut a[i]),
        MV::Obj(o) => place(c, &mut o[i].1),
        m => m,
    }
}

/// The same document with its texts written otherwise.
fn respell(c: &Ctx, m: &mut MV) {
    fn text(c: &Ctx, t: &mut MStr) {
        match c.draw(4) {
            0 => t.src = None,
            // not just other characters escaped, but other escapes
            1 | 2 => t.src = Some(gen::encode(c, &t.text, *c.pick(&[100, 60, 0]))),
            _ => {}
        }
    }
    match m {
        MV::Str(t) => text(c, t),
        MV::Arr(a) => a.iter_mut().for_each(|x| respell(c, x)),
        MV::Obj(o) => {
            for (key, x) in o {
                text(c, key);
                respell(c, x);
            }
        }
        _ => {}
    }
}

/// Changes one thing. It may come out as it was.
fn nudge(c: &Ctx, k: &gen::Knobs, m: &mut MV) {
    fn text(c: &Ctx, k: &gen::Knobs, t: &mut MStr) {
        match c.draw(3) {
            // the same, written otherwise
            0 => {
                t.src = match t.src {
                    Some(_) if c.coin() => None,
                    _ => Some(gen::encode(c, &t.text, 60)),
                };
            }
            1 => {
                let s = crate::c08::similar(c, &t.text, k);
                *t = if c.coin() { MStr::raw(&s) } else {
                    MStr { src: Some(gen::encode(c, &s, k.escape)), text: s }
                };
            }
            _ => {
                let s = format!("{}{}", t.text, gen::ch(c, 1));
                *t = MStr::raw(&s);
            }
        }
    }
    match m {
        MV::Null => *m = MV::Bool(false),
        MV::Bool(b) => *m = if c.coin() { MV::Bool(!*b) } else { MV::Null },
        MV::Num(s) => match c.draw(6) {
            // one that is worth the same or nearly so
            0 if s.contains('.') && !s.contains(['e', 'E']) => s.push('0'),
            0 if !s.contains(['.', 'e', 'E']) => s.push_str(".0"),
            1 if !s.contains(['e', 'E']) => s.push_str("e0"),
            2 => match s.strip_prefix('-') {
                Some(t) => *s = t.to_string(),
                None => s.insert(0, '-'),
            },
            3 => {
                if let Some(i) = s.rfind(|x: char| x.is_ascii_digit() && x != '9') {
                    let d = (s.as_bytes()[i] + 1) as char;
                    s.replace_range(i..=i, d.encode_utf8(&mut [0; 4]));
                }
            }
            4 => *s = s.replace('e', "E"),
            _ => *m = MV::Str(MStr::parsed(s)),
        },
        MV::Str(t) => {
            if c.chance(1, 6) && t.text.parse::<i32>().is_ok() {
                *m = MV::Num("0".into());
            } else {
                text(c, k, t);
            }
        }
        MV::Arr(a) => match c.draw(4) {
            0 => {
                a.pop();
            }
            1 => a.push(MV::Null),
            2 if a.len() > 1 => {
                let i = c.draw(a.len() - 1);
                a.swap(i, i + 1);
            }
            _ => {
                if a.is_empty() {
                    *m = MV::Obj(Vec::new());
                } else {
                    let i = c.draw(a.len());
                    let x = a[i].clone();
                    a.insert(i, x);
                }
            }
        },
        MV::Obj(o) => match c.draw(5) {
            0 => {
                o.pop();
            }
            1 => o.push((MStr::parsed("a"), MV::Null)),
            2 if o.len() > 1 => {
                let i = c.draw(o.len() - 1);
                o.swap(i, i + 1);
            }
            3 if o.len() > 1 => {
                // the values change places
                let i = c.draw(o.len() - 1);
                let x = o[i].1.clone();
                o[i].1 = std::mem::replace(&mut o[i + 1].1, x);
            }
            _ => {
                if o.is_empty() {
                    *m = MV::Arr(Vec::new());
                } else {
                    let i = c.draw(o.len());
                    text(c, k, &mut o[i].0);
                }
            }
        },
    }
}

/// Another document that differs in one place at most: are they equal?
fn twin<'a>(c: &Ctx, ar: &'a Arena, k: &gen::Knobs, n: &Node<'a>) -> Res {
    let mut m = n.m.clone();
    if c.chance(1, 3) {
        respell(c, &mut m);
    }
    if c.chance(5, 8) {
        nudge(c, k, place(c, &mut m));
    }
    let v = sut::build(ar, &m, c.coin())?;
    let same = m.same_content(&n.m);
    c.hit(if same { "probe.equal_twin" } else { "probe.unequal_twin" });
    ensure!(
        (v == n.v) == same && (n.v == v) == same,
        "wrong equality",
        "equal is {}, expected {same}: {} and {}",
        v == n.v,
        Show(v.to_json().as_bytes()),
        Show(n.v.to_json().as_bytes())
    );
    // and as read back, without becoming values
    let (x, y) = (v.to_json(), n.v.to_json_pretty());
    let pc = ParseConfig::new().without_recursion_limit();
    let read = |t| Document::from_json_with_config(t, pc);
    match (read(&x), read(&y)) {
        (Ok(dx), Ok(dy)) => ensure!(
            (dx == dy) == same && (dy == dx) == same && dx.iter().eq(dy.iter()) == same,
            "wrong equality",
            "documents: equal is {}, expected {same}: {} and {}",
            dx == dy,
            Show(x.as_bytes()),
            Show(y.as_bytes())
        ),
        (rx, ry) => {
            return viol(
                "checkpoint refused",
                format!("twin: {:?}, {:?}", rx.err(), ry.err()),
            )
        }
    }
    Ok(())
}

pub fn run(c: &Ctx) -> Res {
    let ar = Arena::default();
    let mut k = gen::knobs(c);
    k.width = k.width.min(8);
    let n_nodes = 1 + c.draw(3);
    let mut nodes: Vec<Node<'_>> = Vec::new();
    for _ in 0..n_nodes {
        let (v, m) = crate::c01::gen_value(c, &ar, &k)?;
        nodes.push(Node {
            v,
            m,
            slots: [None, None],
            stamp: 0,
        });
    }
    let ops = 3 + c.draw(if c.thorough { 60 } else { 20 });
    for _ in 0..ops {
        let i = c.draw(n_nodes);
        match c.weighted(&[45, 20, 8, 10, 6, 6, 16, 8]) {
            0 => {
                let n = &mut nodes[i];
                edit(c, &ar, &k, &mut n.v, &mut n.m)?;
                ev!(c, "node {i}: edited, {} nodes", n.m.nodes());
            }
            1 => {
                if checkpoint(c, &mut nodes[i])? {
                    recover(c, &ar, &k, &mut nodes[i])?;
                }
            }
            2 => recover(c, &ar, &k, &mut nodes[i])?,
            3 => {
                // hand the document over to another node
                let j = c.draw(n_nodes);
                let style = gen_json_style(c);
                let text = to_string_styled(c, &nodes[i].v, &style);
                ev!(c, "node {i} -> {j}: {style:?}, {} bytes", text.len());
                let (v, m) =
                    read_complete(c, &ar, text.as_bytes(), &nodes[i].m, "hand-over")?;
                ensure!(
                    v == nodes[i].v,
                    "unequal copies",
                    "hand-over: the copy is not equal to the original"
                );
                nodes[j].v = v;
                nodes[j].m = m;
                c.hit("probe.handed_over");
            }
            4 => {
                // move a part from one document to another
                let j = c.draw(n_nodes);
                let src = &mut nodes[i];
                let part = match (&mut src.v, &mut src.m) {
                    (Value::Array(a), MV::Arr(b)) if !a.is_empty() => {
                        let x = c.draw(a.len());
                        Some((a.remove(x), b.remove(x)))
                    }
                    (Value::Object(a), MV::Obj(b)) if !a.is_empty() => {
                        let x = c.draw(a.len());
                        Some((a.remove(x).value, b.remove(x).1))
                    }
                    _ => None,
                };
                if let Some((v, m)) = part {
                    let dst = &mut nodes[j];
                    match (&mut dst.v, &mut dst.m) {
                        (Value::Array(a), MV::Arr(b)) => {
                            a.push(v);
                            b.push(m);
                        }
                        (Value::Object(a), MV::Obj(b)) => {
                            let key = gen::mkey(c, &k);
                            a.push(Entry::new(sut::build_str(&ar, &key, c.coin())?, v));
                            b.push((key, m));
                        }
                        (x, y) => {
                            *x = Value::Object(
                                [Entry::new("moved", v)].into_iter().collect::<Object<'_>>(),
                            );
                            *y = MV::Obj(vec![(MStr::parsed("moved"), m)]);
                        }
                    }
                }
            }
            7 => twin(c, &ar, &k, &nodes[i])?,
            6 => {
                let n = &nodes[i];
                for _ in 0..4 {
                    survey(c, &n.v, &n.m)?;
                }
            }
            _ => {
                // equality of documents is equality of what they stand for
                let j = c.draw(n_nodes);
                let same = nodes[i].m.same_content(&nodes[j].m);
                ensure!(
                    (nodes[i].v == nodes[j].v) == same,
                    "wrong equality",
                    "documents {i} and {j}: equal is {}, expected {same}",
                    !same
                );
            }
        }
        let n = &nodes[i];
        if n.m.nodes() < 60 || c.chance(1, 4) {
            sut::check_value(&n.v, &n.m, "document")?;
        }
    }
    // once faults stop: a complete checkpoint brings every node back
    for n in &mut nodes {
        sut::check_value(&n.v, &n.m, "document")?;
        let style = gen_json_style(c);
        let text = to_string_styled(c, &n.v, &style);
        if let Err(e) = model::matches_layout(&text, &model::layout(&n.m, &style)) {
            return viol("wrong text", format!("{style:?}: {e}"));
        }
        let (v, _) = read_complete(c, &ar, text.as_bytes(), &n.m, "last checkpoint")?;
        ensure!(v == n.v, "unequal copies", "last checkpoint");
    }
    Ok(())
}

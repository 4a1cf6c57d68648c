//! C10: readers sharing a document each see all of it, in order, exactly once.

use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Cfg, MNode, MStr, MV};
use crate::sut::{self, SimDocument};
use crate::{ensure, ev};
use justjson::doc::{Document, DocumentIter, HeaplessDocument};
use justjson::Value;

/// The part of the document that starts at node i, as a value.
pub fn part(b: &[u8], flat: &[MNode], i: &mut usize) -> MV {
    let s = |s: usize, e: usize| std::str::from_utf8(&b[s..e]).unwrap_or("<not utf-8>");
    let n = flat[*i];
    *i += 1;
    match n {
        MNode::Null => MV::Null,
        MNode::Bool(x) => MV::Bool(x),
        MNode::Num(f, t) => MV::Num(s(f, t).to_string()),
        MNode::Str(f, t) => MV::Str(MStr::parsed(s(f, t))),
        MNode::Arr(n) => MV::Arr((0..n).map(|_| part(b, flat, i)).collect()),
        MNode::Obj(n) => MV::Obj(
            (0..n)
                .map(|_| {
                    let k = match part(b, flat, i) {
                        MV::Str(s) => s,
                        _ => MStr::raw("<no key>"),
                    };
                    (k, part(b, flat, i))
                })
                .collect(),
        ),
    }
}

struct Cursor<'d, 'a> {
    it: DocumentIter<'d, 'a>,
    at: usize,
}

fn walk<'d, 'a>(
    c: &Ctx,
    b: &[u8],
    flat: &[MNode],
    start: &dyn Fn() -> DocumentIter<'d, 'a>,
) -> Res {
    let spans = model::spans(flat);
    let mut cs: Vec<Cursor<'d, 'a>> = (0..1 + c.draw(3))
        .map(|_| Cursor { it: start(), at: 0 })
        .collect();
    let mut budget = 40 + flat.len() * 3;
    let weights: &[usize] = match c.draw(4) {
        0 => &[60, 15, 15, 4, 4, 8, 2],
        1 => &[90, 2, 2, 2, 2, 4, 2],
        2 => &[30, 30, 30, 6, 4, 8, 2],
        _ => &[20, 5, 60, 10, 6, 12, 3],
    };
    let mut done = 0;
    while !cs.is_empty() && budget > 0 {
        budget -= 1;
        let i = c.draw(cs.len());
        let n = cs.len();
        let cur = &mut cs[i];
        let at = cur.at;
        let what = format!("reader at node {at} of {}", flat.len());
        match c.weighted(weights) {
            0 => {
                let got = cur.it.next();
                ev!(c, "{i}: node {at}");
                match (&got, flat.get(at)) {
                    (Some(g), Some(m)) => {
                        sut::check_node(g, *m, b, &what)?;
                        cur.at += 1;
                    }
                    (None, None) => {}
                    (g, m) => {
                        return viol("wrong node", format!("{what}: {g:?}, expected {m:?}"))
                    }
                }
            }
            1 => {
                let got = cur.it.next_value();
                ev!(c, "{i}: value {at}");
                if at < flat.len() {
                    let mut to = at;
                    let want = part(b, flat, &mut to);
                    match got {
                        Some(v) => sut::check_value(&v, &want, &what)?,
                        None => return viol("wrong value", format!("{what}: no value")),
                    }
                    ensure!(to == spans[at], "harness", "spans");
                    cur.at = to;
                    c.hit("probe.value_read_midway");
                } else {
                    ensure!(got.is_none(), "wrong value", "{what}: {got:?} at the end");
                }
            }
            2 => {
                cur.it.skip_next_value();
                ev!(c, "{i}: skip {at}");
                if at < flat.len() {
                    cur.at = spans[at];
                    c.hit("probe.value_skipped");
                }
            }
            3 => {
                // several nodes at once, in one of the ways iterators offer
                let k = c.draw(flat.len() + 3);
                ev!(c, "{i}: {k} nodes from {at}");
                if c.coin() {
                    match (cur.it.nth(k), flat.get(at + k)) {
                        (Some(g), Some(m)) => {
                            sut::check_node(&g, *m, b, &what)?;
                            cur.at = at + k + 1;
                        }
                        (None, None) => cur.at = flat.len(),
                        (g, m) => {
                            return viol("wrong node", format!("{what}: {k} later {g:?}, expected {m:?}"))
                        }
                    }
                } else {
                    let got: Vec<_> = cur.it.by_ref().take(k).collect();
                    let to = (at + k).min(flat.len());
                    sut::check_nodes(&got, &flat[at.min(to)..to], b, &what)?;
                    cur.at = to.max(at);
                }
            }
            4 => {
                // what is ahead, from a copy
                let it = cur.it.clone();
                let left = &flat[at.min(flat.len())..];
                ev!(c, "{i}: looks ahead from {at}");
                let (lo, hi) = it.size_hint();
                ensure!(
                    lo <= left.len() && hi.is_none_or(|h| left.len() <= h),
                    "wrong size estimate",
                    "{what}: {lo}..{hi:?}, {} nodes are left",
                    left.len()
                );
                match c.draw(3) {
                    0 => {
                        let n = it.count();
                        ensure!(n == left.len(), "wrong number of nodes", "{what}: {n} instead of {}", left.len());
                    }
                    1 => match (it.last(), left.last()) {
                        (Some(g), Some(m)) => sut::check_node(&g, *m, b, &what)?,
                        (None, None) => {}
                        (g, m) => return viol("wrong node", format!("{what}: last {g:?}, expected {m:?}")),
                    },
                    _ => {
                        let all = it.fold(Vec::new(), |mut l, x| {
                            l.push(x);
                            l
                        });
                        sut::check_nodes(&all, left, b, &what)?;
                    }
                }
            }
            5 if n < 6 => {
                let copy = Cursor {
                    it: cur.it.clone(),
                    at,
                };
                ev!(c, "{i}: copied at {at}");
                c.hit("probe.reader_copied");
                cs.push(copy);
            }
            _ if n > 1 => {
                ev!(c, "{i}: abandoned at {at}");
                c.fault("fault.reader_abandoned");
                cs.swap_remove(i);
                continue;
            }
            _ => {}
        }
        // at the end: it stays the end
        let cur = &mut cs[i];
        if cur.at >= flat.len() && c.chance(1, 3) {
            for _ in 0..2 {
                ensure!(
                    cur.it.next().is_none() && cur.it.next_value().is_none(),
                    "more after the end",
                    "{what}"
                );
                cur.it.skip_next_value();
            }
            done += 1;
            cs.swap_remove(i);
            if cs.is_empty() && done < 2 {
                cs.push(Cursor { it: start(), at: 0 });
            }
        }
    }
    // what is left is exactly the rest
    for cur in cs {
        let rest: Vec<_> = cur.it.collect();
        sut::check_nodes(&rest, &flat[cur.at.min(flat.len())..], b, "the rest")?;
    }
    Ok(())
}

pub fn run(c: &Ctx) -> Res {
    let mut k = gen::knobs(c);
    if c.chance(1, 3) {
        k.containers = 80;
        k.width = 3;
        k.depth = 20;
    }
    let cfg = Cfg {
        limit: None,
        trailing: c.chance(1, 6),
        all_roots: true,
    };
    if cfg.trailing {
        k.trailing = 50;
    }
    let text = if c.chance(1, 12) {
        gen::chain(c, 1 + c.draw(200))
    } else {
        gen::doc(c, &k)
    };
    let b = text.as_bytes();
    let o = model::parse(b, cfg);
    ensure!(o.ok(), "harness", "generated {text:?}");
    let flat = model::flat(&o.events);
    ev!(c, "{}: {} nodes", Show(b), flat.len());
    c.nontrivial();
    let pc = sut::pcfg(cfg);
    let refused = |e: &justjson::Error| {
        viol(
            "valid payload refused",
            format!("{}: {}", Show(b), sut::err_name(e)),
        )
    };
    match c.draw(3) {
        0 => match Document::from_json_with_config(&text, pc) {
            Ok(d) => {
                walk(c, b, &flat, &|| d.iter())?;
                // the document as a whole
                let mut i = 0;
                let want = part(b, &flat, &mut i);
                sut::check_value(&Value::from(d), &want, "whole document")
            }
            Err(e) => refused(&e),
        },
        1 => match SimDocument::from_json_bytes_with_config(b, pc) {
            Ok(d) => walk(c, b, &flat, &|| d.iter()),
            Err(e) => refused(&e),
        },
        _ => {
            let r: Result<HeaplessDocument<'_, 128>, _> =
                HeaplessDocument::from_json_with_config(&text, pc);
            match r {
                Ok(d) => walk(c, b, &flat, &|| (&d).into_iter()),
                Err(e) if flat.len() > 128 => {
                    ensure!(
                        *e.kind() == justjson::ErrorKind::PaylodTooLarge,
                        "wrong reason",
                        "{}",
                        sut::err_name(&e)
                    );
                    c.fault("fault.bounded_storage_full");
                    Ok(())
                }
                Err(e) => refused(&e),
            }
        }
    }
}

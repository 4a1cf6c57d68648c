//! C02: full or failing node storage stops a document parse cleanly.

use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Cfg, Outcome};
use crate::sut::{self, Caught, PushFault, SimDocument};
use crate::{ensure, ev};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::{Error, ErrorKind};

fn parse_doc<'a, B>(c: &Ctx, b: &'a [u8], cfg: Cfg) -> Result<GenericDocument<'a, B>, Error>
where
    B: NodeCollection<'a> + Default,
{
    let default = cfg == Cfg::default() && c.coin();
    match std::str::from_utf8(b) {
        Ok(s) if c.coin() => {
            if default {
                GenericDocument::from_json(s)
            } else {
                GenericDocument::from_json_with_config(s, sut::pcfg(cfg))
            }
        }
        _ => {
            if default {
                GenericDocument::from_json_bytes(b)
            } else {
                GenericDocument::from_json_bytes_with_config(b, sut::pcfg(cfg))
            }
        }
    }
}

/// Did the storage refuse an insertion? For a malformed payload it is left
/// open whether the very last piece before the damage is still inserted.
fn refused(at: Option<usize>, o: &Outcome, flat: &[model::MNode]) -> Option<bool> {
    match at {
        None => Some(false),
        Some(n) if !o.ok() && n + 1 == flat.len() => None,
        Some(n) => Some(flat.len() > n),
    }
}

/// The parse must end as the model and the storage say.
fn judge(
    what: &str,
    b: &[u8],
    o: &Outcome,
    flat: &[model::MNode],
    refused: Option<bool>,
    reason: &ErrorKind,
    result: Result<Vec<Node<'_>>, Error>,
) -> Res {
    let overflows = match (refused, &result) {
        (Some(r), _) => r,
        (None, Err(e)) => e.kind() == reason,
        (None, Ok(_)) => false,
    };
    match result {
        Ok(nodes) => {
            ensure!(
                !overflows,
                "failure not reported",
                "{what}: the storage refused one of {} nodes, success was reported",
                flat.len()
            );
            ensure!(
                o.ok(),
                "invalid payload accepted",
                "{what}: {} accepted, expected {:?}",
                Show(b),
                o.err
            );
            sut::check_nodes(&nodes, flat, b, what)
        }
        Err(e) if overflows => {
            ensure!(
                e.kind() == reason,
                "wrong reason",
                "{what}: the storage refused with {reason:?}, the caller got {}",
                sut::err_name(&e)
            );
            Ok(())
        }
        Err(e) => match &o.err {
            None => viol(
                "valid payload refused",
                format!("{what}: {} refused with {}", Show(b), sut::err_name(&e)),
            ),
            Some(m) => {
                sut::check_reason(e.kind(), m, what)
            }
        },
    }
}

macro_rules! heapless_sizes {
    ($pick:expr, $f:ident, $args:tt; $($n:literal)*) => {
        match $pick {
            $( $n => $f::<$n> $args, )*
            _ => unreachable!(),
        }
    };
}

fn heapless_n<const N: usize>(
    c: &Ctx,
    b: &[u8],
    cfg: Cfg,
    o: &Outcome,
    flat: &[model::MNode],
) -> Res {
    let r: Result<HeaplessDocument<'_, N>, Error> = parse_doc(c, b, cfg);
    let r = r.map(|d| d.iter().collect::<Vec<_>>());
    if flat.len() > N {
        c.fault("fault.bounded_storage_full");
        if flat.len() == N + 1 {
            c.hit("probe.one_too_many");
        }
    } else if flat.len() == N {
        c.hit("probe.exactly_full");
    }
    ev!(c, "heapless {N}: {:?}", r.as_ref().map(Vec::len).map_err(sut::err_name));
    judge(
        &format!("storage of {N}"),
        b,
        o,
        flat,
        refused(Some(N), o, flat),
        &ErrorKind::PaylodTooLarge,
        r,
    )
}

pub fn run(c: &Ctx) -> Res {
    let cfg = sut::gen_cfg(c);
    let mut k = gen::knobs(c);
    if cfg.trailing {
        k.trailing = *c.pick(&[30, 0, 90]);
    }
    let mut b = gen::doc(c, &k).into_bytes();
    if c.chance(1, 4) {
        let kind = gen::damage(c, &mut b, b"[1,{\"a\":null}]");
        c.fault(kind);
    }
    let o = model::parse(&b, cfg);
    let flat = model::flat(&o.events);
    ev!(c, "payload {} -> {} nodes, {:?}", Show(&b), flat.len(), o.err);

    // the storage that never refuses
    let vec_result: Result<Document<'_>, Error> = parse_doc(c, &b, cfg);
    let vec_err = vec_result.as_ref().err().map(sut::err_name);
    judge(
        "unbounded storage",
        &b,
        &o,
        &flat,
        Some(false),
        &ErrorKind::PaylodTooLarge,
        vec_result.map(|d| d.iter().collect()),
    )?;

    for _ in 0..1 + c.draw(4) {
        match c.draw(3) {
            // bounded storage; sizes around the number of nodes
            0 => {
                const NS: &[usize] = &[
                    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24,
                    31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257,
                ];
                let near: Vec<usize> = NS
                    .iter()
                    .copied()
                    .filter(|n| n.abs_diff(flat.len()) <= 2)
                    .collect();
                let n = if !near.is_empty() && c.coin() {
                    *c.pick(&near)
                } else {
                    *c.pick(NS)
                };
                heapless_sizes!(n, heapless_n, (c, &b, cfg, &o, &flat);
                    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 24 31 32 33 48 63 64 65
                    96 127 128 129 255 256 257)?;
            }
            // simulated storage with an arbitrary reason
            which => {
                let at = match c.draw(4) {
                    0 => c.draw(flat.len() + 1),
                    1 => flat.len(),
                    2 => flat.len().saturating_sub(1),
                    _ => c.draw(flat.len() + 3),
                };
                let r = c.draw(sut::REASONS);
                let plan = if which == 1 {
                    if c.coin() {
                        PushFault::Capacity(at, r)
                    } else {
                        PushFault::Once(at, r)
                    }
                } else {
                    PushFault::Panic(at)
                };
                sut::plan_store(plan.clone());
                let res = sut::catch(|| {
                    let d: Result<SimDocument<'_>, Error> = parse_doc(c, &b, cfg);
                    d
                });
                let log = sut::store_log();
                sut::plan_store(PushFault::None);
                let fires = match refused(Some(at), &o, &flat) {
                    Some(f) => f,
                    None => log.failed_at.is_some(),
                };
                ev!(
                    c,
                    "{plan:?}: pushes {}, failed {:?}, after {}, {}",
                    log.pushes,
                    log.failed_at,
                    log.after,
                    match &res {
                        Ok(Ok(_)) => "ok".into(),
                        Ok(Err(e)) => sut::err_name(e),
                        Err(x) => format!("{x:?}"),
                    }
                );
                let what = format!("{plan:?}");
                ensure!(
                    log.after == 0,
                    "inserted after the failure",
                    "{what}: {} insertions after the refused one",
                    log.after
                );
                ensure!(
                    log.failed_at.is_some() == fires,
                    "wrong number of insertions",
                    "{what}: {} insertions for {} nodes",
                    log.pushes,
                    flat.len()
                );
                if fires {
                    c.hit("probe.push_refused");
                    if log.len_at_failure > 0 {
                        c.hit("probe.push_refused_midway");
                    }
                }
                match (res, &plan) {
                    (Err(Caught::Sim(id)), PushFault::Panic(n)) => {
                        ensure!(fires && id == *n as u64, "harness", "panic without cause");
                        c.fault("fault.storage_panicked");
                    }
                    (Err(x), _) => return viol("harness", format!("{x:?}")),
                    (Ok(r), PushFault::Panic(_)) => {
                        ensure!(
                            !fires,
                            "panic swallowed",
                            "{what}: the storage panicked, the parse went on"
                        );
                        judge(&what, &b, &o, &flat, Some(false), &sut::reason(r_index(&plan)), r.map(|d| d.iter().collect()))?;
                    }
                    (Ok(r2), _) => {
                        if fires {
                            c.fault(match plan {
                                PushFault::Once(..) => "fault.storage_refused_once",
                                _ => "fault.storage_full",
                            });
                        }
                        if !fires {
                            // same outcome as with any other storage
                            let e = r2.as_ref().err().map(sut::err_name);
                            ensure!(
                                e == vec_err,
                                "storages disagree",
                                "{what}: {e:?}, with a Vec: {vec_err:?}"
                            );
                        }
                        judge(
                            &what,
                            &b,
                            &o,
                            &flat,
                            Some(fires),
                            &sut::reason(r),
                            r2.map(|d| d.iter().collect()),
                        )?;
                    }
                }
            }
        }
    }
    // nothing lingers: the same payload parses as before
    let again: Result<Document<'_>, Error> = parse_doc(c, &b, cfg);
    let e = again.as_ref().err().map(sut::err_name);
    ensure!(
        e == vec_err,
        "storages disagree",
        "parsing again: {e:?}, before {vec_err:?}"
    );
    Ok(())
}

fn r_index(p: &PushFault) -> usize {
    match p {
        PushFault::Capacity(_, r) | PushFault::Once(_, r) => *r,
        _ => 0,
    }
}

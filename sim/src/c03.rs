//! C03: event consumers see a well-formed stream that stops at the first
//! failure.

use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model::{self, Cfg, Ev, Outcome};
use crate::sut::{self, Arena, Caught};
use crate::{ensure, ev, sched};
use justjson::parser::{JsonKind, ParseDelegate, Parser};
use justjson::{Error, ErrorKind, JsonNumber, JsonString};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    Err(usize),
    Panic(usize),
}

/// What the consumer saw.
#[derive(Default)]
pub struct Rec {
    pub seen: Vec<Seen>,
    /// per handed-over item: times released
    pub drops: Vec<u32>,
    pub failed: bool,
    pub after: usize,
    pub problem: Option<String>,
    /// open containers, by item id, with the key not yet given back
    pub open: Vec<(u32, Option<u32>)>,
    /// the last produced value, not yet given back
    pub value: Option<u32>,
    pub empties: usize,
}

/// An event as delivered: the text of strings and numbers, not positions.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Seen {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    BeginObj,
    Key(String),
    ObjVal,
    EndObj,
    BeginArr,
    ArrVal,
    EndArr,
}

/// Something handed to the parser.
pub struct Item {
    pub id: u32,
    kind: JsonKind,
    members: usize,
    held: Vec<Item>,
    rec: Rc<RefCell<Rec>>,
}

impl Drop for Item {
    fn drop(&mut self) {
        self.rec.borrow_mut().drops[self.id as usize] += 1;
    }
}

pub struct Consumer {
    pub rec: Rc<RefCell<Rec>>,
    pub fault: Fault,
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Refusal(pub u64);

impl Consumer {
    fn event(&mut self, s: Seen) -> Result<(), Refusal> {
        let _h = crate::clock::Hold::new();
        sched::yield_point();
        let n = {
            let mut r = self.rec.borrow_mut();
            if r.failed {
                r.after += 1;
            }
            r.seen.push(s);
            r.seen.len() - 1
        };
        match self.fault {
            Fault::Err(k) if k == n => {
                self.rec.borrow_mut().failed = true;
                Err(Refusal(k as u64 * 7 + 1))
            }
            Fault::Panic(k) if k == n => {
                self.rec.borrow_mut().failed = true;
                sut::sim_panic(k as u64)
            }
            _ => Ok(()),
        }
    }
    fn item(&self, kind: JsonKind) -> Item {
        let mut r = self.rec.borrow_mut();
        r.drops.push(0);
        Item {
            id: r.drops.len() as u32 - 1,
            kind,
            members: 0,
            held: Vec::new(),
            rec: self.rec.clone(),
        }
    }
    fn problem(&self, p: String) {
        let mut r = self.rec.borrow_mut();
        if r.problem.is_none() {
            r.problem = Some(p);
        }
    }
    fn produced(&self, item: Item) -> Item {
        let mut r = self.rec.borrow_mut();
        if let Some(v) = r.value {
            let p = format!("value {v} was never given back");
            r.problem.get_or_insert(p);
        }
        r.value = Some(item.id);
        drop(r);
        item
    }
    fn top(&self, c: &Item, what: &str) {
        let top = self.rec.borrow().open.last().map(|o| o.0);
        if top != Some(c.id) {
            self.problem(format!(
                "{what}: container {} while {top:?} is the innermost open one",
                c.id
            ));
        }
    }
    fn took(&self, v: &Item) {
        let have = self.rec.borrow_mut().value.take();
        if have != Some(v.id) {
            self.problem(format!("value {} given back, expected {have:?}", v.id));
        }
    }
}

impl<'a> ParseDelegate<'a> for Consumer {
    type Array = Item;
    type Error = Refusal;
    type Key = Item;
    type Object = Item;
    type Value = Item;

    fn null(&mut self) -> Result<Item, Refusal> {
        self.event(Seen::Null)?;
        Ok(self.produced(self.item(JsonKind::Null)))
    }
    fn boolean(&mut self, v: bool) -> Result<Item, Refusal> {
        self.event(Seen::Bool(v))?;
        Ok(self.produced(self.item(JsonKind::Boolean)))
    }
    fn number(&mut self, v: JsonNumber<'a>) -> Result<Item, Refusal> {
        self.event(Seen::Num(v.source().to_string()))?;
        Ok(self.produced(self.item(JsonKind::Number)))
    }
    fn string(&mut self, v: JsonString<'a>) -> Result<Item, Refusal> {
        self.event(Seen::Str(v.as_json().collect()))?;
        Ok(self.produced(self.item(JsonKind::String)))
    }
    fn begin_object(&mut self) -> Result<Item, Refusal> {
        self.event(Seen::BeginObj)?;
        let i = self.item(JsonKind::Object);
        self.rec.borrow_mut().open.push((i.id, None));
        Ok(i)
    }
    fn object_key(&mut self, object: &mut Item, key: JsonString<'a>) -> Result<Item, Refusal> {
        self.top(object, "key");
        self.event(Seen::Key(key.as_json().collect()))?;
        let i = self.item(JsonKind::String);
        if let Some(o) = self.rec.borrow_mut().open.last_mut() {
            o.1 = Some(i.id);
        }
        Ok(i)
    }
    fn object_value(&mut self, object: &mut Item, key: Item, value: Item) -> Result<(), Refusal> {
        self.top(object, "member");
        let k = self.rec.borrow_mut().open.last_mut().and_then(|o| o.1.take());
        if k != Some(key.id) {
            self.problem(format!("key {} given back, expected {k:?}", key.id));
        }
        self.took(&value);
        self.event(Seen::ObjVal)?;
        object.members += 1;
        object.held.push(key);
        object.held.push(value);
        Ok(())
    }
    fn object_is_empty(&self, object: &Item) -> bool {
        self.top(object, "emptiness");
        self.rec.borrow_mut().empties += 1;
        object.members == 0
    }
    fn end_object(&mut self, object: Item) -> Result<Item, Refusal> {
        self.top(&object, "end");
        self.event(Seen::EndObj)?;
        self.rec.borrow_mut().open.pop();
        Ok(self.produced(object))
    }
    fn begin_array(&mut self) -> Result<Item, Refusal> {
        self.event(Seen::BeginArr)?;
        let i = self.item(JsonKind::Array);
        self.rec.borrow_mut().open.push((i.id, None));
        Ok(i)
    }
    fn array_value(&mut self, array: &mut Item, value: Item) -> Result<(), Refusal> {
        self.top(array, "element");
        self.took(&value);
        self.event(Seen::ArrVal)?;
        array.members += 1;
        array.held.push(value);
        Ok(())
    }
    fn array_is_empty(&self, array: &Item) -> bool {
        self.top(array, "emptiness");
        self.rec.borrow_mut().empties += 1;
        array.members == 0
    }
    fn end_array(&mut self, array: Item) -> Result<Item, Refusal> {
        self.top(&array, "end");
        self.event(Seen::EndArr)?;
        self.rec.borrow_mut().open.pop();
        Ok(self.produced(array))
    }
    fn kind_of(&self, value: &Item) -> JsonKind {
        value.kind
    }
}

pub fn seen(b: &[u8], events: &[Ev]) -> Vec<Seen> {
    let s = |s: usize, e: usize| String::from_utf8_lossy(&b[s..e]).into_owned();
    events
        .iter()
        .map(|e| match *e {
            Ev::Null => Seen::Null,
            Ev::Bool(x) => Seen::Bool(x),
            Ev::Num(a, z) => Seen::Num(s(a, z)),
            Ev::Str(a, z) => Seen::Str(s(a, z)),
            Ev::BeginObj => Seen::BeginObj,
            Ev::Key(a, z) => Seen::Key(s(a, z)),
            Ev::ObjVal => Seen::ObjVal,
            Ev::EndObj(_) => Seen::EndObj,
            Ev::BeginArr => Seen::BeginArr,
            Ev::ArrVal => Seen::ArrVal,
            Ev::EndArr(_) => Seen::EndArr,
        })
        .collect()
}

pub fn feed<'a>(
    c: &Ctx,
    b: &'a [u8],
    cfg: Cfg,
    d: Consumer,
) -> Result<Item, Error<Refusal>> {
    let default = cfg == Cfg::default() && c.coin();
    match std::str::from_utf8(b) {
        Ok(s) if c.coin() => {
            if default {
                Parser::parse_json(s, d)
            } else {
                Parser::parse_json_with_config(s, sut::pcfg(cfg), d)
            }
        }
        _ => {
            if default {
                Parser::parse_json_bytes(b, d)
            } else {
                Parser::parse_json_bytes_with_config(b, sut::pcfg(cfg), d)
            }
        }
    }
}

/// Judges one consumption.
pub fn judge(
    what: &str,
    b: &[u8],
    o: &Outcome,
    expect: &[Seen],
    fault: Fault,
    r: Result<Result<Item, Error<Refusal>>, Caught>,
    rec: &Rc<RefCell<Rec>>,
) -> Res {
    let fault_at = match fault {
        Fault::None => None,
        Fault::Err(k) | Fault::Panic(k) => (k < expect.len()).then_some(k),
    };
    {
        let rec = rec.borrow();
        if let Some(p) = &rec.problem {
            return viol("wrong pairing", format!("{what}: {p}"));
        }
        ensure!(
            rec.after == 0,
            "event after the failure",
            "{what}: {} events after the consumer had failed: {:?}",
            rec.after,
            rec.seen.last()
        );
        let n = rec.seen.len();
        let upto = fault_at.map_or(expect.len(), |k| k + 1);
        let mut same = 0;
        while same < n && same < expect.len() && rec.seen[same] == expect[same] {
            same += 1;
        }
        ensure!(
            same == n,
            "wrong event",
            "{what}: event {same} is {:?}, expected {:?}, payload {}",
            rec.seen[same],
            expect.get(same),
            Show(b)
        );
        // the piece right before the damage may or may not be announced
        let may_miss = usize::from(!o.ok() && upto == expect.len());
        ensure!(
            n <= upto && n + may_miss >= upto,
            "wrong number of events",
            "{what}: {n} events, expected {upto}, payload {}",
            Show(b)
        );
    }
    let failed = rec.borrow().failed;
    match (&r, failed) {
        (Err(Caught::Sim(id)), true) => {
            ensure!(
                matches!(fault, Fault::Panic(k) if k as u64 == *id),
                "harness",
                "{what}: other panic"
            );
        }
        (Err(x), _) => return viol("harness", format!("{what}: {x:?}")),
        (Ok(res), true) => {
            let Fault::Err(k) = fault else {
                return viol("panic swallowed", format!("{what}: the parse went on"));
            };
            let want = Refusal(k as u64 * 7 + 1);
            match res {
                Err(e) if *e.kind() == ErrorKind::ErrorFromDelegate(want.clone()) => {
                    ensure!(
                        e.offset() <= b.len(),
                        "position outside",
                        "{what}: failure at {}, payload of {}",
                        e.offset(),
                        b.len()
                    );
                }
                Err(e) => {
                    return viol(
                        "wrong failure",
                        format!("{what}: {}, expected {want:?}", sut::err_name(e)),
                    )
                }
                Ok(_) => {
                    return viol(
                        "failure not reported",
                        format!("{what}: the consumer failed, success was reported"),
                    )
                }
            }
        }
        (Ok(Ok(_)), false) => {}
        (Ok(Err(_)), false) => {}
    }
    // r was only borrowed: the root item lives in it
    match &r {
        Ok(Ok(item)) if !failed => {
            ensure!(
                o.ok(),
                "invalid payload accepted",
                "{what}: {} accepted, expected {:?}",
                Show(b),
                o.err
            );
            let rec = rec.borrow();
            ensure!(
                rec.value == Some(item.id),
                "wrong pairing",
                "{what}: item {} returned, expected {:?}",
                item.id,
                rec.value
            );
        }
        Ok(Err(e)) if !failed => match &o.err {
            None => {
                return viol(
                    "valid payload refused",
                    format!("{what}: {} refused with {}", Show(b), sut::err_name(e)),
                )
            }
            Some(m) => {
                sut::check_reason(e.kind(), m, what)?;
                ensure!(
                    !matches!(e.kind(), ErrorKind::ErrorFromDelegate(_)),
                    "wrong failure",
                    "{what}: blamed on the consumer, which did not fail"
                );
            }
        },
        _ => {}
    }
    drop(r);
    let rec = rec.borrow();
    for (id, n) in rec.drops.iter().enumerate() {
        ensure!(
            *n == 1,
            "not released exactly once",
            "{what}: item {id} was released {n} times"
        );
    }
    Ok(())
}

pub fn gen_payload(c: &Ctx, cfg: Cfg) -> Vec<u8> {
    let mut k = gen::knobs(c);
    if cfg.trailing {
        k.trailing = *c.pick(&[30, 0, 90]);
    }
    let mut text = if c.chance(1, 6) {
        // around the depth limit
        let l = cfg.limit.unwrap_or(40).min(300);
        gen::chain(c, (l + c.draw(4)).saturating_sub(1).max(1))
    } else {
        gen::doc(c, &k)
    };
    if c.chance(1, 10) {
        // siblings after a deep part
        let l = cfg.limit.unwrap_or(10).min(130);
        let n = 2 + c.draw(5);
        let parts: Vec<String> = (0..n)
            .map(|_| match c.draw(4) {
                0 if text.len() < 50_000 => text.clone(),
                1 => "[]".into(),
                2 => "{}".into(),
                _ => gen::chain(c, l.saturating_sub(1).max(1)),
            })
            .collect();
        text = format!("[{}]", parts.join(","));
    }
    text.into_bytes()
}

pub fn run(c: &Ctx) -> Res {
    let ar = Arena::default();
    let cfg = sut::gen_cfg(c);
    let mut b = gen_payload(c, cfg);
    if c.chance(1, 4) {
        let kind = gen::damage(c, &mut b, b"{\"a\":[1,2,{}]}");
        c.fault(kind);
    }
    let b = ar.bytes(b);
    let o = model::parse(b, cfg);
    let expect = seen(b, &o.events);
    ev!(c, "{cfg:?} payload {} -> {} events, {:?}", Show(b), expect.len(), o.err);
    if let Some(l) = cfg.limit {
        ensure!(o.max_depth <= l, "harness", "model depth");
        if o.max_depth == l {
            c.hit("probe.at_depth_limit");
        }
        if o.err.is_some_and(|e| e.kind == model::EK::Depth) {
            c.hit("probe.beyond_depth_limit");
        }
    }
    for round in 0..1 + c.draw(6) {
        let fault = match if round == 0 { 0 } else { c.draw(4) } {
            0 => Fault::None,
            1 => Fault::Panic(c.draw(expect.len() + 1)),
            2 => Fault::Err(expect.len().saturating_sub(1)),
            _ => Fault::Err(c.draw(expect.len() + 1)),
        };
        let rec = Rc::new(RefCell::new(Rec::default()));
        let d = Consumer {
            rec: rec.clone(),
            fault,
        };
        let r = sut::catch(|| feed(c, b, cfg, d));
        ev!(
            c,
            "{fault:?}: {} events, {} items, {}",
            rec.borrow().seen.len(),
            rec.borrow().drops.len(),
            match &r {
                Ok(Ok(_)) => "ok".to_string(),
                Ok(Err(e)) => sut::err_name(e),
                Err(x) => format!("{x:?}"),
            }
        );
        if rec.borrow().failed {
            c.fault(match fault {
                Fault::Panic(_) => "fault.consumer_panicked",
                _ => "fault.consumer_failed",
            });
        }
        judge(&format!("{fault:?}"), b, &o, &expect, fault, r, &rec)?;
    }
    Ok(())
}

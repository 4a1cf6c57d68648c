//! Adapters between the library and the simulation: comparison of its values
//! with the model's, and the simulated destination, storage and consumer.

use crate::ctx::{Ctx, Res, Show, Viol};
use crate::model::{self, Cfg, MNode, MStr, MV};
use crate::{ensure, sched};
use justjson::doc::Node;
use justjson::parser::ParseConfig;
use justjson::{Entry, Error, ErrorKind, JsonNumber, JsonString, Object, Value};
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- panics

/// Payload of a panic injected by the simulator.
pub struct SimPanic(pub u64);

pub fn sim_panic(id: u64) -> ! {
    resume_unwind(crate::alloc::pause(|| Box::new(SimPanic(id))))
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::pause(|| {
            let (file, line) = match info.location() {
                Some(l) => (l.file().to_string(), l.line()),
                None => ("?".to_string(), 0),
            };
            let short = file.rsplit('/').next().unwrap_or("?").to_string();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            LAST_PANIC.with(|l| {
                *l.borrow_mut() = Some((
                    format!("panic:{short}"),
                    format!("panic at {file}:{line}: {msg}"),
                ));
            });
        });
    }));
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Caught {
    Sim(u64),
    Oom,
}

/// Runs `f`; injected panics and failed allocations come back as values,
/// any other panic goes on.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(s) = p.downcast_ref::<SimPanic>() {
                let id = s.0;
                crate::alloc::pause(|| drop(p));
                Err(Caught::Sim(id))
            } else if p.downcast_ref::<crate::alloc::Oom>().is_some() {
                drop(p);
                Err(Caught::Oom)
            } else {
                resume_unwind(p)
            }
        }
    }
}

/// Does `f` panic? (Where that is what the documentation says it does.)
pub fn panics(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) if p.downcast_ref::<SimPanic>().is_some() => resume_unwind(p),
        Err(p) if p.downcast_ref::<crate::alloc::Oom>().is_some() => resume_unwind(p),
        Err(_) => {
            LAST_PANIC.with(|l| l.borrow_mut().take());
            true
        }
    }
}

fn panic_viol(p: &(dyn Any + Send)) -> Viol {
    let last = LAST_PANIC.with(|l| l.borrow_mut().take());
    if p.downcast_ref::<SimPanic>().is_some() {
        return Viol {
            class: "injected panic escaped".into(),
            msg: "an injected panic came out where none was expected".into(),
        };
    }
    if p.downcast_ref::<crate::alloc::Oom>().is_some() {
        return Viol {
            class: "allocated".into(),
            msg: "an operation that must not need memory asked for some".into(),
        };
    }
    let (class, msg) = last.unwrap_or(("panic:?".into(), "panic".into()));
    Viol { class, msg }
}

/// Runs a whole scenario or task; a panic becomes a violation.
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            crate::alloc::stop();
            Err(panic_viol(&*p))
        }
    }
}

// ---------------------------------------------------------------- arena

/// Texts that live as long as the run.
#[derive(Default)]
pub struct Arena(RefCell<Vec<Box<[u8]>>>);

impl Arena {
    pub fn bytes(&self, b: Vec<u8>) -> &[u8] {
        let b = b.into_boxed_slice();
        let p: *const [u8] = &*b;
        self.0.borrow_mut().push(b);
        // SAFETY: the box is neither moved out, changed nor dropped before
        // the arena is.
        unsafe { &*p }
    }
    pub fn text(&self, s: String) -> &str {
        // SAFETY: the bytes of a String
        unsafe { std::str::from_utf8_unchecked(self.bytes(s.into_bytes())) }
    }
}

// ---------------------------------------------------------------- config

pub fn pcfg(c: Cfg) -> ParseConfig {
    if c == Cfg::default() {
        return ParseConfig::default();
    }
    if c == (Cfg {
        all_roots: false,
        ..Cfg::default()
    }) {
        return ParseConfig::strict();
    }
    let p = ParseConfig::new().allowing_all_types_at_root(c.all_roots);
    let p = match c.limit {
        None => p.without_recursion_limit(),
        Some(l) => p.with_recursion_limit(l),
    };
    if c.trailing {
        p.allowing_trailing_commas()
    } else {
        p
    }
}

pub fn gen_cfg(c: &Ctx) -> Cfg {
    if c.coin() {
        return Cfg::default();
    }
    Cfg {
        limit: match c.draw(5) {
            0 => Some(128),
            1 => None,
            2 => Some(c.draw(4)),
            3 => Some(c.draw(20)),
            _ => Some(*c.pick(&[127, 129, 255, 256, 300])),
        },
        trailing: c.coin(),
        all_roots: !c.chance(1, 4),
    }
}

// ---------------------------------------------------------------- errors

pub fn kind_name<E: fmt::Debug>(k: &ErrorKind<E>) -> String {
    format!("{k:?}")
}

pub fn err_name<E: fmt::Debug>(e: &Error<E>) -> String {
    format!("{:?}@{}", e.kind(), e.offset())
}

/// One of every reason a storage could give.
pub fn reason(i: usize) -> ErrorKind {
    match i {
        0 => ErrorKind::PaylodTooLarge,
        1 => ErrorKind::UnexpectedEof,
        2 => ErrorKind::UnclosedObject,
        3 => ErrorKind::UnclosedArray,
        4 => ErrorKind::ExpectedColon,
        5 => ErrorKind::Unexpected(b'x'),
        6 => ErrorKind::RecursionLimitReached,
        7 => ErrorKind::Utf8,
        8 => ErrorKind::ExpectedObjectKey,
        9 => ErrorKind::ExpectedValue,
        10 => ErrorKind::ExpectedCommaOrEndOfObject,
        11 => ErrorKind::ExpectedCommaOrEndOfArray,
        12 => ErrorKind::IllegalTrailingComma,
        13 => ErrorKind::TrailingNonWhitespace,
        14 => ErrorKind::ObjectKeysMustBeStrings,
        15 => ErrorKind::ExpectedExponent,
        16 => ErrorKind::ExpectedDecimalDigit,
        17 => ErrorKind::ExpectedDigit,
        18 => ErrorKind::InvalidHexadecimal,
        19 => ErrorKind::InvalidEscape,
        20 => ErrorKind::UnclosedString,
        21 => ErrorKind::ExpectedString,
        22 => ErrorKind::ExpectedNumber,
        _ => ErrorKind::PayloadsShouldBeObjectOrArray,
    }
}
pub const REASONS: usize = 24;

// ---------------------------------------------------------------- compare

pub fn check_str(js: &JsonString<'_>, m: &MStr, what: &str) -> Res {
    ensure!(
        js.decoded().eq(m.text.chars()),
        "wrong text",
        "{what}: decoded text is {}, expected {}",
        Show(js.decoded().collect::<String>().as_bytes()),
        Show(m.text.as_bytes())
    );
    if let Some(src) = &m.src {
        ensure!(
            js.as_json().eq(src.chars()),
            "source text not kept",
            "{what}: JSON text is {}, the source was {}",
            Show(js.as_json().collect::<String>().as_bytes()),
            Show(src.as_bytes())
        );
    }
    Ok(())
}

pub fn check_value(v: &Value<'_>, m: &MV, what: &str) -> Res {
    match (v, m) {
        (Value::Null, MV::Null) => Ok(()),
        (Value::Boolean(a), MV::Bool(b)) if a == b => Ok(()),
        (Value::Number(n), MV::Num(l)) => {
            ensure!(
                n.source() == l,
                "wrong number",
                "{what}: number is {}, expected {l}",
                n.source()
            );
            Ok(())
        }
        (Value::String(s), MV::Str(t)) => check_str(s, t, what),
        (Value::Array(a), MV::Arr(b)) => {
            ensure!(
                a.len() == b.len(),
                "wrong length",
                "{what}: array of {} instead of {}",
                a.len(),
                b.len()
            );
            for (x, y) in a.iter().zip(b) {
                check_value(x, y, what)?;
            }
            Ok(())
        }
        (Value::Object(a), MV::Obj(b)) => {
            ensure!(
                a.len() == b.len(),
                "wrong length",
                "{what}: object of {} instead of {}",
                a.len(),
                b.len()
            );
            for (x, y) in a.iter().zip(b) {
                check_str(&x.key, &y.0, what)?;
                check_value(&x.value, &y.1, what)?;
            }
            Ok(())
        }
        _ => crate::ctx::viol(
            "wrong value",
            format!("{what}: got {}, expected {}", kind_v(v), kind_m(m)),
        ),
    }
}

pub fn kind_v(v: &Value<'_>) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Boolean(b) => b.to_string(),
        Value::Number(n) => n.source().to_string(),
        Value::String(s) => format!("string {}", Show(s.decoded().collect::<String>().as_bytes())),
        Value::Array(a) => format!("array of {}", a.len()),
        Value::Object(o) => format!("object of {}", o.len()),
    }
}

pub fn kind_m(m: &MV) -> String {
    match m {
        MV::Null => "null".into(),
        MV::Bool(b) => b.to_string(),
        MV::Num(n) => n.clone(),
        MV::Str(s) => format!("string {}", Show(s.text.as_bytes())),
        MV::Arr(a) => format!("array of {}", a.len()),
        MV::Obj(o) => format!("object of {}", o.len()),
    }
}

pub fn check_node(n: &Node<'_>, m: MNode, b: &[u8], what: &str) -> Res {
    let s = |s: usize, e: usize| std::str::from_utf8(&b[s..e]).unwrap_or("<not utf-8>");
    let ok = match (n, m) {
        (Node::Null, MNode::Null) => true,
        (Node::Boolean(x), MNode::Bool(y)) => *x == y,
        (Node::Number(x), MNode::Num(f, t)) => x.source() == s(f, t),
        (Node::String(x), MNode::Str(f, t)) => {
            let src = s(f, t);
            if !x.as_json().eq(src.chars()) {
                false
            } else if src.contains('\\') {
                return check_str(x, &MStr::parsed(src), what);
            } else {
                x.decoded().eq(src.chars())
            }
        }
        (Node::Object { length }, MNode::Obj(n)) | (Node::Array { length }, MNode::Arr(n)) => {
            *length == n
        }
        _ => false,
    };
    ensure!(ok, "wrong node", "{what}: node {n:?}, expected {m:?}");
    Ok(())
}

pub fn check_nodes(nodes: &[Node<'_>], flat: &[MNode], b: &[u8], what: &str) -> Res {
    ensure!(
        nodes.len() == flat.len(),
        "wrong number of nodes",
        "{what}: {} nodes instead of {}",
        nodes.len(),
        flat.len()
    );
    for (n, m) in nodes.iter().zip(flat) {
        check_node(n, *m, b, what)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- build

pub fn build_str<'a>(ar: &'a Arena, m: &MStr, owned: bool) -> Res<JsonString<'a>> {
    match &m.src {
        Some(src) => {
            let t = ar.text(format!("\"{src}\""));
            match JsonString::from_json(t) {
                Ok(s) => Ok(s),
                Err(e) => crate::ctx::viol(
                    "valid string refused",
                    format!("{}: {}", Show(t.as_bytes()), err_name(&e)),
                ),
            }
        }
        None if owned => Ok(JsonString::from(m.text.clone())),
        None => Ok(JsonString::from(ar.text(m.text.clone()))),
    }
}

pub fn build_num<'a>(ar: &'a Arena, lit: &str) -> Res<JsonNumber<'a>> {
    let t = ar.text(lit.to_string());
    match JsonNumber::from_json(t) {
        Ok(n) => Ok(n),
        Err(e) => crate::ctx::viol(
            "valid number refused",
            format!("{}: {}", Show(t.as_bytes()), err_name(&e)),
        ),
    }
}

/// Builds the value the way a program would, from the model.
pub fn build<'a>(ar: &'a Arena, m: &MV, owned: bool) -> Res<Value<'a>> {
    Ok(match m {
        MV::Null => Value::Null,
        MV::Bool(b) => Value::from(*b),
        MV::Num(l) => Value::Number(build_num(ar, l)?),
        MV::Str(s) if s.src.is_none() && owned => Value::from(s.text.clone()),
        MV::Str(s) if s.src.is_none() => Value::from(ar.text(s.text.clone())),
        MV::Str(s) => Value::from(build_str(ar, s, owned)?),
        MV::Arr(a) => {
            let mut v = Vec::new();
            for x in a {
                v.push(build(ar, x, owned)?);
            }
            Value::from(v)
        }
        MV::Obj(o) => {
            let mut v = Vec::new();
            for (k, x) in o {
                v.push((build_str(ar, k, owned)?, build(ar, x, owned)?));
            }
            if owned {
                let mut ob = Object::new();
                for (k, x) in v {
                    ob.push(Entry::new(k, x));
                }
                Value::from(ob)
            } else {
                Value::from(v.into_iter().collect::<Object<'_>>())
            }
        }
    })
}

// ---------------------------------------------------------------- sink

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SinkFault {
    None,
    /// refuse the k-th call
    Err(u64),
    /// accept at most this many bytes, then a partial write and an error
    Budget(usize),
    /// panic in the k-th call
    Panic(u64),
}

/// The simulated destination.
pub struct SimSink {
    pub out: String,
    pub calls: u64,
    pub fault: SinkFault,
    pub failed: bool,
    /// calls after the failure was reported
    pub after: u64,
}

impl SimSink {
    pub fn new(fault: SinkFault) -> SimSink {
        SimSink {
            out: String::new(),
            calls: 0,
            fault,
            failed: false,
            after: 0,
        }
    }
}

impl fmt::Write for SimSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        sched::yield_point();
        crate::alloc::pause(|| {
            if self.failed {
                self.after += 1;
                return Ok(());
            }
            let call = self.calls;
            self.calls += 1;
            match self.fault {
                SinkFault::Err(k) if k == call => {
                    self.failed = true;
                    return Err(fmt::Error);
                }
                SinkFault::Panic(k) if k == call => {
                    self.failed = true;
                    sim_panic(k);
                }
                SinkFault::Budget(n) if self.out.len() + s.len() > n => {
                    let mut room = n - self.out.len();
                    while !s.is_char_boundary(room) {
                        room -= 1;
                    }
                    self.out.push_str(&s[..room]);
                    self.failed = true;
                    return Err(fmt::Error);
                }
                _ => {}
            }
            self.out.push_str(s);
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- storage

#[derive(Clone, Debug)]
pub enum PushFault {
    None,
    /// refuse every push beyond this many nodes
    Capacity(usize, usize),
    /// refuse the k-th push once, accept later ones
    Once(usize, usize),
    /// panic in the k-th push
    Panic(usize),
}

#[derive(Default, Debug)]
pub struct StoreLog {
    pub pushes: usize,
    pub failed_at: Option<usize>,
    pub after: usize,
    pub len_at_failure: usize,
}

thread_local! {
    static STORE_PLAN: RefCell<PushFault> = const { RefCell::new(PushFault::None) };
    pub static STORE_LOG: RefCell<StoreLog> = RefCell::new(StoreLog::default());
}

pub fn plan_store(p: PushFault) {
    STORE_PLAN.with(|x| *x.borrow_mut() = p);
    STORE_LOG.with(|x| *x.borrow_mut() = StoreLog::default());
}

pub fn store_log() -> StoreLog {
    STORE_LOG.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

/// The simulated node storage.
#[derive(Debug, PartialEq, Eq)]
pub struct SimNodes<'a> {
    pub nodes: Vec<Node<'a>>,
}

impl Default for SimNodes<'_> {
    fn default() -> Self {
        SimNodes { nodes: Vec::new() }
    }
}
impl<'a> AsRef<[Node<'a>]> for SimNodes<'a> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.nodes
    }
}
impl<'a> AsMut<[Node<'a>]> for SimNodes<'a> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.nodes
    }
}
impl<'a> IntoIterator for SimNodes<'a> {
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    type Item = Node<'a>;
    fn into_iter(self) -> Self::IntoIter {
        self.nodes.into_iter()
    }
}
impl<'a> justjson::doc::NodeCollection<'a> for SimNodes<'a> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        let _h = crate::clock::Hold::new();
        sched::yield_point();
        let plan = STORE_PLAN.with(|p| p.borrow().clone());
        let (k, failed) = STORE_LOG.with(|l| {
            let mut l = l.borrow_mut();
            if l.failed_at.is_some() {
                l.after += 1;
            }
            let k = l.pushes;
            l.pushes += 1;
            (k, l.failed_at.is_some())
        });
        let fail = || {
            STORE_LOG.with(|l| {
                let mut l = l.borrow_mut();
                if l.failed_at.is_none() {
                    l.failed_at = Some(k);
                    l.len_at_failure = self.nodes.len();
                }
            });
        };
        match plan {
            PushFault::Capacity(n, r) if self.nodes.len() >= n => {
                fail();
                return Err(reason(r));
            }
            PushFault::Once(n, r) if k == n && !failed => {
                fail();
                return Err(reason(r));
            }
            PushFault::Panic(n) if k == n => {
                fail();
                sim_panic(n as u64);
            }
            _ => {}
        }
        self.nodes.push(node);
        Ok(())
    }
}

pub type SimDocument<'a> = justjson::doc::GenericDocument<'a, SimNodes<'a>>;

// ---------------------------------------------------------------- errors vs model

/// A refusal must point inside the payload, not before the damaged token,
/// and at the end of a payload that was cut short.
pub fn check_refusal(offset: usize, len: usize, m: &model::MErr, utf8_checked: bool, what: &str) -> Res {
    ensure!(
        offset <= len,
        "position outside",
        "{what}: refusal points at {offset}, the payload has {len} bytes"
    );
    ensure!(
        offset >= m.from,
        "position before the damage",
        "{what}: refusal points at {offset}, but everything up to {} is well formed",
        m.from
    );
    if m.kind != model::EK::Syntax {
        ensure!(
            offset < len,
            "position outside",
            "{what}: refusal points at the end ({offset}), but the damage lies before it"
        );
    }
    if m.cut && !(m.cut_in_char && utf8_checked) {
        ensure!(
            offset == len,
            "cut not reported at the end",
            "{what}: the payload is cut short at {len}, the refusal points at {offset}"
        );
    }
    Ok(())
}

/// The reasons that follow from the configuration.
pub fn check_reason<E: fmt::Debug>(kind: &ErrorKind<E>, m: &model::MErr, what: &str) -> Res {
    use model::EK;
    let special = match kind {
        ErrorKind::RecursionLimitReached => Some(EK::Depth),
        ErrorKind::PayloadsShouldBeObjectOrArray => Some(EK::Root),
        ErrorKind::IllegalTrailingComma => Some(EK::TrailingComma),
        ErrorKind::TrailingNonWhitespace => Some(EK::TrailingData),
        _ => None,
    };
    let want = (m.kind != EK::Syntax).then_some(m.kind);
    ensure!(
        special == want,
        "wrong reason",
        "{what}: refused with {kind:?}, expected {:?}",
        m.kind
    );
    if m.kind == EK::Syntax {
        ensure!(
            truthful(kind, m),
            "wrong reason",
            "{what}: refused with {kind:?}, but what is wrong is {:?} where {:?} is due{}",
            m.why,
            m.spot,
            match m.inside {
                None => "",
                Some(true) => " in an object",
                Some(false) => " in an array",
            }
        );
    }
    Ok(())
}

/// Is `kind`, as documented, true of the first defect? Where several reasons
/// are true of it, any of them will do.
pub fn truthful<E>(kind: &ErrorKind<E>, m: &model::MErr) -> bool {
    use model::{Spot, Why};
    use ErrorKind as X;
    // the input ends
    let ended = match kind {
        X::UnexpectedEof => true,
        X::UnclosedObject => m.inside == Some(true),
        X::UnclosedArray => m.inside == Some(false),
        _ => false,
    };
    // something else was due at this spot
    let due = match (m.spot, kind) {
        (Spot::Value, X::ExpectedValue)
        | (Spot::Key, X::ExpectedObjectKey)
        | (Spot::Colon, X::ExpectedColon) => true,
        (Spot::Comma, X::ExpectedCommaOrEndOfObject) => m.inside == Some(true),
        (Spot::Comma, X::ExpectedCommaOrEndOfArray) => m.inside == Some(false),
        _ => false,
    };
    // a token that does not belong here at all may be named as such, even if
    // it is malformed in itself
    let quote = matches!(
        m.why,
        Why::StrEnd
            | Why::EscEnd(_)
            | Why::Control(_)
            | Why::Escape
            | Why::Hex
            | Why::Surrogate
            | Why::Utf8
    );
    let elsewhere = due
        && match m.spot {
            Spot::Value => false,
            Spot::Key => !quote,
            Spot::Colon | Spot::Comma => true,
        };
    let not_a_key = m.spot == Spot::Key && matches!(kind, X::ObjectKeysMustBeStrings);
    let names = |b: u8| matches!(kind, X::Unexpected(x) if *x == b);
    let or_byte = |b: Option<u8>| match b {
        None => ended,
        Some(b) => names(b),
    };
    elsewhere
        || match m.why {
            Why::End => ended || due,
            Why::StrEnd => ended || matches!(kind, X::UnclosedString),
            Why::EscEnd(dead) => {
                ended || matches!(kind, X::UnclosedString) || dead && matches!(kind, X::Utf8)
            }
            Why::Control(b) => names(b),
            Why::Escape => matches!(kind, X::InvalidEscape),
            Why::Hex => matches!(kind, X::InvalidHexadecimal),
            Why::Surrogate => matches!(kind, X::Utf8),
            Why::Utf8 if m.cut_in_char => {
                ended || matches!(kind, X::Utf8 | X::UnclosedString)
            }
            Why::Utf8 => matches!(kind, X::Utf8),
            Why::Digit(b) => not_a_key || or_byte(b) || matches!(kind, X::ExpectedDigit),
            Why::Decimal(b) => not_a_key || or_byte(b) || matches!(kind, X::ExpectedDecimalDigit),
            Why::Exponent(b) => not_a_key || or_byte(b) || matches!(kind, X::ExpectedExponent),
            Why::Word(b) => not_a_key || or_byte(b),
            Why::Stray(b) => names(b) || due,
            Why::Token(b) => {
                names(b) || due || not_a_key && !matches!(b, b']' | b'}' | b',' | b':')
            }
            Why::Config => false,
        }
}

// ---------------------------------------------------------------- deliveries

/// One way in which a text reaches the program. The JSON source is returned
/// if the string was parsed from one.
pub fn deliver<'a>(c: &Ctx, ar: &'a Arena, text: &str) -> Res<(JsonString<'a>, Option<String>)> {
    let way = c.draw(10);
    if way == 0 {
        return Ok((JsonString::from(ar.text(text.to_string())), None));
    }
    if way == 1 {
        return Ok((JsonString::from(text.to_string()), None));
    }
    let esc = *c.pick(&[0, 100, 10, 40, 90]);
    let src = crate::gen::encode(c, text, esc);
    let lost = |how: &str| {
        crate::ctx::viol::<(JsonString<'a>, Option<String>)>(
            "string lost",
            format!("{how}: {} was not delivered", Show(src.as_bytes())),
        )
    };
    let quoted = format!("\"{src}\"");
    let js = match way {
        2..=4 => build_str(ar, &MStr { text: text.to_string(), src: Some(src.clone()) }, false)?,
        5 => {
            // next to other members
            let t = ar.text(format!("[\"\",{quoted} ,\"\\n\"]"));
            match Value::from_json(t) {
                Ok(Value::Array(mut a)) if a.len() == 3 => match a.swap_remove(1) {
                    Value::String(s) => s,
                    _ => return lost("element"),
                },
                _ => return lost("element"),
            }
        }
        6 => {
            let t = ar.bytes(format!("{{ {quoted}:\"\\u0000\"}}").into_bytes());
            match Value::from_json_bytes(t) {
                Ok(Value::Object(mut o)) if o.len() == 1 => o.swap_remove(0).key,
                _ => return lost("key"),
            }
        }
        7 => {
            let t = ar.bytes(format!("\"x\" {quoted}").into_bytes());
            let mut z = justjson::parser::Tokenizer::for_json_bytes(t);
            match (z.next(), z.next()) {
                (Some(Ok(_)), Some(Ok(justjson::parser::Token::String(s)))) => s,
                _ => return lost("token"),
            }
        }
        8 => {
            let t = ar.text(format!("[[{quoted}]]"));
            match justjson::doc::Document::from_json(t) {
                Ok(d) => match d.iter().nth(2) {
                    Some(Node::String(s)) => s,
                    _ => return lost("node"),
                },
                Err(_) => return lost("node"),
            }
        }
        _ => {
            let s = build_str(ar, &MStr { text: text.to_string(), src: Some(src.clone()) }, false)?;
            let copy = s.clone();
            drop(s);
            copy
        }
    };
    Ok((js, Some(src)))
}

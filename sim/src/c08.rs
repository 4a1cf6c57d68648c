//! C08: the same text is one key, however it is encoded or delivered.

use crate::ctx::{viol, Ctx, Res, Show};
use crate::gen;
use crate::model;
use crate::sut::{self, Arena};
use crate::{ensure, ev};
use justjson::{AnyStr, Entry, JsonString, Object, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};

// ---------------------------------------------------------------- hashers

/// A stream hasher: how the bytes are cut into writes does not matter.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

/// Works on words, like FxHasher: every write is padded on its own.
#[derive(Default)]
pub struct Words(u64);
impl Words {
    fn add(&mut self, w: u64) {
        self.0 = (self.0.rotate_left(5) ^ w).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for Words {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for w in b.chunks(8) {
            let mut x = [0; 8];
            x[..w.len()].copy_from_slice(w);
            self.add(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(u64::from(i));
    }
    fn write_u32(&mut self, i: u32) {
        self.add(u64::from(i));
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64);
    }
}

/// Tells every difference in the calls it receives.
#[derive(Default)]
pub struct Exact(Fnv);
impl Hasher for Exact {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        Hasher::write(&mut self.0, &(b.len() as u64).to_le_bytes());
        Hasher::write(&mut self.0, b);
    }
    fn write_u8(&mut self, i: u8) {
        Hasher::write(&mut self.0, &[1, 0xaa, i]);
    }
    fn write_u32(&mut self, i: u32) {
        Hasher::write(&mut self.0, &[4, 0xbb]);
        Hasher::write(&mut self.0, &i.to_le_bytes());
    }
    fn write_usize(&mut self, i: usize) {
        Hasher::write(&mut self.0, &[8, 0xcc]);
        Hasher::write(&mut self.0, &i.to_le_bytes());
    }
}

/// Few distinct values, so that tables must compare.
#[derive(Default)]
pub struct Weak(Fnv);
impl Hasher for Weak {
    fn finish(&self) -> u64 {
        self.0.finish() & 3
    }
    fn write(&mut self, b: &[u8]) {
        Hasher::write(&mut self.0, b);
    }
}

fn digest<H: Hasher + Default>(x: impl Hash) -> u64 {
    let mut h = H::default();
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- texts

/// Texts that are easily taken for one another.
pub fn similar(c: &Ctx, t: &str, k: &gen::Knobs) -> String {
    let mut chars: Vec<char> = t.chars().collect();
    let at = match c.draw(6) {
        0 => 0,
        1 => chars.len(),
        2 => (*c.pick(gen::SIZES)).min(chars.len()),
        _ => c.draw(chars.len() + 1),
    };
    match c.draw(8) {
        0 => chars.insert(at, gen::ch(c, 2)),
        1 if !chars.is_empty() => {
            chars.pop();
        }
        2 if !chars.is_empty() => {
            // another character of the same size
            let i = at.min(chars.len() - 1);
            let x = chars[i] as u32;
            let n = chars[i].len_utf8();
            let y = [x + 1, x.wrapping_sub(1), x ^ 0x20, x ^ 0x40, x.wrapping_add(0x10000)];
            if let Some(y) = char::from_u32(*c.pick(&y)) {
                if y.len_utf8() == n || c.coin() {
                    chars[i] = y;
                }
            }
        }
        3 => chars.push('\0'),
        4 => {
            // the JSON text of it as a text
            chars = gen::encode(c, t, 50).chars().collect();
        }
        5 if chars.len() > 1 => {
            let n = chars.len();
            chars.swap(at.min(n - 1), c.draw(n));
        }
        6 => {
            // the same number of bytes
            let n = t.len();
            return long(n, gen::ch(c, k.alphabet));
        }
        _ => chars.insert(0, *c.pick(&['\u{ffff}', '\u{10000}', '\u{e000}', '\u{d7ff}', '\u{7f}', '\u{80}'])),
    }
    chars.into_iter().collect()
}

fn long(n: usize, x: char) -> String {
    let mut s = String::new();
    while s.len() + x.len_utf8() <= n {
        s.push(x);
    }
    while s.len() < n {
        s.push('z');
    }
    s
}

// ---------------------------------------------------------------- tables

struct Tables<'a> {
    sip: HashMap<JsonString<'a>, u64, BuildHasherDefault<DefaultHasher>>,
    words: HashMap<JsonString<'a>, u64, BuildHasherDefault<Words>>,
    weak: HashMap<JsonString<'a>, u64, BuildHasherDefault<Weak>>,
    exact: HashMap<JsonString<'a>, u64, BuildHasherDefault<Exact>>,
    any: HashMap<AnyStr<'a>, u64, BuildHasherDefault<Words>>,
    tree: BTreeMap<JsonString<'a>, u64>,
    obj: Object<'a>,
    nums: usize,
}

fn num<'a>(n: u64) -> Value<'a> {
    Value::from(n.to_string())
}

impl<'a> Tables<'a> {
    fn new() -> Self {
        Tables {
            sip: HashMap::default(),
            words: HashMap::default(),
            weak: HashMap::default(),
            exact: HashMap::default(),
            any: HashMap::default(),
            tree: BTreeMap::new(),
            obj: Object::new(),
            nums: 0,
        }
    }

    /// Returns the value the key had, if all tables agree on it.
    fn put(&mut self, k: &JsonString<'a>, text: &str, v: u64) -> Result<Option<u64>, String> {
        let any = k.decode_if_needed();
        let old = [
            self.sip.insert(k.clone(), v),
            self.words.insert(k.clone(), v),
            self.weak.insert(k.clone(), v),
            self.exact.insert(k.clone(), v),
            self.any.insert(any, v),
            self.tree.insert(k.clone(), v),
        ];
        let was = match self.obj.get_mut(text) {
            Some(x) => {
                let was = x.as_str().and_then(|s| s.parse().ok());
                *x = num(v);
                was
            }
            None => {
                self.obj.push(Entry::new(k.clone(), num(v)));
                None
            }
        };
        self.nums += 1;
        if old.iter().all(|o| *o == was) {
            Ok(was)
        } else {
            Err(format!("{old:?}, object {was:?}"))
        }
    }

    fn remove(&mut self, k: &JsonString<'a>, text: &str) -> Result<Option<u64>, String> {
        let old = [
            self.sip.remove(k),
            self.words.remove(k),
            self.weak.remove(k),
            self.exact.remove(k),
            self.any.remove(text),
            self.tree.remove(k),
        ];
        let at = self.obj.iter().position(|e| e.key == *k);
        let was = at.map(|i| self.obj.remove(i).value);
        let was = was.and_then(|v| v.as_str().and_then(|s| s.parse().ok()));
        if old.iter().all(|o| *o == was) {
            Ok(was)
        } else {
            Err(format!("{old:?}, object {was:?}"))
        }
    }

    fn get(&self, k: &JsonString<'a>, text: &str) -> Result<Option<u64>, String> {
        let was = self
            .obj
            .get(text)
            .and_then(|v| v.as_str().and_then(|s| s.parse().ok()));
        let old = [
            self.sip.get(k).copied(),
            self.words.get(k).copied(),
            self.weak.get(k).copied(),
            self.exact.get(k).copied(),
            self.any.get(text).copied(),
            self.tree.get(k).copied(),
        ];
        if old.iter().all(|o| *o == was) {
            Ok(was)
        } else {
            Err(format!("{old:?}, object {was:?}"))
        }
    }

    fn check(&self, m: &BTreeMap<String, u64>) -> Res {
        let sizes = [
            self.sip.len(),
            self.words.len(),
            self.weak.len(),
            self.exact.len(),
            self.any.len(),
            self.tree.len(),
            self.obj.len(),
        ];
        ensure!(
            sizes.iter().all(|n| *n == m.len()),
            "wrong number of keys",
            "tables hold {sizes:?} keys for {} texts",
            m.len()
        );
        for ((k, v), (t, w)) in self.tree.iter().zip(m) {
            ensure!(
                k.decoded().eq(t.chars()) && v == w,
                "wrong order",
                "ordered table: {} = {v} where {} = {w} is due",
                Show(k.decoded().collect::<String>().as_bytes()),
                Show(t.as_bytes())
            );
        }
        Ok(())
    }
}

/// Many texts in one table.
fn crowd(c: &Ctx, k: &gen::Knobs) -> Res {
    let ar = Arena::default();
    let n = match c.draw(3) {
        0 => *c.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
        1 => c.draw(600),
        _ => 200 + c.draw(200),
    };
    // short: the table with the weak hasher compares all pairs
    let head: String = gen::text(c, k).chars().take(24).collect();
    let odd = gen::ch(c, 1);
    let base = *c.pick(&[2, 10, 16, 1]);
    let texts: Vec<String> = (0..n)
        .map(|i| match base {
            1 => format!("{head}{}", char::from_u32(0x4e00 + i as u32).unwrap_or('x')),
            2 => format!("{i:010b}{odd}"),
            10 => format!("{head}{i}"),
            _ => format!("{i:x}{odd}{head}"),
        })
        .collect();
    let mut tabs = Tables::new();
    let mut m = BTreeMap::new();
    let rounds = 1 + c.draw(2);
    for round in 0..rounds {
        for (i, t) in texts.iter().enumerate() {
            if round > 0 && !c.chance(1, 8) {
                continue;
            }
            let (s, _) = sut::deliver(c, &ar, t)?;
            let v = (round * n + i) as u64;
            let want = m.insert(t.clone(), v);
            let got = tabs.put(&s, t, v);
            ensure!(
                got == Ok(want),
                "wrong number of keys",
                "put of {} as text {i}: {got:?}, expected {want:?}",
                Show(t.as_bytes())
            );
        }
    }
    tabs.check(&m)?;
    ev!(c, "{n} texts in one table");
    for (i, t) in texts.iter().enumerate() {
        let (s, _) = sut::deliver(c, &ar, t)?;
        let want = m.get(t).copied();
        let got = if c.chance(1, 16) {
            m.remove(t);
            tabs.remove(&s, t)
        } else {
            tabs.get(&s, t)
        };
        ensure!(
            got == Ok(want),
            "wrong lookup",
            "text {i} of {n}, {}: {got:?}, expected {want:?}",
            Show(t.as_bytes())
        );
    }
    tabs.check(&m)?;
    c.hit("probe.crowded_table");
    c.nontrivial();
    Ok(())
}

/// Everything two strings can be asked about each other.
fn compare(a: &JsonString<'_>, ta: &str, b: &JsonString<'_>, tb: &str) -> Res {
    let what = || {
        format!(
            "{} (as {}) and {} (as {})",
            Show(ta.as_bytes()),
            Show(a.as_json().collect::<String>().as_bytes()),
            Show(tb.as_bytes()),
            Show(b.as_json().collect::<String>().as_bytes())
        )
    };
    let eq = ta == tb;
    let ord = ta.cmp(tb);
    let any_a = a.decode_if_needed();
    let any_b = b.decode_if_needed();
    ensure!(
        (any_a == any_b) == eq
            && any_a.partial_cmp(&any_b) == Some(ord)
            && any_b.partial_cmp(ta) == Some(ord.reverse())
            && any_a.partial_cmp(&tb) == Some(ord),
        "wrong order",
        "{}: decoded texts are ordered {:?}, expected {ord:?}",
        what(),
        any_a.partial_cmp(&any_b)
    );
    ensure!(
        (a == b) == eq && (b == a) == eq && (a != b) != eq,
        "wrong equality",
        "{}: == is {}",
        what(),
        a == b
    );
    ensure!(
        (a == tb) == eq && (*a == *tb) == eq && (*b == ta) == eq && (any_a == tb) == eq,
        "wrong equality",
        "{}: == with plain text is {}, {}, {}",
        what(),
        *a == *tb,
        *b == ta,
        any_a == tb
    );
    ensure!(
        a.cmp(b) == ord && b.cmp(a) == ord.reverse() && a.partial_cmp(b) == Some(ord),
        "wrong order",
        "{}: cmp is {:?} and {:?} the other way round, expected {ord:?}",
        what(),
        a.cmp(b),
        b.cmp(a)
    );
    ensure!(
        a.partial_cmp(tb) == Some(ord)
            && a.partial_cmp(&tb) == Some(ord)
            && b.partial_cmp(ta) == Some(ord.reverse())
            && any_a.partial_cmp(tb) == Some(ord),
        "wrong order",
        "{}: order against plain text is {:?}, the other way round {:?}, expected {ord:?}",
        what(),
        a.partial_cmp(tb),
        b.partial_cmp(ta)
    );
    if eq {
        ensure!(
            digest::<DefaultHasher>(a) == digest::<DefaultHasher>(b)
                && digest::<Fnv>(a) == digest::<Fnv>(b),
            "wrong hash",
            "{}: different hashes",
            what()
        );
        ensure!(
            digest::<Words>(a) == digest::<Words>(b) && digest::<Exact>(a) == digest::<Exact>(b),
            "wrong hash",
            "{}: different hashes with a hasher that tells writes apart",
            what()
        );
        ensure!(
            digest::<Exact>(&any_a) == digest::<Exact>(ta),
            "wrong hash",
            "{}: decoded text hashes differently",
            what()
        );
    }
    Ok(())
}

pub fn run(c: &Ctx) -> Res {
    let ar = Arena::default();
    let mut k = gen::knobs(c);
    if c.chance(1, 5) {
        k.long_str = 40;
    }
    if c.chance(1, 600) {
        return crowd(c, &k);
    }
    let mut texts: Vec<String> = Vec::new();
    for _ in 0..1 + c.draw(8) {
        let t = if texts.is_empty() || c.chance(1, 3) {
            gen::key_text(c, &k)
        } else {
            let i = c.draw(texts.len());
            similar(c, &texts[i], &k)
        };
        texts.push(t);
    }
    for t in &texts {
        ev!(c, "text {}", Show(t.as_bytes()));
    }

    // ---- pairs
    let mut seen: Vec<(JsonString<'_>, usize)> = Vec::new();
    for (i, t) in texts.iter().enumerate() {
        for _ in 0..1 + c.draw(2) {
            let (s, src) = sut::deliver(c, &ar, t)?;
            ev!(c, "delivery of text {i} as {}", src.map_or("plain text".into(), |s| Show(s.as_bytes()).to_string()));
            seen.push((s, i));
        }
    }
    for _ in 0..2 + c.draw(12) {
        let (a, ia) = c.pick(&seen);
        let (b, ib) = c.pick(&seen);
        compare(a, &texts[*ia], b, &texts[*ib])?;
        ensure!(
            digest::<DefaultHasher>(a) == digest::<DefaultHasher>(texts[*ia].as_str())
                && digest::<Fnv>(a) == digest::<Fnv>(texts[*ia].as_str()),
            "wrong hash",
            "{} hashes differently from its text",
            Show(texts[*ia].as_bytes())
        );
    }

    // ---- tables
    let mut tabs = Tables::new();
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    let mut queue: VecDeque<(JsonString<'_>, usize, u64)> = VecDeque::new();
    let steps = c.draw(if c.thorough { 90 } else { 30 });
    for step in 0..steps {
        match c.weighted(&[40, 12, 12, 10, 10, 4]) {
            0 => {
                let i = c.draw(texts.len());
                let (s, _) = sut::deliver(c, &ar, &texts[i])?;
                queue.push_back((s, i, step as u64));
            }
            1 if !queue.is_empty() => {
                // delivered twice, the second time in another encoding
                let (_, i, v) = queue[c.draw(queue.len())];
                let (s, _) = sut::deliver(c, &ar, &texts[i])?;
                queue.push_back((s, i, v));
                c.fault("fault.delivered_twice");
            }
            2 if queue.len() > 1 => {
                let n = queue.len();
                queue.swap(c.draw(n), c.draw(n));
                c.fault("fault.delivered_out_of_order");
            }
            3 => {
                let i = c.draw(texts.len());
                let (s, _) = sut::deliver(c, &ar, &texts[i])?;
                let want = m.remove(&texts[i]);
                match tabs.remove(&s, &texts[i]) {
                    Ok(got) if got == want => {}
                    Ok(got) => {
                        return viol("wrong removal", format!("{}: removed {got:?}, expected {want:?}", Show(texts[i].as_bytes())))
                    }
                    Err(e) => return viol("tables disagree", format!("removal of {}: {e}", Show(texts[i].as_bytes()))),
                }
                ev!(c, "remove {i} -> {want:?}");
            }
            4 => {
                let i = c.draw(texts.len());
                let (s, _) = sut::deliver(c, &ar, &texts[i])?;
                let want = m.get(&texts[i]).copied();
                match tabs.get(&s, &texts[i]) {
                    Ok(got) if got == want => {}
                    Ok(got) => {
                        return viol("wrong lookup", format!("{}: found {got:?}, expected {want:?}", Show(texts[i].as_bytes())))
                    }
                    Err(e) => return viol("tables disagree", format!("lookup of {}: {e}", Show(texts[i].as_bytes()))),
                }
                ev!(c, "lookup {i} -> {want:?}");
            }
            5 => {
                // written out, lost, rebuilt
                let text = Value::Object(std::mem::take(&mut tabs.obj)).to_json();
                queue.clear();
                c.fault("fault.crash_and_rebuild");
                ev!(c, "crash, rebuild from {}", Show(text.as_bytes()));
                let t = ar.text(text);
                let Ok(Value::Object(o)) = Value::from_json(t) else {
                    return viol("table lost", format!("{} was not read back", Show(t.as_bytes())));
                };
                tabs = Tables::new();
                for e in o.iter() {
                    let text: String = e.key.decoded().collect();
                    let v = e.value.as_str().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
                    match tabs.put(&e.key, &text, v) {
                        Ok(None) => {}
                        other => {
                            return viol("tables disagree", format!("rebuild with {}: {other:?}", Show(text.as_bytes())))
                        }
                    }
                }
            }
            _ => {}
        }
        if !queue.is_empty() && c.coin() {
            if let Some((s, i, v)) = queue.pop_front() {
                let want = m.insert(texts[i].clone(), v);
                ev!(c, "put {i} = {v}, was {want:?}");
                match tabs.put(&s, &texts[i], v) {
                    Ok(got) if got == want => {}
                    Ok(got) => {
                        return viol(
                            "wrong number of keys",
                            format!("put of {}: replaced {got:?}, expected {want:?}", Show(texts[i].as_bytes())),
                        )
                    }
                    Err(e) => return viol("tables disagree", format!("put of {}: {e}", Show(texts[i].as_bytes()))),
                }
            }
        }
        tabs.check(&m)?;
    }
    for (t, v) in &m {
        let (s, _) = sut::deliver(c, &ar, t)?;
        ensure!(
            tabs.get(&s, t) == Ok(Some(*v)),
            "wrong lookup",
            "{}: {:?}, expected {v}",
            Show(t.as_bytes()),
            tabs.get(&s, t)
        );
    }
    if !m.is_empty() {
        c.hit("probe.tables_filled");
    }
    let _ = model::b_char;
    Ok(())
}

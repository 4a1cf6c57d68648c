//! Restarting the library within the process: everything it keeps in statics
//! is put back to what it was when the process began.
//!
//! Only between runs, when nothing that came from the library is in use.

use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::OnceLock;

struct Region {
    at: usize,
    was: Vec<u8>,
}

static REGIONS: OnceLock<Vec<Region>> = OnceLock::new();

/// Where the program was loaded is the difference between this variable's
/// address and the one in the table of symbols.
#[no_mangle]
static JJSIM_ANCHOR: u8 = 7;

fn num(b: &[u8], at: usize, len: usize) -> usize {
    b[at..at + len].iter().rev().fold(0, |n, x| n << 8 | usize::from(*x))
}

/// Address, size and name of the variables in writable sections of an ELF file.
fn variables(f: &[u8]) -> Option<(Vec<(usize, usize, &str)>, usize)> {
    if f.get(..5)? != b"\x7fELF\x02" {
        return None;
    }
    let (at, size, n) = (num(f, 0x28, 8), num(f, 0x3a, 2), num(f, 0x3c, 2));
    let section = |i: usize| f.get(at + i * size..at + (i + 1) * size);
    let mut all = Vec::new();
    let mut anchor = None;
    for i in 0..n {
        let s = section(i)?;
        if num(s, 4, 4) != 2 {
            continue; // not the table of symbols
        }
        let names = section(num(s, 0x28, 4))?;
        let (names_at, names_len) = (num(names, 0x18, 8), num(names, 0x20, 8));
        let names = f.get(names_at..names_at + names_len)?;
        let (from, len) = (num(s, 0x18, 8), num(s, 0x20, 8));
        for sym in f.get(from..from + len)?.chunks_exact(24) {
            let name = &names[num(sym, 0, 4)..];
            let name = &name[..name.iter().position(|b| *b == 0)?];
            let name = std::str::from_utf8(name).ok()?;
            let (kind, home) = (sym[4] & 15, num(sym, 6, 2));
            let (addr, len) = (num(sym, 8, 8), num(sym, 16, 8));
            if name == "JJSIM_ANCHOR" {
                anchor = Some(addr);
            }
            // objects in sections that may be written to
            if kind == 1 && home > 0 && home < n && num(section(home)?, 8, 8) & 1 == 1 && len > 0 {
                all.push((addr, len, name));
            }
        }
    }
    Some((all, anchor?))
}

/// Remembers the statics of the crate of that name. To be called before
/// anything of it is used.
pub fn remember(krate: &str) {
    let mark = format!("{}{krate}", krate.len());
    REGIONS.get_or_init(|| {
        let Ok(f) = std::fs::read("/proc/self/exe") else { return Vec::new() };
        let Some((all, anchor)) = variables(&f) else { return Vec::new() };
        let base = (&raw const JJSIM_ANCHOR as usize).wrapping_sub(anchor);
        all.into_iter()
            .filter(|v| v.2.contains(&mark))
            .map(|(addr, len, _)| {
                let at = base.wrapping_add(addr);
                // SAFETY: a variable of this program
                let was = unsafe { std::slice::from_raw_parts(at as *const u8, len) }.to_vec();
                Region { at, was }
            })
            .collect()
    });
}

static LONG_LIVED: AtomicBool = AtomicBool::new(false);

/// Whether the library is not to be restarted for now.
pub fn long_lived(yes: bool) {
    LONG_LIVED.store(yes, Relaxed);
}

/// Puts them back. True if that changed anything, none if it is not to be done.
pub fn restart() -> Option<bool> {
    let mut changed = false;
    if LONG_LIVED.load(Relaxed) {
        return None;
    }
    for r in REGIONS.get().into_iter().flatten() {
        // SAFETY: as above; what is the same (constants, above all) is not
        // written to
        unsafe {
            let now = std::slice::from_raw_parts(r.at as *const u8, r.was.len());
            if now != r.was.as_slice() {
                std::ptr::copy_nonoverlapping(r.was.as_ptr(), r.at as *mut u8, r.was.len());
                changed = true;
            }
        }
    }
    Some(changed)
}

pub fn variables_known() -> usize {
    REGIONS.get().map_or(0, Vec::len)
}

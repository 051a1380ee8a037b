//! Lifetimes of secret-holding objects: created, cloned, moved between threads and dropped in every way
//! Rust offers, while the simulator's allocator inspects the memory they owned when it is released.
use crate::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use zeroize::Zeroizing;

pub const WATCH: u8 = 0;
pub const UNWATCH: u8 = 1;
pub const SCAN_ON: u8 = 2;
pub const SCAN_OFF: u8 = 3;
/// from here on, keep a copy of every block this thread releases
pub const REC_ON: u8 = 4;
pub const REC_OFF: u8 = 5;
/// look for these bytes in the blocks released while recording
pub const SEARCH: u8 = 6;

pub type Hook = fn(kind: u8, ptr: *const u8, len: usize, label: u8) -> u32;
pub static mut HOOK: Option<Hook> = None;

/// heap bytes in use; open files; threads the library made
pub const HEAP: u8 = 20;
pub const FILES: u8 = 21;
pub const THREADS: u8 = 22;
pub const STEPS: u8 = 23;
pub const PEAK_RESET: u8 = 24;
pub const PEAK: u8 = 25;
pub const BYTES: u8 = 26;

pub fn hook(kind: u8, b: &[u8], label: u8) -> u32 {
    unsafe {
        match HOOK {
            Some(h) => h(kind, b.as_ptr(), b.len(), label),
            None => 0,
        }
    }
}

pub enum Secret {
    M(Mnemonic),
    S(Seed),
    K(ExtendedKey),
    Z(Zeroizing<String>),
}

impl Secret {
    fn desc(&self) -> String {
        match self {
            Secret::M(m) => desc_m(m),
            Secret::S(s) => desc_s(s),
            Secret::K(k) => desc_ek(k),
            Secret::Z(z) => z.to_string(),
        }
    }
    fn watch(&self) {
        match self {
            Secret::M(m) => {
                hook(WATCH, m.phrase().as_bytes(), b'p');
                hook(WATCH, m.entropy(), b'e');
            }
            Secret::S(s) => {
                hook(WATCH, s.as_bytes(), b's');
            }
            Secret::K(k) => {
                hook(WATCH, &k.key_bytes, b'k');
            }
            Secret::Z(z) => {
                hook(WATCH, z.as_bytes(), b't');
            }
        }
    }
    /// No block released while the object was made may hold all of what it keeps secret.
    fn search(&self) {
        match self {
            Secret::M(m) => {
                hook(SEARCH, m.phrase().as_bytes(), b'p');
                hook(SEARCH, m.entropy(), b'e');
            }
            Secret::S(s) => {
                hook(SEARCH, s.as_bytes(), b's');
            }
            Secret::K(k) => {
                hook(SEARCH, &k.key_bytes, b'k');
            }
            Secret::Z(_) => {}
        }
    }
    fn dup(&self) -> Secret {
        match self {
            Secret::M(m) => Secret::M(m.clone()),
            Secret::S(m) => Secret::S(m.clone()),
            Secret::K(m) => Secret::K(m.clone()),
            Secret::Z(m) => Secret::Z(m.clone()),
        }
    }
}

/// Where the object lives. Every variant keeps the object at one address until it is dropped in place.
pub enum Home {
    B(Box<Secret>),
    V(Vec<Secret>),
    O(Box<Option<Secret>>),
    A(Arc<Secret>),
    R(Box<Result<Secret, String>>),
    D(Box<dyn Holder + Send + Sync>),
}

pub trait Holder {
    fn get(&self) -> &Secret;
}
struct Wrap(Secret);
impl Holder for Wrap {
    fn get(&self) -> &Secret {
        &self.0
    }
}

fn mark(t: &str) -> u64 {
    t.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub struct Held {
    home: Home,
    /// what it should stay; only a hash, as the text would be another copy of the secret
    expect: u64,
}

unsafe impl Send for Held {}

impl Held {
    fn get(&self) -> &Secret {
        match &self.home {
            Home::B(b) => b,
            Home::V(v) => &v[v.len() - 1],
            Home::O(o) => o.as_ref().as_ref().unwrap(),
            Home::A(a) => a,
            Home::R(r) => r.as_ref().as_ref().ok().unwrap(),
            Home::D(d) => d.get(),
        }
    }
}

fn house(s: Secret, how: u8) -> Home {
    match how {
        b'v' => {
            let mut v = Vec::with_capacity(4);
            v.push(s);
            Home::V(v)
        }
        b'o' => Home::O(Box::new(Some(s))),
        b'a' => Home::A(Arc::new(s)),
        b'r' => Home::R(Box::new(Ok(s))),
        b'd' => Home::D(Box::new(Wrap(s))),
        _ => Home::B(Box::new(s)),
    }
}

fn hold(s: Secret, how: u8) -> Held {
    let expect = mark(&s.desc());
    let home = house(s, how);
    let h = Held { home, expect };
    h.get().watch();
    h
}

static MAIL: Mutex<Vec<Option<Held>>> = Mutex::new(Vec::new());
thread_local! {
    static TLS: RefCell<Vec<Held>> = const { RefCell::new(Vec::new()) };
    static TLS_RC: RefCell<Option<Rc<Held>>> = const { RefCell::new(None) };
}

/// Runs a library call, keeping copies of the blocks it releases.
fn rec<T>(f: impl FnOnce() -> T) -> T {
    hook(REC_ON, &[], 0);
    let r = f();
    hook(REC_OFF, &[], 0);
    r
}

fn make(a: &[Vec<u8>]) -> Result<Secret, String> {
    // a = kind, values...
    Ok(match &a[0][..] {
        b"ent" => Secret::M(rec(|| Mnemonic::from_entropy(&a[1], lang(&a[2]))).map_err(ae)?),
        b"phr" => {
            let t = txt(&a[1]);
            Secret::M(rec(|| Mnemonic::from_phrase(&t, lang(&a[2]))).map_err(ae)?)
        }
        b"new" => {
            let (t, l) = (mtype(&a[1]), lang(&a[2]));
            Secret::M(rec(|| Mnemonic::new(t, l)))
        }
        b"seed" => {
            let m = Mnemonic::from_entropy(&a[1], lang(&a[2])).map_err(ae)?;
            let t = txt(&a[3]);
            let d = rec(|| Seed::new(&m, &t));
            // nor may what it read of the mnemonic stay behind
            hook(SEARCH, &m.as_bytes(), b'p');
            hook(SEARCH, m.entropy(), b'e');
            Secret::S(d)
        }
        b"ek" => Secret::K(mkek(prefix(&a[1]), &a[2])),
        b"xek" => {
            let x = mkxprv(&a[2]).map_err(be)?;
            Secret::K(rec(|| x.to_extended_key(prefix(&a[1]))))
        }
        b"parse" => {
            let t = txt(&a[1]);
            Secret::K(rec(|| ExtendedKey::from_str(&t)).map_err(be)?)
        }
        b"text" => {
            let x = mkxprv(&a[2]).map_err(be)?;
            let first = x.to_string(prefix(&a[1]));
            // and again, watching what is released while the text is made
            hook(SCAN_ON, first.as_bytes(), b'T');
            let z = x.to_string(prefix(&a[1]));
            hook(SCAN_OFF, &[], 0);
            Secret::Z(z)
        }
        _ => return Err("BAD make".into()),
    })
}

fn put(s: &mut Session, slot: usize, h: Option<Held>) {
    while s.held.len() <= slot {
        s.held.push(None);
    }
    s.held[slot] = h; // drops what was there
}

fn take(s: &mut Session, slot: usize) -> Option<Held> {
    s.held.get_mut(slot).and_then(|h| h.take())
}

fn early(h: Held, fail: bool) -> Result<usize, String> {
    let n = h.get().desc().len();
    if fail {
        Err("early return".to_string())?;
    }
    Ok(n + h.expect as usize % 7)
}

fn unwind(h: Held, depth: u32) -> usize {
    if depth == 0 {
        panic!("callback panic (owner)");
    }
    let k = h.get().desc().len();
    let r = unwind(h, depth - 1);
    r + k
}

struct Later(Option<Held>);
impl Drop for Later {
    fn drop(&mut self) {
        // dropped while another panic unwinds
        if let Some(h) = self.0.take() {
            drop(h)
        }
    }
}

pub fn run(s: &mut Session, op: &str, a: &[Vec<u8>]) -> R {
    let slot = a.first().and_then(|x| x.first()).copied().unwrap_or(0) as usize;
    match op {
        // slot, housing, make args
        "l.mk" => {
            rec(|| ());
            let o = make(&a[2..])?;
            o.search();
            let d = o.desc();
            let h = hold(o, a[1].first().copied().unwrap_or(b'b'));
            put(s, slot, Some(h));
            Ok(d)
        }
        // slot, to slot, housing
        "l.dup" => match s.held.get(slot).and_then(|h| h.as_ref()) {
            None => Ok("none".into()),
            Some(h) => {
                let o = rec(|| h.get().dup());
                o.search();
                let (e, d) = (h.expect, mark(&o.desc()));
                let n = hold(o, a[2].first().copied().unwrap_or(b'b'));
                put(s, a[1][0] as usize, Some(n));
                if d == e {
                    Ok("same".into())
                } else {
                    Ok("CLONE DIFFERS".into())
                }
            }
        },
        "l.drop" => {
            put(s, slot, None);
            Ok("done".into())
        }
        // empty the housing in place instead of dropping it whole
        "l.clear" => {
            if let Some(mut h) = take(s, slot) {
                match &mut h.home {
                    Home::V(v) => v.clear(),
                    Home::O(o) => **o = None,
                    Home::R(r) => **r = Err("gone".into()),
                    _ => {}
                }
                drop(h.home);
            }
            Ok("done".into())
        }
        // overwrite the object in place with a clone of another one: the old value is dropped by assignment
        "l.assign" => {
            let from = a[1][0] as usize;
            let o = match s.held.get(from).and_then(|h| h.as_ref()) {
                Some(h) => h.get().dup(),
                None => return Ok("none".into()),
            };
            let e = o.desc();
            match s.held.get_mut(slot).and_then(|h| h.as_mut()) {
                Some(Held { home: Home::B(b), expect }) => {
                    // an inline key record is wiped here and its place taken by the new one
                    if let Secret::K(k) = &**b {
                        hook(UNWATCH, &k.key_bytes, b'k');
                    }
                    **b = o;
                    *expect = mark(&e);
                    b.watch();
                    Ok("done".into())
                }
                _ => Ok("none".into()),
            }
        }
        // the same through Clone::clone_from, which may reuse the old memory
        "l.clonefrom" => {
            let from = a[1][0] as usize;
            let src = match s.held.get(from).and_then(|h| h.as_ref()) {
                Some(h) => h.get().dup(),
                None => return Ok("none".into()),
            };
            match s.held.get_mut(slot).and_then(|h| h.as_mut()) {
                Some(Held { home: Home::B(b), expect }) => {
                    let same = match (&mut **b, &src) {
                        (Secret::M(x), Secret::M(y)) => {
                            x.clone_from(y);
                            true
                        }
                        (Secret::S(x), Secret::S(y)) => {
                            x.clone_from(y);
                            true
                        }
                        (Secret::Z(x), Secret::Z(y)) => {
                            x.clone_from(y);
                            true
                        }
                        _ => false,
                    };
                    if !same {
                        return Ok("none".into());
                    }
                    let want = src.desc();
                    let good = b.desc() == want;
                    *expect = mark(&want);
                    b.watch();
                    Ok(if good { "done".into() } else { "CLONE DIFFERS".into() })
                }
                _ => Ok("none".into()),
            }
        }
        "l.early" => match take(s, slot) {
            Some(h) => {
                let _ = early(h, true);
                Ok("done".into())
            }
            None => Ok("none".into()),
        },
        "l.unwind" => match take(s, slot) {
            Some(h) => {
                let d = a[1][0] as u32;
                let r = catch_unwind(AssertUnwindSafe(move || {
                    let x = Later(None);
                    let n = unwind(h, d);
                    drop(x);
                    n
                }));
                if let Err(p) = r {
                    std::mem::forget(p)
                }
                Ok("done".into())
            }
            None => Ok("none".into()),
        },
        "l.later" => match take(s, slot) {
            Some(h) => {
                let r = catch_unwind(AssertUnwindSafe(move || {
                    let _x = Later(Some(h));
                    panic!("callback panic (owner)");
                }));
                if let Err(p) = r {
                    std::mem::forget(p)
                }
                Ok("done".into())
            }
            None => Ok("none".into()),
        },
        "l.send" => {
            if let Some(h) = take(s, slot) {
                let k = a[1][0] as usize;
                let old = {
                    let mut m = MAIL.lock().unwrap_or_else(|e| e.into_inner());
                    while m.len() <= k {
                        m.push(None);
                    }
                    std::mem::replace(&mut m[k], Some(h))
                };
                drop(old);
            }
            Ok("done".into())
        }
        "l.recv" => {
            let k = a[1][0] as usize;
            let h = {
                let mut m = MAIL.lock().unwrap_or_else(|e| e.into_inner());
                m.get_mut(k).and_then(|x| x.take())
            };
            let bad = h.as_ref().map(|h| mark(&h.get().desc()) != h.expect).unwrap_or(false);
            if let Some(h) = h {
                put(s, slot, Some(h));
            }
            Ok(if bad { "RECEIVED OBJECT CHANGED".into() } else { "done".into() })
        }
        "l.tls" => {
            if let Some(h) = take(s, slot) {
                TLS.with(|t| t.borrow_mut().push(h));
            }
            Ok("done".into())
        }
        "l.rctls" => {
            if let Some(h) = take(s, slot) {
                TLS_RC.with(|t| *t.borrow_mut() = Some(Rc::new(h)));
            }
            Ok("done".into())
        }
        // consume: into_phrase / TryFrom<ExtendedKey>. The text moves to the caller, the rest is wiped.
        "l.into" => match s.held.get(slot).and_then(|h| h.as_ref()).map(|h| h.get()) {
            Some(Secret::M(m)) => {
                let m2 = m.clone();
                hook(WATCH, m2.entropy(), b'e');
                let p = m2.into_phrase();
                Ok(if p == m.phrase() { "same".into() } else { "INTO_PHRASE DIFFERS".into() })
            }
            Some(Secret::K(k)) => {
                let k2 = k.clone();
                let d = desc_ek(&k2);
                let same = d == desc_ek(k);
                let _ = XPrv::try_from(k2);
                Ok(if same { "same".into() } else { "CLONE DIFFERS".into() })
            }
            _ => Ok("none".into()),
        },
        // use an object in the ways that might disturb it
        "l.use" => match s.held.get(slot).and_then(|h| h.as_ref()).map(|h| h.get()) {
            Some(Secret::M(m)) => {
                let _ = format!("{} {:x} {:#X}", m, m, m);
                let _ = Mnemonic::validate(m.phrase(), m.language());
                Ok("done".into())
            }
            Some(Secret::S(x)) => {
                let _ = XPrv::new(x);
                let _ = format!("{:x}", x);
                Ok("done".into())
            }
            Some(Secret::K(k)) => {
                let mut b = [7u8; 112];
                let _ = k.write_base58(&mut b);
                Ok("done".into())
            }
            Some(Secret::Z(z)) => {
                let _ = XPrv::from_str(z);
                Ok("done".into())
            }
            None => Ok("none".into()),
        },
        // a phrase is restored (or refused) and given up; no released block may hold all of it
        "l.scan" => {
            let t = txt(&a[0]);
            let l = lang(&a[1]);
            hook(SCAN_ON, t.as_bytes(), b'P');
            let r = Mnemonic::from_phrase(&t, l).is_ok();
            hook(SCAN_OFF, &[], 0);
            Ok(format!("{}", r))
        }
        "l.scanent" => {
            let l = lang(&a[1]);
            hook(SCAN_ON, &a[0], b'E');
            let r = Mnemonic::from_entropy(&a[0], l).is_ok();
            hook(SCAN_OFF, &[], 0);
            Ok(format!("{}", r))
        }
        // live objects must be untouched by whatever happened to others
        "l.check" => {
            for (i, h) in s.held.iter().enumerate() {
                if let Some(h) = h {
                    if mark(&h.get().desc()) != h.expect {
                        return Ok(format!("LIVE OBJECT {} CHANGED", i));
                    }
                }
            }
            let bad = TLS.with(|t| t.borrow().iter().any(|h| mark(&h.get().desc()) != h.expect));
            Ok(if bad { "LIVE OBJECT IN TLS CHANGED".into() } else { "fine".into() })
        }
        _ => Err(format!("BAD op {}", op)),
    }
}

/// Drops everything still held by mailboxes.
pub fn end() {
    let v = std::mem::take(&mut *MAIL.lock().unwrap_or_else(|e| e.into_inner()));
    drop(v);
}

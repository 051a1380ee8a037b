//! Adaptor between the simulator and the real kms code. It is compiled with the same instrumentation
//! as kms, because the generic code of kms is instantiated here. It contains no oracle.
//!
//! Every operation is a pure description (name + byte arguments) of one call (or a short
//! call sequence) on the public API; its outcome is text.

pub use kms::bip32::{
    ChildNumber, DerivationPath, Error, ExtendedKey, ExtendedKeyAttrs, ExtendedPrivateKey, ExtendedPublicKey, Prefix,
    PrivateKey, PrivateKeyBytes, PublicKey, PublicKeyBytes, XPrv, XPub,
};
pub use kms::bip39::{ErrorKind, Language, Mnemonic, MnemonicType, Seed};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use subtle::ConstantTimeEq;

pub mod backend;
pub mod life;
pub mod sinks;

use backend::{FKey, FPub};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok(String),
    Err(String),
    Panic(String),
    /// The harness used the adaptor wrongly; never a statement about kms.
    Bad(String),
}

impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
            Out::Bad(_) => "bad",
        }
    }
    pub fn text(&self) -> &str {
        match self {
            Out::Ok(s) | Out::Err(s) | Out::Panic(s) | Out::Bad(s) => s,
        }
    }
}

pub type R = Result<String, String>;

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn lang(b: &[u8]) -> Language {
    match b.first() {
        Some(b'c') => Language::ChineseSimplified,
        _ => Language::English,
    }
}

pub fn lang_name(l: Language) -> &'static str {
    match l {
        Language::ChineseSimplified => "c",
        _ => "e",
    }
}

fn mtype(b: &[u8]) -> MnemonicType {
    match b.first() {
        Some(b'1') => MnemonicType::Words15,
        Some(b'2') => MnemonicType::Words18,
        Some(b'3') => MnemonicType::Words21,
        Some(b'4') => MnemonicType::Words24,
        _ => MnemonicType::Words12,
    }
}

pub fn txt(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn u32be(b: &[u8]) -> u32 {
    let mut x = [0u8; 4];
    x.copy_from_slice(&b[..4]);
    u32::from_be_bytes(x)
}

pub fn ae(e: anyhow::Error) -> String {
    // {:#} shows the message and its causes; {:?} is what unwrap() would show
    let k = match e.downcast_ref::<ErrorKind>() {
        Some(k) => format!("{:?}", k),
        None => String::new(),
    };
    format!("{:#} ~ {:?} ~ {}", e, e, k)
}

pub fn be(e: Error) -> String {
    format!("{} ~ {:?}", e, e)
}

pub fn mkpath(b: &[u8]) -> DerivationPath {
    let mut p = DerivationPath::default();
    for c in b.chunks_exact(4) {
        p.push(ChildNumber(u32be(c)));
    }
    p
}

/// depth 1, parent fingerprint 4, child number 4, chain code 32, key 33 = 74 bytes
pub fn mkek(prefix: Prefix, r: &[u8]) -> ExtendedKey {
    let mut pf = [0u8; 4];
    pf.copy_from_slice(&r[1..5]);
    let mut cc = [0u8; 32];
    cc.copy_from_slice(&r[9..41]);
    let mut kb = [0u8; 33];
    kb.copy_from_slice(&r[41..74]);
    ExtendedKey {
        prefix,
        attrs: ExtendedKeyAttrs {
            depth: r[0],
            parent_fingerprint: pf,
            child_number: ChildNumber(u32be(&r[5..9])),
            chain_code: cc,
        },
        key_bytes: kb,
    }
}

pub fn prefix(b: &[u8]) -> Prefix {
    match b.first() {
        Some(b'0') => Prefix::XPRV,
        Some(b'1') => Prefix::XPUB,
        Some(b'2') => Prefix::TPRV,
        Some(b'3') => Prefix::TPUB,
        Some(b'4') => Prefix::YPRV,
        Some(b'5') => Prefix::YPUB,
        Some(b'6') => Prefix::ZPRV,
        _ => Prefix::ZPUB,
    }
}

pub fn mkxprv(r: &[u8]) -> Result<XPrv, Error> {
    XPrv::try_from(mkek(Prefix::XPRV, r))
}

pub fn mkxpub(r: &[u8]) -> Result<XPub, Error> {
    XPub::try_from(mkek(Prefix::XPUB, r))
}

fn attrs(a: &ExtendedKeyAttrs) -> String {
    format!(
        "{}|{}|{}|{}",
        a.depth,
        hex(&a.parent_fingerprint),
        a.child_number.0,
        hex(&a.chain_code)
    )
}

pub fn desc_m(m: &Mnemonic) -> String {
    let r: &str = m.as_ref();
    format!(
        "{}|{}|{}|{}{}",
        lang_name(m.language()),
        m.phrase(),
        hex(m.entropy()),
        hex(&m.as_bytes()),
        if r == m.phrase() { "" } else { "|AS_REF DIFFERS" }
    )
}

pub fn desc_s(s: &Seed) -> String {
    let r: &[u8] = s.as_ref();
    format!("{}{}", hex(s.as_bytes()), if r == s.as_bytes() { "" } else { "|AS_REF DIFFERS" })
}

pub fn desc_x(x: &XPrv) -> String {
    let sk = libsecp256k1::SecretKey::from(x);
    format!(
        "{}|{}|{}{}",
        attrs(x.attrs()),
        hex(&x.to_bytes()),
        hex(&x.private_key().public_key().to_bytes()),
        if sk.serialize() == x.to_bytes()
            && x.private_key().to_bytes() == x.to_bytes()
            && libsecp256k1::SecretKey::from(x.clone()) == sk
        {
            ""
        } else {
            "|KEY ACCESSORS DIFFER"
        }
    )
}

pub fn desc_p(x: &XPub) -> String {
    let pk = libsecp256k1::PublicKey::from(x);
    format!(
        "{}|{}|{}{}",
        attrs(x.attrs()),
        hex(&x.to_bytes()),
        hex(&x.fingerprint()),
        if pk.serialize_compressed() == x.to_bytes() && &pk == x.public_key() && libsecp256k1::PublicKey::from(x.clone()) == pk {
            ""
        } else {
            "|KEY ACCESSORS DIFFER"
        }
    )
}

pub fn desc_ek(k: &ExtendedKey) -> String {
    format!(
        "{}|{:08x}|{}|{}",
        k.prefix.as_str(),
        k.prefix.version(),
        attrs(&k.attrs),
        hex(&k.key_bytes)
    )
}

pub fn desc_path(p: &DerivationPath) -> String {
    let mut s = format!("{}|{}|", p.len(), p.is_empty());
    for (i, c) in p.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&c.0.to_string());
    }
    let sl: &[ChildNumber] = p.as_ref();
    if sl.len() != p.len() || !sl.iter().cloned().eq(p.iter()) {
        s.push_str("|AS_REF DIFFERS");
    }
    s
}

fn desc_cn(c: ChildNumber) -> String {
    format!("{}|{}|{}|{}|{}", c.0, c.index(), c.is_hardened(), hex(&c.to_bytes()), u32::from(c))
}

pub enum Obj {
    M(Mnemonic),
    S(Seed),
    X(XPrv),
    P(XPub),
    K(ExtendedKey),
    D(DerivationPath),
}

impl Obj {
    pub fn desc(&self) -> String {
        match self {
            Obj::M(m) => desc_m(m),
            Obj::S(s) => desc_s(s),
            Obj::X(x) => desc_x(x),
            Obj::P(p) => desc_p(p),
            Obj::K(k) => desc_ek(k),
            Obj::D(d) => desc_path(d),
        }
    }
}

/// Objects a caller keeps alive between calls.
#[derive(Default)]
pub struct Session {
    pub objs: Vec<Obj>,
    pub held: Vec<Option<life::Held>>,
}

pub struct PanickyBytes<'a>(pub &'a [u8], pub std::cell::Cell<u32>);
impl<'a> AsRef<[u8]> for PanickyBytes<'a> {
    fn as_ref(&self) -> &[u8] {
        visit();
        let n = self.1.get();
        if n == 0 {
            panic!("callback panic (as_ref)");
        }
        self.1.set(n - 1);
        self.0
    }
}

thread_local! {
    /// a call to be made from within a callback: after how many callbacks, name, arguments; and what it returned
    static NEST: std::cell::RefCell<(u32, Option<(String, Vec<Vec<u8>>)>, Option<Out>)> = const { std::cell::RefCell::new((0, None, None)) };
}
/// Every callback the library makes comes here first.
pub fn visit() {
    let job = NEST.try_with(|n| {
        let mut n = n.borrow_mut();
        if n.1.is_none() {
            return None;
        }
        if n.0 > 0 {
            n.0 -= 1;
            return None;
        }
        n.1.take()
    });
    if let Ok(Some((op, a))) = job {
        let r = call(&mut Session::default(), &op, &a);
        NEST.with(|n| n.borrow_mut().2 = Some(r));
    }
}
/// A call made while something is destroyed.
struct Late {
    id: u8,
    op: String,
    a: Vec<Vec<u8>>,
    out: &'static std::sync::Mutex<Vec<(u8, Out)>>,
}
impl Drop for Late {
    fn drop(&mut self) {
        let r = call(&mut Session::default(), &self.op, &self.a);
        self.out.lock().unwrap_or_else(|e| e.into_inner()).push((self.id, r));
    }
}
static AT_EXIT: std::sync::Mutex<Vec<(u8, Out)>> = std::sync::Mutex::new(Vec::new());
static IN_PANIC: std::sync::Mutex<Vec<(u8, Out)>> = std::sync::Mutex::new(Vec::new());
thread_local! { static LATE: std::cell::RefCell<Vec<Late>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// The call is made once more when the thread ends. a[0] = the caller makes it first, after that, or not
/// at all until then; number of the call; the call
fn at_exit(a: &[Vec<u8>]) -> R {
    let (mode, id, op) = (a[0][0], a[0][1], txt(&a[1]));
    let now = |m: u8| if mode == m { Some(call(&mut Session::default(), &op, &a[2..])) } else { None };
    let first = now(2);
    LATE.with(|l| l.borrow_mut().push(Late { id, op: op.clone(), a: a[2..].to_vec(), out: &AT_EXIT }));
    let o = first.or_else(|| now(1));
    o.map(|o| whole(&o)).unwrap_or(Ok(String::new()))
}
/// A call made by a destructor while a panic unwinds the stack.
fn unwinding(a: &[Vec<u8>]) -> R {
    let l = Late { id: thread_no(), op: txt(&a[0]), a: a[1..].to_vec(), out: &IN_PANIC };
    let id = l.id;
    let r = catch_unwind(AssertUnwindSafe(move || {
        let _l = l;
        panic!("unwinding");
    }));
    drop(r);
    let mut v = IN_PANIC.lock().unwrap_or_else(|e| e.into_inner());
    let k = v.iter().position(|x| x.0 == id).ok_or("BAD unwind")?;
    whole(&v.remove(k).1)
}
fn thread_no() -> u8 {
    static NEXT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
    NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}
fn whole(o: &Out) -> R {
    match o {
        Out::Bad(t) => Err(format!("BAD {}", t)),
        o => Ok(outcome(o)),
    }
}
/// The call made by a thread of its own, which ends.
fn in_thread(a: &[Vec<u8>]) -> R {
    let (op, a) = (txt(&a[0]), a[1..].to_vec());
    match std::thread::spawn(move || call(&mut Session::default(), &op, &a)).join() {
        Ok(o) => whole(&o),
        Err(_) => Err("BAD thread".into()),
    }
}
/// A cycle of calls again and again: number of rounds, whether each round changes the arguments; then each call as
/// number of pieces, place to change, name, arguments. What the process holds after 1/8, 1/4, 1/2 and all of it.
fn grow(a: &[Vec<u8>]) -> R {
    let (n, vary) = (u32be(&a[0]), a[1][0] == 1);
    let mut cycle = vec![];
    let mut i = 2;
    while i < a.len() {
        let k = a[i][0] as usize;
        cycle.push(((a[i][1] as usize, a[i][2] as usize), txt(&a[i + 1]), &a[i + 2..i + 1 + k]));
        i += 1 + k;
    }
    let mut held = [[0u32; 3]; 4];
    for k in 1..=n {
        for ((i, at), op, args) in &cycle {
            if !vary {
                call(&mut Session::default(), op, args);
                continue;
            }
            let mut v = args.to_vec();
            if let Some(x) = v.get_mut(*i) {
                let m = x.len();
                for (j, b) in k.to_le_bytes().iter().enumerate() {
                    if m > 0 && j < m {
                        x[(at + j) % m] ^= b;
                    }
                }
            }
            call(&mut Session::default(), op, &v);
        }
        for (j, h) in held.iter_mut().enumerate() {
            if k == n >> (3 - j) {
                *h = [life::hook(life::HEAP, &[], 0), life::hook(life::FILES, &[], 0), life::hook(life::THREADS, &[], 0)];
            }
        }
    }
    Ok(held.iter().map(|h| format!("{} {} {}", h[0], h[1], h[2])).collect::<Vec<_>>().join(" "))
}
/// What a call costs: once to warm up, then a[0] times; the least of it, as steps and as most memory in use.
fn weigh(a: &[Vec<u8>]) -> R {
    let name = txt(&a[1]);
    let mut kind = call(&mut Session::default(), &name, &a[2..]).kind();
    let (mut steps, mut mem) = (u32::MAX, u32::MAX);
    for _ in 0..a[0][0] {
        life::hook(life::PEAK_RESET, &[], 0);
        let (m, s, b) = (life::hook(life::HEAP, &[], 0), life::hook(life::STEPS, &[], 0), life::hook(life::BYTES, &[], 0));
        let o = call(&mut Session::default(), &name, &a[2..]);
        let (s1, b1) = (life::hook(life::STEPS, &[], 0), life::hook(life::BYTES, &[], 0));
        steps = steps.min(s1.wrapping_sub(s).saturating_add(b1.wrapping_sub(b)));
        mem = mem.min(life::hook(life::PEAK, &[], 0).saturating_sub(m));
        if o.kind() != kind {
            kind = "changing";
        }
    }
    Ok(format!("{} {} {}", steps, mem, kind))
}
pub fn outcome(o: &Out) -> String {
    format!("{} {}", o.kind(), o.text())
}
/// a[0] = callbacks before it, number of pieces of the outer call; the outer call; the inner call
fn nest(a: &[Vec<u8>]) -> R {
    let k = 1 + a[0][1] as usize;
    let (outer, inner) = (txt(&a[1]), txt(&a[k]));
    let (oa, ia) = (&a[2..k], a[k + 1..].to_vec());
    NEST.with(|n| *n.borrow_mut() = (a[0][0] as u32, Some((inner.clone(), ia.clone())), None));
    let o = call(&mut Session::default(), &outer, oa);
    let i = NEST.with(|n| std::mem::take(&mut *n.borrow_mut()).2);
    // too few callbacks: it comes afterwards
    let i = match i {
        Some(i) => i,
        None => call(&mut Session::default(), &inner, &ia),
    };
    for x in [&o, &i] {
        if let Out::Bad(t) = x {
            return Err(format!("BAD {}", t));
        }
    }
    Ok(nested(&o, &i))
}
pub fn nested(outer: &Out, inner: &Out) -> String {
    format!("{} {}\n----\n{} {}", outer.kind(), outer.text(), inner.kind(), inner.text())
}

/// Runs one operation. A panic of the code under test becomes `Out::Panic`.
#[inline(never)]
pub fn call(s: &mut Session, op: &str, a: &[Vec<u8>]) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| run(s, op, a)));
    match r {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(t)) => match t.strip_prefix("BAD ") {
            Some(b) => Out::Bad(b.to_string()),
            None => Out::Err(t),
        },
        Err(p) => {
            let t = if let Some(x) = p.downcast_ref::<&str>() {
                x.to_string()
            } else if let Some(x) = p.downcast_ref::<String>() {
                x.clone()
            } else {
                "(no text)".to_string()
            };
            drop(p);
            Out::Panic(t)
        }
    }
}

/// Creates the object an operation creates; `None` if the operation creates none.
pub fn create(s: &Session, op: &str, a: &[Vec<u8>]) -> Option<Result<Obj, String>> {
    Some(match op {
        "new" => Ok(Obj::M(Mnemonic::new(mtype(&a[0]), lang(&a[1])))),
        "ent" => Mnemonic::from_entropy(&a[0], lang(&a[1])).map(Obj::M).map_err(ae),
        "phr" => Mnemonic::from_phrase(&txt(&a[0]), lang(&a[1])).map(Obj::M).map_err(ae),
        "seed" => match Mnemonic::from_phrase(&txt(&a[0]), lang(&a[1])) {
            Ok(m) => Ok(Obj::S(Seed::new(&m, &txt(&a[2])))),
            Err(e) => Err(ae(e)),
        },
        "eseed" => match Mnemonic::from_entropy(&a[0], lang(&a[1])) {
            Ok(m) => Ok(Obj::S(Seed::new(&m, &txt(&a[2])))),
            Err(e) => Err(ae(e)),
        },
        "master" => XPrv::new(&a[0]).map(Obj::X).map_err(be),
        "path" => XPrv::new_from_path(&a[0], &mkpath(&a[1])).map(Obj::X).map_err(be),
        "xkey" => mkxprv(&a[0]).map(Obj::X).map_err(be),
        "pkey" => mkxpub(&a[0]).map(Obj::P).map_err(be),
        "xderive" => mkxprv(&a[0]).and_then(|x| x.derive_from_path(&mkpath(&a[1]))).map(Obj::X).map_err(be),
        "xchild" => mkxprv(&a[0]).and_then(|x| x.derive_child(ChildNumber(u32be(&a[1])))).map(Obj::X).map_err(be),
        "xneuter" => mkxprv(&a[0]).map(|x| Obj::P(x.public_key())).map_err(be),
        "pderive" => mkxpub(&a[0]).and_then(|x| x.derive_from_path(&mkpath(&a[1]))).map(Obj::P).map_err(be),
        "pchild" => mkxpub(&a[0]).and_then(|x| x.derive_child(ChildNumber(u32be(&a[1])))).map(Obj::P).map_err(be),
        "ekparse" => ExtendedKey::from_str(&txt(&a[0])).map(Obj::K).map_err(be),
        "xprvparse" => XPrv::from_str(&txt(&a[0])).map(Obj::X).map_err(be),
        "xpubparse" => XPub::from_str(&txt(&a[0])).map(Obj::P).map_err(be),
        "pathparse" => DerivationPath::from_str(&txt(&a[0])).map(Obj::D).map_err(be),
        // operations on kept objects: slot index first
        "o.seed" => match s.objs.get(a[0][0] as usize) {
            Some(Obj::M(m)) => Ok(Obj::S(Seed::new(m, &txt(&a[1])))),
            _ => Err("BAD slot".into()),
        },
        "o.master" => match s.objs.get(a[0][0] as usize) {
            Some(Obj::S(m)) => XPrv::new(m).map(Obj::X).map_err(be),
            _ => Err("BAD slot".into()),
        },
        "o.path" => match s.objs.get(a[0][0] as usize) {
            Some(Obj::S(m)) => XPrv::new_from_path(m, &mkpath(&a[1])).map(Obj::X).map_err(be),
            _ => Err("BAD slot".into()),
        },
        "o.child" => match s.objs.get(a[0][0] as usize) {
            Some(Obj::X(x)) => x.derive_child(ChildNumber(u32be(&a[1]))).map(Obj::X).map_err(be),
            Some(Obj::P(x)) => x.derive_child(ChildNumber(u32be(&a[1]))).map(Obj::P).map_err(be),
            _ => Err("BAD slot".into()),
        },
        "o.derive" => match s.objs.get(a[0][0] as usize) {
            Some(Obj::X(x)) => x.clone().derive_from_path(&mkpath(&a[1])).map(Obj::X).map_err(be),
            Some(Obj::P(x)) => x.clone().derive_from_path(&mkpath(&a[1])).map(Obj::P).map_err(be),
            _ => Err("BAD slot".into()),
        },
        "o.neuter" => match s.objs.get(a[0][0] as usize) {
            Some(Obj::X(x)) => Ok(Obj::P(x.public_key())),
            _ => Err("BAD slot".into()),
        },
        "o.clone" => match s.objs.get(a[0][0] as usize) {
            Some(Obj::M(x)) => Ok(Obj::M(x.clone())),
            Some(Obj::S(x)) => Ok(Obj::S(x.clone())),
            Some(Obj::X(x)) => Ok(Obj::X(x.clone())),
            Some(Obj::P(x)) => Ok(Obj::P(x.clone())),
            Some(Obj::K(x)) => Ok(Obj::K(x.clone())),
            Some(Obj::D(x)) => Ok(Obj::D(x.clone())),
            _ => Err("BAD slot".into()),
        },
        _ => return None,
    })
}

fn desc_mt(m: MnemonicType) -> String {
    format!("{} {:?} {} {} {} {}", m, m, m.word_count(), m.entropy_bits(), m.checksum_bits(), m.total_bits())
}

fn desc_cmp(eq: bool, ne: bool, eq_r: bool, refl: bool, ct: Option<bool>) -> R {
    Ok(format!(
        "{} {} {} {} {}",
        eq,
        ne,
        eq_r,
        refl,
        match ct {
            None => "-".to_string(),
            Some(b) => b.to_string(),
        }
    ))
}

/// Objects shared by all threads of a process; only used if the library says they may be shared.
static mut GLOBAL: Session = Session { objs: vec![], held: vec![] };
struct Probe<T>(std::marker::PhantomData<T>);
trait NotShared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> NotShared for Probe<T> {}
impl<T: Sync> Probe<T> {
    fn shared(&self) -> bool {
        true
    }
}

#[allow(static_mut_refs)]
fn global(op: &str, a: &[Vec<u8>]) -> R {
    if !Probe::<Obj>(std::marker::PhantomData).shared() {
        return Ok("not shareable".into());
    }
    unsafe {
        if let Some(rest) = op.strip_prefix("put:") {
            let o = match create(&GLOBAL, rest, a) {
                Some(o) => o?,
                None => return Err("BAD put".into()),
            };
            let d = o.desc();
            GLOBAL.objs.push(o);
            return Ok(d);
        }
        let op = format!("o.{}", op);
        match create(&GLOBAL, &op, a) {
            Some(o) => o.map(|o| o.desc()),
            None => look(&GLOBAL, &op, a),
        }
    }
}

/// Reads kept objects.
fn look(s: &Session, op: &str, a: &[Vec<u8>]) -> R {
    match op {
        "o.dump" => Ok(s.objs.iter().map(|o| o.desc()).collect::<Vec<_>>().join("\n")),
        "o.eq" => match (s.objs.get(a[0][0] as usize), s.objs.get(a[1][0] as usize)) {
            (Some(Obj::X(x)), Some(Obj::X(y))) => {
                let c: bool = x.ct_eq(y).into();
                desc_cmp(x == y, x != y, y == x, x == x && y == y, Some(c))
            }
            (Some(Obj::P(x)), Some(Obj::P(y))) => desc_cmp(x == y, x != y, y == x, x == x && y == y, None),
            (Some(Obj::D(x)), Some(Obj::D(y))) => desc_cmp(x == y, x != y, y == x, x == x && y == y, None),
            _ => Err("BAD slots".into()),
        },
        // every textual form of an object
        "o.text" => Ok(match s.objs.get(a[0][0] as usize) {
            Some(Obj::M(m)) => format!("{} {:x} {:X}", m, m, m),
            Some(Obj::S(m)) => format!("{:x} {:X}", m, m),
            Some(Obj::X(x)) => format!("{} {:?}", *x.to_string(prefix(&a[1])), x),
            Some(Obj::P(x)) => format!("{} {:?}", x.to_string(prefix(&a[1])), x),
            Some(Obj::K(k)) => k.to_string(),
            Some(Obj::D(p)) => p.to_string(),
            None => return Err("BAD slot".into()),
        }),
        _ => Err(format!("BAD op {}", op)),
    }
}

fn run(s: &mut Session, op: &str, a: &[Vec<u8>]) -> R {
    if let Some(rest) = op.strip_prefix("keep:") {
        let o = match create(s, rest, a) {
            Some(o) => o?,
            None => return Err("BAD keep".into()),
        };
        let d = o.desc();
        s.objs.push(o);
        return Ok(d);
    }
    if let Some(o) = create(s, op, a) {
        return o.map(|o| o.desc());
    }
    match op {
        "nest" => nest(a),
        "unwind" => unwinding(a),
        "thread" => in_thread(a),
        "grow" => grow(a),
        "weigh" => weigh(a),
        "exit.call" => at_exit(a),
        "exit.results" => {
            let mut v = std::mem::take(&mut *AT_EXIT.lock().unwrap_or_else(|e| e.into_inner()));
            v.sort_by_key(|x| x.0);
            Ok(v.iter().map(|x| format!("{}: {}\n", x.0, outcome(&x.1))).collect())
        }
        // the same call again and again: count, name, arguments
        "rep" => {
            let n = u32be(&a[0]);
            let name = txt(&a[1]);
            let one = |s: &mut Session| match catch_unwind(AssertUnwindSafe(|| run(s, &name, &a[2..]))) {
                Ok(Ok(t)) => format!("ok {}", t),
                Ok(Err(t)) => format!("err {}", t),
                Err(p) => {
                    drop(p);
                    "panic".to_string()
                }
            };
            let first = one(s);
            for k in 1..n {
                let t = one(s);
                if t != first {
                    return Ok(format!("call {} of {} returned {} instead of {}", k + 1, n, t, first));
                }
            }
            Ok("the same".into())
        }
        // many neighbours of a call, twice, and the call itself before, between and after: count, place, name, arguments
        "flood" => {
            let n = u32be(&a[0]);
            let (i, at) = (a[1][0] as usize, a[1][1] as usize);
            let name = txt(&a[2]);
            let args = a[3..].to_vec();
            let one = |s: &mut Session, k: u32| {
                let mut v = args.clone();
                if let Some(x) = v.get_mut(i) {
                    let m = x.len();
                    for (j, b) in k.to_le_bytes().iter().enumerate() {
                        if m > 0 && j < m {
                            x[(at + j) % m] ^= b;
                        }
                    }
                }
                match catch_unwind(AssertUnwindSafe(|| run(s, &name, &v))) {
                    Ok(Ok(t)) => format!("ok {}", t),
                    Ok(Err(t)) => format!("err {}", t),
                    Err(p) => {
                        drop(p);
                        "panic".to_string()
                    }
                }
            };
            let hash = |t: &str| t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            let first = one(s, 0);
            let all: Vec<u64> = (1..=n).map(|k| hash(&one(s, k))).collect();
            for k in (0..=n).rev() {
                let t = one(s, k);
                let same = if k == 0 { t == first } else { hash(&t) == all[k as usize - 1] };
                if !same {
                    return Ok(format!("neighbour {} of {} returned {} and something else before", k, n, t));
                }
            }
            Ok(format!("the same {}", first))
        }
        // a series of new mnemonics: their entropies
        "news" => {
            let n = u32be(&a[2]);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(&hex(Mnemonic::new(mtype(&a[0]), lang(&a[1])).entropy()));
                t.push(' ');
            }
            Ok(t)
        }
        "val" => Mnemonic::validate(&txt(&a[0]), lang(&a[1])).map(|_| "valid".into()).map_err(ae),
        // phrase -> mnemonic, seed, master key
        "wallet" => {
            let m = Mnemonic::from_phrase(&txt(&a[0]), lang(&a[1])).map_err(ae)?;
            let sd = Seed::new(&m, &txt(&a[2]));
            let x = XPrv::new(&sd).map_err(be)?;
            Ok(format!("{}\n{}\n{}", desc_m(&m), desc_s(&sd), desc_x(&x)))
        }
        "ewallet" => {
            let m = Mnemonic::from_entropy(&a[0], lang(&a[1])).map_err(ae)?;
            let sd = Seed::new(&m, &txt(&a[2]));
            let x = XPrv::new(&sd).map_err(be)?;
            Ok(format!("{}\n{}\n{}", desc_m(&m), desc_s(&sd), desc_x(&x)))
        }
        "nwallet" => {
            let m = Mnemonic::new(mtype(&a[0]), lang(&a[1]));
            let sd = Seed::new(&m, &txt(&a[2]));
            let x = XPrv::new(&sd).map_err(be)?;
            Ok(format!("{}\n{}\n{}", desc_m(&m), desc_s(&sd), desc_x(&x)))
        }
        "intophrase" => {
            let m = Mnemonic::from_phrase(&txt(&a[0]), lang(&a[1])).map_err(ae)?;
            let t = String::from(m.clone());
            let p = m.into_phrase();
            Ok(if t == p { p } else { format!("{}|INTO STRING DIFFERS {}", p, t) })
        }
        "xkeyof" => {
            // TryFrom<ExtendedKey> with an arbitrary label
            XPrv::try_from(mkek(prefix(&a[0]), &a[1])).map(|x| desc_x(&x)).map_err(be)
        }
        "pkeyof" => XPub::try_from(mkek(prefix(&a[0]), &a[1])).map(|x| desc_p(&x)).map_err(be),
        "ekfmt" => Ok(mkek(prefix(&a[0]), &a[1]).to_string()),
        "ekbuf" => {
            // encode into a caller's buffer with earlier content
            let k = mkek(prefix(&a[0]), &a[1]);
            let mut buf = [0u8; ExtendedKey::MAX_BASE58_SIZE];
            for (i, b) in buf.iter_mut().enumerate() {
                *b = a[2][i % a[2].len()];
            }
            k.write_base58(&mut buf).map(|t| t.to_string()).map_err(be)
        }
        "xprvfmt" => {
            let x = mkxprv(&a[1]).map_err(be)?;
            Ok(x.to_string(prefix(&a[0])).to_string())
        }
        "xpubfmt" => {
            let x = mkxpub(&a[1]).map_err(be)?;
            Ok(x.to_string(prefix(&a[0])))
        }
        "xek" => {
            let x = mkxprv(&a[1]).map_err(be)?;
            Ok(desc_ek(&x.to_extended_key(prefix(&a[0]))))
        }
        "pek" => {
            let x = mkxpub(&a[1]).map_err(be)?;
            Ok(desc_ek(&x.to_extended_key(prefix(&a[0]))))
        }
        // parse, convert to the typed key and print again under the same label
        // a record of any content, written and read
        "reread" => {
            let t = mkek(prefix(&a[0]), &a[1]).to_string();
            let r = [ExtendedKey::from_str(&t).is_ok(), XPrv::from_str(&t).is_ok(), XPub::from_str(&t).is_ok()];
            Ok(format!("{:?}", r))
        }
        "rt" => {
            let k = ExtendedKey::from_str(&txt(&a[0])).map_err(be)?;
            let pf = k.prefix;
            let d = desc_ek(&k);
            let t0 = k.to_string();
            if pf.is_private() {
                let x = XPrv::try_from(k).map_err(be)?;
                Ok(format!("{}\n{}\n{}\n{}", d, desc_x(&x), t0, *x.to_string(pf)))
            } else {
                let x = XPub::try_from(k).map_err(be)?;
                Ok(format!("{}\n{}\n{}\n{}", d, desc_p(&x), t0, x.to_string(pf)))
            }
        }
        "eqprv" => {
            let x = mkxprv(&a[0]).map_err(be)?;
            let y = mkxprv(&a[1]).map_err(be)?;
            let c: bool = x.ct_eq(&y).into();
            let c2: bool = y.ct_eq(&x).into();
            if c != c2 {
                return Ok("ct_eq not symmetric".into());
            }
            desc_cmp(x == y, x != y, y == x, x == x && y == y, Some(c))
        }
        "eqpub" => {
            let x = mkxpub(&a[0]).map_err(be)?;
            let y = mkxpub(&a[1]).map_err(be)?;
            desc_cmp(x == y, x != y, y == x, x == x && y == y, None)
        }
        "sign" => {
            let sk = libsecp256k1::SecretKey::parse_slice(&a[0]).map_err(|e| format!("BAD key {:?}", e))?;
            kms::ecdsa_sign(&sk, &a[1])
                .map(|(sig, rec)| format!("{}|{}", hex(&sig), rec))
                .map_err(|e| format!("{} ~ {:?}", e, e))
        }
        "pathfmt" => Ok(mkpath(&a[0]).to_string()),
        "pathops" => path_ops(a),
        "cnparse" => ChildNumber::from_str(&txt(&a[0])).map(desc_cn).map_err(be),
        "cnfmt" => Ok(ChildNumber(u32be(&a[0])).to_string()),
        "cnnew" => ChildNumber::new(u32be(&a[0]), a[1][0] != 0).map(desc_cn).map_err(be),
        "cnbytes" => {
            let mut b = [0u8; 4];
            b.copy_from_slice(&a[0][..4]);
            let c = ChildNumber::from_bytes(b);
            let d = ChildNumber::from(u32::from_be_bytes(b));
            if c != d {
                return Ok(format!("from_bytes and from(u32) differ: {} {}", c.0, d.0));
            }
            Ok(desc_cn(c))
        }
        "prefix" => match Prefix::try_from(&a[0][..]) {
            Ok(p) => {
                let v: u32 = p.into();
                let b = p.to_bytes();
                let same = |q: Result<Prefix, Error>| matches!(q, Ok(q) if q == p && q.version() == p.version());
                Ok(format!(
                    "{}|{:08x}|{}|{}|{}{}",
                    p.as_str(),
                    p.version(),
                    p.is_private(),
                    p.is_public(),
                    hex(&b),
                    if v == p.version() && u32::from(&p) == v && same(Prefix::try_from(v)) && same(Prefix::from_bytes(b)) {
                        ""
                    } else {
                        "|CONVERSIONS DIFFER"
                    }
                ))
            }
            Err(e) => Err(be(e)),
        },
        "lang" => Ok(format!("{:?}", Language::from_language_code(&txt(&a[0])))),
        "detect" => Ok(format!("{:?}", Language::from_phrase(&txt(&a[0])))),
        "words" => Ok(lang(&a[0]).wordlist().get_words_by_prefix(&txt(&a[1])).join(" ")),
        "word" => Ok(lang(&a[0]).wordlist().get_word(((u32be(&a[1]) % 2048) as u16).into()).to_string()),
        "bits" => match lang(&a[0]).wordmap().get_bits(&txt(&a[1])) {
            Ok(b) => Ok(u16::from(b).to_string()),
            Err(e) => Err(format!("{} ~ {:?}", e, e)),
        },
        "mtcount" => MnemonicType::for_word_count(u32be(&a[0]) as usize).map(desc_mt).map_err(ae),
        "mtkey" => MnemonicType::for_key_size(u32be(&a[0]) as usize).map(desc_mt).map_err(ae),
        "mtphrase" => MnemonicType::for_phrase(&txt(&a[0])).map(desc_mt).map_err(ae),
        "defaults" => Ok(format!(
            "{:?} {} {:?} {:?}",
            kms::bip39::Language::default(),
            desc_mt(MnemonicType::default()),
            ChildNumber::default(),
            DerivationPath::default()
        )),
        "order" => {
            let x = mkxpub(&a[0]).map_err(be)?;
            let y = mkxpub(&a[1]).map_err(be)?;
            Ok(format!(
                "{:?} {:?} {:?}",
                x.attrs().cmp(y.attrs()),
                x.attrs().child_number.cmp(&y.attrs().child_number),
                x.attrs() == y.attrs()
            ))
        }
        "ripemd" => Ok(kms::crypto::ripemd(&a[0])),
        "xdebug" => {
            let x = mkxprv(&a[0]).map_err(be)?;
            Ok(match a.get(1).and_then(|f| f.first()).map_or(0, |f| f % 12) {
                1 => format!("{:x?}", x),
                2 => format!("{:X?}", x),
                3 => format!("{:8?}", x),
                4 => format!("{:>100?}", x),
                5 => format!("{:.4?}", x),
                6 => format!("{:.64?}", x),
                7 => format!("{:+?}", x),
                8 => format!("{:040?}", x),
                9 => format!("{:#x?}", x),
                10 => format!("{:#40.33?}", x),
                11 => format!("{:-?} {:?} {:#?}", x, x, x),
                _ => format!("{:?}", x),
            })
        }
        "xdebugalt" => Ok(format!("{:#?}", mkxprv(&a[0]).map_err(be)?)),
        // calls that panic in a caller's callback
        "panic.seed" => {
            let x = XPrv::new(PanickyBytes(&a[0], std::cell::Cell::new(a[1][0] as u32)));
            x.map(|x| desc_x(&x)).map_err(be)
        }
        "panic.path" => {
            let x = XPrv::new_from_path(PanickyBytes(&a[0], std::cell::Cell::new(a[1][0] as u32)), &mkpath(&a[2]));
            x.map(|x| desc_x(&x)).map_err(be)
        }
        "panic.extend" => {
            let mut p = mkpath(&a[0]);
            let n = a[1][0] as usize;
            p.extend((0..).map(move |i| {
                visit();
                if i == n {
                    panic!("callback panic (iterator)")
                }
                ChildNumber(i as u32)
            }));
            Ok(desc_path(&p))
        }
        _ if op.starts_with("b.") => backend::run(op, a),
        _ if op.starts_with("l.") => life::run(s, op, a),
        _ if op.starts_with("out.") => sinks::run(op, a),
        // kept objects
        "o.drop" => {
            let i = a[0][0] as usize;
            if i < s.objs.len() {
                s.objs.remove(i);
            }
            Ok(String::new())
        }
        _ if op.starts_with("g.") => global(&op[2..], a),
        _ => look(s, op, a),
    }
}

/// An iterator that announces its length exactly, not at all, without an upper bound, or loosely; one that is not
/// fused has more to give when it is asked again after its end.
struct Hinted(std::vec::IntoIter<ChildNumber>, u8, Option<u32>);
impl Iterator for Hinted {
    type Item = ChildNumber;
    fn next(&mut self) -> Option<ChildNumber> {
        visit();
        match (self.0.next(), &mut self.2) {
            (None, Some(k)) if *k < 12 => {
                // an end, then three more
                *k += 1;
                if *k % 4 == 1 {
                    None
                } else {
                    Some(ChildNumber(many(77, *k)))
                }
            }
            (c, _) => c,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            _ => (0, Some(2 * n + 3)),
        }
    }
}
/// The k-th child number of a long extension.
pub fn many(x: u32, k: u32) -> u32 {
    (k ^ x).wrapping_mul(0x9E37_79B1).rotate_left(x)
}

/// a[0] = initial path; a[1] = script: 'p'+4 bytes push, 'u' parent, 'e'+n+4n bytes extend, 'r' print and parse
fn path_ops(a: &[Vec<u8>]) -> R {
    let mut p = mkpath(&a[0]);
    let s = &a[1];
    let mut i = 0;
    let mut log = String::new();
    while i < s.len() {
        match s[i] {
            b'p' => {
                p.push(ChildNumber(u32be(&s[i + 1..i + 5])));
                i += 5;
            }
            b'u' => {
                let before = p.clone();
                match p.parent() {
                    Some(q) => {
                        if before != p {
                            log.push_str("PARENT CHANGED SELF;");
                        }
                        p = q
                    }
                    None => log.push_str("none;"),
                }
                i += 1;
            }
            b'e' => {
                let n = s[i + 1] as usize & 31;
                let v: Vec<ChildNumber> = s[i + 2..i + 2 + 4 * n].chunks_exact(4).map(|c| ChildNumber(u32be(c))).collect();
                p.extend(Hinted(v.into_iter(), s[i + 1] >> 6, (s[i + 1] & 32 != 0).then_some(0)));
                i += 2 + 4 * n;
            }
            b'E' => {
                let n = u16::from_be_bytes([s[i + 1], s[i + 2]]) as u32;
                let x = s[i + 3] as u32;
                let v: Vec<ChildNumber> = (0..n).map(|k| ChildNumber(many(x, k))).collect();
                p.extend(Hinted(v.into_iter(), s[i + 4] & 3, (s[i + 4] & 4 != 0).then_some(0)));
                i += 5;
            }
            b'r' => {
                let q = DerivationPath::from_str(&p.to_string()).map_err(be)?;
                if q != p {
                    log.push_str("PRINT/PARSE DIFFERS;");
                }
                p = q;
                i += 1;
            }
            b'i' => {
                let v: Vec<ChildNumber> = p.clone().into_iter().collect();
                let mut q = DerivationPath::default();
                for c in v {
                    q.push(c);
                }
                if q != p {
                    log.push_str("INTO_ITER DIFFERS;");
                }
                i += 1;
            }
            _ => return Err("BAD path script".into()),
        }
    }
    Ok(format!("{}{}", log, desc_path(&p)))
}

#[allow(unused)]
fn _types(_: FKey, _: FPub) {}

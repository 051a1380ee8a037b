//! A key backend (the `PrivateKey`/`PublicKey` traits) whose n-th operation fails or panics. The good
//! operations delegate to the built-in secp256k1 keys.
use crate::*;
use libsecp256k1 as s;
use std::cell::RefCell;

type BR<T> = kms::bip32::Result<T>;

#[derive(Default, Clone)]
pub struct Plan {
    pub n: u32,
    /// 1-based index of the first fallible operation that fails; 0 = none
    pub fail_at: u32,
    /// how many operations fail from there on
    pub span: u32,
    pub panic: bool,
    /// which error it fails with
    pub err: u8,
    pub fired: u32,
    pub log: String,
}

thread_local! { static PLAN: RefCell<Plan> = RefCell::new(Plan::default()); }

pub fn arm(fail_at: u32, span: u32, panic: bool, err: u8) {
    PLAN.with(|p| *p.borrow_mut() = Plan { n: 0, fail_at, span, panic, err, fired: 0, log: String::new() });
}

pub fn disarm() -> Plan {
    PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

fn error() -> Error {
    match PLAN.with(|p| p.borrow().err) {
        1 => Error::Base58,
        2 => Error::Bip39,
        3 => Error::ChildNumber,
        4 => Error::Decode,
        5 => Error::Depth,
        6 => Error::SeedLength,
        _ => Error::Crypto,
    }
}

/// true = this operation must fail
fn tick(name: char, fallible: bool) -> bool {
    visit();
    let (hit, pan) = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        if !fallible && !p.panic {
            return (false, false);
        }
        p.n += 1;
        p.log.push(name);
        let hit = p.fail_at != 0 && p.n >= p.fail_at && p.n - p.fail_at < p.span;
        if hit {
            p.fired += 1;
        }
        (hit, p.panic)
    });
    if hit && pan {
        panic!("callback panic (backend)");
    }
    hit
}

#[derive(Clone)]
pub struct FKey(s::SecretKey);
#[derive(Clone, PartialEq, Debug)]
pub struct FPub(s::PublicKey);

impl PrivateKey for FKey {
    type PublicKey = FPub;
    fn from_bytes(b: &PrivateKeyBytes) -> BR<Self> {
        if tick('f', true) {
            return Err(error());
        }
        <s::SecretKey as PrivateKey>::from_bytes(b).map(FKey)
    }
    fn to_bytes(&self) -> PrivateKeyBytes {
        tick('t', false);
        PrivateKey::to_bytes(&self.0)
    }
    fn derive_child(&self, o: PrivateKeyBytes) -> BR<Self> {
        if tick('d', true) {
            return Err(error());
        }
        PrivateKey::derive_child(&self.0, o).map(FKey)
    }
    fn public_key(&self) -> FPub {
        tick('p', false);
        FPub(PrivateKey::public_key(&self.0))
    }
}

impl PublicKey for FPub {
    fn from_bytes(b: PublicKeyBytes) -> BR<Self> {
        if tick('F', true) {
            return Err(error());
        }
        <s::PublicKey as PublicKey>::from_bytes(b).map(FPub)
    }
    fn to_bytes(&self) -> PublicKeyBytes {
        tick('T', false);
        PublicKey::to_bytes(&self.0)
    }
    fn derive_child(&self, o: PrivateKeyBytes) -> BR<Self> {
        if tick('D', true) {
            return Err(error());
        }
        PublicKey::derive_child(&self.0, o).map(FPub)
    }
}

type FX = ExtendedPrivateKey<FKey>;
type FP = ExtendedPublicKey<FPub>;

fn at(a: &ExtendedKeyAttrs) -> String {
    format!("{}|{}|{}|{}", a.depth, hex(&a.parent_fingerprint), a.child_number.0, hex(&a.chain_code))
}
fn dx(x: &FX) -> String {
    format!("{}|{}", at(x.attrs()), hex(&PrivateKey::to_bytes(&x.private_key().0)))
}
fn dp(x: &FP) -> String {
    format!("{}|{}", at(x.attrs()), hex(&PublicKey::to_bytes(&x.public_key().0)))
}

fn once(op: &str, a: &[Vec<u8>], px: Option<&FX>, pp: Option<&FP>) -> Result<String, String> {
    Ok(match op {
        "b.master" => dx(&FX::new(&a[0]).map_err(be)?),
        "b.path" => dx(&FX::new_from_path(&a[0], &mkpath(&a[1])).map_err(be)?),
        "b.xchild" => dx(&px.unwrap().derive_child(ChildNumber(u32be(&a[1]))).map_err(be)?),
        "b.xderive" => dx(&px.unwrap().clone().derive_from_path(&mkpath(&a[1])).map_err(be)?),
        "b.xneuter" => dp(&px.unwrap().public_key()),
        "b.pchild" => dp(&pp.unwrap().derive_child(ChildNumber(u32be(&a[1]))).map_err(be)?),
        "b.pderive" => dp(&pp.unwrap().clone().derive_from_path(&mkpath(&a[1])).map_err(be)?),
        "b.ximport" => dx(&FX::try_from(mkek(prefix(&a[1]), &a[0])).map_err(be)?),
        "b.pimport" => dp(&FP::try_from(mkek(prefix(&a[1]), &a[0])).map_err(be)?),
        "b.xparse" => dx(&FX::from_str(&txt(&a[0])).map_err(be)?),
        "b.pparse" => dp(&FP::from_str(&txt(&a[0])).map_err(be)?),
        "b.xtext" => px.unwrap().to_string(Prefix::XPRV).to_string(),
        "b.ptext" => pp.unwrap().to_string(Prefix::XPUB),
        _ => return Err(format!("BAD op {}", op)),
    })
}

/// Last argument: [fail_at u32 BE, span u32 BE, panic u8]. Result lines: outcome under the fault, the number
/// of faults that fired, the operations the backend saw, the parent before and after, and the retry.
pub fn run(op: &str, a: &[Vec<u8>]) -> Result<String, String> {
    if op == "b.tweakprv" || op == "b.tweakpub" {
        // the built-in backend with an arbitrary tweak
        let sk = s::SecretKey::parse_slice(&a[0]).map_err(|e| format!("BAD key {:?}", e))?;
        let mut t = [0u8; 32];
        t.copy_from_slice(&a[1]);
        return if op == "b.tweakprv" {
            PrivateKey::derive_child(&sk, t).map(|k| hex(&PrivateKey::to_bytes(&k))).map_err(be)
        } else {
            let pk = s::PublicKey::from_secret_key(&sk);
            PublicKey::derive_child(&pk, t).map(|k| hex(&PublicKey::to_bytes(&k))).map_err(be)
        };
    }
    let (f, a) = a.split_last().ok_or("BAD args")?;
    disarm();
    let px = match op {
        "b.xchild" | "b.xderive" | "b.xneuter" | "b.xtext" => Some(FX::try_from(mkek(Prefix::XPRV, &a[0])).map_err(|e| format!("BAD parent {:?}", e))?),
        _ => None,
    };
    let pp = match op {
        "b.pchild" | "b.pderive" | "b.ptext" => Some(FP::try_from(mkek(Prefix::XPUB, &a[0])).map_err(|e| format!("BAD parent {:?}", e))?),
        _ => None,
    };
    let parent = |x: &Option<FX>, p: &Option<FP>| match (x, p) {
        (Some(x), _) => dx(x),
        (_, Some(p)) => dp(p),
        _ => "-".into(),
    };
    let before = parent(&px, &pp);
    arm(u32be(&f[0..4]), u32be(&f[4..8]), f[8] & 1 != 0, f[8] >> 1);
    let r = catch_unwind(AssertUnwindSafe(|| once(op, a, px.as_ref(), pp.as_ref())));
    let pl = disarm();
    let faulted = match r {
        Ok(Ok(t)) => format!("ok {}", t),
        Ok(Err(t)) => {
            if t.starts_with("BAD ") {
                return Err(t);
            }
            format!("err {}", t)
        }
        Err(p) => {
            let t = p.downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            drop(p);
            format!("panic {}", t)
        }
    };
    let after = parent(&px, &pp);
    let retry = match once(op, a, px.as_ref(), pp.as_ref()) {
        Ok(t) => format!("ok {}", t),
        Err(t) => format!("err {}", t),
    };
    Ok(format!("{}\n{}\n{}\n{}\n{}\n{}", faulted, pl.fired, pl.log, before, after, retry))
}

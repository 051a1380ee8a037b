//! Output sinks that fail, write short, are interrupted or panic.
use crate::*;
use std::fmt::{self, Write as _};
use std::io::{self, Write as _};

/// Behaviour of a sink: a list of (kind, value) bytes pairs consumed per write call, then `cap` total bytes.
pub struct FmtSink {
    pub got: String,
    pub cap: usize,
    pub panic: bool,
    pub failed: bool,
    /// 1 = refuses once and then works again, 2 = the same, and refuses a write whole
    pub once: u8,
}

impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        visit();
        let room = self.cap.saturating_sub(self.got.len());
        if (s.len() <= room && !self.failed) || (self.failed && self.once > 0) {
            self.got.push_str(s);
            return Ok(());
        }
        if !self.failed && self.once < 2 {
            // a sink that runs full takes what fits
            let mut n = room;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.got.push_str(&s[..n]);
        }
        self.failed = true;
        if self.panic {
            panic!("callback panic (sink)");
        }
        Err(fmt::Error)
    }
}

pub struct IoSink {
    pub got: Vec<u8>,
    /// per call: 0 = interrupted, n = accept at most n bytes, 255 = all; repeats its last entry
    pub script: Vec<u8>,
    pub pos: usize,
    pub cap: usize,
    pub err: u8,
    pub panic: bool,
    pub failed: bool,
    pub once: u8,
    pub ints: u32,
}

impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        visit();
        if self.failed && self.once > 0 {
            self.got.extend_from_slice(b);
            return Ok(b.len());
        }
        if self.got.len() >= self.cap || self.failed {
            self.failed = true;
            if self.panic {
                panic!("callback panic (sink)");
            }
            return match self.err {
                0 => Ok(0),
                1 => Err(io::Error::from_raw_os_error(28)),
                2 => Err(io::Error::from_raw_os_error(5)),
                3 => Err(io::ErrorKind::WouldBlock.into()),
                _ => Err(io::ErrorKind::BrokenPipe.into()),
            };
        }
        let k = if self.script.is_empty() { 255 } else { self.script[self.pos.min(self.script.len() - 1)] };
        self.pos += 1;
        if k == 0 && self.ints < 40 {
            self.ints += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(if k == 255 || k == 0 { usize::MAX } else { k as usize }).min(self.cap - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Thing {
    M(Mnemonic),
    S(Seed),
    K(ExtendedKey),
    P(Prefix),
    D(DerivationPath),
    C(ChildNumber),
    X(XPrv),
    Z(zeroize::Zeroizing<String>),
}

macro_rules! put {
    ($w:expr, $t:expr, $f:expr) => {
        match ($t, $f) {
            (Thing::M(m), b'x') => write!($w, "{:x}", m).map_err(|_| ()),
            (Thing::M(m), b'X') => write!($w, "{:X}", m).map_err(|_| ()),
            (Thing::M(m), b'y') => write!($w, "{:#x}", m).map_err(|_| ()),
            (Thing::M(m), b'Y') => write!($w, "{:#X}", m).map_err(|_| ()),
            (Thing::M(m), _) => write!($w, "{}", m).map_err(|_| ()),
            (Thing::S(m), b'X') => write!($w, "{:X}", m).map_err(|_| ()),
            (Thing::S(m), b'y') => write!($w, "{:#x}", m).map_err(|_| ()),
            (Thing::S(m), b'Y') => write!($w, "{:#X}", m).map_err(|_| ()),
            (Thing::S(m), _) => write!($w, "{:x}", m).map_err(|_| ()),
            (Thing::K(k), _) => write!($w, "{}", k).map_err(|_| ()),
            (Thing::P(k), _) => write!($w, "{}", k).map_err(|_| ()),
            (Thing::D(k), _) => write!($w, "{}", k).map_err(|_| ()),
            (Thing::C(k), _) => write!($w, "{}", k).map_err(|_| ()),
            (Thing::X(k), b'y') => write!($w, "{:#?}", k).map_err(|_| ()),
            (Thing::X(k), b'x') => write!($w, "{:x?}", k).map_err(|_| ()),
            (Thing::X(k), b'X') => write!($w, "{:#X?}", k).map_err(|_| ()),
            (Thing::X(k), b'Y') => write!($w, "{:>300.9?}", k).map_err(|_| ()),
            (Thing::X(k), _) => write!($w, "{:?}", k).map_err(|_| ()),
            (Thing::Z(k), _) => write!($w, "{}", **k).map_err(|_| ()),
        }
    };
}

fn message(p: Box<dyn std::any::Any + Send>) -> String {
    let t = p.downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
    drop(p);
    format!("\n{}", t)
}

/// a[0] = what + format, then the value's arguments, last = sink description:
/// [kind f|i, cap u32, err, panic, script...]. Result: status \n received (hex) \n flags
pub fn run(op: &str, a: &[Vec<u8>]) -> R {
    let (sk, a) = a.split_last().ok_or("BAD args")?;
    let fmtc = a[0].get(0).copied().unwrap_or(b'd');
    let t = match op {
        "out.mn" => Thing::M(Mnemonic::from_entropy(&a[1], lang(&a[2])).map_err(|e| format!("BAD {}", e))?),
        "out.mnp" => Thing::M(Mnemonic::from_phrase(&txt(&a[1]), lang(&a[2])).map_err(|e| format!("BAD {}", e))?),
        "out.seed" => {
            let m = Mnemonic::from_entropy(&a[1], lang(&a[2])).map_err(|e| format!("BAD {}", e))?;
            Thing::S(Seed::new(&m, &txt(&a[3])))
        }
        "out.ek" => Thing::K(mkek(prefix(&a[1]), &a[2])),
        "out.xdbg" => Thing::X(mkxprv(&a[1]).map_err(|e| format!("BAD {}", e))?),
        "out.xprv" => Thing::Z(mkxprv(&a[2]).map_err(|e| format!("BAD {}", e))?.to_string(prefix(&a[1]))),
        "out.prefix" => Thing::P(prefix(&a[1])),
        "out.path" => Thing::D(mkpath(&a[1])),
        "out.cn" => Thing::C(ChildNumber(u32be(&a[1]))),
        _ => return Err(format!("BAD op {}", op)),
    };
    let cap = u32be(&sk[1..5]) as usize;
    let mut why = String::new();
    let (err, pan, once) = (sk[5], sk[6] & 1 != 0, sk[6] >> 1);
    if sk[0] == b'f' {
        let mut w = FmtSink { got: String::new(), cap, panic: pan, failed: false, once };
        let r = catch_unwind(AssertUnwindSafe(|| put!(&mut w, &t, fmtc)));
        let st = match r {
            Ok(Ok(())) => "ok",
            Ok(Err(())) => "err",
            Err(p) => {
                why = message(p);
                "panic"
            }
        };
        Ok(format!("{}\n{}\n{}{}", st, hex(w.got.as_bytes()), w.failed, why))
    } else {
        let mut w = IoSink { got: vec![], script: sk[7..].to_vec(), pos: 0, cap, err, panic: pan, failed: false, once, ints: 0 };
        let r = catch_unwind(AssertUnwindSafe(|| put!(&mut w, &t, fmtc)));
        let st = match r {
            Ok(Ok(())) => "ok",
            Ok(Err(())) => "err",
            Err(p) => {
                why = message(p);
                "panic"
            }
        };
        Ok(format!("{}\n{}\n{}{}", st, hex(&w.got), w.failed, why))
    }
}

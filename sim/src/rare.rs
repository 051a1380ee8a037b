//! Rare values found beforehand: derivations, seeds, phrases and signatures whose results have
//! zero bytes where a mistake in padding, trimming or carrying would show.
use crate::model::{self, Ext, Model};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Default)]
pub struct Rare {
    /// parent, child number
    pub kids: Vec<(Ext, u32)>,
    /// ... and what they lead to
    pub born: Vec<Ext>,
    pub seeds: Vec<Vec<u8>>,
    /// entropy, language, password
    pub ents: Vec<(Vec<u8>, u8, String)>,
    /// private key, digest
    pub sigs: Vec<([u8; 32], [u8; 32])>,
    /// private keys with rare public keys
    pub keys: Vec<[u8; 32]>,
}
pub fn rare() -> &'static Rare {
    static R: OnceLock<Rare> = OnceLock::new();
    R.get_or_init(|| {
        let mut x = Rare::default();
        for l in include_str!("rare.txt").lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "kid" => x.kids.push((parent(f[1].parse().unwrap()), u32::from_str_radix(f[2], 16).unwrap())),
                "seed" => x.seeds.push(model::unhex(f[1])),
                "ent" => x.ents.push((model::unhex(f[1]), f[2].as_bytes()[0], if f[3] == "-" { String::new() } else { f[3].to_string() })),
                "sig" => x.sigs.push((model::unhex(f[1]).try_into().unwrap(), model::unhex(f[2]).try_into().unwrap())),
                "key" => x.keys.push(model::unhex(f[1]).try_into().unwrap()),
                _ => panic!("rare.txt"),
            }
        }
        let mut m = Model::new();
        x.born = x.kids.iter().map(|(p, c)| m.ckd_priv(p, *c).unwrap()).collect();
        x
    })
}

/// The parents the derivations were searched from.
pub fn parent(i: usize) -> Ext {
    let mut r = Rng::new(0xB32_0000 + i as u64);
    let mut key = [0u8; 33];
    key[1..].copy_from_slice(&r.bytes(32));
    match i {
        1 => key[1..31].fill(0),
        2 => {
            key[1..].copy_from_slice(&model::N);
            key[32] -= 5;
        }
        _ => {}
    }
    let mut e = Ext { depth: 3 * i as u8, fp: r.bytes(4).try_into().unwrap(), cn: 7, cc: r.bytes(32).try_into().unwrap(), key };
    if i == 0 {
        e.fp = [0; 4];
        e.cn = 0;
    }
    e
}

fn zeros(b: &[u8]) -> usize {
    b.iter().take_while(|x| **x == 0).count()
}
fn tail(b: &[u8]) -> usize {
    b.iter().rev().take_while(|x| **x == 0).count()
}

type Found = Arc<Mutex<BTreeMap<String, Vec<String>>>>;
fn note(f: &Found, what: String, line: String, max: usize) {
    let mut g = f.lock().unwrap();
    let v = g.entry(what).or_default();
    if v.len() < max && !v.contains(&line) {
        v.push(line);
    }
}

/// Searches anew and prints the table. Takes minutes; the table is committed.
pub fn grind() {
    let found: Found = Default::default();
    let mut hs = vec![];
    for t in 0..8u64 {
        let f = found.clone();
        hs.push(std::thread::spawn(move || {
            let mut m = Model::new();
            // derivations from private parents
            for pi in 0..4usize {
                let p = parent(pi);
                for hard in [true, false] {
                    let lim = if pi == 0 { 1u32 << 25 } else { 1 << 20 };
                    for i in (t as u32..lim).step_by(8) {
                        let c = i | if hard { 1 << 31 } else { 0 };
                        let b = m.ckd_bytes(&p, c);
                        let il: [u8; 32] = b[..32].try_into().unwrap();
                        let k = model::add_mod_n(&il, &p.sk());
                        for (n, x) in [("tweak", &il[..]), ("key", &k[..]), ("cc", &b[32..])] {
                            let (a, z) = (zeros(x), tail(x));
                            let line = format!("kid {} {:x}", pi, c);
                            if a >= 2 {
                                note(&f, format!("{} {} {} lead {}", pi, hard, n, a), line.clone(), 4);
                            }
                            if z >= 2 {
                                note(&f, format!("{} {} {} tail {}", pi, hard, n, z), line.clone(), 2);
                            }
                        }
                        if zeros(&k) > 0 && zeros(&b[32..]) > 0 {
                            note(&f, format!("{} {} both", pi, hard), format!("kid {} {:x}", pi, c), 4);
                        }
                    }
                }
                // rare public keys and fingerprints
                for i in (t as u32..if pi == 0 { 1 << 21 } else { 1 << 17 }).step_by(8) {
                    let b = m.ckd_bytes(&p, i);
                    let k = model::add_mod_n(&b[..32].try_into().unwrap(), &p.sk());
                    let s = libsecp256k1::SecretKey::parse(&k).unwrap();
                    let q = libsecp256k1::PublicKey::from_secret_key(&s).serialize_compressed();
                    let fp = m.fingerprint(&q);
                    let line = format!("kid {} {:x}", pi, i);
                    for (n, x) in [("point", &q[1..]), ("fp", &fp[..])] {
                        let (a, z) = (zeros(x), tail(x));
                        if a >= 2 {
                            note(&f, format!("{} {} lead {}", pi, n, a), line.clone(), 3);
                            note(&f, format!("{} {} lead {} key", pi, n, a), format!("key {}", model::hex(&k)), 3);
                        }
                        if z >= 2 {
                            note(&f, format!("{} {} tail {}", pi, n, z), line.clone(), 2);
                        }
                    }
                }
            }
            // seeds
            for (j, len) in [16usize, 32, 64, 128].into_iter().enumerate() {
                for i in (t..1 << 20).step_by(8) {
                    let s = Rng::new(0x5EED_0000_0000 + i + ((j as u64) << 40)).bytes(len);
                    let e = m.master(&s).unwrap();
                    for (n, x) in [("key", &e.key[1..]), ("cc", &e.cc[..])] {
                        let (a, z) = (zeros(x), tail(x));
                        if a >= 2 {
                            note(&f, format!("seed {} {} lead {}", len, n, a), format!("seed {}", model::hex(&s)), 2);
                        }
                        if z >= 2 {
                            note(&f, format!("seed {} {} tail {}", len, n, z), format!("seed {}", model::hex(&s)), 2);
                        }
                    }
                }
            }
            // phrases
            for i in (t..1 << 18).step_by(8) {
                let mut r = Rng::new(0xE170_0000_0000 + i);
                let n = model::ENT_LEN[r.below(5)];
                let ent = r.bytes(n);
                let lang = if i % 2 == 0 { b'e' } else { b'c' };
                let pw = ["", "pw"][r.below(2)];
                let ph = model::phrase_of(&ent, lang).unwrap();
                let s = model::pbkdf2(&model::phrase_bytes(&ph, lang), format!("mnemonic{}", pw).as_bytes());
                let e = m.master(&s).unwrap();
                for (n, x) in [("seed", &s[..]), ("key", &e.key[1..]), ("cc", &e.cc[..])] {
                    let (a, z) = (zeros(x), tail(x));
                    let line = format!("ent {} {} {}", model::hex(&ent), lang as char, if pw.is_empty() { "-" } else { pw });
                    if a >= 2 {
                        note(&f, format!("ent {} lead {}", n, a), line.clone(), 4);
                    }
                    if z >= 2 {
                        note(&f, format!("ent {} tail {}", n, z), line.clone(), 4);
                    }
                }
            }
            // signatures
            for i in (t..1 << 20).step_by(8) {
                let mut r = Rng::new(0x516_0000_0000 + i);
                let k = r.bytes(32);
                let d = r.bytes(32);
                let sk = libsecp256k1::SecretKey::parse_slice(&k).unwrap();
                let (s, _) = libsecp256k1::sign(&libsecp256k1::Message::parse_slice(&d).unwrap(), &sk);
                let b = s.serialize();
                for (n, x) in [("r", &b[..32]), ("s", &b[32..])] {
                    let (a, z) = (zeros(x), tail(x));
                    let line = format!("sig {} {}", model::hex(&k), model::hex(&d));
                    if a >= 2 {
                        note(&f, format!("sig {} lead {}", n, a), line.clone(), 3);
                    }
                    if z >= 2 {
                        note(&f, format!("sig {} tail {}", n, z), line.clone(), 2);
                    }
                }
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    for (k, v) in found.lock().unwrap().iter() {
        eprintln!("{}: {}", k, v.len());
        for l in v {
            println!("{}", l);
        }
    }
}

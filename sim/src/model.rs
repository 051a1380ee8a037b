//! Reference model of BIP39, BIP32 and Base58Check, written from the standards and sharing no code with kms.
//! Trusted: SHA-2, RIPEMD-160, HMAC, secp256k1 point arithmetic and Unicode normalisation crates.
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256, Sha512};
use std::collections::{BTreeMap, HashMap};
use unicode_normalization::UnicodeNormalization;

pub struct Lists {
    pub en: Vec<&'static str>,
    pub zh: Vec<&'static str>,
    pub gb: Vec<[u8; 2]>,
    pub en_i: BTreeMap<&'static str, u16>,
    pub zh_i: BTreeMap<&'static str, u16>,
}

impl Lists {
    pub fn load() -> Lists {
        let en: Vec<&str> = include_str!("../data/english.txt").lines().collect();
        let zh: Vec<&str> = include_str!("../data/chinese_simplified.txt").lines().collect();
        let gb: Vec<[u8; 2]> = include_str!("../data/chinese_gb18030.hex").lines().map(|l| unhex(l).try_into().unwrap()).collect();
        assert!(en.len() == 2048 && zh.len() == 2048 && gb.len() == 2048);
        let en_i = en.iter().enumerate().map(|(i, w)| (*w, i as u16)).collect();
        let zh_i = zh.iter().enumerate().map(|(i, w)| (*w, i as u16)).collect();
        Lists { en, zh, gb, en_i, zh_i }
    }
    pub fn words(&self, l: u8) -> &Vec<&'static str> {
        if l == b'c' {
            &self.zh
        } else {
            &self.en
        }
    }
    pub fn index(&self, l: u8) -> &BTreeMap<&'static str, u16> {
        if l == b'c' {
            &self.zh_i
        } else {
            &self.en_i
        }
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn lists() -> &'static Lists {
    static L: std::sync::OnceLock<Lists> = std::sync::OnceLock::new();
    L.get_or_init(Lists::load)
}

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}

// ------------------------------------------------------------------------------------------- BIP39
pub const ENT_LEN: [usize; 5] = [16, 20, 24, 28, 32];

fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1 == 1)).collect()
}

/// Entropy to words; None for a length BIP39 does not permit.
pub fn words_of(ent: &[u8], lang: u8) -> Option<Vec<&'static str>> {
    if !ENT_LEN.contains(&ent.len()) {
        return None;
    }
    let mut b = bits_of(ent);
    let cs = bits_of(&sha256(ent));
    b.extend_from_slice(&cs[..ent.len() * 8 / 32]);
    let w = lists().words(lang);
    Some(b.chunks(11).map(|c| w[c.iter().fold(0usize, |a, x| a * 2 + *x as usize)]).collect())
}
pub fn phrase_of(ent: &[u8], lang: u8) -> Option<String> {
    words_of(ent, lang).map(|w| w.join(" "))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Refusal {
    Word,
    Count,
    Checksum,
}

/// What a (possibly damaged) text says: the words after Unicode whitespace splitting and NFKD.
pub fn read_phrase(text: &str, lang: u8) -> Result<(String, Vec<u8>), Refusal> {
    let words: Vec<String> = text.split_whitespace().map(|w| w.nfkd().collect::<String>()).collect();
    // NFKD of a word may itself contain a space (e.g. compatibility characters): the joined text is what counts
    let joined = words.join(" ");
    let ix = lists().index(lang);
    let mut bits = vec![];
    let mut n = 0;
    for w in joined.split(' ') {
        let i = *ix.get(w).ok_or(Refusal::Word)?;
        for k in (0..11).rev() {
            bits.push(i >> k & 1 == 1);
        }
        n += 1;
    }
    if ![12, 15, 18, 21, 24].contains(&n) {
        return Err(Refusal::Count);
    }
    let ent_bits = n * 11 * 32 / 33;
    let ent: Vec<u8> = bits[..ent_bits].chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | *x as u8)).collect();
    let cs = bits_of(&sha256(&ent));
    if bits[ent_bits..] != cs[..n * 11 - ent_bits] {
        return Err(Refusal::Checksum);
    }
    Ok((joined, ent))
}

/// The places of a phrase's words in the list.
pub fn word_indices(phrase: &str, lang: u8) -> Vec<u16> {
    let l = lists();
    let ix = if lang == b'c' { &l.zh_i } else { &l.en_i };
    phrase.split(' ').filter_map(|w| ix.get(w).copied()).collect()
}
/// Bytes of the phrase that enter the seed computation.
pub fn phrase_bytes(phrase: &str, lang: u8) -> Vec<u8> {
    if lang == b'c' {
        let l = lists();
        let mut v = vec![];
        for (i, w) in phrase.split(' ').enumerate() {
            if i > 0 {
                v.push(b' ');
            }
            v.extend_from_slice(&l.gb[l.zh_i[w] as usize]);
        }
        v
    } else {
        phrase.as_bytes().to_vec()
    }
}

type H512 = Hmac<Sha512>;
fn hmac512(k: &[u8], parts: &[&[u8]]) -> [u8; 64] {
    let mut h = <H512 as Mac>::new_from_slice(k).unwrap();
    for p in parts {
        h.update(p);
    }
    h.finalize().into_bytes().into()
}

/// PBKDF2-HMAC-SHA512, 2048 rounds, 64 bytes (one block).
pub fn pbkdf2(pw: &[u8], salt: &[u8]) -> [u8; 64] {
    let base = <H512 as Mac>::new_from_slice(pw).unwrap();
    let mac = |parts: &[&[u8]]| -> [u8; 64] {
        let mut h = base.clone();
        for p in parts {
            h.update(p);
        }
        h.finalize().into_bytes().into()
    };
    let mut u = mac(&[salt, &[0, 0, 0, 1]]);
    let mut t = u;
    for _ in 1..2048 {
        u = mac(&[&u]);
        for i in 0..64 {
            t[i] ^= u[i];
        }
    }
    t
}

// ------------------------------------------------------------------------------------------- secp256k1 scalars
pub const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0,
    0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
pub const ZERO: [u8; 32] = [0; 32];

/// a + b and the carry out
pub fn add256(a: &[u8; 32], b: &[u8; 32]) -> ([u8; 32], bool) {
    let mut r = [0u8; 32];
    let mut c = 0u16;
    for i in (0..32).rev() {
        let s = a[i] as u16 + b[i] as u16 + c;
        r[i] = s as u8;
        c = s >> 8;
    }
    (r, c != 0)
}
pub fn sub256(a: &[u8; 32], b: &[u8; 32]) -> ([u8; 32], bool) {
    let mut r = [0u8; 32];
    let mut c = 0i16;
    for i in (0..32).rev() {
        let s = a[i] as i16 - b[i] as i16 - c;
        r[i] = s as u8;
        c = if s < 0 { 1 } else { 0 };
    }
    (r, c != 0)
}
pub fn scalar_ok(k: &[u8; 32]) -> bool {
    *k != ZERO && *k < N
}
pub fn add_mod_n(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (s, c) = add256(a, b);
    if c || s >= N {
        sub256(&s, &N).0
    } else {
        s
    }
}

pub struct Model {
    pubs: HashMap<[u8; 32], [u8; 33]>,
    seeds: HashMap<(Vec<u8>, String), [u8; 64]>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ext {
    pub depth: u8,
    pub fp: [u8; 4],
    pub cn: u32,
    pub cc: [u8; 32],
    /// 0x00 || private key, or the compressed public key
    pub key: [u8; 33],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DErr {
    Depth,
    Hardened,
    Key,
}

impl Ext {
    /// the 74 bytes `sut` builds keys from
    pub fn rec(&self) -> Vec<u8> {
        let mut v = vec![self.depth];
        v.extend_from_slice(&self.fp);
        v.extend_from_slice(&self.cn.to_be_bytes());
        v.extend_from_slice(&self.cc);
        v.extend_from_slice(&self.key);
        v
    }
    pub fn from_rec(r: &[u8]) -> Ext {
        Ext {
            depth: r[0],
            fp: r[1..5].try_into().unwrap(),
            cn: u32::from_be_bytes(r[5..9].try_into().unwrap()),
            cc: r[9..41].try_into().unwrap(),
            key: r[41..74].try_into().unwrap(),
        }
    }
    pub fn sk(&self) -> [u8; 32] {
        self.key[1..].try_into().unwrap()
    }
    fn attrs(&self) -> String {
        format!("{}|{}|{}|{}", self.depth, hex(&self.fp), self.cn, hex(&self.cc))
    }
    /// reads what `sut::desc_x` / `desc_p` print
    pub fn parse(d: &str, private: bool) -> Option<Ext> {
        let f: Vec<&str> = d.split('|').collect();
        if f.len() != 6 {
            return None;
        }
        let k = unhex(f[4]);
        let mut key = [0u8; 33];
        if private {
            if k.len() != 32 {
                return None;
            }
            key[1..].copy_from_slice(&k);
        } else {
            if k.len() != 33 {
                return None;
            }
            key.copy_from_slice(&k);
        }
        Some(Ext {
            depth: f[0].parse().ok()?,
            fp: unhex(f[1]).try_into().ok()?,
            cn: f[2].parse().ok()?,
            cc: unhex(f[3]).try_into().ok()?,
            key,
        })
    }
}

pub const LABELS: [(&str, u32); 8] = [
    ("xprv", 0x0488ADE4),
    ("xpub", 0x0488B21E),
    ("tprv", 0x04358394),
    ("tpub", 0x043587CF),
    ("yprv", 0x049D7878),
    ("ypub", 0x049D7CB2),
    ("zprv", 0x04B2430C),
    ("zpub", 0x04B24746),
];

impl Model {
    pub fn new() -> Model {
        Model { pubs: HashMap::new(), seeds: HashMap::new() }
    }
    pub fn pubkey(&mut self, sk: &[u8; 32]) -> [u8; 33] {
        if let Some(p) = self.pubs.get(sk) {
            return *p;
        }
        let s = libsecp256k1::SecretKey::parse(sk).expect("model: scalar");
        let p = libsecp256k1::PublicKey::from_secret_key(&s).serialize_compressed();
        if self.pubs.len() > 200_000 {
            self.pubs.clear();
        }
        self.pubs.insert(*sk, p);
        p
    }
    pub fn fingerprint(&self, pk: &[u8; 33]) -> [u8; 4] {
        let d = ripemd::Ripemd160::digest(sha256(pk));
        d[..4].try_into().unwrap()
    }
    pub fn seed(&mut self, phrase: &str, lang: u8, pw: &str) -> [u8; 64] {
        let pb = phrase_bytes(phrase, lang);
        let salt: String = format!("mnemonic{}", pw).nfkd().collect();
        let k = (pb, salt);
        if let Some(s) = self.seeds.get(&k) {
            return *s;
        }
        let s = pbkdf2(&k.0, k.1.as_bytes());
        if self.seeds.len() > 100_000 {
            self.seeds.clear();
        }
        self.seeds.insert(k, s);
        s
    }
    pub fn master(&mut self, seed: &[u8]) -> Option<Ext> {
        if ![16, 32, 64, 128].contains(&seed.len()) {
            return None;
        }
        let i = hmac512(b"Bitcoin seed", &[seed]);
        let k: [u8; 32] = i[..32].try_into().unwrap();
        if !scalar_ok(&k) {
            return None;
        }
        let mut key = [0u8; 33];
        key[1..].copy_from_slice(&k);
        Some(Ext { depth: 0, fp: [0; 4], cn: 0, cc: i[32..].try_into().unwrap(), key })
    }
    /// the 64 HMAC bytes of a private derivation
    pub fn ckd_bytes(&mut self, p: &Ext, cn: u32) -> [u8; 64] {
        if cn >> 31 == 1 {
            hmac512(&p.cc, &[&p.key, &cn.to_be_bytes()])
        } else {
            let pk = self.pubkey(&p.sk());
            hmac512(&p.cc, &[&pk, &cn.to_be_bytes()])
        }
    }
    pub fn ckd_priv(&mut self, p: &Ext, cn: u32) -> Result<Ext, DErr> {
        if p.depth == 255 {
            return Err(DErr::Depth);
        }
        let sk = p.sk();
        let pk = self.pubkey(&sk);
        let i = if cn >> 31 == 1 { hmac512(&p.cc, &[&p.key, &cn.to_be_bytes()]) } else { hmac512(&p.cc, &[&pk, &cn.to_be_bytes()]) };
        let il: [u8; 32] = i[..32].try_into().unwrap();
        if il >= N {
            return Err(DErr::Key);
        }
        let k = add_mod_n(&il, &sk);
        if k == ZERO {
            return Err(DErr::Key);
        }
        let mut key = [0u8; 33];
        key[1..].copy_from_slice(&k);
        Ok(Ext { depth: p.depth + 1, fp: self.fingerprint(&pk), cn, cc: i[32..].try_into().unwrap(), key })
    }
    pub fn ckd_pub(&mut self, p: &Ext, cn: u32) -> Result<Ext, DErr> {
        if cn >> 31 == 1 {
            return Err(DErr::Hardened);
        }
        if p.depth == 255 {
            return Err(DErr::Depth);
        }
        let i = hmac512(&p.cc, &[&p.key, &cn.to_be_bytes()]);
        let il: [u8; 32] = i[..32].try_into().unwrap();
        let t = libsecp256k1::SecretKey::parse(&il).map_err(|_| DErr::Key)?;
        let a = libsecp256k1::PublicKey::from_secret_key(&t);
        let b = libsecp256k1::PublicKey::parse_compressed(&p.key).map_err(|_| DErr::Key)?;
        let c = libsecp256k1::PublicKey::combine(&[a, b]).map_err(|_| DErr::Key)?;
        Ok(Ext { depth: p.depth + 1, fp: self.fingerprint(&p.key), cn, cc: i[32..].try_into().unwrap(), key: c.serialize_compressed() })
    }
    pub fn derive(&mut self, p: &Ext, path: &[u32], private: bool) -> Result<Ext, DErr> {
        let mut k = p.clone();
        for c in path {
            k = if private { self.ckd_priv(&k, *c)? } else { self.ckd_pub(&k, *c)? };
        }
        Ok(k)
    }
    pub fn neuter(&mut self, p: &Ext) -> Ext {
        let key = self.pubkey(&p.sk());
        Ext { key, ..p.clone() }
    }
    pub fn desc_x(&mut self, e: &Ext) -> String {
        let sk = e.sk();
        format!("{}|{}|{}", e.attrs(), hex(&sk), hex(&self.pubkey(&sk)))
    }
    pub fn desc_p(&self, e: &Ext) -> String {
        format!("{}|{}|{}", e.attrs(), hex(&e.key), hex(&self.fingerprint(&e.key)))
    }
    pub fn desc_ek(&self, label: usize, e: &Ext) -> String {
        format!("{}|{:08x}|{}|{}", LABELS[label].0, LABELS[label].1, e.attrs(), hex(&e.key))
    }
    pub fn desc_m(&self, phrase: &str, ent: &[u8], lang: u8) -> String {
        format!("{}|{}|{}|{}", lang as char, phrase, hex(ent), hex(&phrase_bytes(phrase, lang)))
    }
    pub fn point_ok(k: &[u8; 33]) -> bool {
        (k[0] == 2 || k[0] == 3) && libsecp256k1::PublicKey::parse_compressed(k).is_ok()
    }
}

// ------------------------------------------------------------------------------------------- Base58Check
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn b58(b: &[u8]) -> String {
    let z = b.iter().take_while(|x| **x == 0).count();
    let mut d: Vec<u8> = vec![];
    for x in b {
        let mut c = *x as u32;
        for y in d.iter_mut() {
            c += (*y as u32) << 8;
            *y = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            d.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s = "1".repeat(z);
    for x in d.iter().rev() {
        s.push(B58[*x as usize] as char);
    }
    s
}
pub fn unb58(s: &str) -> Option<Vec<u8>> {
    let z = s.bytes().take_while(|x| *x == b'1').count();
    let mut d: Vec<u8> = vec![];
    for ch in s.bytes() {
        let mut c = B58.iter().position(|x| *x == ch)? as u32;
        for y in d.iter_mut() {
            c += *y as u32 * 58;
            *y = c as u8;
            c >>= 8;
        }
        while c > 0 {
            d.push(c as u8);
            c >>= 8;
        }
    }
    let mut v = vec![0u8; z];
    v.extend(d.iter().rev());
    Some(v)
}
pub fn b58check(b: &[u8]) -> String {
    let mut v = b.to_vec();
    v.extend_from_slice(&sha256(&sha256(b))[..4]);
    b58(&v)
}
pub fn unb58check(s: &str) -> Option<Vec<u8>> {
    let v = unb58(s)?;
    if v.len() < 4 {
        return None;
    }
    let (b, c) = v.split_at(v.len() - 4);
    if sha256(&sha256(b))[..4] == *c {
        Some(b.to_vec())
    } else {
        None
    }
}
/// The version whose records begin with these four characters.
pub fn version_of(label: &str) -> Option<u32> {
    let b = unb58(&format!("{}{}", label, "c".repeat(107)))?;
    (b.len() == 82).then(|| u32::from_be_bytes(b[..4].try_into().unwrap()))
}
/// The content of a record, whatever its version: whether it is a valid private (or public) key.
pub fn content(s: &str, private: bool) -> Option<Ext> {
    let b = unb58check(s)?;
    if b.len() != 78 {
        return None;
    }
    let e = Ext::from_rec(&b[4..]);
    let ok = if private { e.key[0] == 0 && scalar_ok(&e.sk()) } else { Model::point_ok(&e.key) };
    (ok && (e.depth != 0 || (e.fp == [0; 4] && e.cn == 0))).then_some(e)
}
/// Whether the text of a record, or that of an all-zero record of the same version, is labelled private (or public).
pub fn labelled(s: &str, private: bool) -> bool {
    let end = if private { "prv" } else { "pub" };
    let Some(b) = unb58check(s) else { return false };
    if b.len() != 78 {
        return false;
    }
    let mut z = b[..4].to_vec();
    z.resize(78, 0);
    [s, &b58check(&z)].iter().any(|t| t.get(1..4) == Some(end))
}
pub fn record(version: u32, e: &Ext) -> Vec<u8> {
    let mut v = version.to_be_bytes().to_vec();
    v.extend(e.rec());
    v
}
pub fn key_text(label: usize, e: &Ext) -> String {
    b58check(&record(LABELS[label].1, e))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Rec {
    /// a well-formed record under one of the eight labels (index) whose content is valid
    Good(usize, Ext),
    Bad(&'static str),
    /// structurally fine but under a version the property does not speak about
    Foreign,
}

pub fn read_record(s: &str) -> Rec {
    let b = match unb58check(s) {
        None => return Rec::Bad("base58/checksum"),
        Some(b) => b,
    };
    if b.len() != 78 {
        return Rec::Bad("length");
    }
    let v = u32::from_be_bytes(b[..4].try_into().unwrap());
    let l = match LABELS.iter().position(|l| l.1 == v) {
        None => return Rec::Foreign,
        Some(l) => l,
    };
    let e = Ext::from_rec(&b[4..]);
    if e.depth == 0 && (e.fp != [0; 4] || e.cn != 0) {
        return Rec::Bad("master key with parent or index");
    }
    if l % 2 == 0 {
        if e.key[0] != 0 {
            return Rec::Bad("public key under a private label");
        }
        if !scalar_ok(&e.sk()) {
            return Rec::Bad("private key out of range");
        }
    } else if !Model::point_ok(&e.key) {
        return Rec::Bad("not a compressed curve point");
    }
    Rec::Good(l, e)
}

// ------------------------------------------------------------------------------------------- paths
pub fn path_text(p: &[u32]) -> String {
    let mut s = "m".to_string();
    for c in p {
        s.push('/');
        s.push_str(&cn_text(*c));
    }
    s
}
pub fn cn_text(c: u32) -> String {
    if c >> 31 == 1 {
        format!("{}'", c & 0x7fff_ffff)
    } else {
        format!("{}", c)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum PathRead {
    Good(Vec<u32>),
    Bad,
    /// unusual spelling of a number (plus sign, leading zeros): may be refused; if accepted it has this value
    Either(Vec<u32>),
}
pub fn read_cn(t: &str) -> PathRead {
    let (d, h) = match t.strip_suffix('\'') {
        Some(d) => (d, true),
        None => (t, false),
    };
    let (d2, odd) = match d.strip_prefix('+') {
        Some(x) => (x, true),
        None => (d, false),
    };
    if d2.is_empty() || !d2.bytes().all(|b| b.is_ascii_digit()) {
        return PathRead::Bad;
    }
    let mut v: u64 = 0;
    for b in d2.bytes() {
        v = (v * 10 + (b - b'0') as u64).min(1 << 40);
    }
    if v >= 1 << 31 {
        return PathRead::Bad;
    }
    let c = vec![v as u32 | if h { 1 << 31 } else { 0 }];
    if odd || (d2.len() > 1 && d2.starts_with('0')) {
        PathRead::Either(c)
    } else {
        PathRead::Good(c)
    }
}
pub fn read_path(t: &str) -> PathRead {
    let mut parts = t.split('/');
    if parts.next() != Some("m") {
        return PathRead::Bad;
    }
    let mut v = vec![];
    let mut odd = false;
    for p in parts {
        match read_cn(p) {
            PathRead::Good(c) => v.extend(c),
            PathRead::Either(c) => {
                odd = true;
                v.extend(c)
            }
            PathRead::Bad => return PathRead::Bad,
        }
    }
    if odd {
        PathRead::Either(v)
    } else {
        PathRead::Good(v)
    }
}

/// Known vectors; run at every start so that a wrong model cannot raise alarms.
pub fn selftest() {
    let mut m = Model::new();
    let e = unhex("00000000000000000000000000000000");
    let p = phrase_of(&e, b'e').unwrap();
    assert_eq!(p, "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about");
    assert_eq!(
        hex(&m.seed(&p, b'e', "TREZOR")),
        "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"
    );
    assert_eq!(read_phrase(&p, b'e').unwrap().1, e);
    let x = m.master(&unhex("000102030405060708090a0b0c0d0e0f")).unwrap();
    assert_eq!(
        key_text(0, &x),
        "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi"
    );
    let y = m.derive(&x, &[0x8000_0000, 1, 0x8000_0002, 2, 1000000000], true).unwrap();
    assert_eq!(
        key_text(0, &y),
        "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76"
    );
    let z = m.derive(&x, &[0x8000_0000, 1, 0x8000_0002], true).unwrap();
    let zp = m.neuter(&z);
    let w = m.derive(&zp, &[2, 1000000000], false).unwrap();
    assert_eq!(m.neuter(&y), w);
    assert_eq!(
        key_text(1, &w),
        "xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy"
    );
    assert_eq!(read_record(&key_text(1, &w)), Rec::Good(1, w));
    // BIP32 vector 3 and 4: leading zeros
    let x = m.master(&unhex("3ddd5602285899a946114506157c7997e5444528f3003f6134712147db19b678")).unwrap();
    let y = m.derive(&x, &[0x8000_0000], true).unwrap();
    assert_eq!(
        key_text(0, &y),
        "xprv9vB7xEWwNp9kh1wQRfCCQMnZUEG21LpbR9NPCNN1dwhiZkjjeGRnaALmPXCX7SgjFTiCTT6bXes17boXtjq3xLpcDjzEuGLQBM5ohqkao9G"
    );
    assert_eq!(unb58check(&b58check(&[0, 0, 7])).unwrap(), vec![0, 0, 7]);
}

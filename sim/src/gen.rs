//! Generators shared by the properties. Everything is biased towards edges, related values and the
//! constants the code itself compares with (dictionary gathered from the instrumentation).
use crate::ctx::{be, path_bytes, Ctx};
use crate::model::{self, lists, Ext, ENT_LEN, N};
use crate::node::{Env, Op, World};
use crate::rare::rare;
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use unicode_normalization::UnicodeNormalization;

// ------------------------------------------------------------------------------------------ numbers
/// a value from the dictionary below `max`, or one next to it
pub fn dict_below(r: &mut Rng, cx: &Ctx, max: u64) -> Option<u64> {
    if cx.dict.is_empty() {
        return None;
    }
    for _ in 0..8 {
        let v = cx.dict[r.below(cx.dict.len())].1;
        let v = match r.below(4) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        };
        if v < max {
            return Some(v);
        }
    }
    None
}
pub fn byte(r: &mut Rng, cx: &Ctx) -> u8 {
    match r.below(10) {
        0 => 0,
        1 => 0xff,
        2 => *r.pick(&[1, 0x7f, 0x80, 0x81, 0xfe]),
        3 => dict_below(r, cx, 256).unwrap_or(7) as u8,
        _ => r.u8(),
    }
}
pub fn depth(r: &mut Rng, cx: &Ctx) -> u8 {
    match r.below(8) {
        0 => *r.pick(&[1, 2, 3, 4, 5]),
        1 => *r.pick(&[126, 127, 128, 129]),
        2 => *r.pick(&[252, 253, 254, 255]),
        3 => dict_below(r, cx, 256).unwrap_or(9) as u8,
        4 => 0,
        _ => r.u8(),
    }
}
pub fn cn(r: &mut Rng, cx: &Ctx) -> u32 {
    let v = match r.below(12) {
        0 => 0,
        1 => r.below(10) as u32,
        2 => *r.pick(&[0x7fff_ffff, 0x7fff_fffe, 0x7fff_ff00, 0x4000_0000, 0x3fff_ffff]),
        3 => *r.pick(&[255, 256, 257, 65535, 65536, 65537, 0xff_ffff, 0x100_0000, 999_999_999, 1_000_000_000, 2_000_000_000, 2_147_483_600]),
        4 => 1u32 << r.below(31),
        5 => (1u32 << r.below(31)).wrapping_sub(1),
        6 => 10u32.pow(r.below(10) as u32),
        7 => dict_below(r, cx, 1 << 31).unwrap_or(44) as u32,
        8 => *r.pick(&[44, 49, 84, 86, 60, 1, 2, 1852]),
        9 => r.log(0x7fff_ffff) as u32,
        _ => r.u32() & 0x7fff_ffff,
    };
    v & 0x7fff_ffff
}
/// any child number
pub fn cnh(r: &mut Rng, cx: &Ctx) -> u32 {
    cn(r, cx) | if r.pct(45) { 1 << 31 } else { 0 }
}
/// Makes a path to be followed from a key resemble where the key itself is.
pub fn kin(r: &mut Rng, e: &Ext, path: &mut Vec<u32>, hard: bool) {
    if !r.pct(20) || path.is_empty() {
        return;
    }
    let m = if hard { u32::MAX } else { 0x7fff_ffff };
    match r.below(4) {
        0 => {
            // as if it were written from the root
            let k = e.depth as usize;
            if (1..30).contains(&k) {
                while path.len() < k + 1 + r.below(3) {
                    let c = path[r.below(path.len())] ^ r.below(3) as u32;
                    path.push(c & m);
                }
                path[k - 1] = e.cn & m;
            }
        }
        1 => {
            let i = r.below(path.len());
            path[i] = e.cn & m;
        }
        2 => path[0] = (e.cn ^ 1 << 31) & m,
        _ => {
            let i = r.below(path.len());
            path[i] = *r.pick(&[e.depth as u32, u32::from_be_bytes(e.fp), e.depth as u32 + 1]) & m;
        }
    }
}
pub fn path(r: &mut Rng, cx: &Ctx, max: usize, hard: bool) -> Vec<u32> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => dict_below(r, cx, max as u64 + 1).unwrap_or(3) as usize,
        _ => r.range(0, max),
    };
    let mut v: Vec<u32> = vec![];
    for i in 0..n {
        let c = match r.below(6) {
            0 if i > 0 => v[i - 1 - if r.pct(30) { r.below(i) } else { 0 }],
            1 if i > 0 => v[i - 1] ^ (1 << r.below(32)),
            _ => cnh(r, cx),
        };
        v.push(if hard { c } else { c & 0x7fff_ffff });
    }
    v
}

// ------------------------------------------------------------------------------------------ bytes
/// 32 bytes with structure
pub fn b32(r: &mut Rng, cx: &Ctx) -> [u8; 32] {
    let mut b = [0u8; 32];
    if r.pct(4) {
        if let Some(v) = r.recall_n(b"besw", 32) {
            return v.try_into().unwrap();
        }
    }
    match r.below(10) {
        0 => b[31] = r.u8() | 1,
        1 => {
            let z = r.range(1, 31);
            for x in b[z..].iter_mut() {
                *x = r.u8()
            }
        }
        2 => {
            b = r.bytes(32).try_into().unwrap();
            let z = r.range(1, 4);
            for x in b[..z].iter_mut() {
                *x = 0
            }
        }
        3 => {
            b = r.bytes(32).try_into().unwrap();
            let z = r.range(1, 31);
            for x in b[z..].iter_mut() {
                *x = 0
            }
        }
        4 => b = [0xff; 32],
        5 => {
            for x in b.iter_mut() {
                *x = byte(r, cx)
            }
        }
        6 => b = [r.u8(); 32],
        _ => b = r.bytes(32).try_into().unwrap(),
    }
    r.note(b'b', &b);
    b
}
/// a valid private key
pub fn scalar(r: &mut Rng, cx: &Ctx) -> [u8; 32] {
    let b = match r.below(13) {
        12 if !rare().keys.is_empty() && r.pct(50) => *r.pick(&rare().keys),
        0 => {
            let mut b = N;
            b[31] -= r.range(1, 3) as u8;
            b
        }
        1 => {
            let mut b = [0u8; 32];
            b[31] = r.range(1, 3) as u8;
            b
        }
        2 => {
            // around half the order
            let mut b = [0u8; 32];
            let mut c = 0;
            for i in 0..32 {
                b[i] = (c << 7) | (N[i] >> 1);
                c = N[i] & 1;
            }
            if r.pct(50) {
                b[31] = b[31].wrapping_add(1);
            }
            b
        }
        _ => b32(r, cx),
    };
    if model::scalar_ok(&b) {
        b
    } else {
        let mut b = [0x5a; 32];
        b[31] = r.u8();
        b
    }
}
pub fn ent_len(r: &mut Rng) -> usize {
    *r.pick(&ENT_LEN)
}
pub fn lang(r: &mut Rng) -> u8 {
    if r.pct(40) {
        b'c'
    } else {
        b'e'
    }
}
/// entropy whose English phrase is as long or as short as can be, or has few letters
fn wordy(r: &mut Rng) -> Vec<u8> {
    let n = if r.pct(60) { 32 } else { ent_len(r) };
    let len = *r.pick(&[8usize, 8, 8, 3, 4, 7]);
    let first = *r.pick(b"abcst");
    let by_len = r.pct(75);
    let l = lists().words(b'e');
    let pool: Vec<usize> = (0..2048).filter(|i| if by_len { l[*i].len() == len } else { l[*i].as_bytes()[0] == first }).collect();
    let mut bits = vec![];
    for _ in 0..n * 3 / 4 {
        let w = *r.pick(&pool);
        bits.extend((0..11).rev().map(|i| w >> i & 1 == 1));
    }
    bits.truncate(n * 8);
    bits.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | *x as u8)).collect()
}
/// entropy of a permitted length
pub fn ent(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let n = ent_len(r);
    let e = match r.recall_n(b"besw", n) {
        Some(e) if r.pct(4) => e,
        _ => fresh_ent(r, cx),
    };
    r.note(b'e', &e);
    e
}
fn fresh_ent(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    if r.pct(7) {
        return wordy(r);
    }
    if r.pct(2) && !rare().ents.is_empty() {
        return r.pick(&rare().ents).0.clone();
    }
    let n = ent_len(r);
    match r.below(10) {
        0 => vec![*r.pick(&[0, 0xff, 0x7f, 0x80, 0x55]); n],
        1 => (0..n).map(|_| byte(r, cx)).collect(),
        2 => {
            let mut b = vec![0; n];
            let k = r.below(n * 8);
            b[k / 8] ^= 1 << (k % 8);
            b
        }
        3 => {
            let mut b = r.bytes(n);
            let z = r.range(1, n - 1);
            b[..z].iter_mut().for_each(|x| *x = 0);
            b
        }
        4 => {
            // chosen words
            let k = n * 3 / 4;
            let mut bits = vec![];
            let w0 = r.below(2048);
            for _ in 0..k {
                let w = match r.below(5) {
                    0 => *r.pick(&[0usize, 1, 2, 2047, 2046, 1023, 1024, 255, 256, 511, 512]),
                    1 => w0,
                    2 => dict_below(r, cx, 2048).unwrap_or(0) as usize,
                    _ => r.below(2048),
                };
                for i in (0..11).rev() {
                    bits.push(w >> i & 1 == 1);
                }
            }
            bits.truncate(n * 8);
            while bits.len() < n * 8 {
                bits.push(r.pct(50));
            }
            bits.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | *x as u8)).collect()
        }
        _ => r.bytes(n),
    }
}
pub fn seed(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let n = *r.pick(&[16, 32, 64, 128, 64]);
    let s = match r.recall_n(b"besw", n) {
        Some(s) if r.pct(5) => s,
        _ => fresh_seed(r, cx, n),
    };
    r.note(b's', &s);
    s
}
fn fresh_seed(r: &mut Rng, cx: &Ctx, n: usize) -> Vec<u8> {
    if r.pct(5) && !rare().seeds.is_empty() {
        return r.pick(&rare().seeds).clone();
    }
    match r.below(9) {
        6 => {
            // bytes that could be taken for text of some kind
            const T: [&[u8]; 6] = [
                b"0123456789abcdef",
                b"0123456789ABCDEF",
                b"0123456789",
                b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",
                b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
                b"abcdefghijklmnopqrstuvwxyz ",
            ];
            let t = *r.pick(&T);
            let mut v: Vec<u8> = (0..n).map(|_| *r.pick(t)).collect();
            if r.pct(25) {
                v[0] = b'0';
                v[1] = b'x';
            }
            v
        }
        7 => {
            // two equal halves, or a phrase cut to length
            let mut v = r.bytes(n);
            if r.pct(50) {
                let h = v[..n / 2].to_vec();
                v[n / 2..].copy_from_slice(&h);
            } else {
                let e = ent(r, cx);
                let p = model::phrase_of(&e, lang(r)).unwrap().into_bytes();
                v = p.into_iter().cycle().take(n).collect();
            }
            v
        }
        8 => {
            // zeros at one end
            let mut v = r.bytes(n);
            let k = r.range(1, n - 1);
            if r.pct(50) {
                v[..k].fill(0);
            } else {
                v[k..].fill(0);
            }
            v
        }
        0 => vec![*r.pick(&[0, 0xff, 1, 0x80]); n],
        1 => (0..n).map(|_| byte(r, cx)).collect(),
        _ => r.bytes(n),
    }
}
pub fn password(r: &mut Rng, cx: &Ctx) -> String {
    let s = match r.below(16) {
        0 | 1 => kin_password(r),
        _ => None,
    };
    let s = match s {
        Some(s) => s,
        None => fresh_password(r, cx),
    };
    r.note(b'w', s.as_bytes());
    s
}
/// One that looks like the words, the entropy, an earlier password or the text the seed's salt begins with.
fn kin_password(r: &mut Rng) -> Option<String> {
    if r.pct(20) {
        return Some(["mnemonic", "mnemonicmnemonic", "mnemonicTREZOR", "Bitcoin seed", "m", "xprv", "mnemoni", "Mnemonic"][r.below(8)].to_string());
    }
    if r.pct(25) {
        let w = String::from_utf8(r.recall(b"w")?).ok()?;
        return Some(match r.below(5) {
            0 => format!("{}{}", w, w),
            1 => format!("mnemonic{}", w),
            2 => w.chars().rev().collect(),
            3 => w.to_lowercase(),
            _ => w,
        });
    }
    let e = r.recall(b"e")?;
    let l = lang(r);
    let p = model::phrase_of(&e, l)?;
    let first = p.split(' ').next().unwrap_or("").to_string();
    let last = p.rsplit(' ').next().unwrap_or("").to_string();
    Some(match r.below(12) {
        0..=2 => p,
        3 => p.to_uppercase(),
        4 => p.replace(' ', ""),
        5 => format!("mnemonic{}", p),
        6 => format!(" {}", p),
        7 => first,
        8 => last,
        9 => p.split(' ').rev().collect::<Vec<_>>().join(" "),
        10 => model::hex(&e),
        _ => p.split(' ').take(r.range(2, 11)).collect::<Vec<_>>().join(" "),
    })
}
fn fresh_password(r: &mut Rng, cx: &Ctx) -> String {
    const ODD: [&str; 28] = [
        "é", "e\u{301}", "ﬁ", "ﬀ", "Å", "\u{212b}", "Ⅳ", "①", "ｋ", "한", "가각", "ｶﾞ", "が", "\u{1e9b}\u{323}", "a\u{323}\u{307}", "a\u{307}\u{323}", "½", "²",
        "\u{a0}", "\u{3000}", "\u{200b}", "\u{0}", "\n", "😀", "\u{1d41a}", "㎏", "メートルガバヴァぱばぐゞちぢ十人十色", "㍍",
    ];
    match r.below(12) {
        0 | 1 => String::new(),
        2 => "TREZOR".into(),
        3 => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&ODD)).collect()
        }
        4 => {
            let n = match r.below(5) {
                4 if r.pct(15) => *r.pick(&[255usize, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65600]),
                0 => r.range(100, 130),
                1 => r.range(200, 300),
                2 => dict_below(r, cx, 300).unwrap_or(64) as usize,
                _ => r.range(20, 64),
            };
            (0..n).map(|_| (b' ' + (r.u8() % 95)) as char).collect()
        }
        5 => {
            let n = r.range(1, 40);
            (0..n).map(|_| if r.pct(40) { r.pick(&ODD).to_string() } else { ((b'a' + r.u8() % 26) as char).to_string() }).collect()
        }
        6 => {
            let mut s = " ".repeat(r.below(3));
            s.push_str("pass word");
            s.push_str(&" ".repeat(r.below(3)));
            s
        }
        7 => {
            let n = r.range(1, 8);
            (0..n).map(|_| char::from_u32(r.log(0x10ffff) as u32).unwrap_or('x')).collect()
        }
        _ => {
            let n = r.range(1, 16);
            (0..n).map(|_| (b'!' + (r.u8() % 94)) as char).collect()
        }
    }
}

// ------------------------------------------------------------------------------------------ re-entered words
pub struct Forms {
    /// text -> characters whose NFKD is that text
    pub by: BTreeMap<String, Vec<char>>,
    pub spaces: Vec<&'static str>,
}
pub fn forms() -> &'static Forms {
    static F: OnceLock<Forms> = OnceLock::new();
    F.get_or_init(|| {
        let zh = &lists().zh_i;
        let mut by: BTreeMap<String, Vec<char>> = BTreeMap::new();
        for u in 0x80u32..0x30000 {
            let c = match char::from_u32(u) {
                Some(c) => c,
                None => continue,
            };
            let mut it = std::iter::once(c).nfkd();
            let a = it.next();
            if a == Some(c) {
                continue;
            }
            let d: String = std::iter::once(c).nfkd().collect();
            if d.bytes().all(|b| b.is_ascii_lowercase()) || zh.contains_key(d.as_str()) {
                by.entry(d).or_default().push(c);
            }
        }
        Forms {
            by,
            spaces: vec![
                " ", "  ", "\t", "\n", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2003}", "\u{2009}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}",
                "\u{3000}", " \u{3000} ", "\n\n\n",
            ],
        }
    })
}
/// The same words, typed differently.
pub fn respell(r: &mut Rng, phrase: &str) -> String {
    let f = forms();
    let p_char = *r.pick(&[0usize, 0, 10, 30, 100]);
    let p_sp = *r.pick(&[0usize, 10, 50, 100]);
    let mut s = String::new();
    if r.pct(p_sp) {
        s.push_str(r.pick(&f.spaces));
    }
    let mut first = true;
    for w in phrase.split(' ') {
        if !first {
            if r.pct(p_sp) {
                s.push_str(r.pick(&f.spaces));
                if r.pct(20) {
                    s.push_str(r.pick(&f.spaces));
                }
            } else {
                s.push(' ');
            }
        }
        first = false;
        let cs: Vec<char> = w.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let mut done = false;
            if r.pct(p_char) {
                for k in [3, 2, 1] {
                    if i + k <= cs.len() && (k == 1 || r.pct(70)) {
                        let t: String = cs[i..i + k].iter().collect();
                        if let Some(v) = f.by.get(&t) {
                            s.push(*r.pick(v));
                            i += k;
                            done = true;
                            break;
                        }
                    }
                }
            }
            if !done {
                s.push(cs[i]);
                i += 1;
            }
        }
    }
    if r.pct(p_sp / 2) {
        s.push_str(r.pick(&f.spaces));
    }
    s
}

// ------------------------------------------------------------------------------------------ damage
/// Damages a text the way storage and people do. May return the text unchanged.
/// a character that does not belong into a phrase: invisible, combining, punctuation, control
pub fn stray(r: &mut Rng) -> char {
    const ODD: [char; 48] = [
        '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{200f}', '\u{2060}', '\u{2061}', '\u{2064}', '\u{feff}', '\u{ad}', '\u{61c}', '\u{180e}', '\u{34f}',
        '\u{fe0e}', '\u{fe0f}', '\u{202a}', '\u{202e}', '\u{2066}', '\u{2069}', '\u{e0020}', '\u{e0100}', '\u{300}', '\u{301}', '\u{307}', '\u{308}', '\u{323}',
        '\u{20dd}', '\u{a8}', '\u{b4}', '\u{b7}', '\u{2019}', '\u{2013}', '\u{2028}', '\u{7f}', '\u{9c}', '.', ',', ';', ':', '-', '_', '\'', '"', '(', ')', '0', '1', '\u{fffd}',
    ];
    match r.below(8) {
        0 => (r.below(32) as u8) as char,
        1 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
        _ => *r.pick(&ODD),
    }
}
/// The text as somebody might have written it down.
pub fn human(r: &mut Rng, t: &str) -> String {
    let w: Vec<&str> = t.split(' ').collect();
    let cap = |x: &str| {
        let mut c = x.chars();
        c.next().map(|f| f.to_uppercase().chain(c).collect::<String>()).unwrap_or_default()
    };
    if w.len() > 1 && r.pct(75) {
        // words
        let from = *r.pick(&[0usize, 1, 1, 1]);
        let n = |i: usize| i + from;
        let each = |f: &dyn Fn(usize, &str) -> String, sep: &str| w.iter().enumerate().map(|(i, x)| f(i, x)).collect::<Vec<_>>().join(sep);
        return match r.below(20) {
            0 => each(&|i, x| format!("{}. {}", n(i), x), " "),
            1 => each(&|i, x| format!("{}.{}", n(i), x), " "),
            2 => each(&|i, x| format!("{}) {}", n(i), x), "\n"),
            3 => each(&|i, x| format!("{}:{}", n(i), x), " "),
            4 => each(&|i, x| format!("{} {}", n(i), x), " "),
            5 => each(&|i, x| format!("{}{}", x, n(i)), " "),
            6 => w.join(","),
            7 => w.join(", "),
            8 => w.join(*r.pick(&["-", "/", "_", ".", ";", "|", "+", "\t", " - ", " / ", "\\n", "%20", "&nbsp;", "<br>"])),
            9 => format!("\"{}\"", t),
            10 => each(&|_, x| format!("\"{}\"", x), *r.pick(&[" ", ",", ", "])),
            11 => format!("[{}]", each(&|_, x| format!("\"{}\"", x), ",")),
            12 => each(&|_, x| cap(x), *r.pick(&[" ", ""])),
            13 => t.to_uppercase(),
            14 => w.concat(),
            15 => format!("{} {}", *r.pick(&["seed:", "mnemonic:", "phrase", "BIP39", "words:", "12", "24", "en", "english", "#", "//", ">"]), t),
            16 => format!("{} {}", t, *r.pick(&["# backup", "(12 words)", "end", "12", ".", "--", "0x00", "TREZOR", "\"\""])),
            17 => {
                // columns read downwards
                let k = r.range(2, 6);
                (0..k).flat_map(|c| w.iter().skip(c).step_by(k)).copied().collect::<Vec<_>>().join(" ")
            }
            18 => each(&|_, x| format!("{}.", x), " "),
            _ => {
                // one word left open
                let i = r.below(w.len());
                let x = *r.pick(&["?", "*", "...", "____", "<word>", "", "[illegible]", "x"]);
                w.iter().enumerate().map(|(k, y)| if k == i { x } else { y }).collect::<Vec<_>>().join(" ")
            }
        };
    }
    // characters taken for others
    const LIKE: [(char, char); 22] = [
        ('o', '0'), ('O', '0'), ('l', '1'), ('I', '1'), ('1', 'l'), ('1', 'I'), ('0', 'O'), ('0', 'o'), ('5', 'S'), ('S', '5'), ('8', 'B'), ('B', '8'), ('2', 'Z'), ('Z', '2'),
        ('i', 'l'), ('a', 'а'), ('e', 'е'), ('o', 'о'), ('c', 'с'), ('p', 'р'), ('x', 'х'), ('1', '１'),
    ];
    let swap = |all: bool, r: &mut Rng| {
        for _ in 0..30 {
            let (a, b) = *r.pick(&LIKE);
            let at: Vec<usize> = t.char_indices().filter(|(_, c)| *c == a).map(|(i, _)| i).collect();
            if at.is_empty() {
                continue;
            }
            let k = at[r.below(at.len())];
            return t.char_indices().map(|(i, c)| if c == a && (all || i == k) { b } else { c }).collect::<String>();
        }
        t.to_string()
    };
    match r.below(9) {
        0 => swap(true, r),
        1..=3 => swap(false, r),
        4 => {
            // in groups or lines
            let k = *r.pick(&[4usize, 4, 5, 8, 10, 16, 32, 64]);
            let c: Vec<char> = t.chars().collect();
            c.chunks(k).map(|x| x.iter().collect::<String>()).collect::<Vec<_>>().join(*r.pick(&[" ", "\n", "-", "\r\n", "\u{200b}", "=\n", "_", "'"]))
        }
        5 => {
            let (a, b) = *r.pick(&[("\"", "\""), ("'", "'"), ("<", ">"), ("`", "`"), ("(", ")"), ("“", "”"), ("[", "]"), ("{", "}"), ("b'", "'")]);
            format!("{}{}{}", a, t, b)
        }
        6 => format!("{}{}", *r.pick(&["xpub:", "key=", "bitcoin:", "0x", "base58:", "[00000000/44'/0'/0']", "[deadbeef]", "pkh(", "//", "\u{feff}", "- "]), t),
        7 => format!("{}{}", t, *r.pick(&["/0/*", "/*", "/<0;1>/*", ")", "#checksum", ";", ",", ".", "?", "=", "==", "/", "/0", "\n\n", " ", "\u{0}"])),
        _ => t.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
/// Far more text than anything needs: a parser may neither recurse over it nor lose count.
fn giant(r: &mut Rng, t: &str) -> Vec<u8> {
    let n = *r.pick(&[300usize, 3_000, 30_000, 65_536, 70_000, 140_000]);
    let w: Vec<&str> = t.split(' ').collect();
    let i = r.below(w.len());
    let one = |x: String| w.iter().enumerate().map(|(k, y)| if k == i { x.clone() } else { y.to_string() }).collect::<Vec<_>>().join(" ");
    match r.below(9) {
        0 => vec![t; n / t.len().max(1) + 1].join(" "),
        1 => one(format!("{}{}", w[i], " ".repeat(n))),
        2 => one(w[i].repeat(n / w[i].len().max(1) + 1)),
        3 => one(format!("{}{}", w[i], "\u{301}".repeat(n / 2))),
        4 => one(format!("{}{}", w[i], ["\u{301}", "\u{323}", "\u{345}", "\u{1d165}"].concat().repeat(n / 11))),
        5 => vec![w[i]; n / w[i].len().max(1) + 1].join(" "),
        6 => format!("{}{}", "1".repeat(n), t),
        7 => format!("{}{}{}", " ".repeat(n), t, "\n".repeat(n)),
        _ => {
            let l = lists().words(b'e');
            (0..n / 6).map(|_| *r.pick(l)).collect::<Vec<_>>().join(" ")
        }
    }
    .into_bytes()
}
pub fn damage(r: &mut Rng, t: &str, other: &str, zh: bool) -> Vec<u8> {
    if r.below(300) == 0 {
        return giant(r, t);
    }
    let mut v: Vec<u8> = t.as_bytes().to_vec();
    match r.below(17) {
        16 => v = human(r, t).into_bytes(),
        0 => {
            // one flipped bit
            if !v.is_empty() {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
        }
        1 => {
            // a changed byte
            if !v.is_empty() {
                let i = r.below(v.len());
                v[i] = r.u8();
            }
        }
        2 => {
            let n = r.below(v.len() + 1);
            v.truncate(n);
        }
        3 => {
            // torn: front of one, back of the other
            let o = other.as_bytes();
            let k = (r.range(0, v.len().max(1) / 16) * 16).min(v.len());
            let mut n = v[..k].to_vec();
            if k < o.len() {
                n.extend_from_slice(&o[k..]);
            }
            v = n;
        }
        4 => {
            // lost bytes
            if !v.is_empty() {
                let i = r.below(v.len());
                let n = r.range(1, 16).min(v.len() - i);
                v.drain(i..i + n);
            }
        }
        5 => {
            // repeated bytes
            if !v.is_empty() {
                let i = r.below(v.len());
                let n = r.range(1, 16).min(v.len() - i);
                let c = v[i..i + n].to_vec();
                for (k, b) in c.into_iter().enumerate() {
                    v.insert(i + k, b);
                }
            }
        }
        6 => {
            // a block of zeros or ones
            if !v.is_empty() {
                let i = r.below(v.len());
                let n = r.range(1, 16).min(v.len() - i);
                let c = *r.pick(&[0u8, 0xff, b' ', b'\n', 0x80, 0xe4]);
                v[i..i + n].iter_mut().for_each(|b| *b = c);
            }
        }
        7..=14 => {
            // words
            let mut w: Vec<String> = t.split(' ').map(|x| x.to_string()).collect();
            let k = r.range(1, 2);
            for _ in 0..k {
                if w.is_empty() {
                    break;
                }
                let i = r.below(w.len());
                match r.below(16) {
                    0 => {
                        w.remove(i);
                    }
                    1 => {
                        let x = w[i].clone();
                        w.insert(i, x);
                    }
                    2 => {
                        let j = r.below(w.len());
                        w.swap(i, j);
                    }
                    3 if i + 1 < w.len() => w.swap(i, i + 1),
                    4 | 5 => {
                        let l = lists().words(if zh { b'c' } else { b'e' });
                        w[i] = r.pick(l).to_string();
                    }
                    6 => {
                        // the last word carries the checksum
                        let l = lists().words(if zh { b'c' } else { b'e' });
                        let n = w.len() - 1;
                        let ix = lists().index(if zh { b'c' } else { b'e' });
                        let old = ix.get(w[n].as_str()).copied().unwrap_or(0) as usize;
                        w[n] = l[old ^ (1 << r.below(11))].to_string();
                    }
                    7 => {
                        // a word of the other list
                        let l = lists().words(if zh { b'e' } else { b'c' });
                        w[i] = r.pick(l).to_string();
                    }
                    8 => {
                        // first letters only
                        let n = r.range(1, 4);
                        w[i] = w[i].chars().take(n).collect();
                    }
                    9 => w[i] = w[i].to_uppercase(),
                    10 => {
                        let k = r.range(1, 3) * 3;
                        let n = w.len().saturating_sub(k);
                        w.truncate(n);
                    }
                    11 => {
                        let l = lists().words(if zh { b'c' } else { b'e' });
                        for _ in 0..r.range(1, 3) * 3 {
                            w.push(r.pick(l).to_string());
                        }
                    }
                    14 | 15 => {
                        // a stray character at an edge of a word or inside
                        let c: Vec<char> = w[i].chars().collect();
                        let k = match r.below(3) {
                            0 => 0,
                            1 => c.len(),
                            _ => r.below(c.len() + 1),
                        };
                        let x = stray(r);
                        w[i] = c[..k].iter().chain(Some(&x)).chain(&c[k..]).collect();
                    }
                    12 => {
                        let o: Vec<&str> = other.split(' ').collect();
                        if i < o.len() {
                            w[i] = o[i].to_string();
                        }
                    }
                    _ => {
                        // a word with one edited letter
                        let mut c: Vec<char> = w[i].chars().collect();
                        if !c.is_empty() {
                            let k = r.below(c.len());
                            c[k] = (b'a' + r.u8() % 26) as char;
                        }
                        w[i] = c.into_iter().collect();
                    }
                }
            }
            v = w.join(" ").into_bytes();
        }
        _ => {
            let f = ["", " ", "\n", "\u{feff}", "m", "\u{fffd}", "\u{3000}", "\u{301}", "xprv"];
            match r.below(3) {
                0 => v = r.pick(&f).as_bytes().to_vec(),
                1 => v.extend_from_slice(r.pick(&f).as_bytes()),
                _ => {
                    let mut n = r.pick(&f).as_bytes().to_vec();
                    n.extend_from_slice(&v);
                    v = n
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------ keys
pub fn point(r: &mut Rng, cx: &mut Ctx) -> [u8; 33] {
    let s = scalar(r, cx);
    cx.m.pubkey(&s)
}
/// an extended private key with edge values in every field
pub fn ext(r: &mut Rng, cx: &Ctx) -> Ext {
    if r.pct(3) && !rare().born.is_empty() {
        return r.pick(&rare().born).clone();
    }
    let mut e = fresh_ext(r, cx);
    if r.pct(8) && !r.plain {
        // fields that repeat each other
        for _ in 0..r.range(1, 2) {
            match r.below(9) {
                0 | 1 => e.cc.copy_from_slice(&e.key[1..]),
                2 => e.cc = [e.depth; 32],
                3 => {
                    let c: Vec<u8> = e.cc.iter().rev().copied().collect();
                    if model::scalar_ok(&c.clone().try_into().unwrap()) {
                        e.key[1..].copy_from_slice(&c);
                    }
                }
                4 if e.depth != 0 => e.fp.copy_from_slice(&e.cc[..4]),
                5 if e.depth != 0 => e.fp.copy_from_slice(&e.key[1..5]),
                6 if e.depth != 0 => e.fp = e.cn.to_be_bytes(),
                7 if e.depth != 0 => e.cn = e.depth as u32,
                8 if e.depth != 0 => e.fp = *r.pick(&[[4, 0x88, 0xad, 0xe4], [4, 0x88, 0xb2, 0x1e], *b"xprv", *b"xpub"]),
                _ => e.cc[..4].copy_from_slice(&e.fp),
            }
        }
    }
    e
}
fn fresh_ext(r: &mut Rng, cx: &Ctx) -> Ext {
    let mut key = [0u8; 33];
    key[1..].copy_from_slice(&scalar(r, cx));
    let depth = depth(r, cx);
    let mut fp = [0u8; 4];
    let mut c = 0;
    if depth != 0 {
        fp = match r.below(5) {
            0 => [0; 4],
            1 => [0xff; 4],
            2 => [0, 0, 0, r.u8()],
            _ => r.bytes(4).try_into().unwrap(),
        };
        c = cnh(r, cx);
    }
    Ext { depth, fp, cn: c, cc: b32(r, cx), key }
}
/// a public one
pub fn extp(r: &mut Rng, cx: &mut Ctx) -> Ext {
    let e = ext(r, cx);
    let mut p = cx.m.neuter(&e);
    if r.pct(50) {
        // the other point with this x coordinate
        p.key[0] ^= 1;
    }
    p
}
/// differs from `e` in exactly one field (or not at all, rarely)
pub fn near(r: &mut Rng, cx: &mut Ctx, e: &Ext, private: bool) -> Ext {
    let mut x = e.clone();
    for _ in 0..20 {
        match r.below(9) {
            0 => x.depth ^= 1 << r.below(8),
            8 => {
                // the same bytes in another order, or the same sum
                let f: &mut [u8] = match r.below(4) {
                    0 if private => &mut x.key[1..],
                    1 => &mut x.fp,
                    _ => &mut x.cc,
                };
                let i = r.below(f.len() - 1);
                if r.pct(60) {
                    f.swap(i, i + 1);
                } else {
                    f[i] = f[i].wrapping_add(1);
                    f[i + 1] = f[i + 1].wrapping_sub(1);
                }
            }
            1 => x.fp[r.below(4)] ^= 1 << r.below(8),
            2 => x.cn ^= 1 << r.below(32),
            3 => x.cc[r.below(32)] ^= 1 << r.below(8),
            4 if !private => x.key[0] ^= 1,
            _ => {
                if private {
                    x.key[r.range(1, 32)] ^= 1 << r.below(8)
                } else {
                    x.key = point(r, cx)
                }
            }
        }
        let ok = if private { model::scalar_ok(&x.sk()) } else { true };
        if ok && !(x.depth == 0 && (x.fp != [0; 4] || x.cn != 0)) {
            return x;
        }
        x = e.clone();
    }
    x
}

/// A hardened or normal child number whose derivation meets a wish: a leading zero byte in the
/// tweak, the child key or the chain code. None if not found quickly.
pub fn grind(r: &mut Rng, cx: &mut Ctx, p: &Ext, hard: bool) -> u32 {
    let wish = r.below(3);
    let base = r.u32() & 0x7fff_0000;
    for i in 0..600u32 {
        let c = (base + i) & 0x7fff_ffff | if hard { 1 << 31 } else { 0 };
        let i = cx.m.ckd_bytes(p, c);
        let il: [u8; 32] = i[..32].try_into().unwrap();
        let hit = match wish {
            0 => il[0] == 0,
            1 => model::add_mod_n(&il, &p.sk())[0] == 0,
            _ => i[32] == 0,
        };
        if hit {
            return c;
        }
    }
    base
}

/// What fails in a key backend: first failing operation, how many, panic instead of error.
pub fn bfault(r: &mut Rng, upto: u32) -> Vec<u8> {
    let at = r.below(upto as usize + 2) as u32;
    let span = match r.below(4) {
        0 => 1000,
        1 => r.range(2, 4) as u32,
        _ => 1,
    };
    let mut v = be(at);
    v.extend(be(span));
    // bit 0: by panic; then which error
    v.push(r.pct(20) as u8 | (r.below(7) as u8) << 1);
    v
}
/// A sink: kind, room, error, panic, script.
pub fn sink(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![*r.pick(b"fi")];
    let cap = match r.below(6) {
        0 => r.below(8) as u32,
        1 => r.below(64) as u32,
        2 | 3 => r.below(300) as u32,
        _ => 1 << 20,
    };
    v.extend(be(cap));
    v.push(r.below(5) as u8);
    v.push(r.pct(15) as u8 | if r.pct(35) { 2 * r.range(1, 2) as u8 } else { 0 });
    for _ in 0..r.below(8) {
        v.push(*r.pick(&[0u8, 0, 1, 1, 2, 3, 5, 8, 17, 255]));
    }
    v
}
/// Edits of a path: push, parent, extend, print and parse, into_iter.
pub fn path_script(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(8) {
        match r.below(7) {
            0 | 1 => {
                v.push(b'p');
                v.extend(be(cnh(r, cx)));
            }
            2 | 3 => v.push(b'u'),
            4 => {
                if r.pct(6) {
                    // many at once: count, seed and hint
                    v.push(b'E');
                    v.extend_from_slice(&(*r.pick(&[100u16, 255, 256, 257, 300, 511, 512, 600, 1000])).to_be_bytes());
                    v.push(r.u8());
                    v.push(r.below(8) as u8);
                    continue;
                }
                let k = if r.pct(15) { r.below(32) } else { r.below(5) };
                v.push(b'e');
                v.push(k as u8 | (r.below(8) as u8) << 5);
                for _ in 0..k {
                    v.extend(be(cnh(r, cx)));
                }
            }
            5 => v.push(b'r'),
            _ => v.push(b'i'),
        }
    }
    v
}
pub const ODD_OPS: [&str; 30] = [
    "nest", "unwind", "thread",
    "panic.seed", "panic.path", "panic.extend", "pathops", "out.mn", "out.mnp", "out.seed", "out.ek", "out.xprv", "out.prefix", "out.path", "out.cn", "b.master",
    "b.path", "b.xchild", "b.xderive", "b.xneuter", "b.pchild", "b.pderive", "b.ximport", "b.pimport", "b.xparse", "b.pparse", "b.xtext", "b.ptext", "b.tweakprv",
    "b.tweakpub",
];
pub const WORD_OPS: [&str; 12] = ["ent", "phr", "val", "intophrase", "new", "detect", "words", "word", "bits", "mtphrase", "out.mn", "seed"];
pub const KEY_OPS: [&str; 20] = [
    "master", "path", "xkey", "xneuter", "pkey", "xderive", "xchild", "pderive", "pchild", "xprvparse", "rt", "xpubparse", "xprvfmt", "xpubfmt", "xek", "pek", "ekbuf",
    "eqprv", "eqpub", "sign",
];

/// A call of any kind.
pub fn any_op(r: &mut Rng, cx: &mut Ctx) -> Op {
    loop {
        let n = match r.below(10) {
            0..=2 => r.pick(&WORD_OPS).to_string(),
            3..=5 => r.pick(&KEY_OPS).to_string(),
            6 => r.pick(&MORE_OPS).to_string(),
            7 | 8 => r.pick(&ODD_OPS).to_string(),
            _ => r.pick(&ALL_OPS).to_string(),
        };
        // the costly ones more rarely
        if ["seed", "wallet", "ewallet", "nwallet", "eseed", "out.seed"].contains(&&n[..]) && r.pct(75) {
            continue;
        }
        if let Some(o) = example(&n, r, cx) {
            return o;
        }
    }
}
/// The same kind of call with an argument that is close to the one it had.
/// Another correct phrase that looks like the one of this entropy: same first and last words, same length.
pub fn twin(r: &mut Rng, e: &[u8], l: u8) -> String {
    let old = model::phrase_of(e, l).unwrap();
    let (first, last) = (old.split(' ').next().unwrap(), old.rsplit(' ').next().unwrap());
    let n = e.len();
    let (mut best, mut rank) = (old.clone(), 0);
    for _ in 0..600 {
        let mut f = e.to_vec();
        for _ in 0..r.range(1, 3) {
            f[r.range(2, n - 3)] ^= 1 << r.below(8);
        }
        if f == e {
            continue;
        }
        let p = model::phrase_of(&f, l).unwrap();
        let k = 1 + (p.starts_with(first) as u32) * 2 + (p.ends_with(last) as u32) * 4 + (p.len() == old.len()) as u32;
        if k > rank {
            rank = k;
            best = p;
        }
        if rank == 8 {
            break;
        }
    }
    best
}

/// Calls into which the library's caller may call again: from a sink, a key backend, an iterator, the seed's bytes.
pub const OPEN_OPS: [&str; 23] = [
    "out.mn", "out.mnp", "out.ek", "out.xprv", "out.prefix", "out.path", "out.cn", "out.seed", "b.master", "b.path", "b.xchild", "b.xderive", "b.pchild", "b.pderive",
    "b.ximport", "b.pimport", "b.xparse", "b.xtext", "panic.seed", "panic.path", "panic.extend", "pathops", "b.xneuter",
];
/// One call made from within another.
pub fn nest(r: &mut Rng, cx: &mut Ctx, outer: Option<Op>) -> Op {
    let out = match outer {
        Some(o) if OPEN_OPS.contains(&&o.name[..]) => o,
        _ => loop {
            let n = *r.pick(&OPEN_OPS);
            if n == "out.seed" && r.pct(60) {
                continue;
            }
            break example(n, r, cx).unwrap();
        },
    };
    let like: &[&str] = match &out.name[..] {
        "out.mn" | "out.mnp" | "out.seed" => &["ent", "phr", "out.mn", "out.mnp", "eseed"],
        "out.ek" | "out.xprv" | "b.xtext" => &["ekfmt", "xprvfmt", "xpubfmt", "rt", "out.ek", "out.xprv"],
        "out.prefix" => &["prefix", "out.prefix", "ekfmt"],
        "out.path" | "out.cn" | "pathops" | "panic.extend" => &["pathfmt", "pathparse", "cnfmt", "out.path", "out.cn", "pathops"],
        "panic.seed" | "panic.path" | "b.master" | "b.path" => &["master", "path", "panic.seed", "panic.path", "xderive"],
        "b.ximport" | "b.pimport" | "b.xparse" => &["xkey", "pkey", "rt", "xprvparse", "xpubparse"],
        _ => &["xchild", "xderive", "pchild", "pderive", "xneuter"],
    };
    let inn = loop {
        let o = match r.below(10) {
            0..=2 => related(r, cx, &out),
            3..=7 => example(r.pick(like), r, cx).unwrap(),
            _ => any_op(r, cx),
        };
        if !special(&o) {
            break o;
        }
        if r.pct(2) {
            break example("pathfmt", r, cx).unwrap();
        }
    };
    let mut a = vec![vec![if r.pct(70) { r.below(3) } else { r.below(24) } as u8, out.args.len() as u8 + 1], out.name.into_bytes()];
    a.extend(out.args);
    a.push(inn.name.into_bytes());
    a.extend(inn.args);
    Op { name: "nest".into(), args: a }
}
/// The two calls of a nested one.
/// Calls whose result depends on more than their arguments, or that contain others.
pub fn special(o: &Op) -> bool {
    o.name.starts_with("b.") || ["new", "nwallet", "nest", "unwind", "thread", "exit.call"].contains(&&o.name[..])
}
/// "unwind": a call made by a destructor, while a panic unwinds the stack; "thread": one made by a new thread.
pub fn within(how: &str, o: &Op) -> Op {
    let mut a = vec![o.name.clone().into_bytes()];
    a.extend(o.args.iter().cloned());
    Op { name: how.into(), args: a }
}
/// A call made again by the destructor of a thread's variable, as the thread ends.
pub fn at_exit(r: &mut Rng, id: u8, o: &Op) -> Op {
    let mut a = vec![vec![*r.pick(&[0u8, 1, 1, 1, 2, 2]), id], o.name.clone().into_bytes()];
    a.extend(o.args.iter().cloned());
    Op { name: "exit.call".into(), args: a }
}
pub fn unnest(o: &Op) -> Option<(Op, Op)> {
    let k = 1 + *o.args.first()?.get(1)? as usize;
    let t = |i: usize| o.args.get(i).map(|b| String::from_utf8_lossy(b).into_owned());
    if k <= 1 || k >= o.args.len() {
        return None;
    }
    Some((Op { name: t(1)?, args: o.args[2..k].to_vec() }, Op { name: t(k)?, args: o.args[k + 1..].to_vec() }))
}

pub fn related(r: &mut Rng, cx: &mut Ctx, op: &Op) -> Op {
    if let ("nest", Some((a, b))) = (&op.name[..], unnest(op)) {
        return match r.below(6) {
            0 => nest(r, cx, Some(a)),
            1 | 2 => related(r, cx, &a),
            3 | 4 if !b.name.starts_with("b.") => b,
            _ => {
                let a = related(r, cx, &a);
                nest(r, cx, Some(a))
            }
        };
    }
    if ["unwind", "thread", "exit.call"].contains(&&op.name[..]) {
        let k = (op.name == "exit.call") as usize;
        let o = crate::ctx::inner(op, k);
        return match related(r, cx, &o) {
            o if k == 0 && !special(&o) && r.pct(50) => within(&op.name, &o),
            o => o,
        };
    }
    if OPEN_OPS.contains(&&op.name[..]) && r.pct(8) {
        return nest(r, cx, Some(op.clone()));
    }
    let mut o = op.clone();
    if o.args.is_empty() {
        return o;
    }
    let i = r.below(o.args.len());
    let n = o.args[i].len();
    let sunk = (o.name.starts_with("out.") || o.name.starts_with("b.")) && !o.name.starts_with("b.tweak") && i + 1 == o.args.len();
    if sunk {
        o.args[i] = if o.name.starts_with("out.") { sink(r) } else { bfault(r, 6) };
        return o;
    }
    match (n, &o.name[..]) {
        (74, _) => {
            let e = Ext::from_rec(&o.args[i]);
            o.args[i] = near(r, cx, &e, e.key[0] == 0).rec();
        }
        (1, _) => {
            let b = o.args[i][0];
            o.args[i][0] = match b {
                b'e' => b'c',
                b'c' => b'e',
                b'0'..=b'7' => b'0' + r.below(if o.name == "new" || o.name == "nwallet" { 5 } else { 8 }) as u8,
                _ => r.below(6) as u8,
            };
        }
        (4, "xchild" | "pchild" | "cnfmt" | "cnbytes" | "cnnew" | "b.xchild" | "b.pchild" | "out.cn") => o.args[i] = be(cnh(r, cx)),
        (_, "sign") if i == 0 && n == 32 => {
            o.args[i][r.range(8, 31)] ^= 1 << r.below(8);
        }
        (_, "b.tweakprv" | "b.tweakpub") if n >= 32 => {
            o.args[i][r.range(8, 31)] ^= 1 << r.below(8);
        }
        (_, "pathops") if i == 1 => o.args[i] = path_script(r, cx),
        (_, "xderive" | "pderive" | "pathfmt" | "pathops" | "panic.extend" | "b.xderive" | "b.pderive" | "out.path") if n >= 4 && n % 4 == 0 => {
            let k = r.below(n / 4) * 4;
            match r.below(4) {
                3 if n >= 8 => {
                    // the same components in another order
                    let j = r.below(n / 4) * 4;
                    for b in 0..4 {
                        o.args[i].swap(k + b, j + b);
                    }
                }
                0 => o.args[i].truncate(k),
                1 => o.args[i].extend(be(cn(r, cx))),
                _ => o.args[i][k + r.below(4)] ^= 1 << r.below(8),
            }
        }
        _ => {
            let text = std::str::from_utf8(&o.args[i]).ok().map(|s| s.to_string());
            match text {
                Some(t) if !t.is_empty() && t.len() != 16 && t.len() != 32 => {
                    let zh = !t.is_ascii();
                    // the language of the phrase, so that a damaged phrase may be a good one
                    match r.below(7) {
                        6 if t.len() > 20 => {
                            let zh = if zh { b'c' } else { b'e' };
                            if let Ok((_, e)) = model::read_phrase(&t, zh) {
                                o.args[i] = twin(r, &e, zh).into_bytes();
                            }
                        }
                        4 => {
                            // other case, a blank more, characters exchanged
                            let mut c: Vec<char> = t.chars().collect();
                            let k = r.below(c.len());
                            match r.below(5) {
                                0 => c[k] = if c[k].is_ascii_uppercase() { c[k].to_ascii_lowercase() } else { c[k].to_ascii_uppercase() },
                                1 => c.push(' '),
                                2 => c.insert(0, ' '),
                                3 => c.push(*r.pick(&['\u{301}', '\u{0}', 'x', '\u{3000}'])),
                                _ if k > 0 => c.swap(k - 1, k),
                                _ => {}
                            }
                            o.args[i] = c.into_iter().collect::<String>().into_bytes();
                        }
                        0 => o.args[i] = respell(r, &t).into_bytes(),
                        1 => {
                            if let Ok((_, e)) = model::read_phrase(&t, if zh { b'c' } else { b'e' }) {
                                // the same words in the other list, or a similar entropy
                                let mut e = e;
                                let l = if r.pct(40) { b'c' } else { b'e' };
                                if r.pct(70) {
                                    let k = r.below(e.len());
                                    e[k] ^= 1 << r.below(8);
                                }
                                if r.pct(20) {
                                    e.truncate(16);
                                }
                                o.args[i] = model::phrase_of(&e, l).unwrap().into_bytes();
                                if let Some(x) = o.args.get_mut(i + 1) {
                                    if x.len() == 1 && r.pct(80) {
                                        x[0] = l;
                                    }
                                }
                            } else {
                                o.args[i] = damage(r, &t, "xpub", zh);
                            }
                        }
                        2 => {
                            let k = (r.below(t.len()) + 1).min(t.len());
                            if t.is_char_boundary(k) {
                                o.args[i].truncate(k);
                            }
                        }
                        _ => o.args[i] = damage(r, &t, "abandon ability about", zh),
                    }
                }
                _ => {
                    if n > 0 {
                        let k = r.below(n);
                        o.args[i][k] ^= 1 << r.below(8);
                    }
                }
            }
        }
    }
    o
}

// ------------------------------------------------------------------------------------------ warm-up
/// One example of every kind of call.
pub fn example(name: &str, r: &mut Rng, cx: &mut Ctx) -> Option<Op> {
    if name == "nest" {
        return Some(nest(r, cx, None));
    }
    if name == "unwind" || name == "thread" {
        let o = any_op(r, cx);
        return Some(if special(&o) { o } else { within(name, &o) });
    }
    let l = lang(r);
    let e = ent(r, cx);
    let ph = model::phrase_of(&e, l).unwrap().into_bytes();
    let pw = password(r, cx).into_bytes();
    let x = ext(r, cx);
    let p = extp(r, cx);
    let lb = r.below(4) * 2;
    let a: Vec<Vec<u8>> = match name {
        "new" => vec![vec![b'0' + r.below(5) as u8], vec![l]],
        "nwallet" => vec![vec![b'0' + r.below(5) as u8], vec![l], pw],
        "ent" if r.pct(6) => {
            let n = *r.pick(&[64, 64, 0, 1, 2, 4, 8, 12, 15, 17, 18, 22, 31, 33, 36, 40, 48, 63, 65, 96, 128, 256]);
            vec![r.bytes(n), vec![l]]
        }
        "ent" => vec![e, vec![l]],
        "ewallet" => vec![e, vec![l], pw],
        "phr" | "val" | "intophrase" => vec![ph, vec![l]],
        "seed" | "wallet" => vec![ph, vec![l], pw],
        "eseed" => vec![e, vec![l], pw],
        "master" => vec![seed(r, cx)],
        "path" => vec![seed(r, cx), path_bytes(&path(r, cx, 3, true))],
        "xdebug" if r.pct(50) => vec![x.rec(), vec![r.below(12) as u8]],
        "xkey" | "xneuter" | "xdebug" | "xdebugalt" => vec![x.rec()],
        "panic.seed" => vec![seed(r, cx), vec![r.below(4) as u8]],
        "panic.path" => vec![seed(r, cx), vec![r.below(4) as u8], path_bytes(&path(r, cx, 2, true))],
        "panic.extend" => vec![path_bytes(&path(r, cx, 4, true)), vec![r.below(5) as u8]],
        "pathops" => vec![path_bytes(&path(r, cx, 4, true)), path_script(r, cx)],
        "out.mn" => vec![vec![*r.pick(b"dxXyY")], e, vec![l], sink(r)],
        "out.mnp" => vec![vec![*r.pick(b"dxXyY")], ph, vec![l], sink(r)],
        "out.seed" => vec![vec![*r.pick(b"xXyY")], e, vec![l], pw, sink(r)],
        "out.ek" => vec![vec![b'd'], vec![b'0' + lb as u8], x.rec(), sink(r)],
        "out.xprv" => vec![vec![b'd'], vec![b'0' + lb as u8], x.rec(), sink(r)],
        "out.prefix" => vec![vec![b'd'], vec![b'0' + r.below(8) as u8], sink(r)],
        "out.path" => vec![vec![b'd'], path_bytes(&path(r, cx, 6, true)), sink(r)],
        "out.cn" => vec![vec![b'd'], be(cnh(r, cx)), sink(r)],
        "b.master" => vec![seed(r, cx), bfault(r, 4)],
        "b.path" => vec![seed(r, cx), path_bytes(&path(r, cx, 3, true)), bfault(r, 12)],
        "b.xchild" => vec![x.rec(), be(cnh(r, cx)), bfault(r, 6)],
        "b.xderive" => vec![x.rec(), path_bytes(&path(r, cx, 3, true)), bfault(r, 14)],
        "b.xneuter" => vec![x.rec(), bfault(r, 4)],
        "b.pchild" => vec![p.rec(), be(cn(r, cx)), bfault(r, 6)],
        "b.pderive" => vec![p.rec(), path_bytes(&path(r, cx, 3, false)), bfault(r, 14)],
        "b.ximport" => vec![x.rec(), vec![b'0' + lb as u8], bfault(r, 3)],
        "b.pimport" => vec![p.rec(), vec![b'1' + lb as u8], bfault(r, 3)],
        "b.xparse" => vec![model::key_text(lb, &x).into_bytes(), bfault(r, 3)],
        "b.pparse" => vec![model::key_text(lb + 1, &p).into_bytes(), bfault(r, 3)],
        "b.xtext" => vec![x.rec(), bfault(r, 3)],
        "b.ptext" => vec![p.rec(), bfault(r, 3)],
        "b.tweakprv" | "b.tweakpub" => vec![scalar(r, cx).to_vec(), r.bytes(32)],
        "pkey" => vec![p.rec()],
        "xderive" => vec![x.rec(), path_bytes(&path(r, cx, 3, true))],
        "xchild" => vec![x.rec(), be(cnh(r, cx))],
        "pderive" => vec![p.rec(), path_bytes(&path(r, cx, 3, false))],
        "pchild" => vec![p.rec(), be(cn(r, cx))],
        "ekparse" | "xprvparse" | "rt" => vec![model::key_text(lb, &x).into_bytes()],
        "xpubparse" => vec![model::key_text(lb + 1, &p).into_bytes()],
        "xkeyof" | "ekfmt" | "xprvfmt" | "xek" => vec![vec![b'0' + lb as u8], x.rec()],
        "pkeyof" | "xpubfmt" | "pek" => vec![vec![b'1' + lb as u8], p.rec()],
        "ekbuf" => vec![vec![b'0' + lb as u8], x.rec(), r.bytes(7)],
        "eqprv" => {
            let y = near(r, cx, &x, true);
            vec![x.rec(), y.rec()]
        }
        "defaults" => vec![vec![l]],
        "eqpub" | "order" => {
            let y = near(r, cx, &p, false);
            vec![p.rec(), y.rec()]
        }
        "sign" => vec![scalar(r, cx).to_vec(), r.bytes(32)],
        "pathfmt" => vec![path_bytes(&path(r, cx, 6, true))],
        "pathparse" => vec![model::path_text(&path(r, cx, 6, true)).into_bytes()],
        "cnparse" => vec![model::cn_text(cnh(r, cx)).into_bytes()],
        "cnfmt" | "cnbytes" => vec![be(cnh(r, cx))],
        "cnnew" => vec![be(r.u32()), vec![r.u8() & 1]],
        "prefix" => vec![model::LABELS[r.below(8)].1.to_be_bytes().to_vec()],
        "lang" => vec![r.pick(&["en", "zh-hans", "EN", "fr", "zh", "", "zh-hant"]).as_bytes().to_vec()],
        "detect" | "mtphrase" => vec![ph],
        "words" => vec![vec![l], lists().words(l)[r.below(2048)].chars().take(2).collect::<String>().into_bytes()],
        "word" => vec![vec![l], be(r.below(2048) as u32)],
        "bits" => vec![vec![l], if r.pct(80) { lists().words(l)[r.below(2048)].as_bytes().to_vec() } else { b"zzz".to_vec() }],
        "mtcount" => vec![be(if r.pct(60) { *r.pick(&[12, 15, 18, 21, 24]) } else { r.below(30) as u32 })],
        "mtkey" => vec![be(if r.pct(60) { *r.pick(&[128, 160, 192, 224, 256]) } else { r.below(300) as u32 })],
        "ripemd" => {
            let n = r.below(80);
            vec![r.bytes(n)]
        }
        _ => return None,
    };
    Some(Op { name: name.to_string(), args: a })
}
pub const ALL_OPS: [&str; 43] = [
    "new", "nwallet", "ent", "ewallet", "phr", "val", "intophrase", "seed", "wallet", "eseed", "master", "path", "xkey", "xneuter", "xdebug", "pkey", "xderive",
    "xchild", "pderive", "pchild", "ekparse", "xprvparse", "rt", "xpubparse", "xkeyof", "ekfmt", "xprvfmt", "xek", "pkeyof", "xpubfmt", "pek", "ekbuf", "eqprv",
    "eqpub", "sign", "pathfmt", "pathparse", "cnparse", "cnfmt", "cnbytes", "cnnew", "prefix", "lang",
];
pub const MORE_OPS: [&str; 10] = ["detect", "mtphrase", "words", "word", "bits", "mtcount", "mtkey", "ripemd", "defaults", "order"];

/// Runs examples once to learn how many steps each call takes in a fresh process and which constants the code compares with.
pub fn warm(cx: &mut Ctx) {
    let mut r = Rng::new(7);
    let mut all = vec![];
    for n in ALL_OPS.iter().chain(MORE_OPS.iter()).chain(ODD_OPS.iter()) {
        if let Some(op) = example(n, &mut r, cx) {
            let mut w = World::new(1);
            let i = w.start(0);
            w.call(i, &op, &Env::default());
            cx.steps_of.insert(n.to_string(), w.nodes[i].last.steps);
            w.call(i, &op, &Env::default());
            cx.later_of.insert(n.to_string(), w.nodes[i].last.steps);
        }
        for k in 0..6 {
            if let Some(mut op) = example(n, &mut r, cx) {
                if k == 3 {
                    // a damaged argument, too
                    for a in op.args.iter_mut() {
                        if std::str::from_utf8(a).is_ok() && a.len() > 8 {
                            let t = String::from_utf8(a.clone()).unwrap();
                            *a = damage(&mut r, &t, "abandon about", false);
                        }
                    }
                }
                all.push(op);
            }
        }
    }
    let mut w = World::new(2);
    let i = w.start(0);
    let (mut d, touch) = w.dictionary(i, &all);
    for (o, t) in all.iter().zip(&touch) {
        let e = cx.touch.entry(o.name.clone()).or_insert((0, 0));
        e.0 = e.0.max(t.0);
        e.1 = e.1.max(t.1);
    }
    cx.hot = cx.touch.iter().filter(|(n, t)| t.0 > 0 && !n.starts_with("b.")).map(|(n, _)| n.clone()).collect();
    d.sort();
    d.dedup();
    cx.dict = d;
}

use super::common::*;
use crate::model::Refusal;

pub const P: Prop = Prop {
    id: "C15",
    gen,
    exec,
    free: no_free,
    quick: 60_000,
    thorough: 1_080_000,
    rule: "one run = the same history of calls, damages, refusals and faults executed by two processes that hold different secrets; every error and panic message, every debug form and everything printed must be the same in both; non-trivial = at least one error, panic or debug form was compared and the run's event trace was not seen before",
};

fn ent_of(r: &mut Rng, cx: &Ctx, n: usize) -> Vec<u8> {
    if r.pct(75) {
        return r.bytes(n);
    }
    for _ in 0..30 {
        let e = gen::ent(r, cx);
        if e.len() == n {
            return e;
        }
    }
    r.bytes(n)
}
fn key_of(r: &mut Rng, cx: &Ctx) -> [u8; 32] {
    if r.pct(75) {
        let mut b: [u8; 32] = r.bytes(32).try_into().unwrap();
        b[0] &= 0x7f;
        b[31] |= 1;
        return b;
    }
    gen::scalar(r, cx)
}

/// What reading `text` would complain about: the reason, and the number of words if that is the reason.
fn complaint(text: &str, lang: u8) -> Option<(Refusal, usize)> {
    match model::read_phrase(text, lang) {
        Ok(_) => None,
        Err(Refusal::Count) => Some((Refusal::Count, model_words(text))),
        Err(x) => Some((x, 0)),
    }
}
fn model_words(text: &str) -> usize {
    text.split_whitespace().count()
}

/// The same damage done to both phrases.
fn hurt(r: &mut Rng, a: &str, b: &str, l: u8) -> Option<(String, String)> {
    let mut x: Vec<String> = a.split(' ').map(|s| s.to_string()).collect();
    let mut y: Vec<String> = b.split(' ').map(|s| s.to_string()).collect();
    let words = model::lists().words(l);
    let n = x.len();
    let mut times = r.range(1, 2);
    while times > 0 {
        times -= 1;
        let i = r.below(x.len());
        match r.below(12) {
            0 => {
                let j = r.pick(&["zzzz", "", "\u{301}", "xprv", "m/0", "0", "ABANDON", "\u{0}", "a b"]).to_string();
                x[i] = j.clone();
                y[i] = j;
            }
            1 => {
                for v in [&mut x, &mut y] {
                    let t: String = v[i].chars().take(3).collect();
                    v[i] = format!("{}zz", t);
                }
            }
            2 => {
                for v in [&mut x, &mut y] {
                    v[i] = if l == b'e' { v[i].to_uppercase() } else { format!("{}{}", v[i], v[i]) };
                }
            }
            3 => {
                // two words run together
                if i + 1 < x.len() {
                    for v in [&mut x, &mut y] {
                        let t = v.remove(i + 1);
                        v[i].push_str(&t);
                    }
                }
            }
            4 => {
                let k = r.below(n);
                x.truncate(k);
                y.truncate(k);
            }
            5 => {
                let k = r.range(1, 12);
                for _ in 0..k {
                    let w = r.pick(words).to_string();
                    x.push(w.clone());
                    y.push(w);
                }
            }
            6 | 7 => {
                // the checksum no longer matches
                for v in [&mut x, &mut y] {
                    let k = v.len() - 1;
                    for _ in 0..20 {
                        v[k] = r.pick(words).to_string();
                        if complaint(&v.join(" "), l) == Some((Refusal::Checksum, 0)) {
                            break;
                        }
                    }
                }
            }
            8 => {
                let j = r.below(x.len());
                x.swap(i, j);
                y.swap(i, j);
            }
            9 => {
                x.remove(i);
                y.remove(i);
            }
            10 => {
                for v in [&mut x, &mut y] {
                    let t = v[i].clone();
                    v.insert(i, t);
                }
            }
            _ => {
                for v in [&mut x, &mut y] {
                    v[i] = format!("\u{2}{}", v[i]);
                }
            }
        }
        if x.is_empty() || y.is_empty() {
            break;
        }
    }
    let (x, y) = (x.join(" "), y.join(" "));
    let (c, d) = (complaint(&x, l)?, complaint(&y, l)?);
    if c == d {
        Some((x, y))
    } else {
        None
    }
}

/// A public phrase refused for the same reason.
fn stand_in(why: &(Refusal, usize), l: u8) -> String {
    let e = [0x5au8; 16];
    let p = model::phrase_of(&e, l).unwrap();
    let mut w: Vec<&str> = p.split(' ').collect();
    let words = model::lists().words(l);
    match why.0 {
        Refusal::Word => {
            w[3] = "qqqq";
            w.join(" ")
        }
        Refusal::Count => (0..why.1).map(|i| words[100 + i % 1000].to_string()).collect::<Vec<_>>().join(" "),
        Refusal::Checksum => {
            for i in 0..2048 {
                w[11] = words[i];
                if complaint(&w.join(" "), l) == Some((Refusal::Checksum, 0)) {
                    break;
                }
            }
            w.join(" ")
        }
    }
}

/// A record with the given content and a matching checksum.
fn raw_text(version: u32, body: &[u8]) -> Vec<u8> {
    let mut v = version.to_be_bytes().to_vec();
    v.extend_from_slice(body);
    model::b58check(&v).into_bytes()
}

fn two(p: &mut Plan, env: &[Vec<u8>; 2], a: Op, b: Op) {
    assert_eq!(a.name, b.name);
    let mut v = vec![env[0].clone(), env[1].clone(), vec![a.args.len() as u8], a.name.into_bytes()];
    v.extend(a.args);
    v.extend(b.args);
    p.add("two", v);
}

/// Zero, or not below the order of the curve.
fn bad_key(r: &mut Rng) -> [u8; 32] {
    let mut k = [0xffu8; 32];
    match r.below(5) {
        0 => k = [0; 32],
        1 => {}
        2 => k[16..].copy_from_slice(&r.bytes(16)),
        _ => {
            // n, n + 1, ...
            let n: [u8; 32] = model::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").try_into().unwrap();
            k = n;
            k[31] += r.below(3) as u8;
        }
    }
    // 16 random bytes after sixteen 0xff are above the order unless they start low
    if k[..15] == [0xff; 15] && k[15] == 0xff && k[16] < 0xbb {
        k[16] = 0xfe;
    }
    k
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let l = gen::lang(r);
    let n = gen::ent_len(r);
    let (ea, eb) = (ent_of(r, cx, n), ent_of(r, cx, n));
    let (pa, pb) = (model::phrase_of(&ea, l).unwrap(), model::phrase_of(&eb, l).unwrap());
    let mut xa = gen::ext(r, cx);
    xa.key[1..].copy_from_slice(&key_of(r, cx));
    let mut xb = xa.clone();
    xb.key[1..].copy_from_slice(&key_of(r, cx));
    let (wa, wb) = (gen::password(r, cx), gen::password(r, cx));
    let lv = vec![l];
    for _ in 0..r.range(2, 9) {
        let refused = r.pct(8);
        let jump = if r.pct(10) { r.u64() % 1_000_000_000_000 } else { 0 };
        let env = [vec![refused as u8], num(jump)];
        match r.below(26) {
            0..=6 => {
                if let Some((x, y)) = hurt(r, &pa, &pb, l) {
                    let name = *r.pick(&["phr", "val", "phr", "val", "intophrase", "seed", "wallet", "mtphrase", "keep:phr"]);
                    let mut a = vec![x.into_bytes()];
                    let mut b = vec![y.into_bytes()];
                    if name != "mtphrase" {
                        a.push(lv.clone());
                        b.push(lv.clone());
                    }
                    if name == "seed" || name == "wallet" {
                        a.push(wa.clone().into_bytes());
                        b.push(wb.clone().into_bytes());
                    }
                    two(&mut p, &env, Op::new(name, a), Op::new(name, b));
                }
            }
            7 => {
                // the other language
                let o = vec![if l == b'e' { b'c' } else { b'e' }];
                let name = *r.pick(&["phr", "val"]);
                two(&mut p, &env, Op::new(name, vec![pa.clone().into_bytes(), o.clone()]), Op::new(name, vec![pb.clone().into_bytes(), o]));
            }
            8 | 9 => {
                let d = gen::damage(r, &pa, &pb, l == b'c');
                p.add("raw", vec![vec![r.pct(70) as u8], d, lv.clone()]);
            }
            10 => {
                // entropy of a wrong length
                let k = if r.pct(50) { r.below(40) } else { r.below(n) };
                let f = |e: &[u8]| e.iter().cycle().take(k).copied().collect::<Vec<u8>>();
                if !model::ENT_LEN.contains(&k) {
                    two(&mut p, &env, Op::new("ent", vec![f(&ea), lv.clone()]), Op::new("ent", vec![f(&eb), lv.clone()]));
                }
            }
            11 => {
                // seed of a wrong length
                let k = *r.pick(&[0usize, 1, 8, 15, 17, 20, 24, 28, 31, 33, 48, 63, 65, 127, 129, 200]);
                let (x, y) = (r.bytes(k), r.bytes(k));
                if r.pct(50) {
                    two(&mut p, &env, Op::new("master", vec![x]), Op::new("master", vec![y]));
                } else {
                    let pt = path_bytes(&gen::path(r, cx, 3, true));
                    two(&mut p, &env, Op::new("path", vec![x, pt.clone()]), Op::new("path", vec![y, pt]));
                }
            }
            12..=14 => {
                // damaged records
                let lb = 2 * r.below(4);
                let (mut a, mut b) = (model::key_text(lb, &xa).into_bytes(), model::key_text(lb, &xb).into_bytes());
                match r.below(11) {
                    10 => {
                        // keys outside 1..n-1, each in its own way
                        let ver = model::LABELS[lb].1;
                        let (mut u, mut v) = (xa.rec(), xb.rec());
                        u[42..].copy_from_slice(&bad_key(r));
                        v[42..].copy_from_slice(&bad_key(r));
                        a = raw_text(ver, &u);
                        b = raw_text(ver, &v);
                    }
                    0 | 1 => {
                        let i = r.range(4, 110);
                        let c = *r.pick(b"0OIl +/=\n\xe9");
                        a[i] = c;
                        b[i] = c;
                    }
                    2 => {
                        let k = r.below(111);
                        a.truncate(k);
                        b.truncate(k);
                    }
                    3 => {
                        let k = r.range(1, 60);
                        a.extend(vec![b'x'; k]);
                        b.extend(vec![b'x'; k]);
                    }
                    4 | 5 => {
                        let i = r.range(4, 110);
                        let j = r.range(1, 57);
                        for v in [&mut a, &mut b] {
                            const ABC: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
                            let at = ABC.iter().position(|c| *c == v[i]).unwrap();
                            v[i] = ABC[(at + j) % 58];
                        }
                    }
                    6 => {
                        // a public label over a private key
                        let ver = model::LABELS[lb + 1].1;
                        a = raw_text(ver, &xa.rec());
                        b = raw_text(ver, &xb.rec());
                    }
                    7 => {
                        // the byte before the key is not zero
                        let c = r.u8() | 1;
                        let ver = model::LABELS[lb].1;
                        let (mut u, mut v) = (xa.rec(), xb.rec());
                        u[41] = c;
                        v[41] = c;
                        a = raw_text(ver, &u);
                        b = raw_text(ver, &v);
                    }
                    8 => {
                        // a label nobody knows
                        let ver = *r.pick(&[0u32, 1, 0xffff_ffff, 0x0488ade5, 0x0488b21f, 0x7fff_ffff]);
                        a = raw_text(ver, &xa.rec());
                        b = raw_text(ver, &xb.rec());
                    }
                    _ => {
                        // shorter or longer, with a matching checksum
                        let ver = model::LABELS[lb].1;
                        let (mut u, mut v) = (xa.rec(), xb.rec());
                        if r.pct(50) {
                            let k = r.below(74);
                            u.truncate(k);
                            v.truncate(k);
                        } else {
                            let k = r.range(1, 8);
                            u.extend(vec![1; k]);
                            v.extend(vec![1; k]);
                        }
                        a = raw_text(ver, &u);
                        b = raw_text(ver, &v);
                    }
                }
                let name = *r.pick(&["ekparse", "xprvparse", "rt", "xpubparse", "xprvparse"]);
                two(&mut p, &env, Op::new(name, vec![a]), Op::new(name, vec![b]));
            }
            15 => {
                // beyond the deepest level
                let (mut u, mut v) = (xa.clone(), xb.clone());
                u.depth = 255 - r.below(2) as u8;
                v.depth = u.depth;
                let mut pt = gen::path(r, cx, 4, true);
                pt.push(gen::cnh(r, cx));
                pt.push(gen::cnh(r, cx));
                let pt = path_bytes(&pt);
                if r.pct(50) {
                    let name = *r.pick(&["xderive", "keep:xderive"]);
                    two(&mut p, &env, Op::new(name, vec![u.rec(), pt.clone()]), Op::new(name, vec![v.rec(), pt]));
                } else {
                    let c = be(gen::cnh(r, cx));
                    two(&mut p, &env, Op::new("xchild", vec![u.rec(), c.clone()]), Op::new("xchild", vec![v.rec(), c]));
                }
            }
            16 => {
                // records of the wrong kind
                let lb = vec![b'1' + 2 * r.below(4) as u8];
                two(&mut p, &env, Op::new("xkeyof", vec![lb.clone(), xa.rec()]), Op::new("xkeyof", vec![lb.clone(), xb.rec()]));
                two(&mut p, &env, Op::new("pkeyof", vec![lb.clone(), xa.rec()]), Op::new("pkeyof", vec![lb, xb.rec()]));
            }
            17 | 18 => {
                // a failing backend
                let f = gen::bfault(r, 8);
                let c = be(gen::cnh(r, cx));
                let pt = path_bytes(&gen::path(r, cx, 3, true));
                let sd = (r.bytes(32), r.bytes(32));
                let lb = vec![b'0' + 2 * r.below(4) as u8];
                let mk = |e: &Ext, s: &[u8], k: usize| match k {
                    0 => Op::new("b.xchild", vec![e.rec(), c.clone(), f.clone()]),
                    1 => Op::new("b.xderive", vec![e.rec(), pt.clone(), f.clone()]),
                    2 => Op::new("b.xneuter", vec![e.rec(), f.clone()]),
                    3 => Op::new("b.ximport", vec![e.rec(), lb.clone(), f.clone()]),
                    4 => Op::new("b.xtext", vec![e.rec(), f.clone()]),
                    5 => Op::new("b.xparse", vec![model::key_text(0, e).into_bytes(), f.clone()]),
                    6 => Op::new("b.master", vec![s.to_vec(), f.clone()]),
                    _ => Op::new("b.path", vec![s.to_vec(), pt.clone(), f.clone()]),
                };
                let k = r.below(8);
                two(&mut p, &env, mk(&xa, &sd.0, k), mk(&xb, &sd.1, k));
            }
            19 => {
                // tweaks the built-in keys refuse
                let k = r.below(3);
                let mk = |e: &Ext, name: &str| {
                    let t = match k {
                        0 => vec![0; 32],
                        1 => vec![0xff; 32],
                        _ => model::sub256(&model::N, &e.sk()).0.to_vec(),
                    };
                    Op::new(name, vec![e.sk().to_vec(), t])
                };
                let name = *r.pick(&["b.tweakprv", "b.tweakpub"]);
                two(&mut p, &env, mk(&xa, name), mk(&xb, name));
            }
            20 => {
                let k = *r.pick(&[0usize, 1, 16, 20, 31, 33, 48, 64, 100]);
                let d = r.bytes(k);
                two(&mut p, &env, Op::new("sign", vec![xa.sk().to_vec(), d.clone()]), Op::new("sign", vec![xb.sk().to_vec(), d]));
            }
            21 => {
                let k = vec![r.below(4) as u8];
                let m = *r.pick(&[16usize, 32, 64, 128, 17]);
                let (x, y) = (r.bytes(m), r.bytes(m));
                two(&mut p, &env, Op::new("panic.seed", vec![x, k.clone()]), Op::new("panic.seed", vec![y, k]));
            }
            22 => {
                // entropy is refused or runs out half-way
                let a = Op::new("new", vec![vec![b'0' + r.below(5) as u8], lv.clone()]);
                let how = [vec![1 + r.below(4) as u8], num(jump)];
                two(&mut p, &how, a.clone(), a);
            }
            23 => {
                let s = gen::sink(r);
                let f = vec![*r.pick(b"dxXyY")];
                let (a, b) = match r.below(3) {
                    0 => (Op::new("out.xdbg", vec![f.clone(), xa.rec(), s.clone()]), Op::new("out.xdbg", vec![f, xb.rec(), s])),
                    1 => (Op::new("out.mn", vec![f.clone(), ea.clone(), lv.clone(), s.clone()]), Op::new("out.mn", vec![f, eb.clone(), lv.clone(), s])),
                    _ => {
                        let lb = vec![b'0' + 2 * r.below(4) as u8];
                        let f = vec![b'd'];
                        (Op::new("out.xprv", vec![f.clone(), lb.clone(), xa.rec(), s.clone()]), Op::new("out.xprv", vec![f, lb, xb.rec(), s]))
                    }
                };
                two(&mut p, &env, a, b);
            }
            24 => {
                let name = *r.pick(&["xdebug", "xdebugalt"]);
                let f = vec![r.below(12) as u8];
                two(&mut p, &env, Op::new(name, vec![xa.rec(), f.clone()]), Op::new(name, vec![xb.rec(), f]));
            }
            _ => {
                // use of the secrets in between
                let c = be(gen::cnh(r, cx));
                let mk = |e: &Ext, ph: &str, en: &[u8], k: usize| match k {
                    0 => Op::new("phr", vec![ph.as_bytes().to_vec(), lv.clone()]),
                    1 => Op::new("ent", vec![en.to_vec(), lv.clone()]),
                    2 => Op::new("xchild", vec![e.rec(), c.clone()]),
                    3 => Op::new("xprvfmt", vec![vec![b'0'], e.rec()]),
                    4 => Op::new("val", vec![ph.as_bytes().to_vec(), lv.clone()]),
                    5 => Op::new("keep:xkey", vec![e.rec()]),
                    _ => Op::new("sign", vec![e.sk().to_vec(), vec![0x77; 32]]),
                };
                let k = r.below(7);
                two(&mut p, &env, mk(&xa, &pa, &ea, k), mk(&xb, &pb, &eb, k));
            }
        }
    }
    p
}

fn env(s: &Step) -> Env {
    let h = s.b(0).first().copied().unwrap_or(0);
    Env {
        clock_jump: s.u(1) as i64,
        ent_mode: match h {
            1 => 2,
            4 => 1,
            _ => 0,
        },
        ent_script: match h {
            2 => vec![5, 7],
            3 => vec![15, 254, 3],
            4 => vec![7],
            _ => vec![],
        },
        ent_default: if h == 0 { None } else { Some(0) },
        ..Env::default()
    }
}

/// The part of a reply that is a message to people, if any.
fn message(op: &str, r: &Reply) -> Option<String> {
    match r {
        Reply::Out(Out::Err(t)) => Some(format!("error {}", t)),
        Reply::Out(Out::Panic(t)) => Some(format!("panic {}", t)),
        Reply::Out(Out::Ok(t)) => {
            if op.starts_with("xdebug") || op == "out.xdbg" {
                return Some(t.clone());
            }
            if op.starts_with("b.") {
                let l = t.lines().next().unwrap_or("");
                if l.starts_with("err") || l.starts_with("panic") {
                    return Some(l.to_string());
                }
            }
            if op.starts_with("out.") {
                return t.splitn(4, '\n').nth(3).map(|x| x.to_string());
            }
            None
        }
        Reply::Out(Out::Bad(_)) => None,
        r => Some(r.show()),
    }
}

fn compare(cx: &mut Ctx, op: &str, how: &str, a: &Reply, b: &Reply, pa: &[u8], pb: &[u8]) -> Res {
    if let (Some(x), Some(y)) = (message(op, a), message(op, b)) {
        cx.judge();
        cx.nontrivial = true;
        // the status of a debug form written to a sink is not what matters
        if x != y {
            return fail("discloses", format!("{} {}: with one secret the message is {:?}, with another {:?}", op, how, clip(&x), clip(&y)));
        }
    }
    cx.judge();
    if pa != pb {
        return fail(
            "prints",
            format!("{} {}: with one secret the library prints {:?}, with another {:?}", op, how, clip(&String::from_utf8_lossy(pa)), clip(&String::from_utf8_lossy(pb))),
        );
    }
    Ok(())
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let a = w.start(0);
    let b = w.start(0);
    for s in &p.steps {
        match s.op.as_str() {
            "two" if s.args.len() >= 4 => {
                let k = s.b(2).first().copied().unwrap_or(0) as usize;
                if s.args.len() != 4 + 2 * k {
                    continue;
                }
                let name = s.t(3);
                let x = Op { name: name.clone(), args: s.args[4..4 + k].to_vec() };
                let y = Op { name: name.clone(), args: s.args[4 + k..].to_vec() };
                let e = env(s);
                if e.ent_default.is_some() {
                    rt::fault(rt::F_REFUSED);
                }
                let ra = cx.call(&mut w, a, &x, &e);
                let rb = cx.call(&mut w, b, &y, &e);
                if !w.nodes[a].alive || !w.nodes[b].alive {
                    return fail("died", format!("{}: {} / {}", name, ra.show(), rb.show()));
                }
                let (pa, pb) = (w.nodes[a].last.printed.clone(), w.nodes[b].last.printed.clone());
                if ra.out().map(|o| o.kind()) != rb.out().map(|o| o.kind()) && !name.starts_with("b.") {
                    // other properties judge which calls must fail
                    continue;
                }
                compare(cx, &name, &format!("({} / {})", clip(&show(&x.args)), clip(&show(&y.args))), &ra, &rb, &pa, &pb)?;
            }
            "raw" if s.args.len() >= 3 => {
                let l = s.b(2).first().copied().unwrap_or(b'e');
                let t = s.t(1);
                let via_val = s.b(0).first() == Some(&0);
                let Some(why) = complaint(&t, l) else { continue };
                if via_val && (t.split(' ').count() != model_words(&t) || t.split(' ').any(|x| x.is_empty()) || !t.split(' ').eq(t.split_whitespace())) {
                    continue;
                }
                let (mut tt, mut c) = (t.clone(), stand_in(&why, l));
                if why.1 == 0 && why.0 == Refusal::Count {
                    continue;
                }
                if via_val {
                    // validation reads the words as they are
                    use unicode_normalization::UnicodeNormalization;
                    tt = tt.nfkd().collect();
                    c = c.nfkd().collect();
                    if complaint(&tt, l) != Some(why.clone()) {
                        continue;
                    }
                }
                let name = if via_val { "val" } else { "phr" };
                let ra = cx.ask(&mut w, a, name, vec![tt.clone().into_bytes(), vec![l]]);
                let rb = cx.ask(&mut w, b, name, vec![c.clone().into_bytes(), vec![l]]);
                if !w.nodes[a].alive || !w.nodes[b].alive {
                    return fail("died", format!("{}: {} / {}", name, ra.show(), rb.show()));
                }
                let (pa, pb) = (w.nodes[a].last.printed.clone(), w.nodes[b].last.printed.clone());
                compare(cx, name, &format!("of a damaged phrase ({:?} / {:?})", tt, c), &ra, &rb, &pa, &pb)?;
            }
            _ => {}
        }
    }
    Ok(())
}

use super::common::*;
use std::collections::HashMap;

pub const P: Prop = Prop {
    id: "C10",
    gen,
    exec,
    free: no_free,
    quick: 16_000,
    thorough: 288_000,
    rule: "one run = related digests signed with related keys by threads, retries, restarted and crashed processes under entropy faults and clock jumps; every signature is verified and recovered, compared with every other of the run; non-trivial = at least two signatures were compared and the run's event trace was not seen before",
};

fn sign_args(r: &mut Rng, cx: &mut Ctx) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let nk = r.range(1, 3);
    let mut keys = vec![gen::scalar(r, cx)];
    for _ in 1..nk {
        let mut k = keys[0];
        match r.below(4) {
            0 => k = model::sub256(&model::N, &k).0,
            1 => k = gen::scalar(r, cx),
            _ => k[r.range(0, 31)] ^= 1 << r.below(8),
        }
        if model::scalar_ok(&k) {
            keys.push(k)
        }
    }
    let mut digs = vec![gen::b32(r, cx).to_vec()];
    for _ in 0..r.range(1, 4) {
        let b = digs[r.below(digs.len())].clone();
        let mut d = b.clone();
        match r.below(10) {
            0 => d = r.bytes(32),
            1 => d = vec![0; 32],
            2 => d = model::N.to_vec(),
            3 => {
                d = model::N.to_vec();
                d[31] = d[31].wrapping_sub(1)
            }
            4 => d.reverse(),
            5 => {
                // keep one half
                let t = r.bytes(16);
                if r.pct(50) {
                    d[..16].copy_from_slice(&t)
                } else {
                    d[16..].copy_from_slice(&t)
                }
            }
            6 => d.swap(r.below(32), r.below(32)),
            7 => {
                let k = keys[r.below(keys.len())];
                d = match r.below(5) {
                    0 => model::sub256(&model::N, &k).0.to_vec(),
                    1 => k.iter().rev().copied().collect(),
                    2 => cx.m.pubkey(&k)[1..].to_vec(),
                    _ => k.to_vec(),
                }
            }
            _ => d[r.below(32)] ^= 1 << r.below(8),
        }
        digs.push(d);
    }
    if r.pct(12) && !rare().sigs.is_empty() {
        // a signature with zero bytes at an end
        let (k, d) = *r.pick(&rare().sigs);
        v.push((k.to_vec(), d.to_vec()));
        v.push((keys[0].to_vec(), d.to_vec()));
    }
    let n = r.range(3, 9);
    for _ in 0..n {
        let k = keys[r.below(keys.len())].to_vec();
        let mut d = digs[r.below(digs.len())].clone();
        if r.pct(8) {
            match r.below(5) {
                0 => d.truncate(r.below(32)),
                1 => d.push(r.u8()),
                2 => d.extend(vec![0; 32]),
                3 => d = vec![],
                _ => d = r.bytes(*r.clone().pick(&[1, 16, 20, 31, 33, 48, 64, 65, 96, 256, 256 + 32, 512 + 32, 65536 + 32])),
            }
        }
        v.push((k, d));
    }
    v
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let v = sign_args(r, cx);
    let threaded = r.pct(40);
    if threaded {
        let nt = r.range(2, 3);
        let mut k = 0;
        for (a, d) in &v {
            add_call(&mut p, (k % nt) as u8, r.pct(10), &Op::new("sign", vec![a.clone(), d.clone()]));
            k += 1;
        }
        p.add("threads", vec![]);
        gen_sched(r, &mut p, 900 * v.len() as u64 / nt as u64);
        for (a, d) in v.iter().take(2) {
            p.add("sign", vec![a.clone(), d.clone(), num(0), vec![0], num(0)]);
        }
        return p;
    }
    for (a, d) in v {
        let crash = if r.pct(15) { crash_at(r, cx.typical("sign")) } else { 0 };
        let mode = if r.pct(25) { r.range(1, 3) as u8 } else { 0 };
        let jump = if r.pct(15) { (r.u64() % 1_000_000_000_000) as i64 - 500_000_000_000 } else { 0 };
        p.add("sign", vec![a, d, num(crash), vec![mode], num(jump as u64)]);
        if r.pct(20) {
            p.add("restart", vec![]);
        }
        if r.pct(15) {
            // something else in between
            let o = gen::any_op(r, cx);
            let mut a = vec![o.name.into_bytes()];
            a.extend(o.args);
            p.add("other", a);
        }
    }
    p
}

/// half the order
const HALF: [u8; 32] = [
    0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x5d, 0x57, 0x6e, 0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46,
    0x68, 0x1b, 0x20, 0xa0,
];

#[derive(Default)]
struct Seen {
    by_input: HashMap<(Vec<u8>, Vec<u8>), String>,
    by_r: HashMap<Vec<u8>, (Vec<u8>, Vec<u8>)>,
}

fn judge_sig(cx: &mut Ctx, seen: &mut Seen, key: &[u8], dig: &[u8], o: &Out) -> Res {
    let what = format!("key {} digest {}", hex(key), hex(dig));
    cx.judge();
    let t = match o {
        Out::Ok(t) if dig.len() == 32 => t,
        Out::Err(_) if dig.len() != 32 => {
            rt::fault(rt::F_REFUSED);
            return Ok(());
        }
        _ => return fail("result", format!("{}: {} {}", what, o.kind(), clip(o.text()))),
    };
    let Some((s, rid)) = t.split_once('|') else { return fail("result", clip(t)) };
    let sig = model::unhex(s);
    let (Ok(sk), Ok(rid)) = (libsecp256k1::SecretKey::parse_slice(key), rid.parse::<u8>()) else { return fail("result", clip(t)) };
    let d: [u8; 32] = dig.try_into().unwrap();
    let pk = libsecp256k1::PublicKey::from_secret_key(&sk);
    let msg = libsecp256k1::Message::parse(&d);
    let Ok(sg) = libsecp256k1::Signature::parse_standard_slice(&sig) else { return fail("result", format!("{}: malformed signature {}", what, s)) };
    if !libsecp256k1::verify(&msg, &sg, &pk) {
        return fail("verify", format!("{}: signature {} does not verify", what, s));
    }
    let rec = libsecp256k1::RecoveryId::parse(rid).ok().and_then(|i| libsecp256k1::recover(&msg, &sg, &i).ok());
    if rec != Some(pk) {
        return fail("recover", format!("{}: recovery id {} does not lead to the signer", what, rid));
    }
    if sig[32..] > HALF[..] {
        return fail("low-s", format!("{}: s is in the upper half: {}", what, s));
    }
    let k = (key.to_vec(), dig.to_vec());
    cx.judge();
    if let Some(old) = seen.by_input.get(&k) {
        cx.nontrivial = true;
        if old != t {
            return fail("repeat", format!("{}: signed as {} before and {} now", what, old, t));
        }
        return Ok(());
    }
    seen.by_input.insert(k.clone(), t.clone());
    if let Some(o) = seen.by_r.get(&sig[..32]) {
        // digests that are equal modulo the order are the same message
        let same = o.0 == k.0 && (model::sub256(&d, &model::N).0[..] == o.1[..] || model::add256(&d, &model::N).0[..] == o.1[..]);
        if !same {
            return fail("nonce", format!("{} shares the nonce value {} with key {} digest {}", what, hex(&sig[..32]), hex(&o.0), hex(&o.1)));
        }
    }
    if !seen.by_r.is_empty() {
        cx.nontrivial = true;
    }
    seen.by_r.insert(sig[..32].to_vec(), k);
    Ok(())
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut cur: Option<usize> = None;
    let mut seen = Seen::default();
    let mut disk = Disk::default();
    for s in &p.steps {
        match s.op.as_str() {
            "sign" => {
                if !<[u8; 32]>::try_from(s.b(0)).map(|k| model::scalar_ok(&k)).unwrap_or(false) {
                    continue;
                }
                let env = Env {
                    crash_in: s.u(2),
                    ent_mode: if s.b(3).first() == Some(&2) { 2 } else { 0 },
                    ent_script: if s.b(3).first() == Some(&1) { vec![3, 254, 1] } else { vec![] },
                    ent_default: if s.b(3).first() == Some(&3) { Some(0) } else { None },
                    clock_jump: s.u(4) as i64,
                    ..Env::default()
                };
                let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("sign", vec![s.b(0).to_vec(), s.b(1).to_vec()]), &env, 1);
                match r.out() {
                    Some(o) => judge_sig(cx, &mut seen, s.b(0), s.b(1), o)?,
                    None => return fail("died", r.show()),
                }
            }
            "restart" => stop(&mut w, &mut cur),
            "other" => {
                let n = proc(&mut w, &mut cur);
                let r = cx.ask(&mut w, n, &s.t(0), s.args[1..].to_vec());
                if r.out().is_none() {
                    return fail("died", r.show());
                }
            }
            "threads" => {
                let (sc, refused) = calls_of(p);
                if sc.is_empty() {
                    continue;
                }
                let n = proc(&mut w, &mut cur);
                let mo = threads(p, cx, &mut w, n, &sc, &refused, &Env::default())?;
                for (t, o) in mo.threads.iter().enumerate() {
                    for (k, x) in o.outs.iter().enumerate() {
                        judge_sig(cx, &mut seen, &sc[t][k].args[0], &sc[t][k].args[1], &x.0)?;
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

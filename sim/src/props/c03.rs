use super::common::*;
use crate::model::{b58check, key_text, read_record, record, Rec, N};

pub const P: Prop = Prop {
    id: "C03",
    gen,
    exec,
    free: |op| match op {
        "put" => &[1],
        _ => &[],
    },
    quick: 150_000,
    thorough: 2_700_000,
    rule: "one run = extended key records written as text to a simulated disk, crashed, damaged, spliced or maliciously re-checksummed, and read back in several processes; non-trivial = at least one record was read back after a crash, restart or damage and the run's event trace was not seen before",
};

/// A record whose checksum is right and whose content is not (or is, sometimes).
fn evil(r: &mut Rng, cx: &mut Ctx, l: usize, e: &Ext) -> Vec<u8> {
    let mut b = record(LABELS[l].1, e);
    let private = l % 2 == 0;
    for _ in 0..r.range(1, 2) {
        match r.below(16) {
            0 => b[45] = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 0xff, 0x80]),
            1 if private => b[46..78].copy_from_slice(&[0; 32]),
            2 if private => b[46..78].copy_from_slice(&N),
            3 if private => {
                let mut n = N;
                match r.below(4) {
                    0 => n[31] -= 1,
                    1 => n[31] += 1,
                    2 => n = [0xff; 32],
                    _ => {
                        n[31] = r.u8();
                        n[30] = 0x42
                    }
                }
                b[46..78].copy_from_slice(&n)
            }
            2 | 3 => {
                // x coordinate at or above the field size
                let mut n = [0xffu8; 32];
                n[28..].copy_from_slice(&[0xff, 0xff, 0xfc, 0x2f]);
                n[27] = 0xfe;
                n[31] = n[31].wrapping_add(r.below(3) as u8);
                b[46..78].copy_from_slice(&n)
            }
            1 | 4 => {
                let x = gen::b32(r, cx);
                b[46..78].copy_from_slice(&x)
            }
            5 => b[5..9].copy_from_slice(&[r.u8(), 0, 0, r.u8()]),
            6 => {
                b[4] = 0;
                if r.pct(50) {
                    b[9..13].copy_from_slice(&[0; 4]);
                }
            }
            7 => {
                b[4] = 0;
                b[5..9].copy_from_slice(&[0; 4]);
                if r.pct(50) {
                    b[9..13].copy_from_slice(&gen::cnh(r, cx).to_be_bytes());
                }
            }
            8 => {
                // all master, then one bit off
                b[4..13].copy_from_slice(&[0; 9]);
                let k = r.range(5, 12);
                b[k] ^= 1 << r.below(8);
            }
            9 => b[..4].copy_from_slice(&LABELS[r.below(8)].1.to_be_bytes()),
            10 if r.pct(60) => {
                // a label that merely looks like one
                let t: String = LABELS[r.below(8)].0.chars().map(|c| if r.pct(35) { c.to_ascii_uppercase() } else { c }).collect();
                let mut t = t.into_bytes();
                if r.pct(40) {
                    let k = r.below(4);
                    t[k] = *r.pick(b"abcdefghjkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ");
                }
                if let Some(v) = model::version_of(&String::from_utf8(t).unwrap()) {
                    b[..4].copy_from_slice(&v.to_be_bytes())
                }
            }
            10 => {
                let k = r.below(4);
                b[k] ^= 1 << r.below(8)
            }
            11 => {
                let n = r.range(0, 77).max(if r.pct(60) { 70 } else { 0 });
                b.truncate(n)
            }
            12 => {
                let n = r.range(1, 4);
                for _ in 0..n {
                    let x = r.u8();
                    b.push(x)
                }
            }
            13 => {
                // the other kind of key under this label
                let p = gen::point(r, cx);
                if private {
                    b[45..78].copy_from_slice(&p)
                } else {
                    let s = gen::scalar(r, cx);
                    b[45] = 0;
                    b[46..78].copy_from_slice(&s)
                }
            }
            14 if b.len() > 60 => {
                // bytes shifted by one
                let k = r.range(4, 50);
                let x = b.remove(k);
                b.push(x);
            }
            _ => {
                let k = r.below(b.len().max(1));
                if k < b.len() {
                    b[k] ^= 1 << r.below(8)
                }
            }
        }
        if b.len() != 78 {
            break;
        }
    }
    b58check(&b).into_bytes()
}

pub(super) fn dmg(r: &mut Rng, t: &str, o: &str) -> Vec<u8> {
    let mut v = t.as_bytes().to_vec();
    match r.below(13) {
        12 => v = gen::human(r, t).into_bytes(),
        0 => {
            let i = r.below(v.len());
            v[i] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[r.below(58)]
        }
        1 => {
            let i = r.below(v.len());
            v[i] = *r.pick(b"0OIl +/=-_\n\t\0\xff")
        }
        2 => {
            let i = r.below(v.len() - 1);
            v.swap(i, i + 1)
        }
        3 => {
            let k = r.below(v.len());
            let mut n = v[..k].to_vec();
            n.extend_from_slice(&o.as_bytes()[k.min(o.len())..]);
            v = n
        }
        4 => {
            let f: [&[u8]; 8] = [b" ", b"\n", b"1", b"\0", b"x", b"11", b"\r\n", "é".as_bytes()];
            if r.pct(50) {
                v.extend_from_slice(r.pick(&f))
            } else {
                let mut n = r.pick(&f).to_vec();
                n.extend_from_slice(&v);
                v = n
            }
        }
        5 => {
            // the label as typed text
            let l = LABELS[r.below(8)].0.as_bytes();
            v[..4].copy_from_slice(l)
        }
        6 => v = String::from_utf8_lossy(&v).to_uppercase().into_bytes(),
        7 => {
            let mut n = v.clone();
            n.extend_from_slice(&v);
            v = n
        }
        _ => v = gen::damage(r, t, o, false),
    }
    v
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    for _ in 0..r.range(1, 3) {
        let l = r.below(8);
        let e = if l % 2 == 0 { gen::ext(r, cx) } else { gen::extp(r, cx) };
        let o = if l % 2 == 0 { gen::near(r, cx, &e, true) } else { gen::near(r, cx, &e, false) };
        let (t, u) = (key_text(l, &e), key_text(l, &o));
        match r.below(6) {
            0 | 1 => {
                let c = if r.pct(10) { crash_at(r, 600) } else { 0 };
                p.add("save", vec![vec![0], vec![l as u8], e.rec(), vec![r.below(3) as u8], num(c)]);
                if r.pct(60) {
                    p.add("sync", vec![vec![0]])
                }
                if r.pct(40) {
                    p.add("save", vec![vec![0], vec![l as u8], o.rec(), vec![r.below(3) as u8], num(0)]);
                }
                if r.pct(60) {
                    p.add("crash", vec![num(r.u64() >> 8)])
                } else if r.pct(50) {
                    p.add("restart", vec![])
                }
            }
            2 => {
                p.add("save", vec![vec![0], vec![l as u8], e.rec(), vec![0], num(0)]);
                p.add("sync", vec![vec![0]]);
                p.add("rot", vec![vec![0], num(r.below(111) as u64), vec![1 << r.below(8)]]);
            }
            3 => {
                let v = evil(r, cx, l, &e);
                p.add("put", vec![vec![0], v])
            }
            _ => {
                let mut v = dmg(r, &t, &u);
                if r.pct(15) {
                    let s = String::from_utf8_lossy(&v).into_owned();
                    if s.len() > 4 && s.is_ascii() {
                        v = dmg(r, &s, &u);
                    }
                }
                p.add("put", vec![vec![0], v])
            }
        }
        let c = if r.pct(8) { crash_at(r, 1500) } else { 0 };
        p.add("load", vec![vec![0], vec![*r.pick(b"kxpr")], num(c)]);
        if r.pct(60) {
            p.add("load", vec![vec![0], vec![*r.pick(b"rxp")], num(0)]);
        }
        if r.pct(25) {
            // the struct form of a key under a label of either kind
            p.add("typed", vec![vec![r.below(8) as u8], vec![(l % 2) as u8], e.rec()]);
        }
    }
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut disk = Disk::default();
    let mut cur: Option<usize> = None;
    for s in &p.steps {
        let f = s.b(0).first().copied().unwrap_or(0);
        match s.op.as_str() {
            "save" => {
                if s.b(2).len() != 74 {
                    continue;
                }
                let l = (s.b(1)[0] % 8) as usize;
                let e = Ext::from_rec(s.b(2));
                let (lab, rec) = (vec![b'0' + l as u8], s.b(2).to_vec());
                let op = match (s.b(3).first().copied().unwrap_or(0), l % 2) {
                    (0, _) => Op::new("ekfmt", vec![lab, rec]),
                    (1, _) => Op::new("ekbuf", vec![lab, rec, s.b(2)[9..30].to_vec()]),
                    (_, 0) => Op::new("xprvfmt", vec![lab, rec]),
                    _ => Op::new("xpubfmt", vec![lab, rec]),
                };
                let n = proc(&mut w, &mut cur);
                let r = cx.call(&mut w, n, &op, &env_of(s.u(4)));
                if r == Reply::Crashed {
                    disk.crash(s.u(4));
                    continue;
                }
                let t = key_text(l, &e);
                want(cx, "text", &format!("writing a {} record by {}", LABELS[l].0, op.name), &r, &t)?;
                if s.u(4) % 8 == 0 {
                    // the label itself
                    let (n4, v) = LABELS[l];
                    let r = cx.ask(&mut w, n, "prefix", vec![v.to_be_bytes().to_vec()]);
                    let t = format!("{}|{:08x}|{}|{}|{:08x}", n4, v, l % 2 == 0, l % 2 == 1, v);
                    want(cx, "label", &format!("reading the {} label", n4), &r, &t)?;
                }
                disk.write(f, t.as_bytes());
            }
            "put" => disk.put_damaged(f, s.b(1).to_vec()),
            "sync" => disk.sync(f),
            "crash" => {
                rt::fault(rt::F_CRASH);
                stop(&mut w, &mut cur);
                disk.crash(s.u(0));
            }
            "restart" => {
                stop(&mut w, &mut cur);
                disk.sync_all()
            }
            "rot" => disk.rot(f, s.u(1) as usize, s.b(2).first().copied().unwrap_or(1)),
            "typed" => {
                if s.b(2).len() != 74 {
                    continue;
                }
                let l = (s.b(0)[0] % 8) as usize;
                let kind = (s.b(1)[0] % 2) as usize;
                let e = Ext::from_rec(s.b(2));
                let n = proc(&mut w, &mut cur);
                // kind 0: private content, 1: public content; label may disagree
                for (op, want_kind) in [("xkeyof", 0), ("pkeyof", 1)] {
                    let r = cx.ask(&mut w, n, op, vec![vec![b'0' + l as u8], s.b(2).to_vec()]);
                    let what = format!("{} of a {} record with {} content", op, LABELS[l].0, ["private", "public"][kind]);
                    if l % 2 == want_kind && kind == want_kind {
                        let d = if kind == 0 { cx.m.desc_x(&e) } else { cx.m.desc_p(&e) };
                        want(cx, "typed", &what, &r, &d)?
                    } else {
                        want_err(cx, "typed-accepts", &what, &r)?
                    }
                }
            }
            "load" => {
                let Some(raw) = disk.read(f) else { continue };
                let text = String::from_utf8_lossy(&raw).into_owned();
                let said = read_record(&text);
                let how = s.b(1).first().copied().unwrap_or(b'r');
                let name = match how {
                    b'k' => "ekparse",
                    b'x' => "xprvparse",
                    b'p' => "xpubparse",
                    _ => "rt",
                };
                cx.nontrivial = true;
                let env = env_of(s.u(2));
                let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new(name, vec![text.clone().into_bytes()]), &env, s.u(2));
                let what = format!("{} of {:?} ({:?})", name, clip(&text), &said);
                match &said {
                    Rec::Foreign => {
                        want_calm(cx, "parse-crash", &what, &r)?;
                        let private = how == b'x';
                        if how == b'x' || how == b'p' {
                            match (model::labelled(&text, private), model::content(&text, private)) {
                                (true, Some(e)) => {
                                    let d = if private { cx.m.desc_x(&e) } else { cx.m.desc_p(&e) };
                                    want_either(cx, "parse-wrong", &what, &r, &d)?
                                }
                                _ => want_err(cx, "accepts-bad", &what, &r)?,
                            }
                        }
                    }
                    Rec::Bad(why) => {
                        let content = !["base58/checksum", "length"].contains(why);
                        if how == b'k' && content {
                            // the raw record form may carry content that only the typed keys refuse
                            want_calm(cx, "parse-crash", &what, &r)?
                        } else {
                            want_err(cx, "accepts-bad", &what, &r)?
                        }
                    }
                    Rec::Good(l, e) => {
                        let private = l % 2 == 0;
                        let dt = if private { cx.m.desc_x(e) } else { cx.m.desc_p(e) };
                        let dk = cx.m.desc_ek(*l, e);
                        match how {
                            b'k' => want(cx, "parse-wrong", &what, &r, &dk)?,
                            b'x' if private => want(cx, "parse-wrong", &what, &r, &dt)?,
                            b'p' if !private => want(cx, "parse-wrong", &what, &r, &dt)?,
                            b'x' | b'p' => want_err(cx, "accepts-kind", &what, &r)?,
                            _ => {
                                let t = key_text(*l, e);
                                want(cx, "round-trip", &what, &r, &format!("{}\n{}\n{}\n{}", dk, dt, t, t))?
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

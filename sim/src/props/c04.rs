use super::common::*;
use crate::model::{key_text, read_record, DErr, Rec};

pub const P: Prop = Prop {
    id: "C04",
    gen,
    exec,
    free: no_free,
    quick: 40_000,
    thorough: 720_000,
    rule: "one run = a private key derived along a path by several routes (one call, split calls, kept objects, resumed from saved ancestors after crashes); non-trivial = at least two derivations were judged against the reference and the run's event trace was not seen before",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    for _ in 0..r.range(1, 2) {
        match r.below(20) {
            0 => {
                // seeds of every length
                let n = match r.below(3) {
                    0 => *r.pick(&[0usize, 1, 15, 17, 20, 24, 28, 31, 33, 48, 63, 65, 127, 129, 256, 272, 288, 320, 384, 528, 576, 65536 + 16, 65536 + 64]),
                    1 => *r.pick(&[16, 32, 64, 128]),
                    _ => r.below(140),
                };
                let s = r.bytes(n);
                let path = gen::path(r, cx, 3, true);
                p.add("seed", vec![s, path_bytes(&path)]);
            }
            1 if r.pct(25) => {
                // very deep paths
                let n = *r.pick(&[250usize, 254, 255, 256, 257, 300, 511, 512, 513, 768]);
                let path: Vec<u32> = (0..n).map(|_| 1 << 31 | gen::cn(r, cx)).collect();
                p.add("seed", vec![gen::seed(r, cx), path_bytes(&path)]);
            }
            2 | 3 => {
                // near the greatest depth
                let mut e = gen::ext(r, cx);
                e.depth = *r.pick(&[250u8, 252, 253, 254, 255, 255]);
                if r.pct(50) {
                    e.depth = 255 - r.below(4) as u8;
                }
                let mut path = gen::path(r, cx, 6, true);
                gen::kin(r, &e, &mut path, true);
                p.add("from", vec![e.rec(), path_bytes(&path), vec![r.below(3) as u8], num(0), vec![r.below(4) as u8]]);
            }
            4..=8 => {
                let mut e = gen::ext(r, cx);
                let mut path = gen::path(r, cx, 5, true);
                if r.pct(15) {
                    // a derivation known to be rare
                    let k = r.pick(&rare().kids);
                    e = k.0.clone();
                    path.truncate(3);
                    path.insert(0, k.1);
                }
                if r.pct(15) {
                    e.depth = r.range(1, 8) as u8;
                }
                gen::kin(r, &e, &mut path, true);
                if r.pct(30) && !path.is_empty() && e.depth < 250 {
                    // a rare intermediate value: leading zero in tweak, key or chain code
                    let k = r.below(path.len());
                    if let Ok(x) = cx.m.derive(&e, &path[..k], true) {
                        path[k] = gen::grind(r, cx, &x, r.clone().pct(60));
                    }
                }
                let c = if r.pct(20) { crash_at(r, 700 * (path.len() as u64 + 2)) } else { 0 };
                p.add("from", vec![e.rec(), path_bytes(&path), vec![r.below(3) as u8], num(c), vec![r.below(4) as u8]]);
                if r.pct(50) {
                    p.add("from", vec![e.rec(), path_bytes(&path), vec![r.below(3) as u8], num(0), vec![r.below(4) as u8]]);
                }
            }
            _ => {
                let s = gen::seed(r, cx);
                let path = gen::path(r, cx, 6, true);
                p.add("seed", vec![s.clone(), path_bytes(&path)]);
                // the same path over stops
                let mut a = vec![s, path_bytes(&path)];
                let mut at = 0;
                let mut cuts = vec![];
                while at < path.len() {
                    let k = r.range(1, path.len() - at);
                    at += k;
                    cuts.push(k as u8);
                    // what happens at the stop: keep going, reopen the object, save+crash+load, restart, step by derive_child
                    cuts.push(r.below(5) as u8);
                    cuts.push(r.below(8) as u8);
                }
                a.push(cuts);
                let c = if r.pct(25) { crash_at(r, 1500) } else { 0 };
                a.push(num(c));
                a.push(num(r.u64() >> 8));
                p.add("walk", a);
            }
        }
    }
    p
}

fn expect(cx: &mut Ctx, what: &str, r: &Reply, e: &Result<Ext, DErr>) -> Res {
    match e {
        Ok(x) => {
            let d = cx.m.desc_x(x);
            want(cx, "derive", what, r, &d)
        }
        Err(k) => want_err(cx, if *k == DErr::Depth { "derive-depth" } else { "derive-key" }, what, r),
    }
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut disk = Disk::default();
    let mut cur: Option<usize> = None;
    for s in &p.steps {
        match s.op.as_str() {
            "seed" => {
                let path = bytes_path(s.b(1));
                let n = proc(&mut w, &mut cur);
                let m = cx.m.master(s.b(0));
                let what = format!("from a {}-byte seed along {} components", s.b(0).len(), path.len());
                let r = cx.ask(&mut w, n, "master", vec![s.b(0).to_vec()]);
                let r2 = cx.ask(&mut w, n, "path", vec![s.b(0).to_vec(), path_bytes(&path)]);
                match m {
                    None => {
                        want_err(cx, "seed-length", &what, &r)?;
                        want_err(cx, "seed-length", &what, &r2)?;
                    }
                    Some(m) => {
                        let d = cx.m.desc_x(&m);
                        want(cx, "master", &what, &r, &d)?;
                        let e = cx.m.derive(&m, &path, true);
                        expect(cx, &what, &r2, &e)?;
                    }
                }
                cx.nontrivial = true;
            }
            "from" => {
                if s.b(0).len() != 74 {
                    continue;
                }
                let e = Ext::from_rec(s.b(0));
                let path = bytes_path(s.b(1));
                let exp = cx.m.derive(&e, &path, true);
                let what = format!("from depth {} along {}", e.depth, model::path_text(&path));
                let env = env_of(s.u(3));
                // the ancestor comes from memory or from a saved record
                let stored = s.b(2).first() == Some(&1);
                let l = 2 * (s.b(4).first().copied().unwrap_or(0) as usize % 4);
                if stored && !(e.depth == 0 && (e.fp != [0; 4] || e.cn != 0)) {
                    disk.write(1, key_text(l, &e).as_bytes());
                    disk.sync(1);
                    let t = disk.read(1).unwrap_or_default();
                    let n = proc(&mut w, &mut cur);
                    let base = super::c01::count(&mut w, cx, n);
                    let r = cx.ask(&mut w, n, "keep:xprvparse", vec![t]);
                    let d = cx.m.desc_x(&e);
                    want(cx, "load", &what, &r, &d)?;
                    let mut r = cx.call(&mut w, n, &Op::new("o.derive", vec![vec![base], path_bytes(&path)]), &env);
                    if r == Reply::Crashed {
                        disk.crash(s.u(3));
                        let n = proc(&mut w, &mut cur);
                        let t = disk.read(1).unwrap_or_default();
                        let q = cx.ask(&mut w, n, "keep:xprvparse", vec![t]);
                        want(cx, "load", &what, &q, &d)?;
                        r = cx.ask(&mut w, n, "o.derive", vec![vec![0], path_bytes(&path)]);
                    }
                    expect(cx, &what, &r, &exp)?;
                } else if s.b(2).first() == Some(&2) {
                    // component by component, every prefix judged
                    let mut k = e.clone();
                    for (i, c) in path.iter().enumerate() {
                        let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("xchild", vec![k.rec(), be(*c)]), &env, s.u(3));
                        let x = cx.m.ckd_priv(&k, *c);
                        expect(cx, &format!("{} component {}", what, i), &r, &x)?;
                        match x {
                            Ok(x) => k = x,
                            Err(_) => break,
                        }
                    }
                } else {
                    let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("xderive", vec![e.rec(), path_bytes(&path)]), &env, s.u(3));
                    expect(cx, &what, &r, &exp)?;
                }
                cx.nontrivial = true;
            }
            "walk" => {
                let path = bytes_path(s.b(1));
                let Some(m) = cx.m.master(s.b(0)) else { continue };
                let env = env_of(s.u(3));
                let mut n = proc(&mut w, &mut cur);
                let mut slot = super::c01::count(&mut w, cx, n);
                let r = cx.ask(&mut w, n, "keep:master", vec![s.b(0).to_vec()]);
                let d = cx.m.desc_x(&m);
                want(cx, "master", "walk", &r, &d)?;
                let mut k = m.clone();
                let mut at = 0;
                for (i, c) in s.b(2).chunks_exact(3).enumerate() {
                    let len = (c[0] as usize).min(path.len() - at);
                    let part = &path[at..at + len];
                    at += len;
                    let what = format!("walking {}, stop {} (mode {})", model::path_text(&path), i, c[1]);
                    let before = k.clone();
                    match cx.m.derive(&k, part, true) {
                        Ok(x) => k = x,
                        Err(_) => break,
                    }
                    let dk = cx.m.desc_x(&k);
                    match c[1] {
                        0 | 1 => {
                            let env = if i == 0 { env.clone() } else { Env::default() };
                            let mut r = cx.call(&mut w, n, &Op::new("keep:o.derive", vec![vec![slot], path_bytes(part)]), &env);
                            if r == Reply::Crashed {
                                // start over from the ancestor's saved record
                                n = proc(&mut w, &mut cur);
                                let r2 = cx.ask(&mut w, n, "keep:xprvparse", vec![key_text(0, &before).into_bytes()]);
                                let db = cx.m.desc_x(&before);
                                want(cx, "load", &what, &r2, &db)?;
                                slot = 0;
                                r = cx.ask(&mut w, n, "keep:o.derive", vec![vec![0], path_bytes(part)]);
                            }
                            want(cx, "derive", &what, &r, &dk)?;
                            slot += 1;
                        }
                        2 => {
                            for (j, q) in part.iter().enumerate() {
                                let r = cx.ask(&mut w, n, "keep:o.child", vec![vec![slot], be(*q)]);
                                if let Ok(x) = cx.m.derive(&before, &part[..=j], true) {
                                    let dx = cx.m.desc_x(&x);
                                    want(cx, "derive", &what, &r, &dx)?;
                                }
                                slot += 1;
                            }
                        }
                        _ => {
                            // save the ancestor, lose the process, load, go on
                            let l = 2 * (c[2] as usize % 4);
                            let r = cx.ask(&mut w, n, "xprvfmt", vec![vec![b'0' + l as u8], before.rec()]);
                            let t = key_text(l, &before);
                            want(cx, "save", &what, &r, &t)?;
                            disk.write(2, t.as_bytes());
                            disk.sync(2);
                            rt::fault(rt::F_CRASH);
                            stop(&mut w, &mut cur);
                            disk.crash(s.u(4));
                            n = proc(&mut w, &mut cur);
                            let r = cx.ask(&mut w, n, "keep:xprvparse", vec![disk.read(2).unwrap_or_default()]);
                            let db = cx.m.desc_x(&before);
                            want(cx, "load", &what, &r, &db)?;
                            let r = cx.ask(&mut w, n, "keep:o.derive", vec![vec![0], path_bytes(part)]);
                            want(cx, "derive", &what, &r, &dk)?;
                            slot = 1;
                        }
                    }
                    let _ = read_record as fn(&str) -> Rec;
                }
                cx.nontrivial = true;
                // every object on the way is still what it was
                let r = cx.ask(&mut w, n, "o.dump", vec![]);
                want_calm(cx, "dump", "objects on the way", &r)?;
            }
            _ => {}
        }
    }
    Ok(())
}

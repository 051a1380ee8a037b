use super::common::*;

pub const P: Prop = Prop {
    id: "C02",
    gen,
    exec,
    free: |op| match op {
        "write" | "put" => &[1],
        "ent" => &[0],
        _ => &[],
    },
    quick: 90_000,
    thorough: 1_620_000,
    rule: "one run = phrases written to a simulated disk, damaged by crashes, torn writes, decay or hand, and read back in several processes; non-trivial = at least one damaged text was judged and the run's event trace was not seen before",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let lang = gen::lang(r);
    let a = gen::ent(r, cx);
    let b = if r.pct(50) {
        gen::ent(r, cx)
    } else {
        let mut b = a.clone();
        let k = r.below(b.len() * 8);
        b[k / 8] ^= 1 << (k % 8);
        b
    };
    let pa = model::phrase_of(&a, lang).unwrap();
    let pb = model::phrase_of(&b, lang).unwrap();
    for _ in 0..r.range(1, 6) {
        match r.below(10) {
            0 => {
                // torn overwrite
                p.add("write", vec![vec![0], pa.clone().into_bytes()]);
                p.add("sync", vec![vec![0]]);
                p.add("write", vec![vec![0], pb.clone().into_bytes()]);
                p.add("crash", vec![num(r.u64() >> 8)]);
            }
            1 => {
                p.add("write", vec![vec![0], pa.clone().into_bytes()]);
                p.add("sync", vec![vec![0]]);
                for _ in 0..r.range(1, 2) {
                    p.add("rot", vec![vec![0], num(r.below(400) as u64), vec![1 << r.below(8)]]);
                }
            }
            2 => {
                // illegal or legal raw entropy
                let n = match r.below(3) {
                    0 => *r.pick(&[0usize, 1, 4, 8, 12, 15, 17, 19, 21, 33, 31, 36, 40, 48, 64, 128, 256, 132, 528, 272, 276, 280, 284, 288, 512 + 16, 1024 + 32, 8192 + 16, 8192 + 32, 65536 + 16, 65536 + 32]),
                    1 => gen::ent_len(r),
                    _ => r.below(70),
                };
                let e = r.bytes(n);
                p.add("ent", vec![e, vec![lang]]);
                continue;
            }
            3 if r.pct(20) => {
                // far too many words: a permitted number and a multiple of 2^5 .. 2^8 (or, rarely, of 2^16)
                let m = if r.pct(2) { 65536 } else { 256 >> r.below(4) };
                let w: Vec<&str> = pa.split(' ').collect();
                let n = w.len() + m * if m < 65536 { r.range(1, 3) } else { 1 };
                let t = match r.below(3) {
                    // the phrase first, or last, or again and again
                    0 => (0..n).map(|i| w[i.min(w.len() - 1)]).collect::<Vec<_>>(),
                    1 => (0..n).map(|i| w[(i + w.len()).saturating_sub(n)]).collect(),
                    _ => (0..n).map(|i| w[i % w.len()]).collect(),
                };
                p.add("put", vec![vec![0], t.join(" ").into_bytes()]);
            }
            3 => {
                // an undamaged phrase, sometimes retyped
                let t = if r.pct(50) { pa.clone() } else { gen::respell(r, &pa) };
                p.add("put", vec![vec![0], t.into_bytes()]);
            }
            _ => {
                let mut t = gen::damage(r, &pa, &pb, lang == b'c');
                if r.pct(25) {
                    let s = String::from_utf8_lossy(&t).into_owned();
                    t = gen::damage(r, &s, &pb, lang == b'c');
                }
                p.add("put", vec![vec![0], t]);
            }
        }
        if r.pct(15) {
            p.add("restart", vec![]);
        }
        let how = *r.pick(b"pvpvpvw");
        let l = if r.pct(4) { lang ^ (b'c' ^ b'e') } else { lang };
        let c = if r.pct(8) { crash_at(r, 4000) } else { 0 };
        p.add("read", vec![vec![0], vec![how], vec![l], num(c)]);
        if r.pct(30) {
            p.add("read", vec![vec![0], vec![*r.pick(b"pv")], vec![l], num(0)]);
        }
    }
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut disk = Disk::default();
    let mut cur: Option<usize> = None;
    for s in &p.steps {
        let f = s.b(0).first().copied().unwrap_or(0);
        match s.op.as_str() {
            "write" => disk.write(f, s.b(1)),
            "put" => disk.put_damaged(f, s.b(1).to_vec()),
            "sync" => disk.sync(f),
            "crash" => {
                rt::fault(rt::F_CRASH);
                stop(&mut w, &mut cur);
                disk.crash(s.u(0));
            }
            "restart" => {
                stop(&mut w, &mut cur);
                disk.sync_all()
            }
            "rot" => disk.rot(f, s.u(1) as usize, s.b(2).first().copied().unwrap_or(1)),
            "ent" => {
                let n = proc(&mut w, &mut cur);
                let l = s.b(1).first().copied().unwrap_or(b'e');
                let r = cx.ask(&mut w, n, "ent", vec![s.b(0).to_vec(), vec![l]]);
                let what = format!("raw entropy of {} bytes", s.b(0).len());
                match model::phrase_of(s.b(0), l) {
                    None => want_err(cx, "entropy-length", &what, &r)?,
                    Some(ph) => {
                        let d = cx.m.desc_m(&ph, s.b(0), l);
                        want(cx, "entropy", &what, &r, &d)?
                    }
                }
            }
            "read" => {
                let Some(raw) = disk.read(f) else { continue };
                let text = String::from_utf8_lossy(&raw).into_owned();
                let l = s.b(2).first().copied().unwrap_or(b'e');
                let said = read_phrase(&text, l);
                cx.nontrivial |= said.is_err();
                let env = env_of(s.u(3));
                let args = vec![text.clone().into_bytes(), vec![l]];
                let what = format!("{:?} ({})", clip(&text), l as char);
                match s.b(1).first() {
                    Some(b'v') => {
                        let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("val", args), &env, s.u(3));
                        match &said {
                            Err(_) => want_err(cx, "validate-accepts", &format!("validating {}", what), &r)?,
                            Ok((ph, _)) if *ph == text => want(cx, "validate-refuses", &format!("validating {}", what), &r, "valid")?,
                            Ok(_) => want_calm(cx, "validate-crash", &format!("validating {}", what), &r)?,
                        }
                    }
                    Some(b'w') => {
                        let a = vec![args[0].clone(), vec![l], b"pw".to_vec()];
                        let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("wallet", a), &env, s.u(3));
                        match &said {
                            Err(_) => want_err(cx, "restore-accepts", &format!("restoring {}", what), &r)?,
                            Ok((_, ent)) => {
                                let Some(exp) = wallet_text(cx, ent, l, "pw") else { continue };
                                want(cx, "restore-wrong", &format!("restoring {}", what), &r, &exp)?
                            }
                        }
                    }
                    _ => {
                        let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("phr", args), &env, s.u(3));
                        match &said {
                            Err(_) => want_err(cx, "restore-accepts", &format!("restoring {}", what), &r)?,
                            Ok((ph, ent)) => {
                                let d = cx.m.desc_m(ph, ent, l);
                                want(cx, "restore-wrong", &format!("restoring {}", what), &r, &d)?
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

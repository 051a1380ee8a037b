use super::common::*;

pub const P: Prop = Prop {
    id: "C01",
    gen,
    exec,
    free: |op| match op {
        "make" => &[3],
        _ => &[],
    },
    quick: 13_000,
    thorough: 234_000,
    rule: "one run = several wallets created (from OS entropy or given entropy), saved, crashed and restored over simulated processes and a simulated disk; non-trivial = at least one restore was judged against the reference wallet and the run's event trace was not seen before",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let n = r.range(1, 3);
    let mut l0 = gen::lang(r);
    let mut e0 = gen::ent(r, cx);
    let mut pw0 = gen::password(r, cx);
    if r.pct(4) && !rare().ents.is_empty() {
        let x = r.pick(&rare().ents);
        e0 = x.0.clone();
        l0 = x.1;
        pw0 = x.2.clone();
    }
    for i in 0..n {
        // later wallets are often relatives of earlier ones
        if i > 0 {
            match r.below(5) {
                0 => l0 = if l0 == b'c' { b'e' } else { b'c' },
                1 => pw0 = gen::password(r, cx),
                2 => {
                    let k = r.below(e0.len() * 8);
                    e0[k / 8] ^= 1 << (k % 8)
                }
                _ => {
                    e0 = gen::ent(r, cx);
                    l0 = gen::lang(r);
                    pw0 = gen::password(r, cx)
                }
            }
        }
        if r.pct(45) {
            p.add("make", vec![vec![i as u8], b"nwallet".to_vec(), vec![b'0' + r.below(5) as u8], pw0.clone().into_bytes(), vec![l0], num(0)]);
        } else {
            let c = if r.pct(15) { crash_at(r, cx.typical("ewallet")) } else { 0 };
            p.add("make", vec![vec![i as u8], b"ewallet".to_vec(), e0.clone(), pw0.clone().into_bytes(), vec![l0], num(c)]);
        }
        p.add("save", vec![vec![i as u8], vec![r.below(2) as u8]]);
        if r.pct(75) {
            p.add("sync", vec![vec![i as u8]]);
        }
        match r.below(4) {
            0 => p.add("crash", vec![num(r.u64() >> 8)]),
            1 => p.add("restart", vec![]),
            _ => {}
        }
    }
    for _ in 0..r.range(1, 3) {
        if r.pct(40) {
            p.add("crash", vec![num(r.u64() >> 8)]);
        }
        let c = if r.pct(25) { crash_at(r, cx.typical("wallet")) } else { 0 };
        let oom = if c == 0 && r.pct(6) { 1 + r.u64() % 60 } else { 0 };
        p.add("restore", vec![vec![r.below(n) as u8], vec![r.below(3) as u8], num(r.u64() >> 8), num(c), num(oom)]);
    }
    p
}

struct Wallet {
    ent: Vec<u8>,
    lang: u8,
    pw: String,
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut disk = Disk::default();
    let mut cur: Option<usize> = None;
    let mut ws: BTreeMap<u8, Wallet> = BTreeMap::new();
    for s in &p.steps {
        let slot = s.b(0).first().copied().unwrap_or(0);
        match s.op.as_str() {
            "make" => {
                let kind = s.t(1);
                let (lang, pw) = (s.b(4).first().copied().unwrap_or(b'e'), s.t(3));
                let n = proc(&mut w, &mut cur);
                let op = Op::new(&kind, vec![s.b(2).to_vec(), vec![lang], pw.clone().into_bytes()]);
                let r = cx.call(&mut w, n, &op, &env_of(s.u(5)));
                if r == Reply::Crashed {
                    disk.crash(s.u(5));
                    continue;
                }
                let text = match &r {
                    Reply::Out(Out::Ok(t)) => t.clone(),
                    _ => return fail("create", format!("creating a wallet ({}, {} bytes/type, language {}): {}", kind, s.b(2).len(), lang as char, clip(&r.show()))),
                };
                let ent = if kind == "nwallet" { ent_in(&text) } else { Some(s.b(2).to_vec()) };
                let Some(ent) = ent else { return fail("create", format!("entropy of a new wallet is malformed: {}", clip(&text))) };
                if kind == "nwallet" {
                    cx.judge();
                    if ent.len() != type_len(s.b(2)) {
                        return fail("create-length", format!("type {} gave {} bytes of entropy", s.t(2), ent.len()));
                    }
                }
                let Some(exp) = wallet_text(cx, &ent, lang, &pw) else { continue };
                want(cx, "create-values", "values of a new wallet", &r, &exp)?;
                ws.insert(slot, Wallet { ent, lang, pw });
            }
            "save" => {
                if let Some(x) = ws.get(&slot) {
                    // from the library's own text, through into_phrase or as printed by the model (equal, as just judged)
                    let ph = model::phrase_of(&x.ent, x.lang).unwrap_or_default();
                    if s.u(1) == 1 {
                        let n = proc(&mut w, &mut cur);
                        let r = cx.ask(&mut w, n, "intophrase", vec![ph.clone().into_bytes(), vec![x.lang]]);
                        want(cx, "save-text", "phrase handed out for saving", &r, &ph)?;
                    }
                    disk.write(slot, ph.as_bytes());
                }
            }
            "sync" => disk.sync(slot),
            "crash" => {
                rt::fault(rt::F_CRASH);
                stop(&mut w, &mut cur);
                disk.crash(s.u(0));
            }
            "restart" => {
                stop(&mut w, &mut cur);
                disk.sync_all();
            }
            "restore" => {
                let Some(x) = ws.get(&slot) else { continue };
                let (lang, pw) = (x.lang, x.pw.clone());
                let good = model::phrase_of(&x.ent, lang).unwrap_or_default();
                let Some(raw) = disk.read(slot) else { continue };
                let text = String::from_utf8_lossy(&raw).into_owned();
                let mut rr = Rng::new(s.u(2));
                let typed = if read_phrase(&text, lang).is_ok() { gen::respell(&mut rr, &text) } else { text.clone() };
                let said = read_phrase(&typed, lang);
                if disk.is_synced(slot) && text == good {
                    // what was durably saved must be what the words say
                    if said.as_ref().map(|x| &x.0) != Ok(&good) {
                        continue;
                    }
                    cx.nontrivial = true;
                }
                let args = vec![typed.clone().into_bytes(), vec![lang], pw.clone().into_bytes()];
                let env = Env { crash_in: s.u(3), alloc_fail_in: s.u(4), ..Env::default() };
                let what = format!("restoring {:?}", typed);
                match said {
                    Err(_) => {
                        let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("wallet", args), &env, s.u(2));
                        want_err(cx, "restore-torn", &what, &r)?;
                    }
                    Ok((_, ent)) => {
                        let Some(exp) = wallet_text(cx, &ent, lang, &pw) else { continue };
                        if s.u(1) == 0 {
                            let r = until_done(cx, &mut w, &mut cur, &mut disk, &Op::new("wallet", args), &env, s.u(2));
                            want(cx, "restore", &what, &r, &exp)?;
                        } else {
                            // object by object, in a process that may hold others already
                            let lines: Vec<&str> = exp.lines().collect();
                            if s.u(3) != 0 || s.u(4) != 0 {
                                let n = proc(&mut w, &mut cur);
                                let r = cx.call(&mut w, n, &Op::new("seed", args.clone()), &env);
                                if r == Reply::Crashed {
                                    disk.crash(s.u(2));
                                } else {
                                    want(cx, "restore-seed", &what, &r, lines[1])?;
                                }
                            }
                            let n = proc(&mut w, &mut cur);
                            let base = count(&mut w, cx, n);
                            let r = cx.ask(&mut w, n, "keep:phr", args[..2].to_vec());
                            want(cx, "restore-phrase", &what, &r, lines[0])?;
                            let r = cx.ask(&mut w, n, "keep:o.seed", vec![vec![base], args[2].clone()]);
                            want(cx, "restore-seed", &what, &r, lines[1])?;
                            let r = cx.ask(&mut w, n, "keep:o.master", vec![vec![base + 1]]);
                            want(cx, "restore-master", &what, &r, lines[2])?;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// number of objects a process keeps
pub fn count(w: &mut World, cx: &mut Ctx, n: usize) -> u8 {
    match cx.ask(w, n, "o.dump", vec![]) {
        Reply::Out(Out::Ok(t)) if !t.is_empty() => t.lines().count() as u8,
        _ => 0,
    }
}

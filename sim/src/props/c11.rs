use super::common::*;

pub const P: Prop = Prop {
    id: "C11",
    gen,
    exec,
    free: no_free,
    quick: 100_000,
    thorough: 1_800_000,
    rule: "one run = replicas of an extended key on several disks that go through updates, lost and torn writes, stale copies and tampering, compared pairwise and as objects; non-trivial = at least one comparison of valid replicas and the run's event trace was not seen before",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let private = r.pct(60);
    p.set("public", !private as u64);
    let nr = r.range(2, 4);
    p.set("replicas", nr as u64);
    let base = if private { gen::ext(r, cx) } else { gen::extp(r, cx) };
    let mut cur = base.clone();
    for i in 0..nr {
        p.add("store", vec![vec![i as u8], base.rec()]);
    }
    p.add("sync", vec![]);
    for _ in 0..r.range(1, 6) {
        match r.below(8) {
            0..=2 => {
                // an update that differs a little, reaching some replicas
                let from = if r.pct(70) { &cur } else { &base };
                let mut n = gen::near(r, cx, from, private);
                if r.pct(20) {
                    n = gen::near(r, cx, &n, private);
                }
                if private && r.pct(8) {
                    let neg = model::sub256(&model::N, &n.sk()).0;
                    n.key[1..].copy_from_slice(&neg);
                }
                for i in 0..nr {
                    if r.pct(75) {
                        p.add("store", vec![vec![i as u8], n.rec()]);
                    } else {
                        p.add("lost", vec![vec![i as u8]]);
                    }
                }
                cur = n;
            }
            3 => p.add("crash", vec![num(r.u64() >> 8)]),
            4 => p.add("tamper", vec![vec![r.below(nr) as u8], vec![r.below(74) as u8], vec![1 << r.below(8)]]),
            5 => p.add("copy", vec![vec![r.below(nr) as u8], vec![r.below(nr) as u8]]),
            6 => p.add("sync", vec![]),
            _ => p.add("restart", vec![]),
        }
        if r.pct(70) {
            p.add("cmp", vec![vec![r.below(nr) as u8], vec![r.below(nr) as u8]]);
        }
    }
    p.add("all", vec![]);
    if r.pct(40) {
        p.add("objects", vec![base.rec(), cur.rec(), be(gen::cn(r, cx)), vec![r.below(4) as u8]]);
    }
    p
}

fn valid(e: &Ext, private: bool) -> bool {
    if private {
        e.key[0] == 0 && model::scalar_ok(&e.sk())
    } else {
        model::Model::point_ok(&e.key)
    }
}

fn cmp(cx: &mut Ctx, w: &mut World, n: usize, a: &[u8], b: &[u8], private: bool) -> Res {
    if a.len() != 74 || b.len() != 74 {
        return Ok(());
    }
    let (x, y) = (Ext::from_rec(a), Ext::from_rec(b));
    if !valid(&x, private) || !valid(&y, private) {
        return Ok(());
    }
    if [&x, &y].iter().any(|e| e.depth == 0 && (e.fp != [0; 4] || e.cn != 0)) {
        // such a record has no key to compare
        return Ok(());
    }
    cx.nontrivial = true;
    let eq = a == b;
    let ct = if private { eq.to_string() } else { "-".to_string() };
    let e = format!("{} {} {} true {}", eq, !eq, eq, ct);
    let r = cx.ask(w, n, if private { "eqprv" } else { "eqpub" }, vec![a.to_vec(), b.to_vec()]);
    let mut diff = vec![];
    if x.depth != y.depth {
        diff.push("depth")
    }
    if x.fp != y.fp {
        diff.push("parent fingerprint")
    }
    if x.cn != y.cn {
        diff.push("child number")
    }
    if x.cc != y.cc {
        diff.push("chain code")
    }
    if x.key != y.key {
        diff.push("key")
    }
    want(cx, "equality", &format!("(==, !=, reversed ==, reflexive, ct_eq) of {} keys differing in {:?}", if private { "private" } else { "public" }, diff), &r, &e)
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let private = p.get("public") == 0;
    let nr = p.get("replicas").clamp(1, 8) as u8;
    let mut w = World::new(p.salt);
    let mut cur: Option<usize> = None;
    let mut disk = Disk::default();
    for s in &p.steps {
        let i = s.b(0).first().copied().unwrap_or(0) % nr;
        match s.op.as_str() {
            "store" if s.b(1).len() == 74 => disk.write(i, s.b(1)),
            "lost" => rt::fault(rt::F_LOST),
            "sync" => disk.sync_all(),
            "crash" => {
                rt::fault(rt::F_CRASH);
                disk.crash(s.u(0));
                stop(&mut w, &mut cur);
            }
            "restart" => stop(&mut w, &mut cur),
            "tamper" => disk.rot(i, s.u(1) as usize, s.b(2).first().copied().unwrap_or(1)),
            "copy" => {
                if let Some(b) = disk.read(s.b(1).first().copied().unwrap_or(0) % nr) {
                    rt::fault(rt::F_STALE);
                    disk.write(i, &b)
                }
            }
            "cmp" => {
                let n = proc(&mut w, &mut cur);
                let j = s.b(1).first().copied().unwrap_or(0) % nr;
                if let (Some(a), Some(b)) = (disk.read(i), disk.read(j)) {
                    cmp(cx, &mut w, n, &a, &b, private)?;
                }
            }
            "all" => {
                let n = proc(&mut w, &mut cur);
                for i in 0..nr {
                    for j in i + 1..nr {
                        if let (Some(a), Some(b)) = (disk.read(i), disk.read(j)) {
                            cmp(cx, &mut w, n, &a, &b, private)?;
                        }
                    }
                }
            }
            "objects" if s.b(0).len() == 74 && s.b(1).len() == 74 => {
                // the same keys reached by different routes
                let (x, y) = (Ext::from_rec(s.b(0)), Ext::from_rec(s.b(1)));
                if !valid(&x, private) || !valid(&y, private) || x.depth == 255 {
                    continue;
                }
                stop(&mut w, &mut cur);
                let n = proc(&mut w, &mut cur);
                let l = s.b(3).first().copied().unwrap_or(0) as usize % 4 * 2 + !private as usize;
                let cn = s.b(2).to_vec();
                let (mk, ps, ch) = if private { ("keep:xkey", "keep:xprvparse", "keep:xchild") } else { ("keep:pkey", "keep:xpubparse", "keep:pchild") };
                // 0: x, 1: x from text, 2: clone of 0, 3: y, 4: child of x, 5: child of object 1
                let ops = vec![
                    Op::new(mk, vec![x.rec()]),
                    Op::new(ps, vec![model::key_text(l, &x).into_bytes()]),
                    Op::new("keep:o.clone", vec![vec![0]]),
                    Op::new(mk, vec![y.rec()]),
                    Op::new(ch, vec![x.rec(), cn.clone()]),
                    Op::new("keep:o.child", vec![vec![1], cn]),
                ];
                let mut descs = vec![];
                for o in &ops {
                    match cx.call(&mut w, n, o, &Env::default()) {
                        Reply::Out(Out::Ok(d)) => descs.push(d),
                        Reply::Out(Out::Err(_)) => break,
                        r => return fail("died", r.show()),
                    }
                }
                for i in 0..descs.len() {
                    for j in 0..descs.len() {
                        let eq = descs[i] == descs[j];
                        let ct = if private { eq.to_string() } else { "-".to_string() };
                        let r = cx.ask(&mut w, n, "o.eq", vec![vec![i as u8], vec![j as u8]]);
                        cx.nontrivial = true;
                        want(cx, "equality", &format!("(==, !=, reversed ==, reflexive, ct_eq) of {} and {}", descs[i], descs[j]), &r, &format!("{} {} {} true {}", eq, !eq, eq, ct))?;
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

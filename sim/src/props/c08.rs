use super::common::*;

pub const P: Prop = Prop {
    id: "C08",
    gen,
    exec,
    free: no_free,
    quick: 18_000,
    thorough: 324_000,
    rule: "one run = 1 to 3 threads that create, clone, pass on and give up secret objects in every way an owner can end, while the simulator's allocator inspects every released block that held a secret; non-trivial = at least one watched block was released and the run's event trace was not seen before",
};

fn make(r: &mut Rng, cx: &mut Ctx) -> Vec<Vec<u8>> {
    let l = vec![gen::lang(r)];
    let e = gen::ent(r, cx);
    match r.below(10) {
        0 | 1 => vec![b"ent".to_vec(), e, l],
        2 | 3 => {
            let p = model::phrase_of(&e, l[0]).unwrap();
            let t = if r.pct(40) { gen::respell(r, &p) } else { p };
            vec![b"phr".to_vec(), t.into_bytes(), l]
        }
        4 => vec![b"new".to_vec(), vec![b'0' + r.below(5) as u8], l],
        5 if r.pct(40) => vec![b"seed".to_vec(), e, l, gen::password(r, cx).into_bytes()],
        6 => {
            let x = gen::ext(r, cx);
            vec![b"xek".to_vec(), vec![b'0' + 2 * r.below(4) as u8], x.rec()]
        }
        7 => {
            let x = gen::ext(r, cx);
            vec![b"parse".to_vec(), model::key_text(2 * r.below(4), &x).into_bytes()]
        }
        8 => {
            let x = gen::ext(r, cx);
            vec![b"text".to_vec(), vec![b'0' + 2 * r.below(4) as u8], x.rec()]
        }
        _ => {
            if r.pct(30) {
                let x = gen::extp(r, cx);
                return vec![b"ek".to_vec(), vec![b'1' + 2 * r.below(4) as u8], x.rec()];
            }
            let x = gen::ext(r, cx);
            vec![b"ek".to_vec(), vec![b'0' + 2 * r.below(4) as u8], x.rec()]
        }
    }
}

/// Copies of one object in the hands of several threads, given up about the same time.
fn shared(r: &mut Rng, cx: &mut Ctx, p: &mut Plan) {
    let mut pre = |name: &str, a: Vec<Vec<u8>>| {
        let mut v = vec![name.as_bytes().to_vec()];
        v.extend(a);
        p.add("pre", v);
    };
    let nt = r.range(2, 4);
    let mut m = make(r, cx);
    for _ in 0..if r.pct(40) { 30 } else { 0 } {
        if m[0] == b"seed" {
            break;
        }
        m = make(r, cx);
    }
    let mut a = vec![vec![0], b"b".to_vec()];
    a.extend(m);
    pre("l.mk", a);
    for k in 0..nt {
        pre("l.dup", vec![vec![0], vec![1], vec![*r.pick(b"bvoard")]]);
        pre("l.send", vec![vec![1], vec![k as u8]]);
    }
    if r.pct(75) {
        pre("l.drop", vec![vec![0]]);
    } else {
        pre("l.send", vec![vec![0], vec![90]]);
    }
    let mut span = 0;
    for t in 0..nt {
        add_call(p, t as u8, false, &Op::new("l.recv", vec![vec![0], vec![t as u8]]));
        for _ in 0..r.below(3) {
            let name = r.pick(&["l.check", "l.use", "l.dup", "l.send", "l.recv"]);
            let a = match *name {
                "l.dup" => vec![vec![0], vec![r.below(2) as u8], b"b".to_vec()],
                "l.send" | "l.recv" => vec![vec![r.below(2) as u8], vec![r.below(nt) as u8]],
                _ => vec![vec![0]],
            };
            add_call(p, t as u8, false, &Op::new(name, a));
            span += 3000;
        }
        let end = match r.below(8) {
            0 => Op::new("l.clear", vec![vec![0]]),
            1 => Op::new("l.tls", vec![vec![0]]),
            2 => Op::new("l.unwind", vec![vec![0], vec![r.below(3) as u8]]),
            3 => Op::new("l.early", vec![vec![0]]),
            _ => Op::new("l.drop", vec![vec![0]]),
        };
        add_call(p, t as u8, false, &end);
        span += 2500;
        add_call(p, t as u8, false, &Op::new("l.check", vec![]));
    }
    gen_sched(r, p, span);
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    r.plain = true;
    if r.pct(12) {
        shared(r, cx, &mut p);
        return p;
    }
    let nt = r.range(1, 3);
    let mut span = 0;
    let crowd = if r.pct(3) { r.range(5, 20) } else { 0 };
    if crowd > 0 {
        // many objects alive at once, given up in some order
        let k = make(r, cx);
        for i in 0..crowd {
            let mut m = make(r, cx);
            for _ in 0..40 {
                if m[0] == k[0] {
                    break;
                }
                m = make(r, cx);
            }
            span += if m[0] == b"seed" { 180_000 } else { 10_000 };
            let mut a = vec![vec![10 + i as u8], vec![*r.pick(b"bvoard")]];
            a.extend(m);
            add_call(&mut p, 0, false, &Op::new("l.mk", a));
        }
        for _ in 0..crowd {
            let s = vec![10 + r.below(crowd) as u8];
            add_call(&mut p, 0, false, &Op::new(r.pick(&["l.drop", "l.drop", "l.clear", "l.early", "l.check", "l.tls"]), vec![s]));
        }
    }
    for t in 0..nt {
        let n = r.range(2, 9);
        for k in 0..n {
            let slot = vec![r.below(3) as u8];
            let op = match if k == 0 { 0 } else { r.below(19) } {
                0..=3 => {
                    let mut a = vec![slot, vec![*r.pick(b"bvoard")]];
                    let mk = make(r, cx);
                    span += match &mk[0][..] {
                        b"seed" => 180_000,
                        b"phr" | b"new" | b"ent" => 40_000,
                        _ => 1500,
                    };
                    a.extend(mk);
                    Op::new("l.mk", a)
                }
                4 | 5 => Op::new("l.dup", vec![slot, vec![r.below(3) as u8], vec![*r.pick(b"bvoard")]]),
                6 => Op::new("l.drop", vec![slot]),
                7 => Op::new("l.clear", vec![slot]),
                8 => Op::new("l.assign", vec![slot, vec![r.below(3) as u8]]),
                9 => Op::new("l.early", vec![slot]),
                10 => Op::new("l.unwind", vec![slot, vec![r.below(4) as u8]]),
                11 => Op::new("l.later", vec![slot]),
                12 => {
                    if r.pct(50) {
                        Op::new("l.send", vec![slot, vec![r.below(2) as u8]])
                    } else {
                        Op::new("l.recv", vec![slot, vec![r.below(2) as u8]])
                    }
                }
                13 => Op::new(if r.pct(60) { "l.tls" } else { "l.rctls" }, vec![slot]),
                14 => Op::new("l.into", vec![slot]),
                15 => Op::new("l.use", vec![slot]),
                16 => {
                    let other = vec![(slot[0] + 1) % 3];
                    if r.pct(60) {
                        // two objects of one kind
                        let m1 = make(r, cx);
                        let mut m2 = make(r, cx);
                        for _ in 0..20 {
                            let same = |k: &[u8]| match k {
                                b"seed" => 1,
                                b"text" => 2,
                                b"ek" | b"xek" | b"parse" => 3,
                                _ => 0,
                            };
                            if same(&m1[0]) == same(&m2[0]) {
                                break;
                            }
                            m2 = make(r, cx);
                        }
                        for (s, m) in [(slot.clone(), m1), (other.clone(), m2)] {
                            let mut a = vec![s, b"b".to_vec()];
                            a.extend(m);
                            add_call(&mut p, t as u8, false, &Op::new("l.mk", a));
                        }
                    }
                    Op::new("l.clonefrom", vec![slot, other])
                }
                17 if t == 0 => Op::new("l.scanent", vec![gen::ent(r, cx), vec![gen::lang(r)]]),
                18 if t == 0 => {
                    let l = gen::lang(r);
                    let e = gen::ent(r, cx);
                    let ph = model::phrase_of(&e, l).unwrap();
                    let d = if r.pct(40) { gen::damage(r, &ph, "abandon", l == b'c') } else { ph.into_bytes() };
                    Op::new("l.scan", vec![d, vec![l]])
                }
                _ => Op::new("l.check", vec![]),
            };
            add_call(&mut p, t as u8, r.pct(2), &op);
        }
        add_call(&mut p, t as u8, false, &Op::new("l.check", vec![]));
    }
    gen_sched(r, &mut p, span);
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let (sc, refused) = calls_of(p);
    if sc.is_empty() {
        return Ok(());
    }
    let mut w = World::new(p.salt);
    let n = w.start(0);
    for s in &p.steps {
        if s.op == "pre" && !s.args.is_empty() {
            let op = Op { name: s.t(0), args: s.args[1..].to_vec() };
            let r = cx.call(&mut w, n, &op, &Env::default());
            want_calm(cx, "live", "preparation", &r)?;
        }
    }
    let mo = threads(p, cx, &mut w, n, &sc, &refused, &Env::default())?;
    for (t, o) in mo.threads.iter().enumerate() {
        for (k, x) in o.outs.iter().enumerate() {
            cx.judge();
            let text = x.0.text();
            if ["CLONE DIFFERS", "RECEIVED OBJECT CHANGED", "INTO_PHRASE DIFFERS", "AS_REF DIFFERS"].iter().any(|m| text.ends_with(m)) || text.starts_with("LIVE OBJECT") {
                return fail("live", format!("thread {} call {} {}: {}", t, k, sc[t][k].name, text));
            }
            if let Out::Panic(m) = &x.0 {
                if refused[t][k] == 0 {
                    return fail("live", format!("thread {} call {} {} panicked: {}", t, k, sc[t][k].name, m));
                }
            }
            if x.0.kind() == "ok" {
                match &sc[t][k].name[..] {
                    "l.unwind" | "l.later" if text == "done" => rt::fault(rt::F_UNWIND),
                    "l.tls" | "l.rctls" => rt::fault(rt::F_THREADEXIT),
                    _ => {}
                }
            }
        }
    }
    let mut freed = 0;
    for x in &mo.watches {
        if x.state == 4 {
            return fail("leak", format!("{} secret bytes (kind {:?}) stay in memory although every owner is gone", x.len, x.label as char));
        }
        if x.state == 1 || x.state == 2 {
            freed += 1;
        }
        cx.judge();
        if x.state == 2 {
            let what = match x.label {
                b'p' => "a mnemonic's phrase",
                b'e' => "a mnemonic's entropy",
                b's' => "a seed",
                b'k' => "an extended key record",
                _ => "a private key's text",
            };
            return fail("leak", format!("memory of {} was released by thread {} with {} of {} secret bytes still in it", what, x.thread, x.left, x.len));
        }
    }
    cx.nontrivial = freed > 0;
    cx.ev(|| format!("released {}", freed));
    cx.judge();
    if mo.scan_hits > 0 {
        return fail("leak", format!("{} of {} blocks released while an object was made or read held its phrase, entropy, seed or key, or a piece of its text", mo.scan_hits, mo.scan_freed));
    }
    Ok(())
}

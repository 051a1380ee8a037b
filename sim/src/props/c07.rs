use super::common::*;

pub const P: Prop = Prop {
    id: "C07",
    gen,
    exec,
    free: no_free,
    quick: 12_000,
    thorough: 216_000,
    rule: "one run = 1 to 11 threads of a fresh process making related calls under a seeded schedule with preemption at every instrumented step, spurious wake-ups, stalls, panicking callbacks and refused entropy; non-trivial = at least two threads ran and the run's event trace was not seen before; distinct interleavings are counted by the hash of all scheduling decisions",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let mut nt = match r.below(10) {
        0 => 4,
        1..=4 => 3,
        _ => 2,
    };
    let crowd = r.pct(6);
    if crowd {
        nt = r.range(5, 11);
    }
    let mut span = 0u64;
    let kind = if crowd && r.pct(70) { 10 } else { if r.pct(if cx.hot.is_empty() { 12 } else { 50 }) { 10 } else { r.below(10) } };
    let mut pool: Vec<Op> = vec![];
    match kind {
        10 => {
            // rivals: every thread makes calls of one kind, preferably one that writes memory outliving the call
            let n = if !cx.hot.is_empty() && r.pct(85) { r.pick(&cx.hot).clone() } else { gen::any_op(r, cx).name };
            let n = if n.starts_with("new") && r.pct(70) { "seed".to_string() } else { n };
            for _ in 0..r.range(1, 4) {
                let o = match pool.last() {
                    Some(b) if r.pct(60) => gen::related(r, cx, &b.clone()),
                    _ => match gen::example(&n, r, cx) {
                        Some(o) => o,
                        None => gen::any_op(r, cx),
                    },
                };
                pool.push(o);
            }
        }
        0..=3 => {
            // the first use of the word lists
            for _ in 0..r.range(1, 3) {
                let n = *r.pick(&gen::WORD_OPS);
                if n == "seed" && r.pct(70) {
                    continue;
                }
                if let Some(o) = gen::example(n, r, cx) {
                    pool.push(o)
                }
            }
        }
        4 => {
            for _ in 0..r.range(1, 3) {
                let n = *r.pick(&gen::KEY_OPS);
                if let Some(o) = gen::example(n, r, cx) {
                    pool.push(o)
                }
            }
        }
        5..=6 => {
            // objects shared by the threads
            for _ in 0..r.range(1, 3) {
                let n = *r.pick(&["ent", "phr", "seed", "xkey", "xneuter", "pkey", "xprvparse", "xpubparse", "ekparse", "master", "pathparse", "xkey", "pkey"]);
                if let Some(mut o) = gen::example(n, r, cx) {
                    if r.pct(30) && !pool.is_empty() {
                        let b = pool[r.below(pool.len())].clone();
                        o = gen::related(r, cx, &b);
                    }
                    pool.push(o.clone());
                    let mut a = vec![o.name.into_bytes()];
                    a.extend(o.args);
                    p.add("share", a);
                }
            }
        }
        _ => {
            for _ in 0..r.range(1, 4) {
                pool.push(gen::any_op(r, cx));
            }
        }
    }
    if pool.is_empty() {
        pool.push(gen::any_op(r, cx));
    }
    let ns = p.steps.len();
    for t in 0..nt {
        for _ in 0..if crowd { 1 } else { r.range(1, if kind == 5 || kind == 6 { 5 } else { 3 }) } {
            let op = if ns > 0 && r.pct(80) {
                let i = vec![r.below(ns) as u8];
                match r.below(9) {
                    0 => Op::new("g.dump", vec![]),
                    1 => Op::new("g.child", vec![i, be(gen::cnh(r, cx))]),
                    2 => Op::new("g.derive", vec![i, path_bytes(&gen::path(r, cx, 3, true))]),
                    3 => Op::new("g.neuter", vec![i]),
                    4 => Op::new("g.clone", vec![i]),
                    5 => Op::new("g.eq", vec![i, vec![r.below(ns) as u8]]),
                    6 => Op::new("g.master", vec![i]),
                    7 if r.pct(30) => Op::new("g.seed", vec![i, gen::password(r, cx).into_bytes()]),
                    _ => Op::new("g.text", vec![i, vec![b'0' + r.below(8) as u8]]),
                }
            } else {
                let b = pool[r.below(pool.len())].clone();
                if r.pct(40) {
                    gen::related(r, cx, &b)
                } else {
                    b
                }
            };
            let op = if r.pct(5) && !op.name.starts_with("g.") && !gen::special(&op) { gen::at_exit(r, (p.steps.len() & 255) as u8, &op) } else { op };
            span += cx.typical(&op.name);
            add_call(&mut p, t as u8, r.pct(if op.name == "new" { 25 } else { 3 }), &op);
        }
    }
    gen_sched(r, &mut p, span);
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let (sc, refused) = calls_of(p);
    if sc.is_empty() {
        return Ok(());
    }
    let mut pre = vec![];
    for s in &p.steps {
        if s.op == "share" && !s.args.is_empty() {
            pre.push(Op { name: format!("g.put:{}", s.t(0)), args: s.args[1..].to_vec() });
        }
    }
    // what each call returns alone
    let mut exp: Vec<Vec<Option<Reply>>> = vec![];
    for t in &sc {
        let mut v = vec![];
        for op in t {
            v.push(if op.name == "new" || op.name == "nwallet" {
                None
            } else if op.name.starts_with("g.") {
                Some(cx.fresh_after(&pre, op).0)
            } else {
                Some(cx.fresh(op).0)
            });
        }
        exp.push(v);
    }
    let mut w = World::new(p.salt);
    let n = w.start(0);
    for o in &pre {
        let r = cx.call(&mut w, n, o, &Env::default());
        want_calm(cx, "died", "preparation", &r)?;
    }
    let mo = threads(p, cx, &mut w, n, &sc, &refused, &Env::default())?;
    cx.nontrivial = sc.iter().filter(|s| !s.is_empty()).count() > 1;
    let mut made: Vec<Vec<u8>> = vec![];
    for (t, o) in mo.threads.iter().enumerate() {
        for (k, x) in o.outs.iter().enumerate() {
            cx.judge();
            let op = &sc[t][k];
            match &exp[t][k] {
                Some(e) => {
                    if Reply::Out(x.0.clone()) != *e {
                        return fail(
                            "differs",
                            format!("thread {}, call {}: {} {} returned {:?} among other threads, but alone {:?}", t, k, op.name, clip(&show(&op.args)), clip(&format!("{} {}", x.0.kind(), x.0.text())), clip(&e.show())),
                        );
                    }
                }
                None => {
                    let lang = op.args.get(1).and_then(|a| a.first()).copied().unwrap_or(b'e');
                    match &x.0 {
                        Out::Ok(d) => {
                            if refused[t][k] != 0 && w.nodes[n].last.ent_failed > 0 {
                                return fail("new", format!("thread {} created a mnemonic although it was refused entropy", t));
                            }
                            let Some(e) = ent_in(d) else { return fail("new", format!("malformed mnemonic: {}", clip(d))) };
                            let ph = model::phrase_of(&e, lang).unwrap_or_default();
                            let ok = if op.name == "new" {
                                *d == cx.m.desc_m(&ph, &e, lang)
                            } else {
                                let pw = String::from_utf8_lossy(&op.args[2]).into_owned();
                                Some(d.clone()) == wallet_text(cx, &e, lang, &pw)
                            };
                            if !ok || e.len() != type_len(&op.args[0]) {
                                return fail("new", format!("malformed mnemonic: {}", clip(d)));
                            }
                            if made.contains(&e) {
                                return fail("new", format!("two threads created the same mnemonic: {}", clip(d)));
                            }
                            made.push(e);
                        }
                        o => {
                            if refused[t][k] == 0 {
                                return fail("new", format!("thread {} could not create a mnemonic: {:?}", t, o));
                            }
                        }
                    }
                }
            }
        }
        if o.outs.len() != sc[t].len() {
            return fail("progress", format!("thread {} made {} of {} calls", t, o.outs.len(), sc[t].len()));
        }
    }
    check_exits(cx, &mut w, n, &sc)?;
    // the process still works
    for op in [Op::new("ent", vec![vec![7; 16], vec![b'e']]), Op::new("phr", vec![model::phrase_of(&[9; 16], b'c').unwrap().into_bytes(), vec![b'c']])] {
        let e = cx.fresh(&op).0;
        let r = cx.call(&mut w, n, &op, &Env::default());
        cx.judge();
        if r != e {
            return fail("after", format!("after the threads, {} returned {:?} instead of {:?}", op.name, clip(&r.show()), clip(&e.show())));
        }
    }
    if !pre.is_empty() {
        let op = Op::new("g.dump", vec![]);
        let e = cx.fresh_after(&pre, &op).0;
        let r = cx.call(&mut w, n, &op, &Env::default());
        cx.judge();
        if r != e {
            return fail("after", format!("shared objects changed: {:?} instead of {:?}", clip(&r.show()), clip(&e.show())));
        }
    }
    Ok(())
}

use super::common::*;

pub const P: Prop = Prop {
    id: "C14",
    gen,
    exec,
    free: no_free,
    quick: 9_000,
    thorough: 162_000,
    rule: "one run = a history of calls with related arguments in one process (and its forked copies and other threads), among them calls that fail, panic in a callback, are refused entropy, find a full sink, or see the clock jump, each compared with the same call alone in a fresh process, and every kept object looked at again; non-trivial = at least two compared calls and the run's event trace was not seen before",
};

const KEEP: [&str; 20] = [
    "ent", "phr", "seed", "master", "path", "xkey", "pkey", "xderive", "xchild", "xneuter", "pderive", "pchild", "ekparse", "xprvparse", "xpubparse", "pathparse", "xkey", "pkey", "ent", "phr",
];

/// The same key, phrase or seed seen by another kind of call.
fn cousin(r: &mut Rng, cx: &mut Ctx, b: &Op) -> Option<Op> {
    let a = &b.args;
    let rec = a.iter().find(|x| x.len() == 74).cloned();
    if let Some(rec) = rec {
        let e = Ext::from_rec(&rec);
        if e.key[0] == 0 {
            let l = 2 * r.below(4);
            let lb = vec![b'0' + l as u8];
            return Some(match r.below(14) {
                0 => Op::new("xkey", vec![rec]),
                1 => Op::new("xneuter", vec![rec]),
                2 | 3 => Op::new("xchild", vec![rec, be(gen::cnh(r, cx))]),
                4 => Op::new("xderive", vec![rec, path_bytes(&gen::path(r, cx, 3, true))]),
                5 => Op::new("xprvparse", vec![model::key_text(l, &e).into_bytes()]),
                6 => Op::new("xprvfmt", vec![lb, rec]),
                7 => Op::new("ekbuf", vec![lb, rec, vec![0x31, 0]]),
                8 => Op::new("b.xchild", vec![rec, be(gen::cnh(r, cx)), gen::bfault(r, 6)]),
                9 => Op::new("out.xprv", vec![vec![b'd'], lb, rec, gen::sink(r)]),
                10 => {
                    let y = gen::near(r, cx, &e, true);
                    Op::new("eqprv", vec![rec, y.rec()])
                }
                11 => Op::new("sign", vec![e.sk().to_vec(), r.bytes(32)]),
                12 => {
                    // the public side of it
                    let p = cx.m.neuter(&e);
                    Op::new("pchild", vec![p.rec(), be(gen::cn(r, cx))])
                }
                _ => Op::new("rt", vec![model::key_text(l, &e).into_bytes()]),
            });
        }
        let l = 2 * r.below(4) + 1;
        let lb = vec![b'0' + l as u8];
        return Some(match r.below(8) {
            0 => Op::new("pkey", vec![rec]),
            1 | 2 => Op::new("pchild", vec![rec, be(gen::cn(r, cx))]),
            3 => Op::new("pderive", vec![rec, path_bytes(&gen::path(r, cx, 3, false))]),
            4 => Op::new("xpubparse", vec![model::key_text(l, &e).into_bytes()]),
            5 => Op::new("xpubfmt", vec![lb, rec]),
            6 => Op::new("b.pchild", vec![rec, be(gen::cn(r, cx)), gen::bfault(r, 6)]),
            _ => Op::new("rt", vec![model::key_text(l, &e).into_bytes()]),
        });
    }
    if ["phr", "val", "intophrase", "mtphrase", "detect", "seed", "wallet"].contains(&&b.name[..]) {
        let ph = a[0].clone();
        let l = a.get(1).cloned().unwrap_or(vec![gen::lang(r)]);
        return Some(match r.below(9) {
            0 | 1 => Op::new("phr", vec![ph, l]),
            2 => Op::new("val", vec![ph, l]),
            3 => Op::new("seed", vec![ph, l, gen::password(r, cx).into_bytes()]),
            4 => Op::new("detect", vec![ph]),
            5 => Op::new("intophrase", vec![ph, l]),
            6 => Op::new("mtphrase", vec![ph]),
            7 => Op::new("out.mnp", vec![vec![*r.pick(b"dxXyY")], ph, l, gen::sink(r)]),
            _ => {
                let (_, e) = model::read_phrase(std::str::from_utf8(&ph).ok()?, l[0]).ok()?;
                Op::new("ent", vec![e, vec![gen::lang(r)]])
            }
        });
    }
    if ["ent", "eseed", "ewallet"].contains(&&b.name[..]) {
        let e = a[0].clone();
        let l = gen::lang(r);
        let ph = model::phrase_of(&e, l)?.into_bytes();
        return Some(match r.below(5) {
            0 => Op::new("ent", vec![e, vec![l]]),
            1 => Op::new("phr", vec![ph, vec![l]]),
            2 => Op::new("eseed", vec![e, vec![l], gen::password(r, cx).into_bytes()]),
            3 => Op::new("out.mn", vec![vec![*r.pick(b"dxXyY")], e, vec![l], gen::sink(r)]),
            _ => Op::new("val", vec![ph, vec![l]]),
        });
    }
    None
}

pub(super) fn next(r: &mut Rng, cx: &mut Ctx, pool: &mut Vec<Op>) -> Op {
    let k = r.below(100);
    let op = if pool.is_empty() || k < 22 {
        match r.below(100) {
            x if x < 60 && !cx.hot.is_empty() => {
                // calls that write memory outliving them
                let n = r.pick(&cx.hot).clone();
                let o = gen::example(&n, r, cx).unwrap_or_else(|| gen::any_op(r, cx));
                if gen::OPEN_OPS.contains(&&o.name[..]) && r.pct(12) {
                    gen::nest(r, cx, Some(o))
                } else {
                    o
                }
            }
            _ => gen::any_op(r, cx),
        }
    } else {
        // recent calls are used most
        let i = if r.pct(60) { pool.len() - 1 } else { r.below(pool.len()) };
        let b = pool[i].clone();
        if k < 58 {
            gen::related(r, cx, &b)
        } else if k < 60 && !gen::special(&b) {
            gen::within(r.pick(&["unwind", "thread"]), &b)
        } else if k < 85 {
            match cousin(r, cx, &b) {
                Some(o) => o,
                None => gen::related(r, cx, &b),
            }
        } else {
            b
        }
    };
    pool.push(op.clone());
    if pool.len() > 12 {
        pool.remove(0);
    }
    op
}

fn push(p: &mut Plan, what: &str, head: Vec<Vec<u8>>, op: &Op) {
    let mut a = head;
    a.push(op.name.clone().into_bytes());
    a.extend(op.args.iter().cloned());
    p.add(what, a);
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let mut pool: Vec<Op> = vec![];
    let n = if r.pct(20) { r.range(15, 40) } else { r.range(3, 14) };
    let mut kept = 0;
    let refused_pct = *r.pick(&[0usize, 0, 5, 20]);
    let jump_pct = *r.pick(&[0usize, 0, 10, 40]);
    for _ in 0..n {
        match r.below(40) {
            0 => p.add("fork", vec![vec![r.below(3) as u8]]),
            1 => p.add("use", vec![vec![r.below(3) as u8]]),
            2..=5 if kept < 5 => {
                let op = if kept > 0 && r.pct(45) {
                    let i = vec![r.below(kept) as u8];
                    match r.below(6) {
                        0 => Op::new("o.child", vec![i, be(gen::cnh(r, cx))]),
                        1 => Op::new("o.derive", vec![i, path_bytes(&gen::path(r, cx, 3, true))]),
                        2 => Op::new("o.neuter", vec![i]),
                        3 => Op::new("o.clone", vec![i]),
                        4 => Op::new("o.master", vec![i]),
                        _ if r.pct(30) => Op::new("o.seed", vec![i, gen::password(r, cx).into_bytes()]),
                        _ => Op::new("o.clone", vec![i]),
                    }
                } else {
                    let mut o = gen::example(r.pick(&KEEP), r, cx).unwrap();
                    if !pool.is_empty() && r.pct(50) {
                        let b = pool[r.below(pool.len())].clone();
                        if KEEP.contains(&&b.name[..]) {
                            o = b;
                        }
                    }
                    o
                };
                kept += 1;
                push(&mut p, "keep", vec![], &op);
                if !op.name.starts_with("o.") {
                    pool.push(op);
                }
            }
            6 | 7 if kept > 0 => {
                let i = vec![r.below(kept) as u8];
                let j = vec![r.below(kept) as u8];
                let op = match r.below(4) {
                    0 => Op::new("o.dump", vec![]),
                    1 => Op::new("o.eq", vec![i, j]),
                    2 => Op::new("o.text", vec![i, vec![b'0' + r.below(8) as u8]]),
                    _ => Op::new("o.drop", vec![i]),
                };
                push(&mut p, "look", vec![], &op);
            }
            8 if r.pct(30) => {
                let mut op = next(r, cx, &mut pool);
                if r.pct(40) {
                    // cheap calls, more than 65536 times
                    let n = *r.pick(&["cnnew", "cnnew", "cnbytes", "cnfmt", "bits", "word", "pathops", "mtkey", "prefix", "cnparse", "pathparse", "lang"]);
                    op = gen::example(n, r, cx).unwrap_or(op);
                }
                let t = cx.fresh(&op).1.max(20);
                let max = (6_000_000 / t).clamp(2, 70_000);
                if !gen::special(&op) {
                    let c = if r.pct(50) { max } else { r.log(max).max(2) };
                    push(&mut p, "rep", vec![be(c as u32)], &op);
                }
            }
            8 => {
                // a great many neighbours of a call
                let op = next(r, cx, &mut pool);
                let t = cx.fresh(&op).1.max(20);
                let max = (400_000 / t).clamp(2, 5_000);
                if !gen::special(&op) && !op.args.is_empty() {
                    let c = r.log(max).max(2);
                    let i = r.below(op.args.len());
                    let at = r.below(op.args[i].len().max(1)).min(255);
                    push(&mut p, "flood", vec![be(c as u32), vec![i as u8, at as u8]], &op);
                }
            }
            9 => {
                // other threads, gone afterwards
                let a = next(r, cx, &mut pool);
                let b = next(r, cx, &mut pool);
                let late = |r: &mut Rng, id, o: Op| if r.pct(35) && !gen::special(&o) { gen::at_exit(r, id, &o) } else { o };
                let (a, b) = (late(r, 0, a), late(r, 1, b));
                let mut v = vec![num(r.u64() >> 8), num(1 + r.u64() % 2000), vec![1 + a.args.len() as u8], a.name.into_bytes()];
                v.extend(a.args);
                v.push(b.name.into_bytes());
                v.extend(b.args);
                p.add("par", v);
            }
            _ => {
                let op = next(r, cx, &mut pool);
                let refused = r.pct(if op.name == "new" || op.name == "nwallet" { 35 } else { refused_pct });
                let jump = if r.pct(jump_pct) {
                    match r.below(3) {
                        0 => r.u64() % 10_000_000_000,
                        1 => (-((r.u64() % 10_000_000_000_000) as i64)) as u64,
                        _ => r.u64() % (400 * 86400 * 1_000_000_000),
                    }
                } else {
                    0
                };
                push(&mut p, "do", vec![vec![refused as u8], num(jump)], &op);
            }
        }
    }
    p.add("end", vec![]);
    p
}

pub(super) fn made(cx: &mut Ctx, op: &Op, r: &Reply, refused: bool) -> Res {
    cx.judge();
    let lang = op.args.get(1).and_then(|a| a.first()).copied().unwrap_or(b'e');
    match r {
        Reply::Out(Out::Ok(d)) => {
            if refused {
                return fail("new", format!("a mnemonic was created although entropy was refused: {}", clip(d)));
            }
            let Some(e) = ent_in(d) else { return fail("new", format!("malformed mnemonic: {}", clip(d))) };
            let ph = model::phrase_of(&e, lang).unwrap_or_default();
            let good = if op.name == "new" {
                *d == cx.m.desc_m(&ph, &e, lang)
            } else {
                let pw = String::from_utf8_lossy(&op.args[2]).into_owned();
                Some(d.clone()) == wallet_text(cx, &e, lang, &pw)
            };
            if !good || e.len() != type_len(&op.args[0]) {
                return fail("new", format!("malformed mnemonic: {}", clip(d)));
            }
            Ok(())
        }
        Reply::Out(Out::Err(_)) | Reply::Out(Out::Panic(_)) if refused => Ok(()),
        r => fail("new", format!("no mnemonic could be created: {}", clip(&r.show()))),
    }
}

fn differs(what: &str, op: &Op, got: &Reply, exp: &Reply) -> Res {
    fail("differs", format!("{}{} {} returned {:?}, but alone in a fresh process {:?}", what, op.name, clip(&show(&op.args)), clip(&got.show()), clip(&exp.show())))
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let forks = p.steps.iter().filter(|s| s.op == "fork").count();
    let first = w.start(forks);
    // processes with a common past: node, calls that made its kept objects
    let mut ps: Vec<(usize, Vec<Op>)> = vec![(first, vec![])];
    let mut cur = 0;
    let mut compared = 0;
    for s in &p.steps {
        let n = ps[cur].0;
        match s.op.as_str() {
            "fork" => {
                // the copy has the whole past; forks only of the first process
                if let Some(k) = w.fork(first) {
                    rt::fault(rt::F_FORK);
                    let h = ps[0].1.clone();
                    ps.push((k, h));
                    cur = ps.len() - 1;
                }
            }
            "use" => cur = s.b(0).first().copied().unwrap_or(0) as usize % ps.len(),
            "keep" if !s.args.is_empty() => {
                let op = Op { name: format!("keep:{}", s.t(0)), args: s.args[1..].to_vec() };
                let e = cx.fresh_after(&ps[cur].1.clone(), &op).0;
                let r = cx.call(&mut w, n, &op, &Env::default());
                cx.judge();
                if r != e {
                    return differs("", &op, &r, &e);
                }
                compared += 1;
                ps[cur].1.push(op);
            }
            "look" if !s.args.is_empty() => {
                let op = Op { name: s.t(0), args: s.args[1..].to_vec() };
                let e = cx.fresh_after(&ps[cur].1.clone(), &op).0;
                let r = cx.call(&mut w, n, &op, &Env::default());
                cx.judge();
                if r != e {
                    return differs("kept objects: ", &op, &r, &e);
                }
                if op.name == "o.drop" {
                    ps[cur].1.push(op);
                }
            }
            "rep" if s.args.len() >= 2 => {
                let op = Op { name: s.t(1), args: s.args[2..].to_vec() };
                let r = cx.ask(&mut w, n, "rep", s.args.clone());
                want(cx, "differs", &format!("{} calls of {} {}", s.u(0), op.name, clip(&show(&op.args))), &r, "the same")?;
                if r.show().contains("panic") {
                    rt::fault(rt::F_CBPANIC);
                }
            }
            "flood" if s.args.len() >= 3 && s.b(1).len() == 2 => {
                let op = Op { name: s.t(2), args: s.args[3..].to_vec() };
                let e = cx.fresh(&op).0;
                if matches!(e, Reply::Out(Out::Bad(_))) {
                    continue;
                }
                let r = cx.ask(&mut w, n, "flood", s.args.clone());
                let e = match &e {
                    Reply::Out(Out::Ok(t)) => format!("ok {}", t),
                    Reply::Out(Out::Err(t)) => format!("err {}", t),
                    _ => "panic".into(),
                };
                want(cx, "differs", &format!("{} neighbours of {} {}", s.u(0), op.name, clip(&show(&op.args))), &r, &format!("the same {}", e))?;
            }
            "par" if s.args.len() >= 5 => {
                let k = 3 + s.b(2).first().copied().unwrap_or(1) as usize;
                if k >= s.args.len() {
                    continue;
                }
                let a = Op { name: s.t(3), args: s.args[4..k].to_vec() };
                let b = Op { name: s.t(k), args: s.args[k + 1..].to_vec() };
                let cfg = rt::SchedCfg { mode: 0, seed: s.u(0), gap: s.u(1).max(1), edge_p: 20, touch_p: 20, spur_p: 10, depth: 0, span: 0, stall_at: 0, list: vec![] };
                let sc = vec![vec![a.clone()], vec![b.clone()]];
                let ea = cx.fresh(&a).0;
                let eb = cx.fresh(&b).0;
                match w.multi(n, &sc, &[], &Env::default(), &cfg) {
                    Err(e) => return fail("died", format!("threads calling {} and {}: {}", a.name, b.name, e.show())),
                    Ok(m) => {
                        let h = m.hash;
                        cx.ev(|| format!("threads {} {} hash {:016x}", sc[0][0].name, sc[1][0].name, h));
                        for (t, (op, e)) in [(&a, &ea), (&b, &eb)].into_iter().enumerate() {
                            let Some(o) = m.threads[t].outs.first() else { return fail("died", "a thread made no call".into()) };
                            let r = Reply::Out(o.0.clone());
                            if op.name == "new" || op.name == "nwallet" {
                                made(cx, op, &r, false)?;
                            } else {
                                cx.judge();
                                if r != *e {
                                    return differs("in a thread: ", op, &r, e);
                                }
                            }
                        }
                        check_exits(cx, &mut w, n, &sc)?;
                    }
                }
            }
            "do" if s.args.len() >= 3 => {
                let op = Op { name: s.t(2), args: s.args[3..].to_vec() };
                let refused = s.b(0).first() == Some(&1);
                let env = Env {
                    clock_jump: s.u(1) as i64,
                    ent_mode: if refused { 2 } else { 0 },
                    ent_default: if refused { Some(0) } else { None },
                    ..Env::default()
                };
                let fresh = if op.name == "new" || op.name == "nwallet" { None } else { Some(cx.fresh(&op).0) };
                let r = cx.call(&mut w, n, &op, &env);
                if matches!(&r, Reply::Out(Out::Panic(_))) && op.name.starts_with("panic.") {
                    rt::fault(rt::F_CBPANIC);
                }
                match fresh {
                    None => made(cx, &op, &r, refused && w.nodes[n].last.ent_failed > 0)?,
                    Some(e) => {
                        cx.judge();
                        if r != e {
                            return differs(if refused { "(entropy refused) " } else { "" }, &op, &r, &e);
                        }
                        compared += 1;
                    }
                }
            }
            "end" => {
                for (n, h) in ps.clone() {
                    if h.is_empty() {
                        continue;
                    }
                    let op = Op::new("o.dump", vec![]);
                    let e = cx.fresh_after(&h, &op).0;
                    let r = cx.call(&mut w, n, &op, &Env::default());
                    cx.judge();
                    if r != e {
                        return differs("kept objects: ", &op, &r, &e);
                    }
                }
            }
            _ => {}
        }
    }
    cx.nontrivial = compared >= 2;
    Ok(())
}

use super::common::*;

pub const P: Prop = Prop {
    id: "C21",
    gen,
    exec,
    free: no_free,
    quick: 60_000,
    thorough: 1_000_000,
    rule: "one run = a history of calls on secrets in one process (objects kept and given up, calls that fail, panic, are refused entropy, meet a failing key backend or a full sink, run in threads that end, or are made by destructors); once nobody owns anything, the live heap, the static and the thread-local memory are searched for every phrase, entropy, seed, long password, private key and private key text of the run; non-trivial = at least one secret was searched for and the run's event trace was not seen before",
};

const PRIVATE: [&str; 34] = [
    "ent", "phr", "seed", "eseed", "wallet", "ewallet", "val", "intophrase", "mtphrase", "detect", "master", "path", "xkey", "xneuter", "xdebug", "xderive", "xchild",
    "xprvparse", "ekparse", "rt", "xprvfmt", "xek", "ekbuf", "eqprv", "sign", "out.mn", "out.mnp", "out.seed", "out.ek", "out.xprv", "b.path", "b.xderive", "new", "ekfmt",
];

/// What a call is given or gives that must not stay behind.
fn secrets(cx: &mut Ctx, op: &Op, reply: &Reply, v: &mut Vec<(String, Vec<u8>)>) {
    let mut one = |what: &str, how: &str, b: &[u8]| {
        let mut kinds = [false; 256];
        b.iter().for_each(|x| kinds[*x as usize] = true);
        if b.len() >= 16 && b.len() <= 1000 && kinds.iter().filter(|k| **k).count() >= 8 && !v.iter().any(|x| x.1 == b) {
            v.push((format!("{}{}", what, how), b.to_vec()));
        }
    };
    let mut put = |what: &str, b: &[u8]| {
        let n = b.len();
        one(what, "", b);
        if what.contains("phrase") || what.contains("text") || what.contains("password") {
            // pieces of a text
            for at in [0, n / 2, n.saturating_sub(24)] {
                if n > 32 && at + 24 <= n {
                    one(what, " (piece)", &b[at..at + 24]);
                }
            }
        } else {
            one(what, " (hexadecimal)", hex(b).as_bytes());
            one(what, " (hexadecimal)", hex(b).to_uppercase().as_bytes());
            one(what, " (reversed)", &b.iter().rev().copied().collect::<Vec<_>>());
            if n > 32 {
                one(what, " (half)", &b[..32]);
                one(what, " (half)", &b[n - 32..]);
            }
        }
    };
    let a = &op.args;
    match &op.name[..] {
        "unwind" | "thread" if !a.is_empty() => {
            let o = crate::ctx::inner(op, 0);
            return secrets(cx, &o, &Reply::Crashed, v);
        }
        "nest" => {
            if let Some((x, y)) = gen::unnest(op) {
                secrets(cx, &x, &Reply::Crashed, v);
                secrets(cx, &y, &Reply::Crashed, v);
            }
            return;
        }
        "exit.call" if a.len() > 1 => {
            let o = crate::ctx::inner(op, 1);
            return secrets(cx, &o, &Reply::Crashed, v);
        }
        _ => {}
    }
    let n = op.name.strip_prefix("keep:").unwrap_or(&op.name);
    let mut ent: Option<(Vec<u8>, u8)> = None;
    let mut pw = None;
    let lang = |i: usize| a.get(i).and_then(|x| x.first()).copied().unwrap_or(b'e');
    match n {
        "ent" | "eseed" | "ewallet" if !a.is_empty() => {
            ent = Some((a[0].clone(), lang(1)));
            pw = a.get(2);
        }
        "out.mn" | "out.seed" if a.len() > 2 => {
            ent = Some((a[1].clone(), lang(2)));
            pw = if n == "out.seed" { a.get(3) } else { None };
        }
        "phr" | "val" | "intophrase" | "seed" | "wallet" | "mtphrase" | "detect" if !a.is_empty() => {
            put("phrase as given", &a[0]);
            if let Ok(t) = std::str::from_utf8(&a[0]) {
                if let Ok((_, e)) = model::read_phrase(t, lang(1)) {
                    ent = Some((e, lang(1)));
                }
            }
            pw = a.get(2).filter(|_| n == "seed" || n == "wallet");
        }
        "out.mnp" if a.len() > 2 => {
            put("phrase as given", &a[1]);
            if let Ok((_, e)) = model::read_phrase(std::str::from_utf8(&a[1]).unwrap_or(""), lang(2)) {
                ent = Some((e, lang(2)));
            }
        }
        "new" | "nwallet" => {
            if let Reply::Out(Out::Ok(d)) = reply {
                ent = ent_in(d).map(|e| (e, lang(1)));
            }
        }
        "master" | "path" | "b.master" | "b.path" | "panic.seed" | "panic.path" if !a.is_empty() => {
            put("seed", &a[0]);
            if let Some(m) = cx.m.master(&a[0]) {
                put("master key", &m.sk());
                if n == "path" && a.len() > 1 && a[1].len() % 4 == 0 {
                    if let Ok(c) = cx.m.derive(&m, &bytes_path(&a[1]), true) {
                        put("derived key", &c.sk());
                    }
                }
            }
        }
        "sign" if !a.is_empty() => put("signing key", &a[0]),
        _ => {
            for x in a {
                if x.len() == 74 {
                    let e = Ext::from_rec(x);
                    if e.key[0] == 0 {
                        put("private key", &e.sk());
                        for l in [0, 2, 4, 6] {
                            put("private key text", model::key_text(l, &e).as_bytes());
                        }
                        if (n == "xchild" || n == "b.xchild") && a.len() > 1 && a[1].len() == 4 {
                            if let Ok(c) = cx.m.ckd_priv(&e, u32::from_be_bytes(a[1][..4].try_into().unwrap())) {
                                put("child key", &c.sk());
                            }
                        }
                        if (n == "xderive" || n == "b.xderive") && a.len() > 1 && a[1].len() % 4 == 0 {
                            if let Ok(c) = cx.m.derive(&e, &bytes_path(&a[1]), true) {
                                put("derived key", &c.sk());
                            }
                        }
                    }
                }
                if x.len() > 100 && x.len() < 120 && x.is_ascii() && x[1..].starts_with(b"prv") {
                    put("private key text", x);
                    if let model::Rec::Good(_, e) = model::read_record(std::str::from_utf8(x).unwrap_or("")) {
                        put("private key", &e.sk());
                    }
                }
            }
        }
    }
    if let Some((e, l)) = ent {
        put("entropy", &e);
        if let Some(p) = model::phrase_of(&e, l) {
            put("phrase", p.as_bytes());
            let idx = model::word_indices(&p, l);
            put("list of word numbers", &idx.iter().flat_map(|i| i.to_le_bytes()).collect::<Vec<_>>());
            if l == b'c' {
                put("phrase text in GB18030", &model::phrase_bytes(&p, l));
            }
            if let Some(pw) = pw {
                put("password", pw);
                let s = cx.m.seed(&p, l, &String::from_utf8_lossy(pw));
                put("seed", &s);
                if let Some(m) = cx.m.master(&s) {
                    put("master key", &m.sk());
                }
            }
        }
    }
}

fn next(r: &mut Rng, cx: &mut Ctx, last: Option<&Op>) -> Op {
    let o = match last {
        Some(b) if r.pct(30) => gen::related(r, cx, b),
        _ => loop {
            let n = if r.pct(80) { r.pick(&PRIVATE).to_string() } else { gen::any_op(r, cx).name };
            if ["seed", "wallet", "ewallet", "nwallet", "eseed", "out.seed"].contains(&&n[..]) && r.pct(50) {
                continue;
            }
            if let Some(mut o) = gen::example(&n, r, cx) {
                if n == "sign" && r.pct(40) {
                    // no digest
                    let k = r.below(70);
                    o.args[1] = r.bytes(k);
                }
                break o;
            }
        },
    };
    let o = if r.pct(12) && !o.args.is_empty() && !gen::special(&o) && ["phr", "val", "intophrase", "seed", "wallet", "mtphrase", "detect", "xprvparse", "ekparse", "rt", "xpubparse"].contains(&&o.name[..]) && std::str::from_utf8(&o.args[0]).map(|t| t.len() > 20).unwrap_or(false) {
        let mut o = o;
        let t = String::from_utf8_lossy(&o.args[0]).into_owned();
        o.args[0] = gen::damage(r, &t, "abandon", !t.is_ascii());
        o
    } else {
        o
    };
    if !gen::special(&o) {
        match r.below(16) {
            0 => return gen::within("thread", &o),
            1 => return gen::within("unwind", &o),
            2 if gen::OPEN_OPS.contains(&&o.name[..]) => return gen::nest(r, cx, Some(o)),
            _ => {}
        }
    }
    o
}
fn push(p: &mut Plan, what: &str, head: Vec<Vec<u8>>, op: &Op) {
    let mut a = head;
    a.push(op.name.clone().into_bytes());
    a.extend(op.args.iter().cloned());
    p.add(what, a);
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    const KEEP: [&str; 12] = ["ent", "phr", "eseed", "master", "path", "xkey", "xderive", "xchild", "ekparse", "xprvparse", "ent", "phr"];
    let mut p = Plan::default();
    let mut last: Option<Op> = None;
    let mut kept = 0u8;
    for _ in 0..r.range(1, 9) {
        match r.below(16) {
            0 | 1 => {
                let Some(o) = gen::example(r.pick(&KEEP), r, cx) else { continue };
                push(&mut p, "keep", vec![], &o);
                kept += 1;
            }
            2 if kept > 0 => {
                let i = vec![r.below(kept as usize) as u8];
                let o = match r.below(6) {
                    0 => Op::new("o.child", vec![i, be(gen::cnh(r, cx))]),
                    1 => Op::new("o.neuter", vec![i]),
                    2 => Op::new("o.clone", vec![i]),
                    3 => Op::new("o.master", vec![i]),
                    4 => Op::new("o.text", vec![i, vec![b'0' + r.below(8) as u8]]),
                    _ => Op::new("o.drop", vec![i]),
                };
                push(&mut p, "look", vec![], &o);
            }
            3 => {
                let a = next(r, cx, last.as_ref());
                let b = next(r, cx, Some(&a));
                let a = if r.pct(30) && !gen::special(&a) { gen::at_exit(r, 0, &a) } else { a };
                let mut v = vec![num(r.u64() >> 8), num(1 + r.u64() % 2000), vec![1 + a.args.len() as u8], a.name.into_bytes()];
                v.extend(a.args);
                v.push(b.name.into_bytes());
                v.extend(b.args);
                p.add("par", v);
            }
            4 => p.add("search", vec![]),
            _ => {
                let o = next(r, cx, last.as_ref());
                let refused = r.pct(if o.name == "new" { 30 } else { 3 });
                push(&mut p, "do", vec![vec![refused as u8]], &o);
                last = Some(o);
            }
        }
    }
    p.add("search", vec![]);
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let n = w.start(0);
    let mut known: Vec<(String, Vec<u8>)> = vec![];
    let mut kept: Vec<Vec<u8>> = vec![];
    for s in &p.steps {
        match s.op.as_str() {
            "keep" if !s.args.is_empty() => {
                let op = Op { name: format!("keep:{}", s.t(0)), args: s.args[1..].to_vec() };
                let r = cx.call(&mut w, n, &op, &Env::default());
                secrets(cx, &op, &r, &mut known);
                kept.push(vec![]);
            }
            "look" if !s.args.is_empty() && !kept.is_empty() => {
                let op = Op { name: s.t(0), args: s.args[1..].to_vec() };
                cx.call(&mut w, n, &op, &Env::default());
            }
            "par" if s.args.len() >= 5 => {
                let k = 3 + s.b(2).first().copied().unwrap_or(1) as usize;
                if k >= s.args.len() {
                    continue;
                }
                let a = Op { name: s.t(3), args: s.args[4..k].to_vec() };
                let b = Op { name: s.t(k), args: s.args[k + 1..].to_vec() };
                let cfg = rt::SchedCfg { mode: 0, seed: s.u(0), gap: s.u(1).max(1), edge_p: 20, touch_p: 20, spur_p: 10, depth: 0, span: 0, stall_at: 0, list: vec![] };
                let sc = vec![vec![a], vec![b]];
                match w.multi(n, &sc, &[], &Env::default(), &cfg) {
                    Err(e) => return fail("died", format!("threads calling {} and {}: {}", sc[0][0].name, sc[1][0].name, e.show())),
                    Ok(m) => {
                        let h = m.hash;
                        cx.ev(|| format!("threads {} {} hash {:016x}", sc[0][0].name, sc[1][0].name, h));
                        for (t, o) in sc.iter().enumerate() {
                            let r = m.threads[t].outs.first().map(|x| Reply::Out(x.0.clone())).unwrap_or(Reply::Crashed);
                            secrets(cx, &o[0], &r, &mut known);
                        }
                        rt::fault(rt::F_THREADEXIT);
                    }
                }
                cx.ask(&mut w, n, "exit.results", vec![]);
            }
            "do" if s.args.len() >= 2 => {
                let op = Op { name: s.t(1), args: s.args[2..].to_vec() };
                let refused = s.b(0).first() == Some(&1);
                let env = Env { ent_mode: if refused { 2 } else { 0 }, ent_default: if refused { Some(0) } else { None }, ..Env::default() };
                let r = cx.call(&mut w, n, &op, &env);
                if matches!(&r, Reply::Out(Out::Panic(_))) && op.name.starts_with("panic.") {
                    rt::fault(rt::F_CBPANIC);
                }
                secrets(cx, &op, &r, &mut known);
            }
            "search" => {
                kept.clear();
                if known.is_empty() {
                    continue;
                }
                cx.nontrivial = true;
                let pats: Vec<Vec<u8>> = known.iter().map(|k| k.1.clone()).collect();
                let r = w.residue(n, &pats);
                cx.judge();
                cx.ev(|| format!("search for {} -> {:?}", pats.len(), r));
                match r {
                    Ok(None) => {}
                    Ok(Some((i, place))) => {
                        let k = &known[i.min(known.len() - 1)];
                        return fail("kept", format!("after its last owner was gone, {} memory still held a {} ({})", place, k.0, clip(&show(std::slice::from_ref(&k.1)))));
                    }
                    Err(e) => return fail("died", format!("search: {}", e.show())),
                }
            }
            _ => {}
        }
    }
    Ok(())
}

use super::common::*;

pub const P: Prop = Prop {
    id: "C23",
    gen,
    exec,
    free: no_free,
    quick: 16_000,
    thorough: 300_000,
    rule: "one run = a history of related calls (that succeed, fail, panic, are refused entropy, are repeated thousands of times, run in threads or destructors) in a process whose system calls and surroundings are watched: none may touch files, network, processes or output, or change what the host program has around it; non-trivial = at least two calls were watched and the run's event trace was not seen before",
};

fn push(p: &mut Plan, what: &str, head: Vec<Vec<u8>>, op: &Op) {
    let mut a = head;
    a.push(op.name.clone().into_bytes());
    a.extend(op.args.iter().cloned());
    p.add(what, a);
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let mut pool = vec![];
    let refused_pct = *r.pick(&[0usize, 0, 5, 20]);
    for _ in 0..r.range(2, 14) {
        match r.below(24) {
            0 | 1 => {
                let op = super::c14::next(r, cx, &mut pool);
                if !gen::special(&op) {
                    let t = cx.fresh(&op).1.max(20);
                    let max = (1_000_000 / t).clamp(2, 5_000);
                    let c = r.log(max).max(2);
                    push(&mut p, "rep", vec![be(c as u32)], &op);
                }
            }
            2 => {
                let op = super::c14::next(r, cx, &mut pool);
                let t = cx.fresh(&op).1.max(20);
                let max = (300_000 / t).clamp(2, 2_000);
                if !gen::special(&op) && !op.args.is_empty() {
                    let c = r.log(max).max(2);
                    let i = r.below(op.args.len());
                    let at = r.below(op.args[i].len().max(1)).min(255);
                    push(&mut p, "flood", vec![be(c as u32), vec![i as u8, at as u8]], &op);
                }
            }
            _ => {
                let o = super::c14::next(r, cx, &mut pool);
                let o = match r.below(30) {
                    0 if !gen::special(&o) => gen::within("thread", &o),
                    1 if !gen::special(&o) => gen::within("unwind", &o),
                    2 if !gen::special(&o) => gen::at_exit(r, 0, &o),
                    _ => o,
                };
                let refused = r.pct(if o.name == "new" || o.name == "nwallet" { 35 } else { refused_pct });
                push(&mut p, "do", vec![vec![refused as u8]], &o);
            }
        }
    }
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let n = w.start(0);
    match w.host(n, 0) {
        Ok(true) => {}
        Ok(false) => rt::fault(rt::F_UNWATCHED),
        Err(e) => return fail("died", format!("while being watched: {}", e.show())),
    }
    let mut calls = 0;
    for s in &p.steps {
        let (op, what) = match s.op.as_str() {
            "rep" if s.args.len() >= 2 => (Op { name: s.t(1), args: s.args[2..].to_vec() }, format!("{} calls of ", s.u(0))),
            "flood" if s.args.len() >= 3 && s.b(1).len() == 2 => (Op { name: s.t(2), args: s.args[3..].to_vec() }, format!("{} neighbours of ", s.u(0))),
            "do" if s.args.len() >= 2 => (Op { name: s.t(1), args: s.args[2..].to_vec() }, String::new()),
            _ => continue,
        };
        if s.op == "do" {
            // getrandom is refused, and so is the device, before it is opened
            let refused = s.b(0).first() == Some(&1);
            let env = Env { ent_mode: if refused { 2 } else { 0 }, ent_default: if refused { Some(0) } else { None }, ..Env::default() };
            let r = cx.call(&mut w, n, &op, &env);
            if matches!(&r, Reply::Out(Out::Panic(_))) && op.name.starts_with("panic.") {
                rt::fault(rt::F_CBPANIC);
            }
        } else {
            cx.ask(&mut w, n, &s.op, s.args.clone());
        }
        calls += 1;
        cx.judge();
        let told = w.nodes[n].last.printed.clone();
        if !told.is_empty() {
            return fail("printed", format!("{}{} {} printed {:?}", what, op.name, clip(&show(&op.args)), clip(&String::from_utf8_lossy(&told))));
        }
        if w.nodes[n].alive {
            match w.deeds(n) {
                Ok(v) => {
                    cx.ev(|| format!("deeds {:?}", v));
                    if let Some(x) = v.first() {
                        return fail("deed", format!("{}{} {}: {}{}", what, op.name, clip(&show(&op.args)), x, if v.len() > 1 { format!(" (and {} more)", v.len() - 1) } else { String::new() }));
                    }
                }
                Err(e) => return fail("died", format!("after {}: {}", op.name, e.show())),
            }
        } else {
            return fail("died", format!("{}{} {} ended the process", what, op.name, clip(&show(&op.args))));
        }
    }
    if let Reply::Out(Out::Ok(_)) = cx.ask(&mut w, n, "exit.results", vec![]) {}
    cx.nontrivial = calls >= 2;
    Ok(())
}

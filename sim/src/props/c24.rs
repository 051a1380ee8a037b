use super::common::*;

pub const P: Prop = Prop {
    id: "C24",
    gen,
    exec,
    free: no_free,
    quick: 24_000,
    thorough: 432_000,
    rule: "one run = calls in processes on other machines (every environment variable set, every file there, other clock, processors, user, host name, process number, addresses, contents of new memory and stack), each compared with the same call in a process on this one; non-trivial = at least two compared calls and the run's event trace was not seen before",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let mut pool = vec![];
    for _ in 0..r.range(1, 2) {
        p.add("machine", vec![num(r.u64() >> 1 | 1)]);
        for _ in 0..r.range(2, 7) {
            let o = super::c14::next(r, cx, &mut pool);
            let o = if r.pct(8) && !gen::special(&o) { gen::within(r.pick(&["thread", "unwind"]), &o) } else { o };
            let jump = match r.below(6) {
                0 => r.u64() % 10_000_000_000,
                1 => (-((r.u64() % 10_000_000_000_000) as i64)) as u64,
                2 => r.u64() % (400 * 86400 * 1_000_000_000),
                3 => r.u64() % (60 * 365 * 86400 * 1_000_000_000),
                _ => 0,
            };
            let mut a = vec![num(jump), o.name.clone().into_bytes()];
            a.extend(o.args.iter().cloned());
            p.add("do", a);
        }
    }
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut cur = None;
    let mut compared = 0;
    for s in &p.steps {
        match s.op.as_str() {
            "machine" if !s.args.is_empty() => {
                let n = w.start(0);
                match w.host(n, s.u(0) | 1) {
                    Ok(true) => {}
                    Ok(false) => rt::fault(rt::F_UNWATCHED),
                    Err(e) => return fail("died", format!("on another machine: {}", e.show())),
                }
                cur = Some(n);
            }
            "do" if s.args.len() >= 2 => {
                let Some(n) = cur else { continue };
                let op = Op { name: s.t(1), args: s.args[2..].to_vec() };
                let env = Env { clock_jump: s.u(0) as i64, ..Env::default() };
                let made = op.name == "new" || op.name == "nwallet";
                let fresh = if made { None } else { Some(cx.fresh(&op).0) };
                let r = cx.call(&mut w, n, &op, &env);
                match fresh {
                    None => super::c14::made(cx, &op, &r, false)?,
                    Some(e) => {
                        cx.judge();
                        compared += 1;
                        if r != e {
                            return fail("differs", format!("{} {} returned {:?} on another machine, but {:?} on this one", op.name, clip(&show(&op.args)), clip(&r.show()), clip(&e.show())));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    cx.nontrivial = compared >= 2;
    Ok(())
}

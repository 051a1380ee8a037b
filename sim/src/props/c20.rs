use super::common::*;

pub const P: Prop = Prop {
    id: "C20",
    gen,
    exec,
    free: no_free,
    quick: 20_000,
    thorough: 360_000,
    rule: "one run = one process that makes one to three cycles of calls again and again (16 to 20000 rounds, the same arguments or ever new ones), calls that fail, panic in a callback, are refused entropy, meet a failing key backend or a full sink, run in threads that end, or are made by destructors; the simulated allocator's count of heap bytes, the open files and the threads are compared after an eighth, a quarter, half and all of the rounds; non-trivial = at least one cycle was judged and the run's event trace was not seen before",
};

pub const SLOW: [&str; 6] = ["seed", "wallet", "ewallet", "nwallet", "eseed", "out.seed"];

/// How many steps a call takes, as far as that can be told; curve arithmetic and hashing, which is not instrumented, counts by its time.
pub fn cost(cx: &mut Ctx, o: &Op) -> u64 {
    let extra = match &o.name[..] {
        "thread" => 3_000,
        "nest" => {
            return match gen::unnest(o) {
                Some((a, b)) => cost(cx, &a) + cost(cx, &b) + 100,
                None => 3_000,
            }
        }
        _ => 0,
    };
    let i = inner(o);
    let n = &i.name[..];
    let len: usize = i.args.iter().map(|a| a.len()).sum();
    let path = if ["path", "xderive", "pderive", "b.path", "b.xderive", "b.pderive", "panic.path"].contains(&n) {
        i.args.get(1).map(|a| a.len() as u64 / 4).unwrap_or(0).min(255) * (cx.later("xchild") + 1_500)
    } else {
        0
    };
    let curve = if ["xchild", "pchild", "sign", "xneuter", "xkey", "pkey", "rt", "xpubparse", "xprvparse", "reread", "b.xchild", "b.pchild"].contains(&n) { 1_000 } else { 0 };
    // each component printed, read, ...
    let script = if n == "pathops" && i.args.len() > 1 && i.args[1].contains(&b'E') { 2_000_000 } else { 0 };
    script + extra + cx.later(n) + path + curve + len as u64 * 4 + if SLOW.contains(&n) { 15_000 } else { 0 }
}
/// Where in a call's arguments ever new rounds differ.
pub fn place(r: &mut Rng, o: &Op) -> (u8, u8) {
    // not in scripts for sinks, backends and paths, which would then ask for something else altogether
    let odd = gen::special(o) || ["out.", "b.", "panic.", "pathops"].iter().any(|x| o.name.starts_with(x));
    let i = if odd {
        let v: Vec<usize> = (0..o.args.len()).filter(|i| o.args[*i].len() == 74 || o.args[*i].len() >= 16 && *i > 0 && *i + 1 < o.args.len() && o.name != "nest").collect();
        if v.is_empty() {
            255
        } else {
            *r.pick(&v)
        }
    } else {
        r.below(o.args.len().max(1))
    };
    let n = o.args.get(i).map(|x| x.len()).unwrap_or(0);
    let at = match n {
        74 if r.pct(70) => *r.pick(&[0, 1, 2, 5, 6, 9, 12, 38, 41, 42, 44, 70, 71]),
        _ => r.below(n.max(1)),
    };
    (i as u8, at.min(255) as u8)
}

pub fn inner(o: &Op) -> Op {
    match &o.name[..] {
        "unwind" | "thread" if !o.args.is_empty() => inner(&crate::ctx::inner(o, 0)),
        _ => o.clone(),
    }
}

pub fn one(r: &mut Rng, cx: &mut Ctx, last: Option<&Op>) -> Op {
    if r.below(25) == 0 {
        // key records, good or not
        let mut rec = gen::ext(r, cx).rec();
        if r.pct(50) {
            let i = r.below(74);
            rec[i] = r.u8();
        }
        if r.pct(30) {
            rec[0] = 0;
        }
        return Op::new("reread", vec![vec![b'0' + r.below(8) as u8], rec]);
    }
    let o = match last {
        Some(b) if r.pct(45) => gen::related(r, cx, b),
        _ if !cx.hot.is_empty() && r.pct(50) => {
            let n = r.pick(&cx.hot).clone();
            gen::example(&n, r, cx).unwrap_or_else(|| gen::any_op(r, cx))
        }
        _ => gen::any_op(r, cx),
    };
    let o = match r.below(12) {
        // refused, at whichever place
        0 | 1 => spoilt(r, o),
        _ => o,
    };
    if gen::special(&o) {
        return o;
    }
    match r.below(14) {
        0 => gen::within("thread", &o),
        1 => gen::within("unwind", &o),
        2 if gen::OPEN_OPS.contains(&&o.name[..]) => gen::nest(r, cx, Some(o)),
        _ => o,
    }
}
/// The same call with a damaged argument.
fn spoilt(r: &mut Rng, mut o: Op) -> Op {
    if o.args.is_empty() || o.name.starts_with("out.") || o.name.starts_with("panic.") || gen::special(&o) {
        return o;
    }
    let i = if r.pct(70) { 0 } else { r.below(o.args.len()) };
    let text = std::str::from_utf8(&o.args[i]).map(|t| t.len() > 3).unwrap_or(false);
    if text {
        let t = String::from_utf8_lossy(&o.args[i]).into_owned();
        let zh = !t.is_ascii();
        o.args[i] = gen::damage(r, &t, "abandon", zh);
        if o.args[i].len() > 2000 {
            o.args[i].truncate(2000);
        }
    } else if ["ent", "master", "path", "eseed", "sign"].contains(&&o.name[..]) {
        let k = if o.name == "sign" { 1 } else { 0 };
        if r.pct(50) {
            o.args[k].pop();
        } else {
            let n = r.range(1, 70);
            o.args[k] = r.bytes(n);
        }
    }
    o
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    for _ in 0..r.range(1, 3) {
        let mut ops: Vec<Op> = vec![];
        for _ in 0..if r.pct(50) { 1 } else { r.range(2, 4) } {
            let last = ops.last().cloned();
            ops.push(one(r, cx, last.as_ref()));
        }
        let mut cost = 0u64;
        for o in &ops {
            cost += self::cost(cx, o);
        }
        let vary = r.pct(45);
        let max = ((if vary { 1_500_000 } else { 400_000 }) / cost).clamp(16, 20_000);
        let n = if r.pct(30) { max } else { r.range(max as usize / 4, max as usize) as u64 }.max(16);
        let vary = vary && n >= 200;
        let mut a = vec![be(n as u32), vec![vary as u8]];
        for o in &ops {
            let (i, at) = place(r, o);
            a.push(vec![1 + o.args.len() as u8, i, at]);
            a.push(o.name.clone().into_bytes());
            a.extend(o.args.iter().cloned());
        }
        let refused = ops.iter().any(|o| ["new", "nwallet"].contains(&&o.name[..])) && r.pct(60);
        let mut v = vec![vec![if refused { r.range(1, 6) as u8 } else { 0 }], num(if r.pct(20) { r.u64() % 10_000_000_000_000 } else { 0 })];
        v.extend(a);
        p.add("grow", v);
    }
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let n = w.start(0);
    for s in &p.steps {
        if s.op != "grow" || s.args.len() < 6 || s.b(2).len() != 4 || s.b(3).len() != 1 || !well_formed(&s.args[4..]) {
            continue;
        }
        // how the entropy source fails all through: no service, no system call, errors, few bytes at a time
        let (ent_mode, ent_default) = match s.b(0).first().copied().unwrap_or(0) {
            1 => (2, Some(0)),
            2 => (1, None),
            3 => (0, Some(252)),
            4 => (0, Some(0)),
            5 => (1, Some(0)),
            6 => (0, Some(3)),
            _ => (0, None),
        };
        let env = Env { clock_jump: s.u(1) as i64, ent_mode, ent_default, ..Env::default() };
        let rounds = u32::from_be_bytes(s.b(2).try_into().unwrap()).min(20_000) as u64;
        let vary = s.b(3) == [1];
        let calls = rounds * s.args[4..].iter().filter(|a| a.len() == 3).count().max(1) as u64;
        let op = Op { name: "grow".into(), args: s.args[2..].to_vec() };
        let r = cx.call(&mut w, n, &op, &env);
        cx.judge();
        for (k, f) in [("panic", rt::F_CBPANIC), ("out.", rt::F_SINKFULL), ("b.", rt::F_BACKEND)] {
            if s.args.iter().any(|a| a.starts_with(k.as_bytes())) {
                rt::fault(f);
            }
        }
        let t = match &r {
            Reply::Out(Out::Ok(t)) => t.clone(),
            r => return fail("died", format!("{} rounds of {}: {}", rounds, names(&s.args[4..]), clip(&r.show()))),
        };
        let v: Vec<u64> = t.split(' ').filter_map(|x| x.parse().ok()).collect();
        if v.len() != 12 {
            return fail("died", format!("{} rounds of {}: {}", rounds, names(&s.args[4..]), clip(&t)));
        }
        cx.nontrivial = true;
        for (k, what) in ["heap bytes in use", "open files", "threads"].iter().enumerate() {
            let h = [v[k], v[3 + k], v[6 + k], v[9 + k]];
            // the system lends no process more than about a thousand files
            let grew = h[0] < h[1] && h[1] < h[2] && h[2] < h[3] || k == 1 && h[3] > 500;
            // with ever new arguments, what stays bounded may still be filling up
            let enough = !vary || k > 0 || h[3] - h[0].min(h[3]) >= 2 * calls;
            if grew && enough {
                return fail(
                    "grows",
                    format!("{} after an eighth, a quarter, half and all of {} rounds of {} with {} arguments: {:?}", what, rounds, names(&s.args[4..]), if vary { "ever new" } else { "the same" }, h),
                );
            }
        }
    }
    Ok(())
}
pub fn well_formed(a: &[Vec<u8>]) -> bool {
    let mut i = 0;
    while i < a.len() {
        if a[i].len() != 3 || a[i][0] == 0 || i + 1 + a[i][0] as usize > a.len() {
            return false;
        }
        i += 1 + a[i][0] as usize;
    }
    i > 0
}
pub fn names(a: &[Vec<u8>]) -> String {
    let (mut i, mut v) = (0, vec![]);
    while i + 1 < a.len() && !a[i].is_empty() {
        v.push(format!("{} {}", String::from_utf8_lossy(&a[i + 1]), clip(&show(&a[(i + 2).min(a.len())..(i + 1 + a[i][0] as usize).min(a.len())]))));
        i += 1 + a[i][0] as usize;
    }
    v.join(", ")
}

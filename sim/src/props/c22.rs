use super::c20::{cost, inner, names, one, place, well_formed, SLOW};
use super::common::*;

pub const P: Prop = Prop {
    id: "C22",
    gen,
    exec,
    free: no_free,
    quick: 14_000,
    thorough: 252_000,
    rule: "one run = one process in which calls are weighed (instrumented steps, bytes allocated and moved, most memory in use): before and after long histories of other calls, failures and threads, and with an argument made eight times as long; non-trivial = at least one weighing was judged and the run's event trace was not seen before",
};

/// calls with an argument of any length, and which one it is
const LONG: [(&str, usize); 28] = [
    ("phr", 0), ("val", 0), ("intophrase", 0), ("seed", 0), ("mtphrase", 0), ("detect", 0), ("words", 1), ("bits", 1), ("lang", 0), ("prefix", 0), ("pathparse", 0),
    ("cnparse", 0), ("ekparse", 0), ("xprvparse", 0), ("xpubparse", 0), ("rt", 0), ("master", 0), ("ent", 0), ("sign", 1), ("ripemd", 0), ("pathfmt", 0), ("path", 1),
    ("xderive", 1), ("pderive", 1), ("eseed", 2), ("pathparse", 0), ("phr", 0), ("val", 0),
];

/// Something that gets longer: what stands before, what repeats, what stands after.
fn shape(r: &mut Rng, cx: &mut Ctx, name: &str, v: &[u8]) -> [Vec<u8>; 3] {
    let any: [&[u8]; 30] = [
        b" ", b"a", b"abandon ", b" abandon", b"zoo ", b"/", b"/0", b"/0'", b"'", b"0", b"9", b"1", b"m/", b"m", b"\n", b"\t ", b"-", b"+", b"z", "\u{301}".as_bytes(),
        "\u{323}\u{301}".as_bytes(), "\u{e9}".as_bytes(), "\u{fdfa}".as_bytes(), "\u{ac01}".as_bytes(), "\u{3000}".as_bytes(), "的".as_bytes(), "的 ".as_bytes(), b"\0", b"\xff", b"xprv",
    ];
    let unit = match r.below(5) {
        0 => {
            let n = r.range(1, 40);
            r.bytes(n)
        }
        1 if !v.is_empty() => {
            let mut u = v.to_vec();
            if r.pct(60) {
                u.push(*r.pick(&[b' ', b'/', b'\n', b'\'']));
            }
            u
        }
        2 => {
            let l = model::lists().words(if r.pct(70) { b'e' } else { b'c' });
            format!("{} ", r.pick(l)).into_bytes()
        }
        _ => {
            let a = r.pick(&any).to_vec();
            if r.pct(25) {
                [a, r.pick(&any).to_vec()].concat()
            } else {
                a
            }
        }
    };
    let unit = if ["pathfmt", "path", "xderive", "pderive"].contains(&name) { be(gen::cn(r, cx)) } else { unit };
    let cut = r.below(v.len() + 1);
    let cut = if ["pathfmt", "path", "xderive", "pderive"].contains(&name) { cut / 4 * 4 } else { cut };
    match r.below(4) {
        0 => [vec![], unit, vec![]],
        1 => [v.to_vec(), unit, vec![]],
        2 => [vec![], unit, v.to_vec()],
        _ => [v[..cut].to_vec(), unit, v[cut..].to_vec()],
    }
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    if r.pct(45) {
        for _ in 0..r.range(1, 4) {
            let (name, i) = *r.pick(&LONG);
            if name == "seed" || name == "eseed" {
                if r.pct(70) {
                    continue;
                }
            }
            let Some(mut o) = gen::example(name, r, cx) else { continue };
            if i >= o.args.len() {
                continue;
            }
            let s = shape(r, cx, name, &o.args[i].clone());
            let total = *r.pick(&[400usize, 2_000, 2_000, 6_000, 6_000, 25_000, 50_000]);
            let k = (total / s[1].len().max(1)).max(4);
            o.args[i] = vec![];
            let mut a = vec![vec![i as u8], be(k as u32), s[0].clone(), s[1].clone(), s[2].clone()];
            // a thread has less stack
            if r.pct(60) {
                o = gen::within("thread", &o);
                a[0][0] += 1;
            }
            a.push(o.name.into_bytes());
            a.extend(o.args);
            p.add("size", a);
        }
        return p;
    }
    if r.pct(40) {
        // a flood of calls on ever new keys, seeds, messages or texts
        const FLOOD: [&str; 24] = [
            "xchild", "pchild", "xderive", "pderive", "xneuter", "sign", "sign", "reread", "master", "path", "xprvfmt", "xpubfmt", "eqprv", "ent", "phr", "val", "pathparse", "cnparse",
            "xdebug", "xkey", "pkey", "bits", "words", "detect",
        ];
        let name = *r.pick(&FLOOD);
        let o = if name == "reread" { Op::new("reread", vec![vec![b'0' + r.below(8) as u8], gen::ext(r, cx).rec()]) } else { gen::example(name, r, cx).unwrap() };
        let o = if r.pct(10) { gen::within("thread", &o) } else { o };
        let (i, at) = loop {
            let x = place(r, &o);
            let n = o.args.get(x.0 as usize).map(|a| a.len()).unwrap_or(0);
            // the longest argument, mostly
            if n == o.args.iter().map(|a| a.len()).max().unwrap_or(0) || r.pct(20) {
                break x;
            }
        };
        let n = (3_000_000 / cost(cx, &o)).clamp(64, 20_000);
        let mut a = vec![num(0), be(n as u32), vec![1], vec![1 + o.args.len() as u8, i, at], o.name.clone().into_bytes()];
        a.extend(o.args.iter().cloned());
        p.add("grow", a);
        p.add("again", vec![]);
        return p;
    }
    let mut probes: Vec<Op> = vec![];
    for _ in 0..r.range(1, 3) {
        let o = loop {
            let o = one(r, cx, None);
            let i = inner(&o);
            if SLOW.contains(&&i.name[..]) && r.pct(80) || gen::special(&o) && r.pct(50) {
                continue;
            }
            break o;
        };
        let mut a = vec![o.name.clone().into_bytes()];
        a.extend(o.args.iter().cloned());
        p.add("weigh", a);
        probes.push(o);
    }
    for _ in 0..r.range(1, 2) {
        let mut ops: Vec<Op> = vec![];
        for _ in 0..r.range(1, 3) {
            let last = if r.pct(75) { Some(r.pick(&probes).clone()) } else { ops.last().cloned() };
            let o = if r.pct(30) && last.is_some() { last.clone().unwrap() } else { one(r, cx, last.as_ref()) };
            ops.push(o);
        }
        let mut sum = 0u64;
        for o in &ops {
            sum += cost(cx, o);
        }
        let vary = r.pct(75);
        let max = (1_500_000 / sum).clamp(16, 20_000);
        let n = if r.pct(40) { max } else { r.range(max as usize / 4, max as usize) as u64 }.max(16);
        let mut a = vec![be(n as u32), vec![vary as u8]];
        for o in &ops {
            let (i, at) = place(r, o);
            a.push(vec![1 + o.args.len() as u8, i, at]);
            a.push(o.name.clone().into_bytes());
            a.extend(o.args.iter().cloned());
        }
        let mut v = vec![num(if r.pct(20) { r.u64() % 10_000_000_000_000 } else { 0 })];
        v.extend(a);
        p.add("grow", v);
        p.add("again", vec![]);
    }
    p
}

/// As "grow" varies its calls.
fn vary(o: &Op, (i, at, k): (usize, usize, u32)) -> Op {
    let mut o = o.clone();
    if let Some(x) = o.args.get_mut(i) {
        let m = x.len();
        for (j, b) in k.to_le_bytes().iter().enumerate() {
            if m > 0 && j < m {
                x[(at + j) % m] ^= b;
            }
        }
    }
    o
}
fn weigh(cx: &mut Ctx, w: &mut World, n: usize, times: u8, op: &Op) -> Result<(u64, u64, String), String> {
    let mut a = vec![vec![times], op.name.clone().into_bytes()];
    a.extend(op.args.iter().cloned());
    let r = cx.call(w, n, &Op { name: "weigh".into(), args: a }, &Env::default());
    if let Reply::Out(Out::Ok(t)) = &r {
        let v: Vec<&str> = t.split(' ').collect();
        if let (3, Ok(s), Ok(m)) = (v.len(), v[0].parse(), v[1].parse()) {
            return Ok((s, m, v[2].to_string()));
        }
    }
    Err(clip(&r.show()))
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let n = w.start(0);
    let mut probes: Vec<(Op, (u64, u64, String))> = vec![];
    let mut last = vec![];
    for s in &p.steps {
        match s.op.as_str() {
            "weigh" if !s.args.is_empty() => {
                let op = Op { name: s.t(0), args: s.args[1..].to_vec() };
                match weigh(cx, &mut w, n, 3, &op) {
                    Ok(x) => probes.push((op, x)),
                    Err(e) => return fail("died", format!("{} {}: {}", op.name, clip(&show(&op.args)), e)),
                }
            }
            "grow" if s.args.len() >= 5 && s.b(1).len() == 4 && s.b(2).len() == 1 && well_formed(&s.args[3..]) => {
                let env = Env { clock_jump: s.u(0) as i64, ..Env::default() };
                let r = cx.call(&mut w, n, &Op { name: "grow".into(), args: s.args[1..].to_vec() }, &env);
                if !matches!(r, Reply::Out(Out::Ok(_))) {
                    return fail("died", format!("rounds of {}: {}", names(&s.args[3..]), clip(&r.show())));
                }
                last.clear();
                let rounds = u32::from_be_bytes(s.b(1).try_into().unwrap());
                let mut i = 3;
                while i < s.args.len() {
                    let m = s.args[i][0] as usize;
                    let o = Op { name: s.t(i + 1), args: s.args[i + 2..i + 1 + m].to_vec() };
                    last.push((o, (s.args[i][1] as usize, s.args[i][2] as usize, rounds + 7)));
                    i += 1 + m;
                }
                for (k, f) in [("panic", rt::F_CBPANIC), ("out.", rt::F_SINKFULL), ("b.", rt::F_BACKEND)] {
                    if s.args.iter().any(|a| a.starts_with(k.as_bytes())) {
                        rt::fault(f);
                    }
                }
            }
            "again" => {
                // calls like those of the last rounds, but new ones, cost what they cost in a new process
                for (op, k) in std::mem::take(&mut last) {
                    let op = vary(&op, k);
                    let was = match weigh(cx, &mut w, n, 2, &op) {
                        Ok(x) => x,
                        Err(e) => return fail("died", format!("{} {}: {}", op.name, clip(&show(&op.args)), e)),
                    };
                    let f = w.start(0);
                    let fresh = match weigh(cx, &mut w, f, 2, &op) {
                        Ok(x) => x,
                        Err(e) => return fail("died", format!("{} {}: {}", op.name, clip(&show(&op.args)), e)),
                    };
                    w.kill(f);
                    cx.judge();
                    cx.nontrivial = true;
                    for (what, a, b, free) in [("steps", fresh.0, was.0, 300), ("bytes", fresh.1, was.1, 20_000)] {
                        if b > a + a / 3 + free {
                            return fail("slower", format!("{} {} took {} {} in a new process and {} after other calls", op.name, clip(&show(&op.args)), a, what, b));
                        }
                    }
                }
                for (op, was) in &probes {
                    let x = match weigh(cx, &mut w, n, 3, op) {
                        Ok(x) => x,
                        Err(e) => return fail("died", format!("{} {}: {}", op.name, clip(&show(&op.args)), e)),
                    };
                    cx.judge();
                    cx.nontrivial = true;
                    if x.0 > was.0 + was.0 / 3 + 300 {
                        return fail("slower", format!("{} {} took {} steps at first and {} after other calls", op.name, clip(&show(&op.args)), was.0, x.0));
                    }
                    if x.1 > was.1 + was.1 / 2 + 20_000 {
                        return fail("memory", format!("{} {} took {} bytes at first and {} after other calls", op.name, clip(&show(&op.args)), was.1, x.1));
                    }
                }
            }
            "size" if s.args.len() >= 6 && s.b(0).len() == 1 && s.b(1).len() == 4 && !s.b(3).is_empty() => {
                let i = s.b(0)[0] as usize;
                let k = u32::from_be_bytes(s.b(1).try_into().unwrap()).clamp(1, 30_000) as usize;
                let make = |k: usize| -> Op {
                    let mut o = Op { name: s.t(5), args: s.args[6..].to_vec() };
                    if let Some(x) = o.args.get_mut(i) {
                        *x = [s.b(2).to_vec(), s.b(3).repeat(k), s.b(4).to_vec()].concat();
                    }
                    o
                };
                let mut v = vec![];
                for k in [k, 8 * k] {
                    let o = make(k);
                    match weigh(cx, &mut w, n, 1, &o) {
                        Ok(x) => v.push(x),
                        Err(e) => return fail("died", format!("{} with {} times {} in argument {}: {}", o.name, k, clip(&show(&[s.b(3).to_vec()])), i, e)),
                    }
                }
                cx.judge();
                cx.nontrivial = true;
                for (what, a, b, free) in [("steps", v[0].0, v[1].0, 50_000), ("bytes", v[0].1, v[1].1, 100_000)] {
                    if b > 16 * a + free {
                        return fail(
                            "size",
                            format!("{} with {} times {} in argument {} took {} {}, and with eight times as many {}", s.t(5), k, clip(&show(&[s.b(3).to_vec()])), i, a, what, b),
                        );
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

use super::common::*;
use std::collections::HashMap;

pub const P: Prop = Prop {
    id: "C06",
    gen,
    exec,
    free: no_free,
    quick: 12_000,
    thorough: 216_000,
    rule: "one run = mnemonics generated by threads, restarted processes and forked copies over a simulated entropy source with short reads, interruptions, errors and outages, or an experiment that flips every bit the source delivered and looks at the result; non-trivial = at least one mnemonic was generated and the run's event trace was not seen before",
};

/// entropy scripts: per source call 255 = all, 254 = interrupted, 0/252/253 = errors, k = at most k bytes
fn ent_script(r: &mut Rng) -> (u8, Vec<u8>, u8) {
    let mode = *r.pick(&[0u8, 0, 0, 1]);
    match r.below(9) {
        0 => {
            // outage
            (*r.pick(&[0u8, 1, 2]), vec![], *r.pick(&[0u8, 252, 253]))
        }
        1 => (mode, vec![], r.range(1, 40) as u8),
        2 => (mode, (0..r.range(1, 6)).map(|_| 254).collect(), 255),
        3 => {
            // an error after a while
            let mut s: Vec<u8> = (0..r.below(4)).map(|_| *r.pick(&[1u8, 3, 7, 8, 15, 16, 254])).collect();
            s.push(*r.pick(&[0u8, 252, 253]));
            (mode, s, 255)
        }
        4 => {
            // outage after a short read
            let mut s: Vec<u8> = (0..r.range(1, 4)).map(|_| *r.pick(&[1u8, 3, 7, 8, 15, 16, 31, 254])).collect();
            s.push(254);
            (mode, s, 0)
        }
        5 => (mode, (0..r.range(1, 20)).map(|_| *r.pick(&[1u8, 2, 5, 8, 16, 254, 254, 255])).collect(), 255),
        6 => (1, vec![], 255),
        7 if mode == 1 => (1, vec![r.below(20) as u8 + 1, 251], 255),
        _ => (0, vec![], 255),
    }
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let ty = |r: &mut Rng| vec![b'0' + r.below(5) as u8];
    let lg = |r: &mut Rng| vec![gen::lang(r)];
    match r.below(20) {
        0 => {
            // influence of every entropy bit
            for _ in 0..r.below(3) {
                p.add("before", vec![ty(r), lg(r)]);
            }
            let (m, s, d) = match r.below(3) {
                0 => (0, (0..r.range(1, 12)).map(|_| *r.pick(&[1u8, 2, 5, 8, 16, 254])).collect(), 255),
                1 => (1, vec![], *r.pick(&[255u8, 7, 16])),
                _ => (0, vec![], 255),
            };
            p.add("sweep", vec![ty(r), lg(r), vec![m], s, vec![d]]);
        }
        1..=7 => {
            // threads of one process
            let nt = if r.pct(10) { r.range(5, 11) } else { r.range(2, 4) };
            let mut span = 0;
            let pre = r.pct(40);
            if pre {
                p.add("gen", vec![vec![0], ty(r), lg(r), vec![0], vec![], vec![255], num(0), num(0)]);
            }
            for t in 0..nt {
                for _ in 0..r.range(1, 3) {
                    let op = Op::new("new", vec![ty(r), lg(r)]);
                    span += cx.typical("new");
                    add_call(&mut p, t as u8, r.pct(12), &op);
                }
            }
            let (m, s, d) = if r.pct(35) { ent_script(r) } else { (0, vec![], 255) };
            p.add("threads", vec![vec![m], s, vec![d]]);
            gen_sched(r, &mut p, span);
            p.add("gen", vec![vec![0], ty(r), lg(r), vec![0], vec![], vec![255], num(0), num(0)]);
            if r.pct(40) {
                p.add("fork", vec![vec![0]]);
                for k in 0..2 {
                    p.add("gen", vec![vec![k], ty(r), lg(r), vec![0], vec![], vec![255], num(0), num(0)]);
                }
            }
        }
        _ => {
            let n = match r.below(10) {
                0 => r.range(30, 80),
                _ => r.range(2, 12),
            };
            for _ in 0..n {
                match r.below(12) {
                    0 | 1 => p.add("fork", vec![vec![r.below(4) as u8]]),
                    2 => p.add("restart", vec![vec![r.below(4) as u8], vec![r.below(2) as u8]]),
                    3 if r.pct(8) => {
                        let c = r.log(2500).max(10);
                        p.add("gens", vec![vec![r.below(4) as u8], ty(r), lg(r), be(c as u32)])
                    }
                    _ => {
                        let (m, s, d) = if r.pct(40) { ent_script(r) } else { (0, vec![], 255) };
                        let jump = match r.below(8) {
                            0 => r.u64() % 10_000_000_000,
                            1 => (-((r.u64() % 10_000_000_000) as i64)) as u64,
                            _ => 0,
                        };
                        let crash = if r.pct(10) { crash_at(r, cx.typical("new")) } else { 0 };
                        p.add("gen", vec![vec![r.below(4) as u8], ty(r), lg(r), vec![m], s, vec![d], num(jump), num(crash)]);
                    }
                }
            }
        }
    }
    p
}

#[derive(Default)]
struct Seen {
    win: HashMap<[u8; 8], usize>,
    n: usize,
}

/// A generated mnemonic: well formed, of the promised length, sharing no 8 bytes with any other or itself.
fn judge_new(cx: &mut Ctx, seen: &mut Seen, t: &[u8], lang: u8, o: &Out) -> Result<usize, Fail> {
    let Out::Ok(d) = o else { return Ok(0) };
    cx.judge();
    cx.nontrivial = true;
    let len = type_len(t);
    let Some(e) = ent_in(d) else { return fail("malformed", format!("generated mnemonic is malformed: {}", clip(d))) };
    if e.len() != len {
        return fail("malformed", format!("asked for {} bits of entropy, got {}", len * 8, e.len() * 8));
    }
    let ph = model::phrase_of(&e, lang).unwrap_or_default();
    let exp = cx.m.desc_m(&ph, &e, lang);
    if *d != exp {
        return fail("malformed", format!("generated {:?}, but its entropy means {:?}", clip(d), clip(&exp)));
    }
    seen.add(&e)?;
    Ok(len)
}
impl Seen {
    fn add(&mut self, e: &[u8]) -> Res {
        let id = self.n;
        self.n += 1;
        for (k, x) in e.windows(8).enumerate() {
            if let Some(j) = self.win.insert(x.try_into().unwrap(), id) {
                return fail("coincide", format!("generation {} repeats entropy bytes {} of generation {} (at offset {}): {}", id, hex(x), j, k, hex(e)));
            }
        }
        Ok(())
    }
}

fn broken(mode: u8, script: &[u8], default: u8) -> bool {
    mode == 2 || (script.is_empty() && [0, 252, 253].contains(&default))
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    if p.steps.iter().any(|s| s.op == "sweep") {
        return sweep(p, cx);
    }
    let mut w = World::new(p.salt);
    // slot -> (node, bytes drawn, bytes handed out)
    let mut slots: Vec<(usize, u64, u64)> = vec![];
    let mut seen = Seen::default();
    let forks = p.steps.iter().filter(|s| s.op == "fork").count();
    let mut left = forks;
    for s in &p.steps {
        if s.op == "call" {
            continue;
        }
        if slots.is_empty() {
            let n = w.start(left);
            slots.push((n, 0, 0));
        }
        let k = s.b(0).first().copied().unwrap_or(0) as usize % slots.len();
        match s.op.as_str() {
            "fork" => {
                left -= 1;
                // only processes we started fork (a copy has no channels left to hand out)
                let src = slots.iter().position(|x| w.nodes[x.0].parent.is_none()).unwrap_or(0);
                let src = if w.nodes[slots[k].0].parent.is_none() { k } else { src };
                if let Some(c) = w.fork(slots[src].0) {
                    cx.ev(|| format!("node {} forks: node {}", src, c));
                    slots.push((c, 0, 0));
                }
            }
            "restart" => {
                w.kill(slots[k].0);
                rt::fault(rt::F_RESTART);
                if s.b(1).first() == Some(&1) {
                    // a machine restored from a snapshot: same clock, same process id
                    let o = rt::os();
                    o.now_ns.store(1_600_000_000_000_000_000, std::sync::atomic::Ordering::Relaxed);
                    o.next_pid.store(1000, std::sync::atomic::Ordering::Relaxed);
                    rt::fault(rt::F_CLOCK);
                }
                let n = w.start(left);
                cx.ev(|| format!("node {} restarts as {}", k, n));
                slots[k] = (n, 0, 0);
            }
            "gen" => {
                if !w.nodes[slots[k].0].alive {
                    let n = w.start(left);
                    slots[k] = (n, 0, 0);
                }
                let n = slots[k].0;
                let (m, sc, d) = (s.b(3).first().copied().unwrap_or(0), s.b(4).to_vec(), s.b(5).first().copied().unwrap_or(255));
                let lang = s.b(2).first().copied().unwrap_or(b'e');
                let env = Env { crash_in: s.u(7), ent_mode: m, ent_script: sc.clone(), ent_default: Some(d), clock_jump: s.u(6) as i64, ..Env::default() };
                let r = cx.call(&mut w, n, &Op::new("new", vec![s.b(1).to_vec(), vec![lang]]), &env);
                match &r {
                    Reply::Crashed if env.crash_in != 0 => continue,
                    Reply::Out(o) => {
                        slots[k].1 += w.nodes[n].last.drawn;
                        let len = judge_new(cx, &mut seen, s.b(1), lang, o)?;
                        slots[k].2 += len as u64;
                        cx.judge();
                        if len > 0 && broken(m, &sc, d) && w.nodes[n].last.ent_failed > 0 {
                            return fail("fail-open", format!("a mnemonic was created although the entropy source failed: {}", clip(o.text())));
                        }
                        if slots[k].2 > slots[k].1 {
                            return fail("entropy", format!("process handed out {} bytes of entropy having drawn only {}", slots[k].2, slots[k].1));
                        }
                        if len == 0 {
                            if m == 0 && sc.iter().all(|c| *c == 254 || (*c > 0 && *c < 250) || *c == 255) && (d == 255 || (d > 0 && d < 250)) {
                                // nothing went wrong with the source, or it recovered
                                return fail("recover", format!("creation failed with a working entropy source: {}", clip(&r.show())));
                            }
                            // it works again as soon as the source does
                            let r = cx.ask(&mut w, n, "new", vec![s.b(1).to_vec(), vec![lang]]);
                            if !matches!(r, Reply::Out(Out::Ok(_))) {
                                return fail("recover", format!("creation still fails after the entropy source recovered: {}", clip(&r.show())));
                            }
                            slots[k].1 += w.nodes[n].last.drawn;
                            slots[k].2 += judge_new(cx, &mut seen, s.b(1), lang, r.out().unwrap())? as u64;
                            if slots[k].2 > slots[k].1 {
                                return fail("entropy", format!("process handed out {} bytes of entropy having drawn only {}", slots[k].2, slots[k].1));
                            }
                        }
                    }
                    _ => return fail("died", format!("generation ended with {}", r.show())),
                }
            }
            "gens" if s.b(3).len() == 4 => {
                // a long series in one process
                if !w.nodes[slots[k].0].alive {
                    continue;
                }
                let n = slots[k].0;
                let len = type_len(s.b(1));
                let r = cx.ask(&mut w, n, "news", vec![s.b(1).to_vec(), s.b(2).to_vec(), s.b(3).to_vec()]);
                let Reply::Out(Out::Ok(d)) = &r else { return fail("recover", format!("a series of creations failed with a working entropy source: {}", clip(&r.show()))) };
                slots[k].1 += w.nodes[n].last.drawn;
                cx.nontrivial = true;
                for t in d.split_whitespace() {
                    let e = model::unhex(t);
                    cx.judge();
                    if e.len() != len {
                        return fail("malformed", format!("asked for {} bits of entropy, got {}", len * 8, e.len() * 8));
                    }
                    slots[k].2 += len as u64;
                    seen.add(&e)?;
                }
                if slots[k].2 > slots[k].1 {
                    return fail("entropy", format!("process handed out {} bytes of entropy having drawn only {}", slots[k].2, slots[k].1));
                }
            }
            "threads" => {
                let (sc, refused) = calls_of(p);
                if sc.is_empty() {
                    continue;
                }
                let (m, es, d) = (s.b(0).first().copied().unwrap_or(0), s.b(1).to_vec(), s.b(2).first().copied().unwrap_or(255));
                let env = Env { ent_mode: m, ent_script: es.clone(), ent_default: Some(d), ..Env::default() };
                let n = slots[0].0;
                if !w.nodes[n].alive {
                    continue;
                }
                let mo = threads(p, cx, &mut w, n, &sc, &refused, &env)?;
                slots[0].1 += w.nodes[n].last.drawn;
                for (t, o) in mo.threads.iter().enumerate() {
                    for (j, x) in o.outs.iter().enumerate() {
                        let lang = sc[t][j].args[1].first().copied().unwrap_or(b'e');
                        let len = judge_new(cx, &mut seen, &sc[t][j].args[0], lang, &x.0)?;
                        slots[0].2 += len as u64;
                        if len > 0 && (refused[t][j] != 0 || broken(m, &es, d)) && w.nodes[n].last.ent_failed > 0 {
                            return fail("fail-open", format!("thread {} created a mnemonic although it was refused entropy: {}", t, clip(x.0.text())));
                        }
                        if len == 0 && refused[t][j] == 0 && m == 0 && es.is_empty() && d == 255 {
                            return fail("recover", format!("thread {} could not create a mnemonic with a working entropy source: {}", t, clip(x.0.text())));
                        }
                    }
                }
                if slots[0].2 > slots[0].1 {
                    return fail("entropy", format!("process handed out {} bytes of entropy having drawn only {}", slots[0].2, slots[0].1));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Rank over GF(2) of the changes of the generated entropy when single source bits are flipped.
fn rank(mut rows: Vec<Vec<u8>>) -> usize {
    let mut k = 0;
    let n = rows.first().map(|r| r.len() * 8).unwrap_or(0);
    for b in 0..n {
        let Some(i) = (k..rows.len()).find(|i| rows[*i][b / 8] >> (b % 8) & 1 == 1) else { continue };
        rows.swap(i, k);
        let pivot = rows[k].clone();
        for (j, row) in rows.iter_mut().enumerate() {
            if j != k && row[b / 8] >> (b % 8) & 1 == 1 {
                for (x, y) in row.iter_mut().zip(&pivot) {
                    *x ^= y
                }
            }
        }
        k += 1;
    }
    k
}

fn sweep(p: &Plan, cx: &mut Ctx) -> Res {
    let mut hist = vec![];
    for s in &p.steps {
        if s.op == "before" {
            hist.push(Op::new("new", vec![s.b(0).to_vec(), s.b(1).to_vec()]));
        }
    }
    let Some(s) = p.steps.iter().find(|s| s.op == "sweep") else { return Ok(()) };
    let last = Op::new("new", vec![s.b(0).to_vec(), s.b(1).to_vec()]);
    let env = Env { ent_mode: s.b(2).first().copied().unwrap_or(0), ent_script: s.b(3).to_vec(), ent_default: s.b(4).first().copied(), ..Env::default() };
    let len = type_len(s.b(0));
    let mut best = 0;
    let mut told = String::new();
    for all in [false, true] {
        let mut w = World::new(p.salt);
        let n = w.start(0);
        cx.judge();
        let (o, drawn, flips, _) = match w.sweep(n, &hist, &last, &env, all) {
            Ok(Some(x)) => x,
            Ok(None) => return fail("died", "generation ended the process".into()),
            Err(r) => return fail("died", r.show()),
        };
        cx.ev(|| format!("sweep {} drawn {} -> {}", all, drawn, o.text()));
        let Out::Ok(d) = &o else { return fail("recover", format!("creation failed although the source only gave short reads: {:?}", o)) };
        let Some(base) = ent_in(d) else { return fail("malformed", clip(d)) };
        let mut rows = vec![];
        for f in &flips {
            let Some(e) = ent_in(f.text()) else { return fail("malformed", format!("with one source bit flipped: {:?}", f)) };
            if e.len() != base.len() {
                return fail("malformed", format!("with one source bit flipped the length changed: {:?}", f));
            }
            rows.push(e.iter().zip(&base).map(|(a, b)| a ^ b).collect::<Vec<u8>>());
        }
        cx.nontrivial = true;
        let heavy = rows.iter().any(|r| r.iter().map(|x| x.count_ones()).sum::<u32>() > 8);
        let k = rank(rows);
        cx.ev(|| format!("rank {} heavy {}", k, heavy));
        best = best.max(k + if heavy { 10 } else { 0 });
        told = format!("only {} of {} bits of the mnemonic's entropy depend on the {} bytes drawn from the source", k, len * 8, drawn);
        if best >= len * 8 {
            return Ok(());
        }
    }
    fail("bits", told)
}

#![allow(unused_imports)]
//! The simulated disk and network, and oracle helpers shared by the properties.
pub use crate::ctx::*;
pub use crate::gen;
pub use crate::model::{self, hex, read_phrase, Ext, LABELS};
pub use crate::node::*;
pub use crate::plan::{Plan, Step};
pub use crate::rare::rare;
pub use crate::rng::Rng;
pub use crate::rt;
pub use std::collections::BTreeMap;
pub use sut::Out;

// ------------------------------------------------------------------------------------------ disk
pub const SECTOR: usize = 16;

#[derive(Clone, Default)]
struct File {
    durable: Vec<u8>,
    /// newest content not yet synced
    dirty: Option<Vec<u8>>,
}
#[derive(Clone, Default)]
pub struct Disk {
    f: BTreeMap<u8, File>,
}

impl Disk {
    pub fn write(&mut self, f: u8, b: &[u8]) {
        self.f.entry(f).or_default().dirty = Some(b.to_vec());
    }
    pub fn sync(&mut self, f: u8) {
        if let Some(x) = self.f.get_mut(&f) {
            if let Some(d) = x.dirty.take() {
                x.durable = d;
            }
        }
    }
    pub fn sync_all(&mut self) {
        let k: Vec<u8> = self.f.keys().copied().collect();
        for i in k {
            self.sync(i)
        }
    }
    pub fn read(&self, f: u8) -> Option<Vec<u8>> {
        self.f.get(&f).map(|x| x.dirty.clone().unwrap_or_else(|| x.durable.clone()))
    }
    pub fn is_synced(&self, f: u8) -> bool {
        self.f.get(&f).map(|x| x.dirty.is_none()).unwrap_or(false)
    }
    /// Power is lost: of every unsynced write nothing, everything, or some sectors made it.
    pub fn crash(&mut self, how: u64) {
        let mut r = Rng::new(how);
        for x in self.f.values_mut() {
            let Some(new) = x.dirty.take() else { continue };
            match r.below(4) {
                0 => rt::fault(rt::F_LOST),
                1 => x.durable = new,
                _ => {
                    rt::fault(rt::F_TORN);
                    let n = new.len().max(x.durable.len()).div_ceil(SECTOR);
                    let prefix_only = r.pct(50);
                    let k = r.range(0, n);
                    // the length is metadata: old, new, or up to the last sector written
                    let len = match r.below(3) {
                        0 => x.durable.len(),
                        1 => new.len(),
                        _ => (k * SECTOR).min(new.len()),
                    };
                    let mut v = vec![];
                    for i in 0..n {
                        let take_new = if prefix_only { i < k } else { r.pct(50) };
                        let src = if take_new { &new } else { &x.durable };
                        for j in i * SECTOR..(i + 1) * SECTOR {
                            v.push(src.get(j).copied().unwrap_or(0));
                        }
                    }
                    v.truncate(len);
                    x.durable = v;
                }
            }
        }
    }
    pub fn rot(&mut self, f: u8, at: usize, xor: u8) {
        if let Some(x) = self.f.get_mut(&f) {
            let v = x.dirty.as_mut().unwrap_or(&mut x.durable);
            if !v.is_empty() {
                let i = at % v.len();
                v[i] ^= xor;
                rt::fault(rt::F_BITROT);
            }
        }
    }
    pub fn put_damaged(&mut self, f: u8, b: Vec<u8>) {
        rt::fault(rt::F_BITROT);
        let x = self.f.entry(f).or_default();
        x.dirty = None;
        x.durable = b;
    }
}

// ------------------------------------------------------------------------------------------ network
#[derive(Clone, Debug)]
pub struct Msg {
    pub at: u64,
    pub seq: u64,
    pub to: u8,
    pub kind: u8,
    pub body: Vec<u8>,
    /// altered in transit
    pub bad: bool,
}
/// Fates are written in the plan: message number -> fate.
#[derive(Default)]
pub struct Net {
    pub q: Vec<Msg>,
    pub n: u64,
    pub now: u64,
    /// (message number, fate, parameter)
    pub fates: Vec<(u64, u8, u64)>,
    /// (from, until) when nothing passes
    pub cuts: Vec<(u64, u64)>,
}
impl Net {
    pub fn send(&mut self, to: u8, kind: u8, body: Vec<u8>) {
        let k = self.n;
        self.n += 1;
        let mut at = self.now + 1000;
        let mut copies = 1;
        let mut bad = false;
        let mut b = body;
        for (i, f, p) in self.fates.clone() {
            if i != k {
                continue;
            }
            match f {
                b'd' => {
                    rt::fault(rt::F_DROP);
                    copies = 0
                }
                b'2' => {
                    rt::fault(rt::F_DUP);
                    copies = 2
                }
                b'l' => {
                    rt::fault(rt::F_DELAY);
                    at += p % 50_000
                }
                b'r' => {
                    rt::fault(rt::F_REORDER);
                    at = at.saturating_sub(p % 1000)
                }
                b'c' => {
                    rt::fault(rt::F_CORRUPT);
                    let mut r = Rng::new(p);
                    let t = String::from_utf8_lossy(&b).into_owned();
                    let d = gen::damage(&mut r, &t, "xpub", false);
                    bad = bad || d != b;
                    b = d;
                }
                _ => {}
            }
        }
        if self.cuts.iter().any(|c| self.now >= c.0 && self.now < c.1) {
            rt::fault(rt::F_PARTITION);
            copies = 0;
        }
        for c in 0..copies {
            self.q.push(Msg { at: at + c * 7000, seq: self.n * 2 + c, to, kind, body: b.clone(), bad });
        }
    }
    pub fn next(&mut self) -> Option<Msg> {
        let i = (0..self.q.len()).min_by_key(|i| (self.q[*i].at, self.q[*i].seq))?;
        let m = self.q.remove(i);
        self.now = self.now.max(m.at);
        Some(m)
    }
}
pub fn fates(r: &mut Rng, pl: &mut Plan, msgs: u64) {
    let rate = *r.pick(&[0usize, 10, 30, 60]);
    for k in 0..msgs {
        if r.pct(rate) {
            let f = *r.pick(b"d2lrcl2");
            let p = r.u64() >> 16;
            pl.add("fate", vec![num(k), vec![f], num(p)]);
        }
    }
    if r.pct(20) {
        let a = r.u64() % 20_000;
        let len = r.u64() % 20_000;
        pl.add("cut", vec![num(a), num(a + len)]);
    }
}
pub fn net_of(pl: &Plan) -> Net {
    let mut n = Net::default();
    for s in &pl.steps {
        match s.op.as_str() {
            "fate" => n.fates.push((s.u(0), s.b(1).first().copied().unwrap_or(b'-'), s.u(2))),
            "cut" => n.cuts.push((s.u(0), s.u(1))),
            _ => {}
        }
    }
    n
}

// ------------------------------------------------------------------------------------------ oracles
pub fn clip(s: &str) -> String {
    if s.len() > 700 {
        let mut k = 700;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s.to_string()
    }
}
pub fn want(cx: &mut Ctx, class: &str, what: &str, r: &Reply, want: &str) -> Res {
    cx.judge();
    match r {
        Reply::Out(Out::Ok(t)) if t == want => Ok(()),
        _ => fail(class, format!("{}: got {:?}, expected ok {:?}", what, clip(&r.show()), clip(want))),
    }
}
pub fn want_err(cx: &mut Ctx, class: &str, what: &str, r: &Reply) -> Res {
    cx.judge();
    match r {
        Reply::Out(Out::Err(_)) => Ok(()),
        _ => fail(class, format!("{}: got {:?}, expected an error", what, clip(&r.show()))),
    }
}
/// ok with the given text, or an error
pub fn want_either(cx: &mut Ctx, class: &str, what: &str, r: &Reply, text: &str) -> Res {
    cx.judge();
    match r {
        Reply::Out(Out::Err(_)) => Ok(()),
        Reply::Out(Out::Ok(t)) if t == text => Ok(()),
        _ => fail(class, format!("{}: got {:?}, expected an error or ok {:?}", what, clip(&r.show()), clip(text))),
    }
}
/// any outcome but a crash, a panic or a hang
pub fn want_calm(cx: &mut Ctx, class: &str, what: &str, r: &Reply) -> Res {
    cx.judge();
    match r {
        Reply::Out(Out::Err(_)) | Reply::Out(Out::Ok(_)) => Ok(()),
        _ => fail(class, format!("{}: got {:?}", what, clip(&r.show()))),
    }
}

pub fn wallet_text(cx: &mut Ctx, ent: &[u8], lang: u8, pw: &str) -> Option<String> {
    let p = model::phrase_of(ent, lang)?;
    let s = cx.m.seed(&p, lang, pw);
    let x = cx.m.master(&s)?;
    let d = cx.m.desc_x(&x);
    Some(format!("{}\n{}\n{}", cx.m.desc_m(&p, ent, lang), hex(&s), d))
}
/// entropy named in a mnemonic description, if it is a hex string of a permitted length
pub fn ent_in(desc: &str) -> Option<Vec<u8>> {
    let f: Vec<&str> = desc.lines().next()?.split('|').collect();
    let h = f.get(2)?;
    if h.len() % 2 != 0 || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    let e = model::unhex(h);
    if model::ENT_LEN.contains(&e.len()) {
        Some(e)
    } else {
        None
    }
}
pub fn type_len(t: &[u8]) -> usize {
    model::ENT_LEN[(t.first().copied().unwrap_or(b'0').wrapping_sub(b'0') as usize).min(4)]
}

/// Places a crash inside a call of about `typ` steps (0 = none).
pub fn crash_at(r: &mut Rng, typ: u64) -> u64 {
    match r.below(4) {
        0 => 1 + r.u64() % 60,
        1 => r.log(typ),
        _ => 1 + r.u64() % (typ + typ / 16 + 1),
    }
}

pub fn env_of(crash: u64) -> Env {
    Env { crash_in: crash, ..Env::default() }
}

/// The process in use; started when needed.
pub fn proc(w: &mut World, cur: &mut Option<usize>) -> usize {
    if let Some(i) = *cur {
        if w.nodes[i].alive {
            return i;
        }
        rt::fault(rt::F_RESTART);
    }
    let i = w.start(0);
    *cur = Some(i);
    i
}
pub fn stop(w: &mut World, cur: &mut Option<usize>) {
    if let Some(i) = cur.take() {
        w.kill(i);
        rt::fault(rt::F_RESTART);
    }
}
/// A call that may be cut short by a planned crash; afterwards it is repeated in a new process.
pub fn until_done(cx: &mut Ctx, w: &mut World, cur: &mut Option<usize>, disk: &mut Disk, op: &Op, env: &Env, dseed: u64) -> Reply {
    let n = proc(w, cur);
    let r = cx.call(w, n, op, env);
    if r == Reply::Crashed {
        disk.crash(dseed);
        let n = proc(w, cur);
        return cx.call(w, n, op, &Env::default());
    }
    r
}

// ------------------------------------------------------------------------------------------ threads
/// Chooses how the threads of a run are scheduled; `span` is about how many steps they will take together.
pub fn gen_sched(r: &mut Rng, pl: &mut Plan, span: u64) {
    pl.set("sseed", r.u64());
    let span = span.max(100);
    if r.pct(35) {
        pl.set("mode", 1);
        pl.set("depth", r.range(1, 6) as u64);
        pl.set("span", if r.pct(50) { span } else { r.log(span).max(20) });
    } else {
        pl.set("mode", 0);
        pl.set("gap", match r.below(5) {
            0 => 1 + r.u64() % 8,
            1 => 8 + r.u64() % 60,
            2 => r.log(span),
            3 => 60 + r.u64() % 1000,
            _ => 1 + span / 3,
        });
    }
    // switch when code is reached for the first time
    pl.set("edge_p", *r.pick(&[0u64, 0, 30, 120]));
    pl.set("touch_p", *r.pick(&[0u64, 0, 25, 100]));
    pl.set("spur_p", *r.pick(&[0u64, 0, 40, 150]));
    if r.pct(25) {
        pl.set("stall", r.log(span));
    }
}
pub fn sched_of(p: &Plan) -> rt::SchedCfg {
    let mode = p.get("mode") as u8;
    rt::SchedCfg {
        mode,
        seed: p.get("sseed"),
        gap: p.get("gap"),
        edge_p: if mode == 2 { 0 } else { p.get("edge_p") as u32 },
        touch_p: p.get("touch_p") as u32,
        spur_p: p.get("spur_p") as u32,
        depth: p.get("depth") as u32,
        span: p.get("span"),
        stall_at: if mode == 2 { 0 } else { p.get("stall") },
        list: p.decs.clone(),
    }
}
/// A call made by a thread: thread, refused entropy?, operation, arguments.
pub fn add_call(p: &mut Plan, thread: u8, refused: bool, op: &Op) {
    let mut a = vec![vec![thread], vec![refused as u8], op.name.clone().into_bytes()];
    a.extend(op.args.iter().cloned());
    p.add("call", a);
}
pub fn calls_of(p: &Plan) -> (Vec<Vec<Op>>, Vec<Vec<u8>>) {
    let mut s: Vec<Vec<Op>> = vec![];
    let mut f: Vec<Vec<u8>> = vec![];
    for st in &p.steps {
        if st.op != "call" || st.args.len() < 3 {
            continue;
        }
        let t = (st.b(0).first().copied().unwrap_or(0) % 12) as usize;
        while s.len() <= t {
            s.push(vec![]);
            f.push(vec![]);
        }
        s[t].push(Op { name: st.t(2), args: st.args[3..].to_vec() });
        f[t].push(st.b(1).first().copied().unwrap_or(0));
    }
    (s, f)
}
/// Runs the threads of a plan; failures to finish are violations of class "progress" or "died".
pub fn threads(p: &Plan, cx: &mut Ctx, w: &mut World, n: usize, scripts: &[Vec<Op>], refused: &[Vec<u8>], env: &Env) -> Result<MultiOut, Fail> {
    cx.judge();
    match w.multi(n, scripts, refused, env, &sched_of(p)) {
        Ok(m) => {
            cx.decs = m.decs.clone();
            let h = m.hash;
            cx.ev(|| format!("threads {} decisions {} hash {:016x}", scripts.len(), m.decs.len(), h));
            if cx.log.is_some() {
                let mut all: Vec<(u64, usize, usize)> = vec![];
                for (t, o) in m.threads.iter().enumerate() {
                    for (k, x) in o.outs.iter().enumerate() {
                        all.push((x.1, t, k));
                    }
                }
                all.sort();
                for (_, t, k) in all {
                    let (o, a, b) = &m.threads[t].outs[k];
                    let l = format!("  [{}..{}] thread {} {} {} -> {} {}", a, b, t, scripts[t][k].name, show(&scripts[t][k].args), o.kind(), clip(o.text()));
                    cx.log.as_mut().unwrap().push(l);
                }
            }
            for (t, o) in m.threads.iter().enumerate() {
                for x in &o.outs {
                    cx.th = rt::mix(cx.th ^ crate::rng::hash(x.0.text().as_bytes()) ^ t as u64);
                }
            }
            Ok(m)
        }
        Err(Reply::Hang) => fail("progress", "threads did not finish within the step budget".into()),
        Err(Reply::Deadlock) => fail("progress", "threads are deadlocked".into()),
        Err(r) => fail("died", format!("the process ended: {}", r.show())),
    }
}

/// What the calls returned that were left to the end of the threads.
pub fn check_exits(cx: &mut Ctx, w: &mut World, n: usize, sc: &[Vec<Op>]) -> Res {
    if !sc.iter().flatten().any(|o| o.name == "exit.call") {
        return Ok(());
    }
    let e = cx.at_exit(sc);
    let r = cx.ask(w, n, "exit.results", vec![]);
    cx.judge();
    match &r {
        Reply::Out(Out::Ok(t)) if *t == e => Ok(()),
        r => fail("exit", format!("calls made as a thread ended returned {:?}, alone {:?}", clip(&r.show()), clip(&e))),
    }
}

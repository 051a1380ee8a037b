//! Nodes: forked processes that run the real library, and the channel to them.
#![allow(static_mut_refs)]
use crate::rt::{self, Dec, Limits, SchedCfg};
use std::sync::atomic::Ordering::Relaxed;
use sut::Out;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub name: String,
    pub args: Vec<Vec<u8>>,
}

impl Op {
    pub fn new(n: &str, a: Vec<Vec<u8>>) -> Op {
        Op { name: n.to_string(), args: a }
    }
}

/// Faults and environment of a request.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub crash_in: u64,
    pub alloc_fail_in: u64,
    pub ent_mode: u8,
    pub ent_script: Vec<u8>,
    pub ent_default: Option<u8>,
    pub clock_jump: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    Out(Out),
    /// the node died as planned (crash_in / alloc_fail_in)
    Crashed,
    /// step budget exhausted: livelock
    Hang,
    Deadlock,
    /// ended by a signal nobody planned (abort, stack overflow, segmentation fault)
    Died(i32),
}

impl Reply {
    pub fn out(&self) -> Option<&Out> {
        match self {
            Reply::Out(o) => Some(o),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Reply::Out(o) => format!("{} {}", o.kind(), o.text()),
            r => format!("{:?}", r),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub allocs: u64,
    pub drawn: u64,
    pub ent_failed: u64,
    pub ent_served: u64,
    pub cover: u64,
    /// what it wrote to standard output and error
    pub adaptor: bool,
    pub printed: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct ThreadOut {
    pub outs: Vec<(Out, u64, u64)>,
}

#[derive(Clone, Debug)]
pub struct WatchOut {
    pub label: u8,
    pub state: u8,
    pub left: u32,
    pub len: u32,
    pub thread: u8,
}

#[derive(Clone, Debug)]
pub struct MultiOut {
    pub threads: Vec<ThreadOut>,
    pub decs: Vec<Dec>,
    pub hash: u64,
    pub watches: Vec<WatchOut>,
    pub scan_hits: u32,
    pub scan_freed: u32,
    pub overflow: bool,
}

// ------------------------------------------------------------------------------------------ wire format
#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn b(&mut self, v: &[u8]) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v);
    }
    fn op(&mut self, o: &Op) {
        self.b(o.name.as_bytes());
        self.u(o.args.len() as u64);
        for a in &o.args {
            self.b(a);
        }
    }
    fn env(&mut self, e: &Env) {
        self.u(e.crash_in);
        self.u(e.alloc_fail_in);
        self.u(e.ent_mode as u64);
        self.b(&e.ent_script);
        self.u(e.ent_default.unwrap_or(255) as u64);
        self.u(e.clock_jump as u64);
    }
}
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    fn s(&mut self) -> String {
        String::from_utf8(self.b()).unwrap()
    }
    fn op(&mut self) -> Op {
        let name = self.s();
        let n = self.u();
        Op { name, args: (0..n).map(|_| self.b()).collect() }
    }
    fn env(&mut self) -> Env {
        Env {
            crash_in: self.u(),
            alloc_fail_in: self.u(),
            ent_mode: self.u() as u8,
            ent_script: self.b(),
            ent_default: Some(self.u() as u8),
            clock_jump: self.u() as i64,
        }
    }
    fn out(&mut self) -> Out {
        let k = self.u();
        let t = self.s();
        match k {
            0 => Out::Ok(t),
            1 => Out::Err(t),
            2 => Out::Panic(t),
            _ => Out::Bad(t),
        }
    }
}
fn wout(w: &mut W, o: &Out) {
    w.u(match o {
        Out::Ok(_) => 0,
        Out::Err(_) => 1,
        Out::Panic(_) => 2,
        Out::Bad(_) => 3,
    });
    w.b(o.text().as_bytes());
}

fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n < 0 {
            if unsafe { *libc::__errno_location() } == libc::EINTR {
                continue;
            }
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
fn read_exact(fd: i32, b: &mut [u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { libc::read(fd, b[i..].as_mut_ptr() as *mut _, b.len() - i) };
        if n < 0 && unsafe { *libc::__errno_location() } == libc::EINTR {
            continue;
        }
        if n <= 0 {
            return false;
        }
        i += n as usize;
    }
    true
}
pub fn send(fd: i32, b: &[u8]) -> bool {
    let mut v = (b.len() as u64).to_le_bytes().to_vec();
    v.extend_from_slice(b);
    write_all(fd, &v)
}
pub fn recv(fd: i32) -> Option<Vec<u8>> {
    let mut h = [0u8; 8];
    if !read_exact(fd, &mut h) {
        return None;
    }
    let mut v = vec![0u8; u64::from_le_bytes(h) as usize];
    if !read_exact(fd, &mut v) {
        return None;
    }
    Some(v)
}

// ------------------------------------------------------------------------------------------ node side
fn apply(e: &Env) {
    unsafe {
        rt::ENT.mode = e.ent_mode;
        rt::ENT.slen = e.ent_script.len().min(64);
        rt::ENT.script[..rt::ENT.slen].copy_from_slice(&e.ent_script[..rt::ENT.slen]);
        rt::ENT.spos = 0;
        rt::ENT.default = e.ent_default.unwrap_or(255);
        rt::ENT.drawn = 0;
        rt::ENT.failed = 0;
        rt::ENT.served = 0;
    }
    if e.clock_jump != 0 {
        rt::fault(rt::F_CLOCK);
        let n = rt::os().now_ns.load(Relaxed) as i64;
        rt::os().now_ns.store(n.saturating_add(e.clock_jump).clamp(0, 7 << 60) as u64, Relaxed);
    }
}

/// one call; the longest ones the workloads make take well under a tenth of this
pub const CALL_BUDGET: u64 = 30_000_000;

/// A very long argument buys more steps.
fn budget(op: &Op) -> u64 {
    let n: usize = op.args.iter().map(|a| a.len()).sum();
    // so does a great number of calls
    let many = if ["grow", "weigh"].contains(&&op.name[..]) { 10 } else { 1 };
    many * CALL_BUDGET + if n > 10_000 { n as u64 * if op.name == "weigh" { 600 } else { 3000 } } else { 0 }
}

fn wstats(w: &mut W, s0: u64, a0: u64) {
    w.u(rt::steps() - s0);
    w.u(rt::allocs() - a0);
    unsafe {
        w.u(rt::ENT.drawn);
        w.u(rt::ENT.failed);
        w.u(rt::ENT.served);
    }
    w.u(rt::cover());
    w.u(unsafe { crate::host::ADAPTOR } as u64);
    w.b(&rt::printed());
}

struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}
unsafe impl<T> Sync for SendPtr<T> {}

/// The main loop of a node. Never returns.
pub fn serve(mut fd: i32, spares: &[i32]) -> ! {
    let mut sess = sut::Session::default();
    loop {
        let q = match recv(fd) {
            Some(q) => q,
            None => rt::exit_now(0),
        };
        let mut r = Rd(&q);
        let mut w = W::default();
        match r.u() {
            1 => {
                let op = r.op();
                let env = r.env();
                apply(&env);
                let (s0, a0) = (rt::steps(), rt::allocs());
                rt::begin(&Limits { crash_in: env.crash_in, budget: budget(&op), alloc_fail_in: env.alloc_fail_in });
                crate::host::dirty();
                let o = crate::host::lower(|| sut::call(&mut sess, &op.name, &op.args));
                rt::end();
                wout(&mut w, &o);
                wstats(&mut w, s0, a0);
            }
            2 => {
                let n = r.u() as usize;
                let scripts: Vec<Vec<Op>> = (0..n)
                    .map(|_| {
                        let k = r.u();
                        (0..k).map(|_| r.op()).collect()
                    })
                    .collect();
                let env = r.env();
                // which operations are refused entropy
                let refused: Vec<Vec<u8>> = (0..n).map(|_| r.b()).collect();
                let mut c = SchedCfg {
                    mode: r.u() as u8,
                    seed: r.u(),
                    gap: r.u(),
                    edge_p: r.u() as u32,
                    touch_p: r.u() as u32,
                    spur_p: r.u() as u32,
                    depth: r.u() as u32,
                    span: r.u(),
                    stall_at: r.u(),
                    list: vec![],
                };
                let k = r.u();
                for _ in 0..k {
                    c.list.push(Dec { step: r.u(), kind: r.u() as u8, val: r.u() as u8 });
                }
                apply(&env);
                let scripts: &'static Vec<Vec<Op>> = Box::leak(Box::new(scripts));
                let refused: &'static Vec<Vec<u8>> = Box::leak(Box::new(refused));
                let outs: &'static mut Vec<Vec<(Out, u64, u64)>> = Box::leak(Box::new(
                    scripts.iter().map(|s| Vec::with_capacity(s.len() + 1)).collect(),
                ));
                let po = SendPtr(outs as *mut Vec<Vec<(Out, u64, u64)>>);
                let po = std::sync::Arc::new(po);
                let (s0, a0) = (rt::steps(), rt::allocs());
                let po2 = po.clone();
                rt::run_threads(
                    n,
                    &c,
                    &Limits { crash_in: env.crash_in, budget: CALL_BUDGET * 3, alloc_fail_in: env.alloc_fail_in },
                    move |i| {
                        let mut s = sut::Session::default();
                        for (j, op) in scripts[i].iter().enumerate() {
                            let t0 = rt::steps();
                            let no_entropy = refused[i].get(j).copied().unwrap_or(0) != 0;
                            let o = if no_entropy { call_refused(&mut s, op) } else { sut::call(&mut s, &op.name, &op.args) };
                            let t1 = rt::steps();
                            // exclusive access: only this thread touches element i
                            unsafe { (&mut (*po2.0))[i].push((o, t0, t1)) };
                        }
                        drop(s);
                    },
                );
                sut::life::end();
                w.u(n as u64);
                let outs = unsafe { &*po.0 };
                for t in outs.iter() {
                    w.u(t.len() as u64);
                    for (o, a, b) in t {
                        wout(&mut w, o);
                        w.u(*a - s0);
                        w.u(*b - s0);
                    }
                }
                let d = rt::decisions();
                w.u(d.len() as u64);
                for x in &d {
                    w.u(x.step);
                    w.u(x.kind as u64);
                    w.u(x.val as u64);
                }
                w.u(rt::sched_hash());
                unsafe {
                    rt::kept();
                    w.u(rt::NW as u64);
                    for x in &rt::WATCHES[..rt::NW] {
                        w.u(x.label as u64);
                        w.u(x.state as u64);
                        w.u(x.left as u64);
                        w.u(x.len as u64);
                        w.u(x.thread as u64);
                    }
                    w.u(rt::SCAN_HITS as u64);
                    w.u(rt::SCAN_FREED as u64);
                    w.u(rt::WATCH_OVERFLOW as u64);
                }
                wstats(&mut w, s0, a0);
                drop(d);
                unsafe {
                    drop(Box::from_raw(po.0));
                    drop(Box::from_raw(scripts as *const _ as *mut Vec<Vec<Op>>));
                    drop(Box::from_raw(refused as *const _ as *mut Vec<Vec<u8>>));
                }
            }
            8 => {
                let seed = r.u();
                let ok = if seed == 0 { crate::host::watch() } else { crate::host::move_to(seed) };
                w.u(ok as u64);
            }
            9 => {
                let d = crate::host::deeds();
                w.u(d.len() as u64);
                for x in d {
                    w.b(x.as_bytes());
                }
            }
            7 => {
                // nobody owns anything any more: which of these byte strings does the process still hold?
                sess = sut::Session::default();
                let mut pats = vec![];
                while r.0.len() >= 8 {
                    let n = r.u() as usize;
                    let (a, b) = r.0.split_at(n);
                    pats.push(a);
                    r.0 = b;
                }
                let found = unsafe { residue(&pats, (q.as_ptr() as usize, q.as_ptr() as usize + q.capacity())) };
                w.u(found.0);
                w.u(found.1);
            }
            3 => {
                // fork: the child goes on as a node of its own
                let spare = spares[r.u() as usize];
                let pid = rt::os().next_pid.fetch_add(1, Relaxed);
                rt::fault(rt::F_FORK);
                let c = unsafe { libc::fork() };
                if c == 0 {
                    // it outlives its parent and ends with its channel
                    unsafe {
                        rt::SIM_PID = pid;
                        rt::forked();
                        libc::close(fd);
                        for s in spares {
                            if *s != spare {
                                libc::close(*s);
                            }
                        }
                    }
                    fd = spare;
                    continue;
                }
                unsafe {
                    libc::close(spare);
                }
                w.u(c as u64);
            }
            4 => sweep(&mut r, &mut w, &mut sess),
            5 => {
                // nothing but the process ending: reap a forked child
                let c = r.u() as i32;
                let mut st = 0;
                unsafe {
                    libc::kill(c, libc::SIGKILL);
                    libc::waitpid(c, &mut st, 0);
                }
                w.u(0);
            }
            6 => {
                // dictionary warm-up
                unsafe {
                    rt::DICTIONARY.on = true;
                }
                let k = r.u();
                let ops: Vec<Op> = (0..k).map(|_| r.op()).collect();
                for op in &ops {
                    sut::call(&mut sess, &op.name, &op.args);
                }
                unsafe {
                    rt::DICTIONARY.on = false;
                    // which calls use memory that outlives them, once everything is initialised
                    for op in &ops {
                        rt::TOUCH = (true, 0, 0);
                        sut::call(&mut sess, &op.name, &op.args);
                        rt::TOUCH.0 = false;
                        w.u(rt::TOUCH.1);
                        w.u(rt::TOUCH.2);
                    }
                    w.u(rt::DICTIONARY.n as u64);
                    for (a, b) in &rt::DICTIONARY.v[..rt::DICTIONARY.n] {
                        w.u(*a as u64);
                        w.u(*b);
                    }
                }
            }
            _ => rt::exit_now(0),
        }
        if !send(fd, &w.0) {
            rt::exit_now(0);
        }
    }
}

/// Looks for the strings (of at least 8 bytes) in the heap and the static and thread-local memory of this process,
/// but not in `but`: which one was found, plus one, and where.
unsafe fn residue(pats: &[&[u8]], but: (usize, usize)) -> (u64, u64) {
    let word = |p: *const u8| std::ptr::read_unaligned(p as *const u64);
    let key = |v: u64| (v.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 48) as usize;
    // each string by its most varied eight bytes, so that zeros and repeats do not match everywhere
    let mut filter = vec![0u64; 1 << 10];
    let pats: Vec<(usize, u64, &[u8])> = pats
        .iter()
        .map(|p| {
            let kinds = |at: usize| {
                let mut w = p[at..at + 8].to_vec();
                w.sort();
                w.dedup();
                w.len() - w.contains(&0) as usize
            };
            let at = (0..=p.len() - 8).take(64).max_by_key(|at| kinds(*at)).unwrap_or(0);
            let v = word(p[at..].as_ptr());
            filter[key(v) >> 6] |= 1 << (key(v) & 63);
            // not as it is: this list lies in the memory that is searched
            (at, !v, *p)
        })
        .collect();
    let mut skip = rt::own();
    skip.push(but);
    skip.sort();
    let st = rt::statics();
    for (place, (a, b)) in [rt::heap(), st[0], st[1]].into_iter().enumerate() {
        let mut at = a;
        for (s0, s1) in skip.iter().copied().chain([(usize::MAX, usize::MAX)]) {
            let stop = b.min(s0);
            while at + 8 <= stop {
                let v = word(at as *const u8);
                let k = key(v);
                if filter[k >> 6] >> (k & 63) & 1 == 1 {
                    for (i, (off, w, p)) in pats.iter().enumerate() {
                        if *w == !v && at >= a + off && at - off + p.len() <= stop && std::slice::from_raw_parts((at - off) as *const u8, p.len()) == *p {
                            return (i as u64 + 1, place as u64);
                        }
                    }
                }
                at += 1;
            }
            if s0 >= b {
                break;
            }
            at = at.max(s1);
        }
    }
    (0, 0)
}

/// One call during which the entropy source refuses service to this thread.
fn call_refused(s: &mut sut::Session, op: &Op) -> Out {
    unsafe {
        rt::REFUSED |= 1 << rt::thread_index();
        let o = sut::call(s, &op.name, &op.args);
        rt::REFUSED &= !(1 << rt::thread_index());
        o
    }
}

/// Runs history + one generation in this process, then once more per flipped bit in forked copies.
/// Answer: baseline outcome, [positions drawn], and per bit the outcome.
fn sweep(r: &mut Rd, w: &mut W, sess: &mut sut::Session) {
    let k = r.u();
    let hist: Vec<Op> = (0..k).map(|_| r.op()).collect();
    let last = r.op();
    let env = r.env();
    // flip ranges: 0 = only what the last call draws, 1 = everything drawn since the process started
    let all = r.u() != 0;
    let pos0 = rt::os().pos.load(Relaxed);
    let lim = Limits { crash_in: 0, budget: CALL_BUDGET, alloc_fail_in: 0 };
    apply(&env);
    if !all {
        for o in &hist {
            rt::begin(&lim);
            let _ = sut::call(sess, &o.name, &o.args);
            rt::end();
        }
    }
    let pos1 = rt::os().pos.load(Relaxed);
    let start = if all { pos0 } else { pos1 };
    let one = |sess: &mut sut::Session, flip: [u64; 2]| -> Option<(Out, u64)> {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let c = unsafe { libc::fork() };
        if c == 0 {
            unsafe {
                rt::ENT.own_pos = start;
                rt::ENT.flip = flip;
                rt::ENT.drawn = 0;
            }
            if all {
                for o in &hist {
                    rt::begin(&lim);
                    let _ = sut::call(sess, &o.name, &o.args);
                    rt::end();
                }
            }
            rt::begin(&lim);
            let o = sut::call(sess, &last.name, &last.args);
            rt::end();
            let mut w = W::default();
            wout(&mut w, &o);
            w.u(unsafe { rt::ENT.drawn });
            send(fds[1], &w.0);
            rt::exit_now(0);
        }
        unsafe { libc::close(fds[1]) };
        let a = recv(fds[0]);
        let mut st = 0;
        unsafe {
            libc::close(fds[0]);
            libc::waitpid(c, &mut st, 0);
        }
        a.map(|a| {
            let mut r = Rd(&a);
            (r.out(), r.u())
        })
    };
    match one(sess, [u64::MAX; 2]) {
        None => w.u(0),
        Some((o, drawn)) => {
            w.u(1);
            wout(w, &o);
            w.u(drawn);
            let nbits = (drawn * 8).min(4096);
            w.u(nbits);
            for i in 0..nbits {
                rt::fault(rt::F_FLIPENT);
                match one(sess, [start * 8 + i, u64::MAX]) {
                    Some((o, _)) => wout(w, &o),
                    None => wout(w, &Out::Bad("died".into())),
                }
            }
        }
    }
    w.u(pos1 - pos0);
}

// ------------------------------------------------------------------------------------------ coordinator side
pub struct Node {
    pub pid: i32,
    pub fd: i32,
    pub alive: bool,
    /// whose child it is: 0 = ours, otherwise the node that forked it
    pub parent: Option<usize>,
    pub spares: Vec<(i32, i32)>,
    pub used: usize,
    pub last: Stats,
    pub calls: u64,
}

fn pair() -> (i32, i32) {
    let mut v = [0i32; 2];
    let r = unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, v.as_mut_ptr()) };
    if r != 0 {
        eprintln!("ksim: socketpair failed");
        rt::exit_now(2);
    }
    (v[0], v[1])
}

/// All nodes of one run.
pub struct World {
    pub nodes: Vec<Node>,
}

impl World {
    pub fn new(salt: u64) -> World {
        let o = rt::os();
        o.salt.store(salt, Relaxed);
        o.pos.store(0, Relaxed);
        o.now_ns.store(1_600_000_000_000_000_000, Relaxed);
        o.next_pid.store(1000, Relaxed);
        World { nodes: vec![] }
    }

    /// Starts a process. `forks` = how many forks of it will be needed.
    pub fn start(&mut self, forks: usize) -> usize {
        let (a, b) = pair();
        let spares: Vec<(i32, i32)> = (0..forks).map(|_| pair()).collect();
        let pid = rt::os().next_pid.fetch_add(1, Relaxed);
        rt::sh().nodes.fetch_add(1, Relaxed);
        let c = unsafe { libc::fork() };
        if c < 0 {
            eprintln!("ksim: fork failed");
            rt::exit_now(2);
        }
        if c == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a);
                for n in &self.nodes {
                    if n.alive {
                        libc::close(n.fd);
                    }
                    for s in &n.spares {
                        if s.1 >= 0 {
                            libc::close(s.0);
                            libc::close(s.1);
                        }
                    }
                }
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 2);
                libc::dup2(null, 1);
            }
            let kid: Vec<i32> = spares
                .iter()
                .map(|p| {
                    unsafe { libc::close(p.0) };
                    p.1
                })
                .collect();
            rt::become_node(pid);
            serve(b, &kid);
        }
        unsafe { libc::close(b) };
        self.nodes.push(Node { pid: c, fd: a, alive: true, parent: None, spares, used: 0, last: Stats::default(), calls: 0 });
        self.nodes.len() - 1
    }

    fn reap(&mut self, i: usize) -> Reply {
        let n = &mut self.nodes[i];
        n.alive = false;
        unsafe { libc::close(n.fd) };
        if n.parent.is_some() {
            // a forked copy: its exit code went to its parent
            return Reply::Crashed;
        }
        let mut st = 0;
        unsafe {
            libc::waitpid(n.pid, &mut st, 0);
        }
        for s in &n.spares[n.used..] {
            unsafe {
                libc::close(s.0);
                libc::close(s.1);
            }
        }
        n.spares.clear();
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                rt::X_CRASH => Reply::Crashed,
                rt::X_HANG => Reply::Hang,
                rt::X_DEADLOCK => Reply::Deadlock,
                c => Reply::Died(-c),
            }
        } else {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGKILL {
                eprintln!("ksim: node was killed from outside");
                rt::exit_now(2)
            }
            Reply::Died(s)
        }
    }

    fn ask(&mut self, i: usize, q: &[u8]) -> Result<Vec<u8>, Reply> {
        if !self.nodes[i].alive {
            return Err(Reply::Crashed);
        }
        self.nodes[i].calls += 1;
        if !send(self.nodes[i].fd, q) {
            return Err(self.reap(i));
        }
        // a node blocked outside the simulator's reach would wait for ever
        let mut p = libc::pollfd { fd: self.nodes[i].fd, events: libc::POLLIN, revents: 0 };
        let t0 = rt::wall();
        loop {
            let k = unsafe { libc::poll(&mut p, 1, 5000) };
            if k > 0 {
                break;
            }
            if rt::wall() - t0 > 90.0 {
                self.kill(i);
                return Err(Reply::Hang);
            }
        }
        match recv(self.nodes[i].fd) {
            Some(a) => Ok(a),
            None => Err(self.reap(i)),
        }
    }

    fn stats(&mut self, i: usize, r: &mut Rd) {
        let s = Stats { steps: r.u(), allocs: r.u(), drawn: r.u(), ent_failed: r.u(), ent_served: r.u(), cover: r.u(), adaptor: r.u() == 1, printed: r.b() };
        rt::sh().steps.fetch_add(s.steps, Relaxed);
        // work takes time: 10 simulated nanoseconds a step
        rt::os().now_ns.fetch_add(s.steps * 10, Relaxed);
        rt::sh().insert(2, s.cover);
        self.nodes[i].last = s;
    }

    pub fn call(&mut self, i: usize, op: &Op, env: &Env) -> Reply {
        let mut w = W::default();
        w.u(1);
        w.op(op);
        w.env(env);
        rt::sh().calls.fetch_add(1, Relaxed);
        match self.ask(i, &w.0) {
            Err(Reply::Died(s)) if s == libc::SIGABRT && env.alloc_fail_in != 0 => Reply::Crashed,
            Err(e) => e,
            Ok(a) => {
                let mut r = Rd(&a);
                let o = r.out();
                self.stats(i, &mut r);
                Reply::Out(o)
            }
        }
    }

    /// Which of these the process still holds, and where, after giving up all objects it was told to keep.
    pub fn residue(&mut self, i: usize, pats: &[Vec<u8>]) -> Result<Option<(usize, &'static str)>, Reply> {
        let mut w = W::default();
        w.u(7);
        for p in pats {
            w.b(p);
        }
        let a = self.ask(i, &w.0)?;
        let mut r = Rd(&a);
        let (k, place) = (r.u(), r.u());
        Ok(if k == 0 { None } else { Some((k as usize - 1, ["heap", "static", "thread-local"][place as usize % 3])) })
    }

    /// Moves the node to another machine, or has it watched (0).
    pub fn host(&mut self, i: usize, seed: u64) -> Result<bool, Reply> {
        let mut w = W::default();
        w.u(8);
        w.u(seed);
        let a = self.ask(i, &w.0)?;
        Ok(Rd(&a).u() == 1)
    }
    /// What calls did to their surroundings since the last look.
    pub fn deeds(&mut self, i: usize) -> Result<Vec<String>, Reply> {
        let mut w = W::default();
        w.u(9);
        let a = self.ask(i, &w.0)?;
        let mut r = Rd(&a);
        let n = r.u();
        Ok((0..n).map(|_| r.s()).collect())
    }

    pub fn multi(&mut self, i: usize, scripts: &[Vec<Op>], refused: &[Vec<u8>], env: &Env, c: &SchedCfg) -> Result<MultiOut, Reply> {
        let mut w = W::default();
        w.u(2);
        w.u(scripts.len() as u64);
        for s in scripts {
            w.u(s.len() as u64);
            for o in s {
                w.op(o);
            }
        }
        w.env(env);
        for k in 0..scripts.len() {
            w.b(refused.get(k).map(|v| &v[..]).unwrap_or(&[]));
        }
        for v in [c.mode as u64, c.seed, c.gap, c.edge_p as u64, c.touch_p as u64, c.spur_p as u64, c.depth as u64, c.span, c.stall_at] {
            w.u(v);
        }
        w.u(c.list.len() as u64);
        for d in &c.list {
            w.u(d.step);
            w.u(d.kind as u64);
            w.u(d.val as u64);
        }
        rt::sh().calls.fetch_add(scripts.iter().map(|s| s.len() as u64).sum(), Relaxed);
        let a = match self.ask(i, &w.0) {
            Err(Reply::Died(s)) if s == libc::SIGABRT && env.alloc_fail_in != 0 => return Err(Reply::Crashed),
            Err(e) => return Err(e),
            Ok(a) => a,
        };
        let mut r = Rd(&a);
        let n = r.u();
        let threads: Vec<ThreadOut> = (0..n)
            .map(|_| {
                let k = r.u();
                ThreadOut { outs: (0..k).map(|_| (r.out(), r.u(), r.u())).collect() }
            })
            .collect();
        let k = r.u();
        let decs: Vec<Dec> = (0..k).map(|_| Dec { step: r.u(), kind: r.u() as u8, val: r.u() as u8 }).collect();
        let hash = r.u();
        let k = r.u();
        let watches = (0..k)
            .map(|_| WatchOut { label: r.u() as u8, state: r.u() as u8, left: r.u() as u32, len: r.u() as u32, thread: r.u() as u8 })
            .collect();
        let scan_hits = r.u() as u32;
        let scan_freed = r.u() as u32;
        let overflow = r.u() != 0;
        self.stats(i, &mut r);
        rt::sh().insert(1, hash);
        Ok(MultiOut { threads, decs, hash, watches, scan_hits, scan_freed, overflow })
    }

    /// Node `i` forks; the copy becomes a node of its own.
    pub fn fork(&mut self, i: usize) -> Option<usize> {
        let n = &self.nodes[i];
        if !n.alive || n.used >= n.spares.len() {
            return None;
        }
        let k = n.used;
        let mut w = W::default();
        w.u(3);
        w.u(k as u64);
        let a = self.ask(i, &w.0).ok()?;
        let pid = Rd(&a).u() as i32;
        self.nodes[i].used += 1;
        let (a, b) = self.nodes[i].spares[k];
        unsafe { libc::close(b) };
        self.nodes[i].spares[k] = (a, -1);
        rt::sh().nodes.fetch_add(1, Relaxed);
        self.nodes.push(Node { pid, fd: a, alive: true, parent: Some(i), spares: vec![], used: 0, last: Stats::default(), calls: 0 });
        Some(self.nodes.len() - 1)
    }

    #[allow(clippy::type_complexity)]
    pub fn sweep(&mut self, i: usize, hist: &[Op], last: &Op, env: &Env, all: bool) -> Result<Option<(Out, u64, Vec<Out>, u64)>, Reply> {
        let mut w = W::default();
        w.u(4);
        w.u(hist.len() as u64);
        for o in hist {
            w.op(o);
        }
        w.op(last);
        w.env(env);
        w.u(all as u64);
        rt::sh().calls.fetch_add(hist.len() as u64 + 1, Relaxed);
        let a = self.ask(i, &w.0)?;
        let mut r = Rd(&a);
        if r.u() == 0 {
            return Ok(None);
        }
        let o = r.out();
        let d = r.u();
        let n = r.u();
        let v: Vec<Out> = (0..n).map(|_| r.out()).collect();
        rt::sh().calls.fetch_add(n, Relaxed);
        let h = r.u();
        Ok(Some((o, d, v, h)))
    }

    /// Constants the code compares with, and per call the stores to and loads from memory that outlives the call.
    pub fn dictionary(&mut self, i: usize, ops: &[Op]) -> (Vec<(u8, u64)>, Vec<(u64, u64)>) {
        let mut w = W::default();
        w.u(6);
        w.u(ops.len() as u64);
        for o in ops {
            w.op(o);
        }
        match self.ask(i, &w.0) {
            Err(_) => (vec![], vec![]),
            Ok(a) => {
                let mut r = Rd(&a);
                let touch = ops.iter().map(|_| (r.u(), r.u())).collect();
                let n = r.u();
                ((0..n).map(|_| (r.u() as u8, r.u())).collect(), touch)
            }
        }
    }

    pub fn kill(&mut self, i: usize) {
        let n = &mut self.nodes[i];
        if !n.alive {
            return;
        }
        n.alive = false;
        unsafe {
            libc::close(n.fd);
            if n.parent.is_none() {
                libc::kill(n.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(n.pid, &mut st, 0);
                if !n.spares.is_empty() {
                    for s in &n.spares[n.used..] {
                        libc::close(s.0);
                        libc::close(s.1);
                    }
                }
            }
        }
        self.nodes[i].spares.clear();
    }
}

impl Drop for World {
    fn drop(&mut self) {
        // forked copies first: they end when their channel closes
        for i in (0..self.nodes.len()).rev() {
            self.kill(i);
        }
        // orphaned copies are ours to collect (the worker is their subreaper)
        for n in self.nodes.iter().filter(|n| n.parent.is_some()) {
            let mut st = 0;
            unsafe {
                libc::kill(n.pid, libc::SIGKILL);
                libc::waitpid(n.pid, &mut st, 0);
            }
        }
        let _ = rt::sh().sim_ns.fetch_add(rt::os().now_ns.load(Relaxed).saturating_sub(1_600_000_000_000_000_000), Relaxed);
    }
}

//! What executing a plan needs: the reference model, fresh-process results and the event trace.
use crate::model::Model;
use crate::node::{Env, Op, Reply, World};
use crate::plan::{Plan, Step};
use crate::rng::{hash, Rng};
use crate::rt::{self, mix, Dec};
use std::collections::HashMap;
use sut::Out;
use std::sync::atomic::Ordering::Relaxed;

/// the call that another one contains from its k-th argument
pub fn inner(op: &Op, k: usize) -> Op {
    Op { name: String::from_utf8_lossy(&op.args[k]).into_owned(), args: op.args[k + 1..].to_vec() }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    /// what kind of violation it is; minimisation keeps it
    pub class: String,
    pub detail: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(class: &str, detail: String) -> Result<T, Fail> {
    Err(Fail { class: class.to_string(), detail })
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, &mut Ctx) -> Plan,
    pub exec: fn(&Plan, &mut Ctx) -> Res,
    /// arguments of a step that may be shortened by the minimiser
    pub free: fn(&str) -> &'static [usize],
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub fn no_free(_: &str) -> &'static [usize] {
    &[]
}

pub struct Ctx {
    pub m: Model,
    fresh: HashMap<(String, Vec<Vec<u8>>), (Reply, u64)>,
    pub dict: Vec<(u8, u64)>,
    pub steps_of: HashMap<String, u64>,
    pub later_of: HashMap<String, u64>,
    /// stores to and loads from memory that outlives the call, by operation (measured at start)
    pub touch: std::collections::BTreeMap<String, (u64, u64)>,
    /// operations that write such memory
    pub hot: Vec<String>,
    pub th: u64,
    pub log: Option<Vec<String>>,
    /// decisions recorded by the last threaded request
    pub decs: Vec<Dec>,
    pub judged: u64,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            m: Model::new(),
            fresh: HashMap::new(),
            dict: vec![],
            steps_of: HashMap::new(),
            later_of: HashMap::new(),
            touch: Default::default(),
            hot: vec![],
            th: 0,
            log: None,
            decs: vec![],
            judged: 0,
            nontrivial: false,
        }
    }
    pub fn reset(&mut self) {
        self.th = 0;
        self.decs.clear();
        self.judged = 0;
        self.nontrivial = false;
        if let Some(l) = &mut self.log {
            l.clear()
        }
    }
    pub fn ev<F: FnOnce() -> String>(&mut self, f: F) {
        let s = f();
        self.th = mix(self.th ^ hash(s.as_bytes()));
        if let Some(l) = &mut self.log {
            l.push(s)
        }
    }
    /// One judgement of the oracle.
    pub fn judge(&mut self) {
        self.judged += 1;
    }

    pub fn call(&mut self, w: &mut World, n: usize, op: &Op, env: &Env) -> Reply {
        let r = w.call(n, op, env);
        let st = w.nodes[n].last.steps;
        let al = w.nodes[n].alive;
        self.ev(|| format!("node {} {} {} -> {} [{}]", n, op.name, show(&op.args), r.show().replace('\n', " ; "), if al { st } else { 0 }));
        r
    }
    pub fn ask(&mut self, w: &mut World, n: usize, name: &str, args: Vec<Vec<u8>>) -> Reply {
        self.call(w, n, &Op::new(name, args), &Env::default())
    }

    /// The result of the same call alone in a fresh process (without faults), and the steps it takes.
    pub fn fresh(&mut self, op: &Op) -> (Reply, u64) {
        if op.name == "nest" {
            // a call made from within another returns what it returns otherwise, and so does the other
            if let Some((a, b)) = crate::gen::unnest(op) {
                if let ((Reply::Out(x), m), (Reply::Out(y), n)) = (self.fresh(&a), self.fresh(&b)) {
                    let t = match (&x, &y) {
                        (Out::Bad(t), _) | (_, Out::Bad(t)) => Out::Bad(t.clone()),
                        _ => Out::Ok(sut::nested(&x, &y)),
                    };
                    return (Reply::Out(t), m + n);
                }
            }
        }
        // ... and one made by a destructor
        let k = match &op.name[..] {
            "unwind" | "thread" => 0,
            "exit.call" => 1,
            _ => return self.fresh_after(&[], op),
        };
        if op.args.len() <= k {
            return (Reply::Out(Out::Bad("short".into())), 1);
        }
        let (x, m) = self.fresh(&inner(op, k));
        let t = match x {
            _ if k == 1 && op.args[0].first() == Some(&0) => Out::Ok(String::new()),
            Reply::Out(Out::Bad(t)) => Out::Bad(t),
            Reply::Out(x) => Out::Ok(sut::outcome(&x)),
            x => return (x, m),
        };
        (Reply::Out(t), m * if k == 0 { 1 } else { 2 })
    }
    /// what the calls of these left to the end of their threads return
    pub fn at_exit(&mut self, sc: &[Vec<Op>]) -> String {
        let mut v = vec![];
        for op in sc.iter().flatten().filter(|o| o.name == "exit.call" && o.args.len() > 1 && o.args[0].len() > 1) {
            if let Reply::Out(x) = self.fresh(&inner(op, 1)).0 {
                v.push((op.args[0][1], sut::outcome(&x)));
            }
        }
        v.sort_by_key(|x| x.0);
        v.iter().map(|x| format!("{}: {}\n", x.0, x.1)).collect()
    }
    /// ... after some preparing calls in that process
    pub fn fresh_after(&mut self, pre: &[Op], op: &Op) -> (Reply, u64) {
        let mut k = (op.name.clone(), op.args.clone());
        for p in pre {
            k.0.push(' ');
            k.0.push_str(&p.name);
            k.1.extend(p.args.iter().cloned());
        }
        if let Some(r) = self.fresh.get(&k) {
            return r.clone();
        }
        let o = rt::os();
        let keep = (o.salt.load(Relaxed), o.pos.load(Relaxed), o.now_ns.load(Relaxed), o.next_pid.load(Relaxed));
        let r = {
            let mut w = World::new(0x1111);
            let n = w.start(0);
            for p in pre {
                w.call(n, p, &Env::default());
            }
            let r = w.call(n, op, &Env::default());
            (r, w.nodes[n].last.steps)
        };
        o.salt.store(keep.0, Relaxed);
        o.pos.store(keep.1, Relaxed);
        o.now_ns.store(keep.2, Relaxed);
        o.next_pid.store(keep.3, Relaxed);
        if self.fresh.len() > 50_000 {
            self.fresh.clear();
        }
        self.fresh.insert(k, r.clone());
        r
    }
    /// ... and when the process has made that call before
    pub fn later(&self, name: &str) -> u64 {
        self.later_of.get(name).copied().unwrap_or(3000).max(20)
    }
    /// typical number of steps of an operation (measured at start; used to place faults inside it)
    pub fn typical(&self, name: &str) -> u64 {
        self.steps_of.get(name).copied().unwrap_or(3000).max(20)
    }
}

pub fn show(a: &[Vec<u8>]) -> String {
    a.iter()
        .map(|x| if x.len() > 1 && x.iter().all(|c| c.is_ascii_graphic() || *c == b' ') { format!("{:?}", String::from_utf8_lossy(x)) } else { crate::model::hex(x) })
        .collect::<Vec<_>>()
        .join(" ")
}

impl Step {
    pub fn u(&self, i: usize) -> u64 {
        let mut v = 0u64;
        if let Some(a) = self.args.get(i) {
            for b in a.iter().take(8) {
                v = v << 8 | *b as u64;
            }
        }
        v
    }
    pub fn b(&self, i: usize) -> &[u8] {
        self.args.get(i).map(|a| &a[..]).unwrap_or(&[])
    }
    pub fn t(&self, i: usize) -> String {
        String::from_utf8_lossy(self.b(i)).into_owned()
    }
}
pub fn num(v: u64) -> Vec<u8> {
    let b = v.to_be_bytes();
    let z = (v.leading_zeros() / 8).min(7) as usize;
    b[z..].to_vec()
}
pub fn be(v: u32) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}
pub fn path_bytes(p: &[u32]) -> Vec<u8> {
    p.iter().flat_map(|c| c.to_be_bytes()).collect()
}
pub fn bytes_path(b: &[u8]) -> Vec<u32> {
    b.chunks_exact(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect()
}

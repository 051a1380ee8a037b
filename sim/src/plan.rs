//! A run is a plan: every step, argument, fault and (for threads) every scheduling decision written out.
//! The text form of a plan is the replay file.
use crate::rt::Dec;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Step {
    pub op: String,
    pub args: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub prop: String,
    pub run: u64,
    pub salt: u64,
    pub cfg: Vec<(String, u64)>,
    pub steps: Vec<Step>,
    /// scheduling decisions; used when cfg mode = 2
    pub decs: Vec<Dec>,
}

impl Plan {
    pub fn get(&self, k: &str) -> u64 {
        self.cfg.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        match self.cfg.iter_mut().find(|c| c.0 == k) {
            Some(c) => c.1 = v,
            None => self.cfg.push((k.to_string(), v)),
        }
    }
    pub fn add(&mut self, op: &str, args: Vec<Vec<u8>>) {
        self.steps.push(Step { op: op.to_string(), args });
    }
    pub fn text(&self) -> String {
        let mut s = format!("ksim-plan 1\nproperty {}\nrun {}\nsalt {}\n", self.prop, self.run, self.salt);
        for (k, v) in &self.cfg {
            s.push_str(&format!("cfg {} {}\n", k, v));
        }
        for st in &self.steps {
            s.push_str("step ");
            s.push_str(&st.op);
            for a in &st.args {
                s.push(' ');
                s.push_str(&enc(a));
            }
            s.push('\n');
        }
        for d in &self.decs {
            s.push_str(&format!("dec {} {} {}\n", d.step, d.kind as char, d.val));
        }
        s
    }
    pub fn parse(t: &str) -> Option<Plan> {
        let mut p = Plan::default();
        let mut l = t.lines();
        if l.next()? != "ksim-plan 1" {
            return None;
        }
        for x in l {
            if x.starts_with('#') || x.is_empty() {
                continue;
            }
            let mut f = x.split(' ');
            match f.next()? {
                "property" => p.prop = f.next()?.to_string(),
                "run" => p.run = f.next()?.parse().ok()?,
                "salt" => p.salt = f.next()?.parse().ok()?,
                "cfg" => p.cfg.push((f.next()?.to_string(), f.next()?.parse().ok()?)),
                "step" => {
                    let op = f.next()?.to_string();
                    let mut args = vec![];
                    for a in f {
                        args.push(dec(a)?);
                    }
                    p.steps.push(Step { op, args });
                }
                "dec" => p.decs.push(Dec { step: f.next()?.parse().ok()?, kind: f.next()?.as_bytes()[0], val: f.next()?.parse().ok()? }),
                _ => return None,
            }
        }
        Some(p)
    }
    pub fn size(&self) -> usize {
        self.steps.iter().map(|s| 8 + s.args.iter().map(|a| a.len() + 1).sum::<usize>()).sum::<usize>() + self.decs.len() * 4
    }
}

/// printable text as t:..., anything else as x:hex
fn enc(b: &[u8]) -> String {
    let plain = !b.is_empty() && b.iter().all(|c| c.is_ascii_graphic() && *c != b'%' || *c == b' ');
    if plain && b.len() > 1 {
        format!("t:{}", String::from_utf8_lossy(b).replace(' ', "%20"))
    } else {
        format!("x:{}", crate::model::hex(b))
    }
}
fn dec(a: &str) -> Option<Vec<u8>> {
    if let Some(t) = a.strip_prefix("t:") {
        Some(t.replace("%20", " ").into_bytes())
    } else {
        let h = a.strip_prefix("x:")?;
        if h.len() % 2 != 0 || !h.is_ascii() {
            return None;
        }
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
    }
}

// ------------------------------------------------------------------------------------------ minimisation
/// Delta debugging. `fails` says whether a plan still shows the same violation; `left` bounds the attempts.
pub fn shrink(start: &Plan, left: &mut u32, free: fn(&str) -> &'static [usize], fails: &mut dyn FnMut(&Plan) -> bool) -> Plan {
    let mut best = start.clone();
    let mut go = true;
    while go && *left > 0 {
        go = false;
        // steps
        let mut n = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() && *left > 0 && best.steps.len() > 1 {
                let mut c = best.clone();
                let e = (i + n).min(c.steps.len());
                c.steps.drain(i..e);
                *left -= 1;
                if !c.steps.is_empty() && fails(&c) {
                    best = c;
                    go = true;
                } else {
                    i += n;
                }
            }
            if n == 1 || *left == 0 {
                break;
            }
            n /= 2;
        }
        // scheduling decisions
        if !best.decs.is_empty() {
            let mut n = best.decs.len();
            loop {
                let mut i = 0;
                while i < best.decs.len() && *left > 0 {
                    let mut c = best.clone();
                    let e = (i + n).min(c.decs.len());
                    c.decs.drain(i..e);
                    *left -= 1;
                    if fails(&c) {
                        best = c;
                        go = true;
                    } else {
                        i += n;
                    }
                }
                if n == 1 || *left == 0 {
                    break;
                }
                n /= 2;
            }
        }
        // configuration values towards 0
        for k in 0..best.cfg.len() {
            if best.cfg[k].1 == 0 || best.cfg[k].0 == "mode" || *left == 0 {
                continue;
            }
            let mut c = best.clone();
            c.cfg[k].1 = 0;
            *left -= 1;
            if fails(&c) {
                best = c;
                go = true;
            }
        }
        // arguments: shorter, then simpler
        for s in 0..best.steps.len() {
            for a in 0..best.steps[s].args.len() {
                if !free(&best.steps[s].op).contains(&a) {
                    continue;
                }
                let mut n = best.steps[s].args[a].len();
                let mut tries = 0;
                while n >= 1 && *left > 0 && tries < 40 {
                    let len = best.steps[s].args[a].len();
                    let mut hit = false;
                    let mut i = 0;
                    while i < len && *left > 0 && tries < 40 {
                        let mut c = best.clone();
                        let v = &mut c.steps[s].args[a];
                        if i >= v.len() {
                            break;
                        }
                        let e = (i + n).min(v.len());
                        v.drain(i..e);
                        if std::str::from_utf8(&best.steps[s].args[a]).is_ok() && std::str::from_utf8(&c.steps[s].args[a]).is_err() {
                            i += n;
                            continue;
                        }
                        *left -= 1;
                        tries += 1;
                        if fails(&c) {
                            best = c;
                            hit = true;
                            go = true;
                        } else {
                            i += n;
                        }
                    }
                    if !hit {
                        n /= 2;
                    }
                    n = n.min(best.steps[s].args[a].len());
                }
                if *left > 0 && best.steps[s].args[a].iter().any(|b| *b != 0) && !best.steps[s].args[a].is_ascii() {
                    let mut c = best.clone();
                    c.steps[s].args[a].iter_mut().for_each(|b| *b = 0);
                    *left -= 1;
                    if fails(&c) {
                        best = c;
                        go = true;
                    }
                }
            }
        }
    }
    best
}

use super::common::*;
use crate::model::{key_text, read_record, DErr, Rec};

pub const P: Prop = Prop {
    id: "C09",
    gen,
    exec,
    free: no_free,
    quick: 60_000,
    thorough: 1_080_000,
    rule: "one run = derivations, imports and parses over a key backend of which a chosen operation (or several in a row) fails or panics, followed by a retry, or the built-in backend given zero, too large, cancelling and ordinary tweaks; non-trivial = at least one backend fault fired or an invalid tweak was used, and the run's event trace was not seen before",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    for _ in 0..r.range(1, 4) {
        if r.pct(25) {
            let k = gen::scalar(r, cx);
            let neg = model::sub256(&model::N, &k).0;
            let mut n1 = model::N;
            n1[31] += 1;
            let mut nm = model::N;
            nm[31] -= 1;
            let t: [u8; 32] = match r.below(12) {
                0 => [0; 32],
                1 => model::N,
                2 => n1,
                3 => [0xff; 32],
                4 | 5 => neg,
                6 => k,
                7 => nm,
                8 => {
                    let mut t = neg;
                    t[31] ^= 1;
                    t
                }
                9 => {
                    // somewhere above the order
                    let mut t = [0xff; 32];
                    t[16..].copy_from_slice(&r.bytes(16));
                    t
                }
                _ => gen::b32(r, cx),
            };
            p.add("tweak", vec![k.to_vec(), t.to_vec(), vec![r.below(2) as u8]]);
            continue;
        }
        let n = *r.pick(&["b.master", "b.path", "b.path", "b.xchild", "b.xderive", "b.xderive", "b.xneuter", "b.pchild", "b.pderive", "b.pderive", "b.ximport", "b.pimport", "b.xparse", "b.pparse", "b.xtext", "b.ptext"]);
        let Some(op) = gen::example(n, r, cx) else { continue };
        let mut args = op.args.clone();
        if n == "b.xderive" || n == "b.pderive" || n == "b.xchild" || n == "b.pchild" {
            // somewhat longer paths, depths near the limit
            let mut e = Ext::from_rec(&args[0]);
            if r.pct(15) {
                e.depth = *r.pick(&[252, 253, 254, 255]);
            }
            args[0] = e.rec();
            if n.ends_with("derive") {
                let h = n == "b.xderive" || r.pct(10);
                args[1] = path_bytes(&gen::path(r, cx, 5, h));
            } else if n == "b.pchild" && r.pct(8) {
                args[1] = be(1 << 31 | gen::cn(r, cx));
            }
        }
        let last = args.len() - 1;
        let tries = r.range(1, 3);
        for _ in 0..tries {
            args[last] = gen::bfault(r, 16);
            let mut a = vec![n.as_bytes().to_vec()];
            a.extend(args.iter().cloned());
            p.add("op", a);
        }
    }
    p
}

fn d(x: &Ext, private: bool) -> String {
    format!("{}|{}|{}|{}|{}", x.depth, hex(&x.fp), x.cn, hex(&x.cc), if private { hex(&x.key[1..]) } else { hex(&x.key) })
}

/// What the operation yields on a working backend; Err = it is refused.
pub fn expected(cx: &mut Ctx, op: &str, a: &[Vec<u8>]) -> Option<Result<String, ()>> {
    let q = |e: Result<Ext, DErr>, pr: bool| Some(e.map(|x| d(&x, pr)).map_err(|_| ()));
    match op {
        "b.master" => Some(cx.m.master(&a[0]).map(|x| d(&x, true)).ok_or(())),
        "b.path" => match cx.m.master(&a[0]) {
            None => Some(Err(())),
            Some(m) => {
                let e = cx.m.derive(&m, &bytes_path(&a[1]), true);
                q(e, true)
            }
        },
        "b.xchild" | "b.pchild" => {
            let x = Ext::from_rec(&a[0]);
            let c = u32::from_be_bytes(a[1][..4].try_into().ok()?);
            let pr = op == "b.xchild";
            let e = cx.m.derive(&x, &[c], pr);
            q(e, pr)
        }
        "b.xderive" | "b.pderive" => {
            let x = Ext::from_rec(&a[0]);
            let pr = op == "b.xderive";
            let e = cx.m.derive(&x, &bytes_path(&a[1]), pr);
            q(e, pr)
        }
        "b.xneuter" => {
            let x = Ext::from_rec(&a[0]);
            let e = cx.m.neuter(&x);
            Some(Ok(d(&e, false)))
        }
        "b.ximport" => Some(Ok(d(&Ext::from_rec(&a[0]), true))),
        "b.pimport" => Some(Ok(d(&Ext::from_rec(&a[0]), false))),
        "b.xparse" | "b.pparse" => match read_record(std::str::from_utf8(&a[0]).ok()?) {
            Rec::Good(l, e) if (l % 2 == 0) == (op == "b.xparse") => Some(Ok(d(&e, op == "b.xparse"))),
            _ => Some(Err(())),
        },
        "b.xtext" => Some(Ok(key_text(0, &Ext::from_rec(&a[0])))),
        "b.ptext" => Some(Ok(key_text(1, &Ext::from_rec(&a[0])))),
        _ => None,
    }
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut cur: Option<usize> = None;
    for s in &p.steps {
        let n = proc(&mut w, &mut cur);
        match s.op.as_str() {
            "tweak" => {
                let (Ok(k), Ok(t)) = (<[u8; 32]>::try_from(s.b(0)), <[u8; 32]>::try_from(s.b(1))) else { continue };
                if !model::scalar_ok(&k) {
                    continue;
                }
                let private = s.b(2).first() != Some(&1);
                let r = cx.ask(&mut w, n, if private { "b.tweakprv" } else { "b.tweakpub" }, vec![k.to_vec(), t.to_vec()]);
                let sum = if model::scalar_ok(&t) { model::add_mod_n(&k, &t) } else { [0; 32] };
                let what = format!("{} key {} with tweak {}", if private { "private" } else { "public" }, hex(&k), hex(&t));
                if sum == [0; 32] {
                    rt::fault(rt::F_REFUSED);
                    cx.nontrivial = true;
                    want_err(cx, "tweak-accepted", &what, &r)?;
                } else {
                    let e = if private { hex(&sum) } else { hex(&cx.m.pubkey(&sum)) };
                    want(cx, "tweak", &what, &r, &e)?;
                }
            }
            "op" if s.args.len() >= 3 => {
                let op = s.t(0);
                let a = s.args[1..].to_vec();
                let Some(exp) = expected(cx, &op, &a) else { continue };
                let f = a.last().unwrap().clone();
                let what = format!("{} with backend operation {} failing ({} in a row{})", op, u32::from_be_bytes(f[..4].try_into().unwrap()), u32::from_be_bytes(f[4..8].try_into().unwrap()), if f[8] & 1 != 0 { ", by panic".to_string() } else { format!(", error {}", f[8] >> 1) });
                let r = cx.ask(&mut w, n, &op, a);
                cx.judge();
                let Reply::Out(Out::Ok(t)) = &r else {
                    return fail("died", format!("{}: {}", what, clip(&r.show())));
                };
                let l: Vec<&str> = t.split('\n').collect();
                if l.len() != 6 {
                    return fail("died", format!("{}: unreadable {:?}", what, clip(t)));
                }
                let fired: u64 = l[1].parse().unwrap_or(0);
                if l[3] != l[4] {
                    return fail("parent", format!("{}: the parent key changed from {} to {}", what, l[3], l[4]));
                }
                cx.judge();
                if fired > 0 {
                    rt::fault(if f[8] & 1 != 0 { rt::F_BACKPANIC } else { rt::F_BACKEND });
                    cx.nontrivial = true;
                    if l[0].starts_with("ok ") {
                        return fail("swallowed", format!("{}: returned {}", what, l[0]));
                    }
                    if f[8] & 1 == 0 && !l[0].starts_with("err ") {
                        return fail("swallowed", format!("{}: ended with {} instead of an error", what, l[0]));
                    }
                } else {
                    let ok = match &exp {
                        Ok(e) => l[0] == format!("ok {}", e),
                        Err(()) => l[0].starts_with("err "),
                    };
                    if !ok {
                        return fail("wrong", format!("{}: no fault was reached, returned {} instead of {:?}", what, clip(l[0]), exp));
                    }
                }
                cx.judge();
                let ok = match &exp {
                    Ok(e) => l[5] == format!("ok {}", e),
                    Err(()) => l[5].starts_with("err "),
                };
                if !ok {
                    return fail("retry", format!("{}: repeated without fault it returned {} instead of {:?}", what, clip(l[5]), exp));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

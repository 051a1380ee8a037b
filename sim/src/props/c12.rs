use super::common::*;
use crate::model::{key_text, path_text};

pub const P: Prop = Prop {
    id: "C12",
    gen,
    exec,
    free: no_free,
    quick: 100_000,
    thorough: 1_800_000,
    rule: "one run = values written as text into sinks that run full at a chosen byte, fail, write short, are interrupted or panic, and records encoded into reused buffers; non-trivial = at least one sink misbehaved or a buffer was reused, and the run's event trace was not seen before",
};

/// The text an out.* operation must produce.
pub fn full_text(cx: &mut Ctx, op: &str, a: &[Vec<u8>]) -> Option<String> {
    let f = a.first()?.first().copied().unwrap_or(b'd');
    let num = |b: &[u8]| match f {
        b'X' => hex(b).to_uppercase(),
        b'y' => format!("0x{}", hex(b)),
        b'Y' => format!("0x{}", hex(b).to_uppercase()),
        _ => hex(b),
    };
    let mn = |p: String, e: Vec<u8>| if f == b'd' { p } else { num(&e) };
    let label = |b: &[u8]| (b.first().copied().unwrap_or(b'0').wrapping_sub(b'0') as usize).min(7);
    Some(match op {
        "out.mn" => {
            let l = a.get(2)?.first().copied().unwrap_or(b'e');
            mn(model::phrase_of(&a[1], l)?, a[1].clone())
        }
        "out.mnp" => {
            let (p, e) = read_phrase(std::str::from_utf8(&a[1]).ok()?, a.get(2)?.first().copied().unwrap_or(b'e')).ok()?;
            mn(p, e)
        }
        "out.seed" => {
            let l = a.get(2)?.first().copied().unwrap_or(b'e');
            let p = model::phrase_of(&a[1], l)?;
            let pw = String::from_utf8_lossy(a.get(3)?).into_owned();
            num(&cx.m.seed(&p, l, &pw))
        }
        "out.ek" | "out.xprv" => {
            let e = Ext::from_rec(a.get(2)?);
            key_text(label(&a[1]), &e)
        }
        "out.prefix" => LABELS[label(&a[1])].0.to_string(),
        "out.path" => path_text(&bytes_path(&a[1])),
        "out.cn" => model::cn_text(u32::from_be_bytes(a[1][..4].try_into().ok()?)),
        _ => return None,
    })
}

const OUTS: [&str; 12] = ["out.mn", "out.mn", "out.mnp", "out.seed", "out.ek", "out.ek", "out.xprv", "out.prefix", "out.path", "out.path", "out.cn", "out.cn"];

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    for _ in 0..r.range(1, 4) {
        if r.pct(15) {
            let private = r.pct(70);
            let e = if private { gen::ext(r, cx) } else { gen::extp(r, cx) };
            let n = r.range(1, 112);
            let fill = match r.below(3) {
                0 => vec![*r.pick(&[0u8, 0xff, b'1', b'x', 0x80])],
                1 => key_text(r.below(8), &e).into_bytes(),
                _ => r.bytes(n),
            };
            p.add("buf", vec![vec![b'0' + 2 * r.below(4) as u8 + !private as u8], e.rec(), fill]);
            continue;
        }
        let n = *r.pick(&OUTS);
        if n == "out.seed" && r.pct(70) {
            continue;
        }
        let Some(op) = gen::example(n, r, cx) else { continue };
        let mut a = op.args;
        if n == "out.path" {
            let m = match r.below(60) {
                0 => *r.pick(&[300usize, 3000]),
                1 | 2 => 60,
                _ => r.range(0, 12),
            };
            a[1] = path_bytes(&gen::path(r, cx, m, true));
        }
        if n == "out.xprv" || n == "out.ek" {
            let priv_label = a[1][0];
            if n == "out.ek" && r.pct(40) {
                let e = gen::extp(r, cx);
                a[1] = vec![priv_label + 1];
                a[2] = e.rec();
            }
        }
        let text = full_text(cx, n, &a);
        let last = a.len() - 1;
        for _ in 0..r.range(1, 4) {
            let mut s = gen::sink(r);
            if let Some(t) = &text {
                if r.pct(60) {
                    // run full near an edge of the text
                    let cap = match r.below(5) {
                        0 => t.len() as u32,
                        1 => t.len().saturating_sub(1) as u32,
                        2 => (t.len() + 1) as u32,
                        3 => t.len().saturating_sub(r.below(40)) as u32,
                        _ => r.below(t.len() + 2) as u32,
                    };
                    s[1..5].copy_from_slice(&cap.to_be_bytes());
                }
            }
            a[last] = s;
            let mut b = vec![n.as_bytes().to_vec()];
            b.extend(a.iter().cloned());
            p.add("out", b);
        }
    }
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut cur: Option<usize> = None;
    for s in &p.steps {
        let n = proc(&mut w, &mut cur);
        match s.op.as_str() {
            "buf" if s.b(1).len() == 74 && !s.b(2).is_empty() => {
                let e = Ext::from_rec(s.b(1));
                let l = (s.b(0).first().copied().unwrap_or(b'0').wrapping_sub(b'0') as usize).min(7);
                cx.nontrivial = true;
                let r = cx.ask(&mut w, n, "ekbuf", s.args.clone());
                want(cx, "buffer", "record encoded into a reused buffer", &r, &key_text(l, &e))?;
            }
            "out" if s.args.len() >= 3 => {
                let op = s.t(0);
                let a = s.args[1..].to_vec();
                let Some(t) = full_text(cx, &op, &a) else { continue };
                let k = a.last().unwrap().clone();
                if k.len() < 7 {
                    continue;
                }
                let cap = u32::from_be_bytes(k[1..5].try_into().unwrap()) as usize;
                let what = format!("{} ({}) into a {} sink with room for {} of {} bytes", op, a[0].first().copied().unwrap_or(b'd') as char, if k[0] == b'f' { "fmt" } else { "io" }, cap, t.len());
                let r = cx.ask(&mut w, n, &op, a);
                cx.judge();
                let Reply::Out(Out::Ok(d)) = &r else { return fail("died", format!("{}: {}", what, clip(&r.show()))) };
                let l: Vec<&str> = d.split('\n').collect();
                if l.len() < 3 {
                    return fail("died", clip(d));
                }
                let got = model::unhex(l[1]);
                let sink_failed = l[2] == "true";
                if k[7..].iter().any(|b| *b == 0) && k[0] != b'f' {
                    rt::fault(rt::F_SINKINT);
                    cx.nontrivial = true;
                }
                if k[7..].iter().any(|b| *b != 0 && *b != 255) && k[0] != b'f' {
                    rt::fault(rt::F_SINKSHORT);
                    cx.nontrivial = true;
                }
                if sink_failed {
                    rt::fault(if k[6] & 1 != 0 { rt::F_SINKPANIC } else { rt::F_SINKFULL });
                    cx.nontrivial = true;
                }
                if !t.as_bytes().starts_with(&got) {
                    return fail("wrong", format!("{}: the sink received {:?}, not a prefix of {:?}", what, String::from_utf8_lossy(&got), t));
                }
                cx.judge();
                if l[0] == "ok" && (sink_failed || got.len() != t.len()) {
                    return fail("unreported", format!("{}: reported success, but the sink received only {} bytes", what, got.len()));
                }
                if l[0] == "err" && !sink_failed {
                    return fail("refused", format!("{}: reported failure although the sink took everything it was given ({} bytes)", what, got.len()));
                }
                if l[0] == "panic" && !(sink_failed && k[6] & 1 != 0) {
                    return fail("panic", format!("{}: panicked", what));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

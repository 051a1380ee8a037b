use super::common::*;
use crate::model::{cn_text, path_text, read_cn, read_path, PathRead};

pub const P: Prop = Prop {
    id: "C13",
    gen,
    exec,
    free: no_free,
    quick: 120_000,
    thorough: 2_160_000,
    rule: "one run = derivation paths and child numbers printed by one party, carried by a network that drops, repeats, delays, reorders and damages, and read by another that restarts, plus paths built by edits; non-trivial = at least one received or edited path was judged and the run's event trace was not seen before",
};

/// A path as other programs and people write it.
fn written(r: &mut Rng, t: &str) -> String {
    let one = |r: &mut Rng, f: &dyn Fn(&str) -> String| {
        let w: Vec<&str> = t.split('/').collect();
        let i = r.below(w.len());
        w.iter().enumerate().map(|(k, x)| if k == i && k > 0 { f(x) } else { x.to_string() }).collect::<Vec<_>>().join("/")
    };
    match r.below(22) {
        0 => t.replace('/', " / "),
        1 => t.replace('/', *r.pick(&["\\", ".", "|", "->", ":", "-", "_", ",", "//", "/./", "∕", "⁄"])),
        2 => t.replace('\'', *r.pick(&["h", "H", "p", "P", "’", "`", "\"", "''", "^", "!", "′", "ʹ", "hardened", "%27", "&apos;", "*"])),
        3 => t.replacen('m', *r.pick(&["M", "n", "N", "", "root", "xprv", "~", ".", "0", "ｍ", "mm", "m'", "m ", " m", "/m", "h"]), 1),
        4 => format!("{}/{}", t, *r.pick(&["*", "*'", "**", "..", ".", "<0;1>", "0-5", "[0]", "{0}", "-1", "-0", "1.0", "1e3", "1_000", "0x10", "0b1", "0o7", "1u32", "+1", "٣", "１", "a", "account", "²", "½", "x'"])),
        5 => format!("{}{}", t, *r.pick(&["/", "//", "#", "?", "/*", ")", "\\", "/'", "/m", "/M", "/\u{0}", "\t", " ", "\r\n"])),
        6 => format!("\"{}\"", t),
        7 => one(r, &|x| format!("{}'", x)),
        8 => one(r, &|x| format!("0{}", x)),
        9 => one(r, &|x| format!("00000000000{}", x)),
        10 => one(r, &|x| format!(" {}", x)),
        11 => one(r, &|x| format!("{} ", x)),
        12 => one(r, &|x| format!("'{}", x.trim_end_matches('\''))),
        13 => one(r, &|x| x.trim_end_matches('\'').to_string()),
        14 => one(r, &|x| {
            let h = x.ends_with('\'');
            let v: u64 = x.trim_end_matches('\'').parse().unwrap_or(0);
            // the hardened bit written out
            format!("{}{}", v + (1 << 31), if h { "" } else { "'" })
        }),
        15 => one(r, &|x| {
            let v: u64 = x.trim_end_matches('\'').parse().unwrap_or(0);
            format!("{}{}", v + (1 << 32), if x.ends_with('\'') { "'" } else { "" })
        }),
        16 => one(r, &|x| {
            let v: u64 = x.trim_end_matches('\'').parse().unwrap_or(0);
            format!("0x{:x}", v)
        }),
        17 => one(r, &|x| format!("-{}", x)),
        18 => one(r, &|x| format!("{}.0", x)),
        19 => one(r, &|x| x.replace('\'', " '")),
        20 => one(r, &|_| String::new()),
        _ => one(r, &|x| x.chars().map(|c| c.to_digit(10).and_then(|d| char::from_u32(0xff10 + d)).unwrap_or(c)).collect()),
    }
}
/// A damaged or unusual spelling of a path text.
pub(super) fn spoil(r: &mut Rng, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    const ALPH: &[u8] = b"0123456789/'mhHM +-.xe\"_";
    match r.below(14) {
        12 | 13 => return written(r, t),
        0 => {
            let n = r.below(b.len() + 1);
            b.truncate(n)
        }
        1 if !b.is_empty() => {
            let i = r.below(b.len());
            b.remove(i);
        }
        2 => b.insert(r.below(b.len() + 1), *r.clone().pick(ALPH)),
        3 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] = *r.pick(ALPH);
        }
        4 => {
            let i = r.below(b.len() + 1);
            let ins = *r.pick(&["//", "''", "/m", "'/", "/'", "00", "4294967296", "2147483648", "18446744073709551616", "2147483647", "\u{2019}", "\u{661}", " ", "\n", "\0"]);
            for (k, c) in ins.bytes().enumerate() {
                b.insert(i + k, c)
            }
        }
        5 => {
            let mut v = b"m/".to_vec();
            v.extend(&b);
            b = v
        }
        6 => b.extend(*r.pick(&[&b"/"[..], b"'", b"/m", b"h", b" ", b"/0x1", b"\n"])),
        7 => b = b.iter().filter(|c| **c != b'm').copied().collect(),
        8 => {
            // a component beyond the limit
            let v = 2147483648u64 + (r.u64() >> r.below(40)).min(1 << 40);
            b.extend(format!("/{}{}", v, if r.pct(50) { "'" } else { "" }).bytes())
        }
        9 if b.len() > 1 => {
            let i = r.below(b.len() - 1);
            b.swap(i, i + 1)
        }
        10 => {
            if let Some(i) = b.iter().position(|c| *c == b'/') {
                b = b[i + r.below(2)..].to_vec()
            }
        }
        _ => {
            let i = r.below(b.len().max(1));
            if i < b.len() {
                b[i] ^= 1 << r.below(8)
            }
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let k = r.range(1, 4);
    for _ in 0..k {
        let max = match r.below(10) {
            0 => 60,
            1 if r.pct(20) => 300,
            1 if r.pct(8) => *r.pick(&[1000usize, 5000, 70_000]),
            _ => 7,
        };
        let path = gen::path(r, cx, max, true);
        match r.below(12) {
            0 | 1 => p.add("ops", vec![path_bytes(&path), gen::path_script(r, cx)]),
            2 => {
                let t = path_text(&path);
                let t = spoil(r, &t);
                let t = if r.pct(20) { spoil(r, &t) } else { t };
                p.add("read", vec![t.into_bytes()])
            }
            3 => {
                let t = cn_text(gen::cnh(r, cx));
                let t = if r.pct(70) { spoil(r, &t) } else { t };
                p.add("readcn", vec![t.into_bytes()])
            }
            4 => {
                let v = match r.below(4) {
                    0 => 1 << 31 | gen::cn(r, cx),
                    1 => *r.pick(&[0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff]),
                    _ => gen::cn(r, cx),
                };
                p.add("new", vec![be(v), vec![r.below(2) as u8]])
            }
            5 | 6 => p.add("cn", vec![be(gen::cnh(r, cx))]),
            _ => p.add("send", vec![num(r.u64() % 20_000), path_bytes(&path)]),
        }
    }
    for _ in 0..r.below(3) {
        p.add("reboot", vec![num(r.u64() % 30_000)]);
    }
    // spelling damage in transit
    if r.pct(40) {
        p.add("spoil", vec![num(r.u64() >> 8), vec![r.range(20, 100) as u8]]);
    }
    fates(r, &mut p, k as u64 + 1);
    p
}

fn desc(v: &[u32]) -> String {
    format!("{}|{}|{}", v.len(), v.is_empty(), v.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))
}
fn desc_cn(c: u32) -> String {
    format!("{}|{}|{}|{}|{}", c, c & 0x7fff_ffff, c >> 31 == 1, hex(&c.to_be_bytes()), c)
}

fn read(cx: &mut Ctx, w: &mut World, n: usize, t: &str) -> Res {
    let r = cx.ask(w, n, "pathparse", vec![t.as_bytes().to_vec()]);
    let what = format!("path text {:?}", clip(t));
    cx.nontrivial = true;
    match read_path(t) {
        PathRead::Good(v) => want(cx, "read", &what, &r, &desc(&v)),
        PathRead::Bad => want_err(cx, "read-accepts", &what, &r),
        PathRead::Either(v) => want_either(cx, "read", &what, &r, &desc(&v)),
    }
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut cur: [Option<usize>; 2] = [None, None];
    let mut net = net_of(p);
    let mut agenda: Vec<(u64, Option<Vec<u32>>)> = vec![];
    let mut spoiler: Option<(Rng, usize)> = None;
    for s in &p.steps {
        match s.op.as_str() {
            "send" => agenda.push((s.u(0), Some(bytes_path(s.b(1))))),
            "reboot" => agenda.push((s.u(0), None)),
            "spoil" => spoiler = Some((Rng::new(s.u(0)), s.b(1).first().copied().unwrap_or(0) as usize)),
            "read" => {
                let n = proc(&mut w, &mut cur[1]);
                read(cx, &mut w, n, &s.t(0))?;
            }
            "readcn" => {
                let n = proc(&mut w, &mut cur[1]);
                let t = s.t(0);
                let r = cx.ask(&mut w, n, "cnparse", vec![t.clone().into_bytes()]);
                let what = format!("child number text {:?}", t);
                cx.nontrivial = true;
                match read_cn(&t) {
                    PathRead::Good(v) => want(cx, "cn", &what, &r, &desc_cn(v[0]))?,
                    PathRead::Bad => want_err(cx, "cn-accepts", &what, &r)?,
                    PathRead::Either(v) => want_either(cx, "cn", &what, &r, &desc_cn(v[0]))?,
                }
            }
            "new" if s.b(0).len() == 4 => {
                let n = proc(&mut w, &mut cur[1]);
                let v = u32::from_be_bytes(s.b(0).try_into().unwrap());
                let h = s.b(1).first() == Some(&1);
                let r = cx.ask(&mut w, n, "cnnew", vec![be(v), vec![h as u8]]);
                let what = format!("child number from index {} hardened {}", v, h);
                cx.nontrivial = true;
                if v >> 31 == 0 {
                    want(cx, "cn", &what, &r, &desc_cn(v | (h as u32) << 31))?
                } else {
                    want_err(cx, "cn-accepts", &what, &r)?
                }
            }
            "cn" if s.b(0).len() == 4 => {
                let c = u32::from_be_bytes(s.b(0).try_into().unwrap());
                let n = proc(&mut w, &mut cur[0]);
                let r = cx.ask(&mut w, n, "cnfmt", vec![be(c)]);
                want(cx, "cn", &format!("text of child number {}", c), &r, &cn_text(c))?;
                let r = cx.ask(&mut w, n, "cnbytes", vec![be(c)]);
                want(cx, "cn", &format!("bytes of child number {}", c), &r, &desc_cn(c))?;
                let n = proc(&mut w, &mut cur[1]);
                let r = cx.ask(&mut w, n, "cnparse", vec![cn_text(c).into_bytes()]);
                cx.nontrivial = true;
                want(cx, "cn", &format!("child number {} read back", c), &r, &desc_cn(c))?;
            }
            "ops" => {
                let n = proc(&mut w, &mut cur[0]);
                let mut v = bytes_path(s.b(0));
                let sc = s.b(1);
                let mut log = String::new();
                let mut i = 0;
                while i < sc.len() {
                    match sc[i] {
                        b'p' if i + 5 <= sc.len() => {
                            v.extend(bytes_path(&sc[i + 1..i + 5]));
                            i += 5
                        }
                        b'u' => {
                            if v.pop().is_none() {
                                log.push_str("none;")
                            }
                            i += 1
                        }
                        b'E' if i + 5 <= sc.len() => {
                            let (n, x) = (u16::from_be_bytes([sc[i + 1], sc[i + 2]]) as u32, sc[i + 3] as u32);
                            v.extend((0..n).map(|k| sut::many(x, k)));
                            i += 5
                        }
                        b'e' if i + 1 < sc.len() && i + 2 + 4 * (sc[i + 1] & 31) as usize <= sc.len() => {
                            let k = (sc[i + 1] & 31) as usize;
                            v.extend(bytes_path(&sc[i + 2..i + 2 + 4 * k]));
                            i += 2 + 4 * k
                        }
                        _ => i += 1,
                    }
                }
                let r = cx.ask(&mut w, n, "pathops", vec![s.b(0).to_vec(), sc.to_vec()]);
                cx.nontrivial = true;
                want(cx, "ops", "path built by edits", &r, &format!("{}{}", log, desc(&v)))?;
            }
            _ => {}
        }
    }
    agenda.sort();
    let mut steps = 0;
    loop {
        steps += 1;
        let t_net = net.q.iter().map(|m| m.at).min().unwrap_or(u64::MAX);
        let t_ag = agenda.first().map(|a| a.0).unwrap_or(u64::MAX);
        if (t_net == u64::MAX && t_ag == u64::MAX) || steps > 200 {
            break;
        }
        if t_ag <= t_net {
            let (at, what) = agenda.remove(0);
            net.now = net.now.max(at);
            match what {
                None => {
                    stop(&mut w, &mut cur[1]);
                }
                Some(v) => {
                    let n = proc(&mut w, &mut cur[0]);
                    let r = cx.ask(&mut w, n, "pathfmt", vec![path_bytes(&v)]);
                    let t = path_text(&v);
                    want(cx, "print", &format!("text of {}", desc(&v)), &r, &t)?;
                    let mut body = t.into_bytes();
                    if let Some((r, pct)) = &mut spoiler {
                        if r.pct(*pct) {
                            rt::fault(rt::F_CORRUPT);
                            body = spoil(r, &String::from_utf8_lossy(&body)).into_bytes();
                        }
                    }
                    net.send(1, 0, body);
                }
            }
            continue;
        }
        let Some(m) = net.next() else { break };
        let n = proc(&mut w, &mut cur[1]);
        let t = String::from_utf8_lossy(&m.body).into_owned();
        read(cx, &mut w, n, &t)?;
    }
    Ok(())
}

use super::common::*;

pub const P: Prop = Prop {
    id: "C25",
    gen,
    exec,
    free: no_free,
    quick: 24_000,
    thorough: 432_000,
    rule: "one run = a history of calls whose arguments were damaged, cut, joined, exaggerated or mixed up, between calls that are refused entropy, whose callbacks fail or panic, and that run in threads, destructors and forked copies: none may panic, abort or end the process; non-trivial = at least two judged calls and the run's event trace was not seen before",
};

/// What an argument is: t = text, p = phrase, k = key text, d = path, n = child number, b = any bytes, 3 = a number of 32 bits,
/// r = a record, s = components, . = left alone
fn kinds(name: &str) -> &'static str {
    match name {
        "phr" | "val" | "intophrase" => "p.",
        "seed" | "wallet" => "p.t",
        "eseed" | "ewallet" => "b.t",
        "nwallet" => "..t",
        "detect" | "mtphrase" => "p",
        "ekparse" | "xprvparse" | "xpubparse" | "rt" => "k",
        "pathparse" => "d",
        "cnparse" => "n",
        "lang" => "t",
        "words" | "bits" => ".w",
        "ent" => "b.",
        "master" | "ripemd" | "prefix" => "b",
        "sign" => ".b",
        "path" => "bs",
        "xkey" | "pkey" | "xneuter" | "xdebug" => "r",
        "xkeyof" | "pkeyof" | "ekfmt" | "reread" | "xprvfmt" | "xpubfmt" | "xek" | "pek" => ".r",
        "ekbuf" => ".r.",
        "xchild" | "pchild" => "r3",
        "xderive" | "pderive" => "rs",
        "eqprv" | "eqpub" | "order" => "rr",
        "pathfmt" => "s",
        "cnfmt" | "cnbytes" | "mtcount" | "mtkey" => "3",
        "cnnew" => "3.",
        "word" => ".3",
        _ => "",
    }
}

const ODD: [&str; 44] = [
    "", " ", "\0", "\u{feff}", "é", "\u{1d400}", "\u{3000}", "的", "\u{1F600}", "\u{fffd}", "ﬁ", "ß", "İ", "ŉ", "e\u{301}", "\u{301}", "\u{ff41}", "xprv", "m", "m/", "/", "'", "''",
    "m/'", "0'", "4294967296", "18446744073709551616", "-1", "+1", "2147483648'", "2147483647'", "99999999999999999999999999999999999999999999", "zzzz", "z", "zoo", "zoo ", " zoo",
    "\n", "\r\n", "\t", "x\u{301}prv", "é\u{301}é\u{301}", "龟", "一",
];

/// Text that nobody expects.
fn text(r: &mut Rng, old: &str, other: &str) -> Vec<u8> {
    let c: Vec<char> = old.chars().collect();
    let cut = |r: &mut Rng| r.below(c.len() + 1);
    match r.below(16) {
        0 => r.pick(&ODD).as_bytes().to_vec(),
        1 | 2 => {
            // something odd within
            let i = if r.pct(40) { r.below(c.len().min(6) + 1) } else { cut(r) };
            let mut t: String = c[..i].iter().collect();
            let o = *r.pick(&ODD);
            t.push_str(o);
            t.extend(&c[i..]);
            t.into_bytes()
        }
        3 | 4 => {
            // in the place of something
            let i = if r.pct(40) { r.below(c.len().min(6) + 1) } else { cut(r) };
            let mut t: String = c[..i].iter().collect();
            let o = *r.pick(&ODD);
            t.push_str(o);
            let k = (i + o.chars().count().max(1)).min(c.len());
            t.extend(&c[k..]);
            t.into_bytes()
        }
        5 => c[..cut(r)].iter().collect::<String>().into_bytes(),
        6 => c[cut(r)..].iter().collect::<String>().into_bytes(),
        7 => {
            // a few characters of it
            let i = cut(r);
            c[i..(i + r.below(5)).min(c.len())].iter().collect::<String>().into_bytes()
        }
        8 => {
            let n = r.range(2, 6);
            let sep = *r.pick(&["", " ", "/", "\n"]);
            vec![old; n].join(sep).into_bytes()
        }
        9 => {
            let i = cut(r);
            let o: Vec<char> = other.chars().collect();
            let k = r.below(o.len() + 1);
            c[..i].iter().chain(&o[k..]).collect::<String>().into_bytes()
        }
        10 => {
            let n = r.log(300) as usize;
            (0..n).map(|_| gen::stray(r)).collect::<String>().into_bytes()
        }
        11 => {
            let n = r.log(64) as usize;
            r.bytes(n)
        }
        12 => other.as_bytes().to_vec(),
        13 => old.to_uppercase().into_bytes(),
        14 => {
            // one character again and again
            let n = r.log(3000) as usize;
            let o = *r.pick(&["a", "1", "/", " ", "0", "的", "'", "z", "é", "m/", "1/", "\u{1F600}", "abandon ", "一 ", "ab", "\u{301}"]);
            o.repeat(n).into_bytes()
        }
        _ => c.iter().rev().collect::<String>().into_bytes(),
    }
}

fn bytes(r: &mut Rng, old: &[u8]) -> Vec<u8> {
    match r.below(7) {
        0 => vec![],
        1 => old[..r.below(old.len() + 1)].to_vec(),
        2 => {
            let n = r.log(300) as usize;
            let mut v = old.to_vec();
            v.extend(r.bytes(n));
            v
        }
        3 => vec![*r.pick(&[0, 0xff, 0x80, 1]); r.log(600) as usize],
        4 => vec![*r.pick(&[0, 0xff]); old.len()],
        5 => {
            let n = *r.pick(&[1usize, 2, 3, 4, 5, 8, 12, 15, 16, 17, 20, 24, 28, 31, 32, 33, 40, 48, 63, 64, 65, 127, 128, 129, 256, 1000]);
            r.bytes(n)
        }
        _ => {
            let n = r.log(2000) as usize;
            r.bytes(n)
        }
    }
}

fn mangle(r: &mut Rng, cx: &mut Ctx, o: &Op, pool: &[Op]) -> Op {
    let mut o = o.clone();
    let k = kinds(&o.name).as_bytes();
    let can: Vec<usize> = (0..k.len().min(o.args.len())).filter(|i| k[*i] != b'.').collect();
    if can.is_empty() {
        return o;
    }
    let n = if can.len() > 1 && r.pct(30) { 2 } else { 1 };
    for _ in 0..n {
        let i = *r.pick(&can);
        let old = o.args[i].clone();
        let other = if pool.is_empty() { vec![] } else { pool[r.below(pool.len())].args.first().cloned().unwrap_or_default() };
        let t = String::from_utf8_lossy(&old).into_owned();
        let q = String::from_utf8_lossy(&other).into_owned();
        o.args[i] = match k[i] {
            b'p' if r.pct(40) => gen::damage(r, &t, &q, o.args.get(1).map(|l| l.first() == Some(&b'c')).unwrap_or(false)),
            b'k' if t.chars().count() > 20 && r.pct(45) => super::c03::dmg(r, &t, &q),
            b'd' | b'n' if !t.is_empty() && r.pct(50) => super::c13::spoil(r, &t).into_bytes(),
            b't' | b'p' | b'k' | b'd' | b'n' => text(r, &t, &q),
            b'w' => {
                if r.pct(60) {
                    text(r, &t, &q)
                } else {
                    let i = r.below(t.chars().count() + 1);
                    let mut s: String = t.chars().take(i).collect();
                    s.push(gen::stray(r));
                    s.into_bytes()
                }
            }
            b'b' => bytes(r, &old),
            b'3' => be(match r.below(5) {
                0 => *r.pick(&[0, 1, u32::MAX, 1 << 31, (1 << 31) - 1, u32::MAX - 1, 2047, 2048]),
                1 => gen::cnh(r, cx),
                2 => 1 << r.below(32),
                3 => r.below(600) as u32,
                _ => r.u32(),
            }),
            b'r' => {
                let mut v = old;
                match r.below(7) {
                    0 => v[0] = *r.pick(&[0, 1, 0xff, 0xfe]),
                    1 => {
                        let i = r.below(v.len());
                        v[i] = r.u8();
                    }
                    2 => v[41] = r.u8(),
                    3 => {
                        let z = *r.pick(&[0, 0xff]);
                        let i = r.below(v.len());
                        v[i..].fill(z)
                    }
                    4 => {
                        let z = *r.pick(&[0, 0xff]);
                        v[41..].fill(z);
                        v[41] = *r.pick(&[0, 2, 3, 4, 0xff]);
                    }
                    5 => v = r.bytes(v.len()),
                    _ => {
                        let i = r.below(v.len());
                        v[i] ^= 1 << r.below(8);
                    }
                }
                v
            }
            b's' => {
                let n = r.log(700) as usize;
                (0..n).flat_map(|_| be(if r.pct(30) { r.u32() } else { gen::cnh(r, cx) })).collect()
            }
            _ => old,
        };
    }
    o
}

fn push(p: &mut Plan, what: &str, head: Vec<Vec<u8>>, op: &Op) {
    let mut a = head;
    a.push(op.name.clone().into_bytes());
    a.extend(op.args.iter().cloned());
    p.add(what, a);
}

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    let mut pool = vec![];
    let refused_pct = *r.pick(&[0usize, 0, 5, 20]);
    for _ in 0..r.range(3, 12) {
        if r.below(40) == 0 {
            p.add("fork", vec![]);
            continue;
        }
        let mut o = if r.pct(45) {
            // any call is as likely as any other
            let n = *r.pick(&[&gen::ALL_OPS[..], &gen::MORE_OPS[..]].concat());
            gen::example(n, r, cx).unwrap_or_else(|| gen::any_op(r, cx))
        } else {
            super::c14::next(r, cx, &mut pool)
        };
        if r.pct(70) {
            o = mangle(r, cx, &o, &pool);
        }
        if r.below(14) == 0 && !gen::special(&o) {
            o = gen::within(r.pick(&["thread", "unwind"]), &o);
        }
        let refused = r.pct(if o.name == "new" || o.name == "nwallet" { 35 } else { refused_pct });
        push(&mut p, "do", vec![vec![refused as u8]], &o);
    }
    p
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut n = w.start(0);
    let mut judged = 0;
    for s in &p.steps {
        if s.op == "fork" {
            if let Some(k) = w.fork(n) {
                n = k;
            }
            continue;
        }
        if s.args.len() < 2 {
            continue;
        }
        let op = Op { name: s.t(1), args: s.args[2..].to_vec() };
        let refused = s.b(0).first() == Some(&1);
        let env = Env { ent_mode: if refused { 2 } else { 0 }, ent_default: if refused { Some(0) } else { None }, ..Env::default() };
        let r = cx.call(&mut w, n, &op, &env);
        // the call itself, where another one made it
        let inner = if ["thread", "unwind"].contains(&&op.name[..]) && !op.args.is_empty() {
            Op { name: String::from_utf8_lossy(&op.args[0]).into_owned(), args: op.args[1..].to_vec() }
        } else {
            op.clone()
        };
        cx.judge();
        // in a thread of its own, or while another panic unwinds, the outcome is the text
        let r = match r {
            Reply::Out(Out::Ok(t)) if inner.name != op.name && t.starts_with("panic ") => Reply::Out(Out::Panic(t)),
            r => r,
        };
        let bad = match &r {
            Reply::Out(Out::Panic(t)) => {
                // the caller's own callbacks may panic, and its iterators may say they have more than fits
                let fine = w.nodes[n].last.adaptor || ["panic.extend", "pathops"].contains(&&inner.name[..]) || refused && ["new", "nwallet"].contains(&&inner.name[..]);
                (!fine).then(|| format!("panicked: {}", clip(t)))
            }
            Reply::Out(_) => None,
            x => Some(format!("ended the process: {}", x.show())),
        };
        judged += 1;
        if let Some(t) = bad {
            return fail("panic", format!("{} {} {}", inner.name, clip(&show(&inner.args)), t));
        }
    }
    cx.nontrivial = judged >= 2;
    Ok(())
}

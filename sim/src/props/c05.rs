use super::common::*;
use crate::model::{key_text, read_record, DErr, Rec};

pub const P: Prop = Prop {
    id: "C05",
    gen,
    exec,
    free: no_free,
    quick: 28_000,
    thorough: 504_000,
    rule: "one run = a signer and a watch-only party exchanging extended public keys and derivation requests over a simulated network that drops, delays, repeats, reorders, damages and partitions; non-trivial = at least one watch-only derivation was judged and the run's event trace was not seen before",
};

fn gen(r: &mut Rng, cx: &mut Ctx) -> Plan {
    let mut p = Plan::default();
    if r.pct(30) {
        // single derivations at the edges
        for _ in 0..r.range(1, 4) {
            let mut e = gen::extp(r, cx);
            if r.pct(30) {
                e.depth = 255 - r.below(3) as u8;
            }
            let mut path = gen::path(r, cx, 4, false);
            if r.pct(15) {
                e.depth = r.range(1, 8) as u8;
            }
            gen::kin(r, &e, &mut path, false);
            if r.pct(40) && !path.is_empty() {
                let k = r.below(path.len());
                path[k] |= 1 << 31;
            }
            p.add("pub", vec![e.rec(), path_bytes(&path), vec![r.below(2) as u8]]);
        }
        return p;
    }
    // the signer's account key
    let mut e = gen::ext(r, cx);
    let rarely = r.pct(15);
    let kids: Vec<&(Ext, u32)> = rare().kids.iter().filter(|k| k.1 >> 31 == 0).collect();
    if rarely {
        e = r.pick(&kids).0.clone();
    }
    if r.pct(85) {
        e.depth = e.depth.min(200);
    }
    if e.depth == 0 {
        e.fp = [0; 4];
        e.cn = 0;
    }
    let pre = if rarely { vec![] } else { gen::path(r, cx, 2, true) };
    p.add("account", vec![e.rec(), path_bytes(&pre), vec![r.below(4) as u8]]);
    let k = r.range(1, 4);
    for _ in 0..k {
        let mut path = gen::path(r, cx, 4, false);
        gen::kin(r, &e, &mut path, false);
        if path.is_empty() {
            path.push(gen::cn(r, cx));
        }
        if r.pct(20) {
            let w = gen::grind(r, cx, &e, false);
            path[0] = w & 0x7fff_ffff;
        }
        if rarely && r.pct(80) {
            let of: Vec<u32> = kids.iter().filter(|k| k.0.cc == e.cc).map(|k| k.1).collect();
            path[0] = *r.pick(&of);
        }
        if r.pct(12) {
            let i = r.below(path.len());
            path[i] |= 1 << 31;
        }
        // where the switch to public data is made: number of components derived privately
        p.add("request", vec![num(r.u64() % 20_000), path_bytes(&path), vec![r.below(path.len() + 1) as u8]]);
    }
    for _ in 0..r.below(3) {
        p.add("reboot", vec![num(r.u64() % 30_000), vec![r.below(2) as u8]]);
    }
    fates(r, &mut p, 3 * k as u64 + 3);
    p
}

fn expect_p(cx: &mut Ctx, what: &str, r: &Reply, e: &Result<Ext, DErr>) -> Res {
    match e {
        Ok(x) => {
            let d = cx.m.desc_p(x);
            want(cx, "derive", what, r, &d)
        }
        Err(DErr::Hardened) => want_err(cx, "hardened", what, r),
        Err(_) => want_err(cx, "derive-refuse", what, r),
    }
}

fn exec(p: &Plan, cx: &mut Ctx) -> Res {
    let mut w = World::new(p.salt);
    let mut cur: [Option<usize>; 2] = [None, None];
    // the watcher's durable store of received account keys
    let mut known: BTreeMap<u8, String> = BTreeMap::new();
    let mut net = net_of(p);
    let mut account: Option<(Ext, Ext, usize)> = None;
    let mut reqs = vec![];
    let mut boots = vec![];
    for s in &p.steps {
        match s.op.as_str() {
            "pub" => {
                if s.b(0).len() != 74 {
                    continue;
                }
                let e = Ext::from_rec(s.b(0));
                let path = bytes_path(s.b(1));
                let n = proc(&mut w, &mut cur[1]);
                let what = format!("public derivation from depth {} along {}", e.depth, model::path_text(&path));
                cx.nontrivial = true;
                if s.b(2).first() == Some(&1) && path.len() == 1 {
                    let r = cx.ask(&mut w, n, "pchild", vec![e.rec(), be(path[0])]);
                    let x = cx.m.ckd_pub(&e, path[0]);
                    expect_p(cx, &what, &r, &x)?;
                } else {
                    let r = cx.ask(&mut w, n, "pderive", vec![e.rec(), path_bytes(&path)]);
                    let x = cx.m.derive(&e, &path, false);
                    expect_p(cx, &what, &r, &x)?;
                }
            }
            "account" if s.b(0).len() == 74 => {
                let e = Ext::from_rec(s.b(0));
                let pre = bytes_path(s.b(1));
                if let Ok(a) = cx.m.derive(&e, &pre, true) {
                    account = Some((e, a, 2 * (s.b(2).first().copied().unwrap_or(0) as usize % 4) + 1));
                    let n = proc(&mut w, &mut cur[0]);
                    let r = cx.ask(&mut w, n, "keep:xderive", vec![s.b(0).to_vec(), path_bytes(&pre)]);
                    let d = cx.m.desc_x(&account.as_ref().unwrap().1);
                    want(cx, "account", "signer's account key", &r, &d)?;
                }
            }
            "request" => reqs.push((s.u(0), bytes_path(s.b(1)), s.b(2).first().copied().unwrap_or(0) as usize)),
            "reboot" => boots.push((s.u(0), s.b(1).first().copied().unwrap_or(0) as usize % 2)),
            _ => {}
        }
    }
    let Some((_, acc, label)) = account else { return Ok(()) };
    // protocol: for request j the signer sends the extended public key at path[..cut] (kind 1);
    // the watcher derives the rest and sends back what it got (kind 2); the signer compares with the
    // private derivation. Requests are repeated until answered or until the retry limit.
    let mut answered = vec![false; reqs.len()];
    let mut agenda: Vec<(u64, usize, u8)> = reqs.iter().enumerate().map(|(i, q)| (q.0, i, 0u8)).collect();
    for b in &boots {
        agenda.push((b.0, b.1, 1));
    }
    agenda.sort();
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 400 {
            return fail("progress", "the exchange did not finish within 400 events after faults stopped".into());
        }
        let t_net = net.q.iter().map(|m| m.at).min().unwrap_or(u64::MAX);
        let t_ag = agenda.first().map(|a| a.0).unwrap_or(u64::MAX);
        if t_net == u64::MAX && t_ag == u64::MAX {
            break;
        }
        if t_ag <= t_net {
            let (at, i, kind) = agenda.remove(0);
            net.now = net.now.max(at);
            if kind == 1 {
                stop(&mut w, &mut cur[i]);
                continue;
            }
            if answered[i] {
                continue;
            }
            // signer: derive privately to the cut and publish
            let (_, path, cut) = &reqs[i];
            let cut = (*cut).min(path.len());
            let n = proc(&mut w, &mut cur[0]);
            let Ok(x) = cx.m.derive(&acc, &path[..cut], true) else { continue };
            let r = cx.ask(&mut w, n, "xderive", vec![acc.rec(), path_bytes(&path[..cut])]);
            let dx = cx.m.desc_x(&x);
            want(cx, "signer", "signer's private derivation", &r, &dx)?;
            let r = cx.ask(&mut w, n, "xneuter", vec![x.rec()]);
            let pb = cx.m.neuter(&x);
            let dp = cx.m.desc_p(&pb);
            want(cx, "neuter", "extended public key of the signer's key", &r, &dp)?;
            let r = cx.ask(&mut w, n, "xpubfmt", vec![vec![b'0' + label as u8], pb.rec()]);
            let t = key_text(label, &pb);
            want(cx, "publish", "published text", &r, &t)?;
            let mut body = vec![i as u8];
            body.extend_from_slice(t.as_bytes());
            net.send(1, 1, body);
            // retry later
            let tries = 60u64;
            if net.n < tries {
                agenda.push((net.now + 20_000, i, 0));
                agenda.sort();
            }
            continue;
        }
        let Some(m) = net.next() else { break };
        let Some(&i) = m.body.first() else { continue };
        let i = i as usize;
        if i >= reqs.len() {
            continue;
        }
        let (_, path, cut) = reqs[i].clone();
        let cut = cut.min(path.len());
        let text = String::from_utf8_lossy(&m.body[1..]).into_owned();
        if m.kind == 1 {
            // watcher
            let n = proc(&mut w, &mut cur[1]);
            let said = read_record(&text);
            let r = cx.ask(&mut w, n, "xpubparse", vec![text.clone().into_bytes()]);
            let e = match said {
                Rec::Good(l, e) if l % 2 == 1 => {
                    let d = cx.m.desc_p(&e);
                    want(cx, "receive", "received extended public key", &r, &d)?;
                    e
                }
                Rec::Foreign => continue,
                _ => {
                    want_err(cx, "receive-accepts", &format!("damaged message {:?}", clip(&text)), &r)?;
                    continue;
                }
            };
            known.insert(i as u8, text.clone());
            let what = format!("watch-only derivation of {} after {} private components", model::path_text(&path), cut);
            let exp = cx.m.derive(&e, &path[cut..], false);
            cx.nontrivial = true;
            // from the parsed text kept as an object
            let base = super::c01::count(&mut w, cx, n);
            let r = cx.ask(&mut w, n, "keep:xpubparse", vec![text.into_bytes()]);
            want_calm(cx, "receive", "second parse", &r)?;
            let r = cx.ask(&mut w, n, "o.derive", vec![vec![base], path_bytes(&path[cut..])]);
            expect_p(cx, &what, &r, &exp)?;
            let mut body = vec![i as u8];
            match r {
                Reply::Out(Out::Ok(t)) => body.extend_from_slice(t.as_bytes()),
                _ => body.extend_from_slice(b"refused"),
            }
            net.send(0, 2, body);
        } else {
            // signer: compare with its own derivation
            answered[i] = true;
            if m.bad {
                answered[i] = false;
                continue;
            }
            let n = proc(&mut w, &mut cur[0]);
            if text == "refused" {
                cx.judge();
                if path[cut..].iter().all(|c| c >> 31 == 0) && acc.depth as usize + path.len() <= 255 {
                    return fail("refused", format!("watch-only derivation of {} was refused", model::path_text(&path)));
                }
                continue;
            }
            let r = cx.ask(&mut w, n, "xderive", vec![acc.rec(), path_bytes(&path)]);
            let Reply::Out(Out::Ok(d)) = &r else {
                return fail("signer", format!("signer's derivation of {} failed after the watcher's succeeded: {}", model::path_text(&path), clip(&r.show())));
            };
            let Some(x) = Ext::parse(d, true) else { return fail("signer", format!("unreadable {}", clip(d))) };
            let r = cx.ask(&mut w, n, "xneuter", vec![x.rec()]);
            want(cx, "agree", &format!("signer and watcher on {} switched after {}", model::path_text(&path), cut), &r, &text)?;
        }
    }
    Ok(())
}

pub mod common;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
use crate::ctx::*;
use crate::gen;
use crate::node::*;
use crate::rng::Rng;

pub fn all() -> &'static [Prop] {
    &[c01::P, c02::P, c03::P, c04::P, c05::P, c06::P, c07::P, c08::P, c09::P, c10::P, c11::P, c12::P, c13::P, c14::P, c15::P, c20::P, c21::P, c22::P, c23::P, c24::P, c25::P]
}

pub fn bench() {
    let mut cx = Ctx::new();
    let t = crate::rt::wall();
    gen::warm(&mut cx);
    println!("warm {:.3}s dict {} edges {}", crate::rt::wall() - t, cx.dict.len(), crate::rt::guards());
    let mut r = Rng::new(3);
    for n in gen::ALL_OPS.iter().chain(gen::MORE_OPS.iter()) {
        let mut w = World::new(1);
        let t = crate::rt::wall();
        let i = w.start(0);
        let op = gen::example(n, &mut r, &mut cx).unwrap();
        let a = w.call(i, &op, &Env::default());
        let s1 = w.nodes[i].last.steps;
        let t1 = crate::rt::wall();
        let mut k = 0;
        while crate::rt::wall() - t1 < 0.1 {
            let op = gen::example(n, &mut r, &mut cx).unwrap();
            w.call(i, &op, &Env::default());
            k += 1;
        }
        let _ = a.show();
        println!("{:12} first {:.2} ms {} steps; then {:.3} ms {} steps", n, (t1 - t) * 1e3, s1, (crate::rt::wall() - t1) * 1e3 / k as f64, w.nodes[i].last.steps);
    }
}

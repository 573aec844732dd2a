//! The generators of every reader check, used as a pool of files.
#![allow(dead_code, unused_imports)]
use mc::*;
#[path = "../c01.rs"]
mod c01;
#[path = "../c02.rs"]
mod c02;
#[path = "../e01.rs"]
mod e01;
#[path = "../e02.rs"]
mod e02;
#[path = "../e03.rs"]
mod e03;
#[path = "../e04.rs"]
mod e04;
#[path = "../m01.rs"]
mod m01;
#[path = "../m02.rs"]
mod m02;
#[path = "../m03.rs"]
mod m03;
#[path = "../r07.rs"]
mod r07;
#[path = "../r08.rs"]
mod r08;
#[path = "../r09.rs"]
mod r09;
#[path = "../w01.rs"]
mod w01;
#[path = "../x01.rs"]
mod x01;

/// All units of the generators, named `<check>.<unit>`.
pub fn units(t: Tier) -> Vec<Unit> {
    let all: [(&str, fn(Tier) -> Vec<Unit>); 14] = [
        ("e01", e01::units),
        ("e02", e02::units),
        ("e03", e03::units),
        ("e04", e04::units),
        ("m01", m01::units),
        ("m02", m02::units),
        ("m03", m03::units),
        ("c01", c01::units),
        ("c02", c02::units),
        ("x01", x01::units),
        ("w01", w01::units),
        ("r07", r07::units),
        ("r08", r08::units),
        ("r09", r09::units),
    ];
    let mut out = vec![];
    for (n, f) in all {
        for mut u in f(t) {
            u.name = format!("{n}.{}", u.name);
            out.push(u);
        }
    }
    out
}

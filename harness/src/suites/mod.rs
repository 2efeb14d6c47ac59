use crate::core::{Ctx, Suite};
use crate::zoo;
mod c02;
mod c03;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod unfilled;
mod conv;
mod edge;
mod wide;
mod huge;
mod refcnt;

fn s(name: &'static str, run: fn(&mut Ctx)) -> Suite {
    Suite { name, run, leaks: true }
}

pub fn all() -> Vec<Suite> {
    vec![
        s("c01", |cx| zoo::history(cx, 24, false)),
        s("zoo", |cx| zoo::history(cx, if cfg!(miri) { 20 } else { 40 }, false)),
        s("zoop", |cx| zoo::history(cx, if cfg!(miri) { 16 } else { 30 }, true)),
        s("c07z", |cx| {
            crate::core::ADDR.store(true, std::sync::atomic::Ordering::Relaxed);
            zoo::history(cx, 24, false)
        }),
        s("c02", c02::run),
        s("c03", c03::run),
        s("c06", c06::run),
        s("c09", c09::run),
        s("c10", c10::run),
        s("c11", c11::run),
        s("c12", c12::run),
        s("c13", c13::run),
        s("c18", c18::run),
        s("c19", c19::run),
        s("c08", c08::run),
        s("c07", c07::run),
        s("c14", c14::run),
        s("c15", c15::run),
        s("c16", c16::run),
        s("c16t", c16::run_threads),
        s("c17", c17::run),
        s("c20", c20::run),
        s("c21", c21::run),
        s("c22", c22::run),
        s("c23", c23::run),
        s("conv", conv::run),
        s("hugev", huge::values),
        s("hugeq", huge::queues),
        s("refcnt", refcnt::run),
        s("refs", refcnt::refs),
        s("edge", edge::run),
        s("wide", wide::case),
        s("unfilled", unfilled::run),
    ]
}

mod block;
mod codec;
mod inclusion;
mod light;
mod merkle;
mod spec;
mod text;
mod tools;
mod tx;
mod vm;
fn main() {
    vlib::run(&[("P01", codec::p01), ("P02", codec::p02), ("P03", tx::p03), ("P04", block::p04), ("P05", merkle::p05), ("P06", light::p06), ("P07", text::p07), ("P08", tools::p08), ("P09", vm::p09), ("P10", spec::p10), ("P15", inclusion::p15)])
}

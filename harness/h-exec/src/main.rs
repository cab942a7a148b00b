use gen::abi;
mod calls;
mod cells;
mod env;
mod ledger;
mod precomp;
mod prog;
mod sys;

fn main() {
    vlib::run(&[("P20", calls::p20), ("P21", ledger::p21), ("P22", calls::p22), ("P23", precomp::p23), ("P24", env::p24), ("P25", sys::p25), ("P26", cells::p26)]);
}

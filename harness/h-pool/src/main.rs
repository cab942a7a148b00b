mod admit;
mod net;
mod pool;
mod storm;

fn main() {
    vlib::run(&[("P40", pool::p40), ("P41", admit::p41), ("P42", storm::p42)]);
}

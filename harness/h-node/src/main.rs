mod child;
mod dir;
mod genesis;
mod keys;
mod life;

fn main() {
    if let Ok(v) = std::env::var("NODE_CHILD") {
        child::main(v);
    }
    std::env::set_var("ROCKS_FILES", "1");
    vlib::run(&[("P80", genesis::p80), ("P81", life::p81), ("P82", life::p82), ("P83", keys::p83)]);
}

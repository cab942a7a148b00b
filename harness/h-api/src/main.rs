mod exec;
mod hostile;
mod logs;
mod net;
mod node;
mod prog;
mod reads;

fn main() {
    vlib::run(&[("P70", reads::p70), ("P71", reads::p71), ("P72", logs::p72), ("P73", exec::p73), ("P74", exec::p74), ("P75", hostile::p75), ("P76", logs::p76), ("P77", exec::p77)]);
}

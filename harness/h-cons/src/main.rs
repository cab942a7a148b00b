mod crash;
mod cluster;
mod crypto;
mod fork;
mod hostile;
mod hub;
mod life;
mod node;
mod prop;
mod sync;
mod wal;
fn main() {
    vlib::run(&[("P50", wal::p50), ("P51", crypto::p51), ("P52", prop::p52), ("P54", sync::p54), ("P55", cluster::p55), ("P56", hostile::p56), ("P57", crash::p57), ("P58", fork::p58)]);
}

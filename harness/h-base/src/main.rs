mod logger;
mod order;
mod rpc;
mod wrap;
fn main() {
    if std::env::var_os("V_LOGGER_CHILD").is_some() {
        return logger::child();
    }
    vlib::run(&[("P11", logger::p11), ("P12", rpc::p12), ("P13", wrap::p13), ("P14", order::p14)])
}

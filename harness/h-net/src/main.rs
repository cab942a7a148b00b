mod conn;
mod route;
mod sim;
mod store;

fn main() {
    vlib::run(&[("P60", route::p60), ("P61", route::p61), ("P62", store::p62), ("P63", conn::p63), ("P64", conn::p64)]);
}

mod store;
mod trie;

fn main() {
    vlib::run(&[("P27", trie::p27), ("P28", store::p28)]);
}

//! Stand-in for `bloom-filters`: the stable Bloom filter, exact up to its number of buckets, after which it forgets the oldest.
use std::collections::{HashSet, VecDeque};
use std::hash::{BuildHasher, Hash};

pub struct DefaultBuildHashKernels<BH>(BH);
impl<BH> DefaultBuildHashKernels<BH> {
    pub fn new(_offset: usize, build: BH) -> Self {
        DefaultBuildHashKernels(build)
    }
}

pub trait BloomFilter {
    fn insert<T: Hash>(&mut self, item: &T);
    fn contains<T: Hash>(&self, item: &T) -> bool;
}

pub struct StableBloomFilter<K> {
    kernels: K,
    seen: HashSet<u64>,
    order: VecDeque<u64>,
    buckets: usize,
}
impl<BH: BuildHasher> StableBloomFilter<DefaultBuildHashKernels<BH>> {
    pub fn new(buckets: usize, _cell_bits: u8, _false_positive: f64, kernels: DefaultBuildHashKernels<BH>) -> Self {
        StableBloomFilter { kernels, seen: HashSet::new(), order: VecDeque::new(), buckets }
    }
}
impl<BH: BuildHasher> BloomFilter for StableBloomFilter<DefaultBuildHashKernels<BH>> {
    fn insert<T: Hash>(&mut self, item: &T) {
        let h = self.kernels.0.hash_one(item);
        if self.seen.insert(h) {
            self.order.push_back(h);
            if self.order.len() > self.buckets {
                let o = self.order.pop_front().unwrap();
                self.seen.remove(&o);
            }
        }
    }
    fn contains<T: Hash>(&self, item: &T) -> bool {
        self.seen.contains(&self.kernels.0.hash_one(item))
    }
}

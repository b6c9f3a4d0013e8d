//! What the properties about threads presuppose: that safe code can hand these objects to threads at
//! all. Never run; it compiles or it does not.
#![allow(dead_code)]
use succinct_neo::bit_vec::BitVec;
use succinct_neo::int_vec::IntVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::FlatPopcount;

fn shared<T: Sync + ?Sized>(_: &T) {}
fn sent<T: Send>(_: T) {}

#[cfg(feature = "C19")]
fn queried_by_several(bv: &BitVec, ints: &IntVec) {
    shared(bv);
    shared(&**bv);
    shared(&bv.slice(..));
    shared(&bv.slice(..).slice(..));
    shared(ints);
    shared(&FlatPopcount::<LinearSearch>::new(bv));
    shared(&FlatPopcount::<BinarySearch>::new(bv));
}
#[cfg(feature = "C20")]
fn halves_in_two(bv: &mut BitVec) {
    let (mut left, right) = bv.split_at_mut(0);
    sent(right);
    {
        let (a, b) = left.split_at_mut(0);
        sent(a);
        sent(b);
    }
    sent(left);
}
#[cfg(feature = "C21")]
fn one_each(bv: BitVec, ints: IntVec) {
    sent(FlatPopcount::<LinearSearch>::new(&bv));
    sent(FlatPopcount::<BinarySearch>::new(&bv));
    sent(bv.clone());
    sent(bv);
    sent(ints);
}

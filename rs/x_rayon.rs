use crate::*;
use rayon::iter::plumbing::{Consumer, ProducerCallback, UnindexedConsumer};
use rayon::iter::*;
impl<const K: u64> P<K> {
    fn vals(&self) -> Vec<u64> {
        let n = (self.arr[0] ^ self.arr[1].rotate_left(3)) % 40;
        let mut r = R::new(self.arr[2] + K);
        (0..n).map(|_| r.n(1000)).collect()
    }
}
impl<const K: u64> ParallelIterator for P<K> {
    type Item = u64;
    fn drive_unindexed<C: UnindexedConsumer<u64>>(self, c: C) -> C::Result {
        self.c("drive_unindexed", format_args!(""));
        self.vals().into_par_iter().drive_unindexed(c)
    }
    fn opt_len(&self) -> Option<usize> {
        let mut r = self.c("opt_len", format_args!(""));
        if r.b(1, 2) { None } else { Some(self.vals().len()) }
    }
}
impl<const K: u64> IndexedParallelIterator for P<K> {
    fn drive<C: Consumer<u64>>(self, c: C) -> C::Result {
        self.c("drive", format_args!(""));
        self.vals().into_par_iter().drive(c)
    }
    fn len(&self) -> usize {
        self.c("par len", format_args!(""));
        self.vals().len()
    }
    fn with_producer<CB: ProducerCallback<u64>>(self, cb: CB) -> CB::Output {
        self.c("with_producer", format_args!(""));
        self.vals().into_par_iter().with_producer(cb)
    }
}
macro_rules! pe { ($($t:ty),*) => { $(
impl<const K: u64> ParallelExtend<$t> for P<K> {
    fn par_extend<I: IntoParallelIterator<Item = $t>>(&mut self, it: I) {
        self.c("par_extend", format_args!("{} {}", stringify!($t), tname::<I>()));
        let v: Vec<$t> = it.into_par_iter().collect();
        log(format!("  took {v:?}"));
    }
}
)* } }
pe!(u64, String);
pub fn par_op<T: ParallelIterator>(t: &mut T, d: &mut D) {
    note("opt_len", t.opt_len())
}
pub fn ipar_op<T: IndexedParallelIterator>(t: &mut T, d: &mut D) {
    note("len", t.len())
}
pub fn pext_op<T: ParallelExtend<u64> + ParallelExtend<String>>(t: &mut T, d: &mut D) {
    match d.r.n(4) {
        0 => t.par_extend(vec![1u64, 2, d.r.n(100)]),
        1 => t.par_extend((0..d.r.n(300)).into_par_iter().filter(|x| x % 3 != 1)),
        2 => t.par_extend(vec!["a".to_string(), "b".to_string()]),
        _ => t.par_extend(Some(5u64)),
    }
}
pub fn par_end<T: ParallelIterator>(t: T, d: &mut D)
where
    T::Item: Debug,
{
    let m = 2 + d.r.n(4);
    match d.r.n(12) {
        0 => note("collect", t.collect::<Vec<_>>()),
        1 => note("count", t.count()),
        2 => note("map.sum", t.map(|x| hx(&x) % 1000).sum::<u64>()),
        3 => note("filter.collect", t.filter(|x| hx(x) % m == 0).collect::<Vec<_>>()),
        4 => note("find_first", t.find_first(|x| hx(x) % m == 0)),
        5 => note("find_last", t.find_last(|x| hx(x) % m == 0)),
        6 => note("any", (t.any(|x| hx(&x) % m == 0))),
        7 => note("flat", t.flat_map_iter(|x| { let h = hx(&x); [h, h + 1] }).collect::<Vec<_>>()),
        8 => note("partition", t.partition::<Vec<_>, Vec<_>, _>(|x| hx(x) % m == 0)),
        9 => note("max", t.map(|x| hx(&x)).max()),
        10 => note("list", t.map(|x| hx(&x)).collect::<LinkedList<_>>()),
        _ => drop(t),
    }
}
pub fn ipar_end<T: IndexedParallelIterator>(t: T, d: &mut D)
where
    T::Item: Debug,
{
    let m = 2 + d.r.us(4);
    match d.r.n(10) {
        0 => {
            let mut v = vec![];
            t.collect_into_vec(&mut v);
            note("into_vec", v)
        }
        1 => note("enumerate", t.enumerate().map(|(i, x)| (i, hx(&x))).collect::<Vec<_>>()),
        2 => note("rev", t.rev().collect::<Vec<_>>()),
        3 => note("zip", t.zip(vec![1, 2, 3, 4, 5, 6, 7, 8]).collect::<Vec<_>>()),
        4 => note("chunks", t.chunks(m).collect::<Vec<_>>()),
        5 => note("skip.take", t.skip(1).take(4).collect::<Vec<_>>()),
        6 => note("step_by", t.step_by(m).collect::<Vec<_>>()),
        7 => note("position_first", t.position_first(|x| hx(&x) % 5 == 0)),
        8 => note("with_max_len", t.with_max_len(m).map(|x| hx(&x)).collect::<Vec<_>>()),
        _ => note("rev.enumerate", t.rev().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect::<Vec<_>>()),
    }
}

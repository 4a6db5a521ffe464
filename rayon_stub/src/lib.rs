//! Stand-in for rayon in the symbolic runs: the tasks of a parallel region run one after the other in an order the
//! harness chooses, and every memory access is attributed to its task, so that the executor can tell whether two tasks
//! of one region touch the same byte (in which case the order, and so the schedule, could matter).
extern "C" {
    fn __sym_par_begin();
    fn __sym_par_task(t: u64);
    fn __sym_par_end();
}

static mut ORDER: usize = 0;

/// How the tasks of a region are ordered: 0 as produced, 1 reversed, 2 rotated, 3 odd ones first, 4 from the middle out.
pub fn set_order(o: usize) {
    unsafe { ORDER = o }
}

fn order(n: usize) -> Vec<usize> {
    let o = unsafe { ORDER };
    match o {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| (i + n / 2) % n).collect(),
        3 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
        _ => {
            let mut v: Vec<usize> = (0..n).collect();
            // Fisher-Yates with a fixed stream
            let mut x = o as u64 * 0x9e37_79b9_7f4a_7c15 + 12345;
            for i in (1..n).rev() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.swap(i, (x >> 33) as usize % (i + 1));
            }
            v
        }
    }
}

#[inline(never)]
unsafe fn one<T, R>(f: &dyn Fn(T) -> R, from: *mut Option<T>, to: *mut Option<R>) {
    // the item lives in this frame, so accesses to it are the task's own
    let item = match (*from).take() {
        Some(x) => x,
        None => return,
    };
    *to = Some(f(item));
}

fn run<T, R>(items: Vec<T>, f: &dyn Fn(T) -> R, keep_order: bool) -> Vec<R> {
    let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
    let n = items.len();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    let ord = order(n);
    unsafe {
        __sym_par_begin();
        for (k, &i) in ord.iter().enumerate() {
            let to = out.as_mut_ptr().add(if keep_order { i } else { k });
            __sym_par_task(i as u64 + 1);
            one(f, items.as_mut_ptr().add(i), to);
            __sym_par_task(0);
        }
        __sym_par_end();
    }
    out.into_iter().flatten().collect()
}

pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) {
    enum O<X, Y> {
        X(X),
        Y(Y),
    }
    let (mut a, mut b) = (Some(a), Some(b));
    let (pa, pb) = (&mut a as *mut Option<A>, &mut b as *mut Option<B>);
    let mut ra = None;
    let mut rb = None;
    for r in run(vec![0, 1], &|i: usize| unsafe { if i == 0 { O::X((*pa).take().map(|f| f())) } else { O::Y((*pb).take().map(|f| f())) } }, true) {
        match r {
            O::X(x) => ra = x,
            O::Y(y) => rb = y,
        }
    }
    (ra.unwrap(), rb.unwrap())
}

pub fn current_num_threads() -> usize {
    4
}

pub struct Scope<'s> {
    waiting: std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) {
        self.waiting.borrow_mut().push(Box::new(f));
    }
}
/// Tasks spawned in a scope run after its body, each as a task of one region.
pub fn scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(f: F) -> R {
    let s = Scope { waiting: Default::default() };
    let r = f(&s);
    loop {
        let mut fs: Vec<_> = std::mem::take(&mut *s.waiting.borrow_mut()).into_iter().map(Some).collect();
        if fs.is_empty() {
            return r;
        }
        let (n, p) = (fs.len(), fs.as_mut_ptr());
        run((0..n).collect(), &|i: usize| unsafe { (*p.add(i)).take().map(|f| f(&s)) }, true);
    }
}

pub mod iter {
    use super::run;

    /// A parallel iterator: a source and what the tasks do with its items.
    pub struct Par<I: Iterator, F> {
        items: I,
        f: F,
        ordered: bool,
    }
    pub type Id<I> = Par<I, fn(<I as Iterator>::Item) -> <I as Iterator>::Item>;
    fn id<T>(x: T) -> T {
        x
    }
    pub fn par<I: Iterator>(items: I, ordered: bool) -> Id<I> {
        Par { items, f: id, ordered }
    }

    impl<I: Iterator, R, F: Fn(I::Item) -> R> Par<I, F> {
        pub fn map<S, G: Fn(R) -> S>(self, g: G) -> Par<I, impl Fn(I::Item) -> S> {
            let f = self.f;
            Par { items: self.items, f: move |x| g(f(x)), ordered: self.ordered }
        }
        pub fn for_each<G: Fn(R)>(self, g: G) {
            let f = self.f;
            run(self.items.collect(), &move |x| g(f(x)), self.ordered);
        }
        pub fn collect<C: FromIterator<R>>(self) -> C {
            run(self.items.collect(), &self.f, self.ordered).into_iter().collect()
        }
        pub fn sum<S: std::iter::Sum<R>>(self) -> S {
            run(self.items.collect(), &self.f, self.ordered).into_iter().sum()
        }
        pub fn all<G: Fn(R) -> bool>(self, g: G) -> bool {
            let f = self.f;
            run(self.items.collect(), &move |x| g(f(x)), self.ordered).into_iter().all(|x| x)
        }
        pub fn any<G: Fn(R) -> bool>(self, g: G) -> bool {
            let f = self.f;
            run(self.items.collect(), &move |x| g(f(x)), self.ordered).into_iter().any(|x| x)
        }
        pub fn try_for_each<E, G: Fn(R) -> Result<(), E>>(self, g: G) -> Result<(), E> {
            let f = self.f;
            run(self.items.collect(), &move |x| g(f(x)), self.ordered).into_iter().collect()
        }
        pub fn for_each_with<T: Clone, G: Fn(&mut T, R)>(self, t: T, g: G) {
            self.for_each(move |x| g(&mut t.clone(), x))
        }
        pub fn for_each_init<T, N: Fn() -> T, G: Fn(&mut T, R)>(self, n: N, g: G) {
            self.for_each(move |x| g(&mut n(), x))
        }
        pub fn map_with<T: Clone, S, G: Fn(&mut T, R) -> S>(self, t: T, g: G) -> Par<I, impl Fn(I::Item) -> S> {
            self.map(move |x| g(&mut t.clone(), x))
        }
        pub fn map_init<T, N: Fn() -> T, S, G: Fn(&mut T, R) -> S>(self, n: N, g: G) -> Par<I, impl Fn(I::Item) -> S> {
            self.map(move |x| g(&mut n(), x))
        }
        pub fn inspect<G: Fn(&R)>(self, g: G) -> Par<I, impl Fn(I::Item) -> R> {
            self.map(move |x| {
                g(&x);
                x
            })
        }
        pub fn enumerate(self) -> Par<std::iter::Enumerate<I>, impl Fn((usize, I::Item)) -> (usize, R)> {
            let f = self.f;
            Par { items: self.items.enumerate(), f: move |(i, x)| (i, f(x)), ordered: self.ordered }
        }
        /// The second iterator's own work is done before the region.
        pub fn zip<J: IntoParallelIterator>(self, j: J) -> Par<std::iter::Zip<I, std::vec::IntoIter<J::Item>>, impl Fn((I::Item, J::Item)) -> (R, J::Item)> {
            let f = self.f;
            Par { items: self.items.zip(j.into_par_iter().now()), f: move |(x, y)| (f(x), y), ordered: self.ordered }
        }
        pub fn step_by(self, n: usize) -> Par<std::iter::StepBy<I>, F> {
            Par { items: self.items.step_by(n), f: self.f, ordered: self.ordered }
        }
        pub fn skip(self, n: usize) -> Par<std::iter::Skip<I>, F> {
            Par { items: self.items.skip(n), f: self.f, ordered: self.ordered }
        }
        pub fn take(self, n: usize) -> Par<std::iter::Take<I>, F> {
            Par { items: self.items.take(n), f: self.f, ordered: self.ordered }
        }
        pub fn rev(self) -> Par<std::iter::Rev<I>, F>
        where
            I: DoubleEndedIterator,
        {
            Par { items: self.items.rev(), f: self.f, ordered: self.ordered }
        }
        pub fn chain<J: IntoParallelIterator<Item = R>>(self, j: J) -> Id<std::vec::IntoIter<R>> {
            let o = self.ordered;
            let mut v = self.vec();
            v.extend(j.into_par_iter().now());
            par(v.into_iter(), o)
        }
        pub fn filter<G: Fn(&R) -> bool>(self, g: G) -> Id<std::vec::IntoIter<R>> {
            self.filter_map(move |x| if g(&x) { Some(x) } else { None })
        }
        pub fn filter_map<S, G: Fn(R) -> Option<S>>(self, g: G) -> Id<std::vec::IntoIter<S>> {
            let o = self.ordered;
            let v: Vec<S> = self.map(g).vec().into_iter().flatten().collect();
            par(v.into_iter(), o)
        }
        pub fn flat_map<S: IntoParallelIterator, G: Fn(R) -> S>(self, g: G) -> Id<std::vec::IntoIter<S::Item>> {
            let o = self.ordered;
            let mut v = vec![];
            for s in self.map(g).vec() {
                v.extend(s.into_par_iter().now());
            }
            par(v.into_iter(), o)
        }
        pub fn flat_map_iter<S: IntoIterator, G: Fn(R) -> S>(self, g: G) -> Id<std::vec::IntoIter<S::Item>> {
            let o = self.ordered;
            let v: Vec<S::Item> = self.map(move |x| g(x).into_iter().collect::<Vec<_>>()).vec().into_iter().flatten().collect();
            par(v.into_iter(), o)
        }
        pub fn reduce<N: Fn() -> R, G: Fn(R, R) -> R>(self, n: N, g: G) -> R {
            self.vec().into_iter().fold(n(), g)
        }
        pub fn reduce_with<G: Fn(R, R) -> R>(self, g: G) -> Option<R> {
            self.vec().into_iter().reduce(g)
        }
        pub fn count(self) -> usize {
            self.vec().len()
        }
        pub fn max(self) -> Option<R>
        where
            R: Ord,
        {
            self.vec().into_iter().max()
        }
        pub fn min(self) -> Option<R>
        where
            R: Ord,
        {
            self.vec().into_iter().min()
        }
        pub fn find_any<G: Fn(&R) -> bool>(self, g: G) -> Option<R> {
            self.vec().into_iter().find(|x| g(x))
        }
        pub fn find_first<G: Fn(&R) -> bool>(self, g: G) -> Option<R> {
            self.vec().into_iter().find(|x| g(x))
        }
        pub fn unzip<A, B, CA: Default + Extend<A>, CB: Default + Extend<B>>(self) -> (CA, CB)
        where
            Vec<R>: IntoIterator<Item = (A, B)>,
        {
            self.vec().into_iter().unzip()
        }
        pub fn collect_into_vec(self, v: &mut Vec<R>) {
            *v = self.vec();
        }
        pub(crate) fn vec(self) -> Vec<R> {
            run(self.items.collect(), &self.f, self.ordered)
        }
        /// Outside of any region.
        pub(crate) fn now(self) -> std::vec::IntoIter<R> {
            self.items.map(self.f).collect::<Vec<R>>().into_iter()
        }
        pub fn with_min_len(self, _: usize) -> Self {
            self
        }
        pub fn with_max_len(self, _: usize) -> Self {
            self
        }
    }
    pub trait ParallelBridge: Iterator + Sized {
        fn par_bridge(self) -> Id<Self> {
            par(self, false)
        }
    }
    impl<I: Iterator> ParallelBridge for I {}

    pub trait IntoParallelIterator {
        type Item;
        type Iter: Iterator;
        type F: Fn(<Self::Iter as Iterator>::Item) -> Self::Item;
        fn into_par_iter(self) -> Par<Self::Iter, Self::F>;
    }
    impl<I: Iterator, R, F: Fn(I::Item) -> R> IntoParallelIterator for Par<I, F> {
        type Item = R;
        type Iter = I;
        type F = F;
        fn into_par_iter(self) -> Par<I, F> {
            self
        }
    }
    macro_rules! into_par {
        ($([$($g:tt)*] $t:ty, $i:ty;)*) => {$(
            impl<$($g)*> IntoParallelIterator for $t {
                type Item = <$i as Iterator>::Item;
                type Iter = $i;
                type F = fn(Self::Item) -> Self::Item;
                fn into_par_iter(self) -> Id<$i> {
                    par(self.into_iter(), true)
                }
            }
        )*};
    }
    into_par! {
        [T] Vec<T>, std::vec::IntoIter<T>;
        [] std::ops::Range<usize>, std::ops::Range<usize>;
        [] std::ops::Range<u32>, std::ops::Range<u32>;
        [] std::ops::Range<i32>, std::ops::Range<i32>;
        [] std::ops::Range<u64>, std::ops::Range<u64>;
        [] std::ops::Range<i64>, std::ops::Range<i64>;
        [] std::ops::Range<u16>, std::ops::Range<u16>;
        ['a, T] &'a [T], std::slice::Iter<'a, T>;
        ['a, T] &'a mut [T], std::slice::IterMut<'a, T>;
        ['a, T] &'a Vec<T>, std::slice::Iter<'a, T>;
        ['a, T] &'a mut Vec<T>, std::slice::IterMut<'a, T>;
        [T] Option<T>, std::option::IntoIter<T>;
        [T, const N: usize] [T; N], std::array::IntoIter<T, N>;
    }
    pub trait ParallelSlice<T> {
        fn par_iter(&self) -> Id<std::slice::Iter<'_, T>>;
        fn par_iter_mut(&mut self) -> Id<std::slice::IterMut<'_, T>>;
        fn par_chunks(&self, n: usize) -> Id<std::slice::Chunks<'_, T>>;
        fn par_chunks_mut(&mut self, n: usize) -> Id<std::slice::ChunksMut<'_, T>>;
        fn par_chunks_exact(&self, n: usize) -> Id<std::slice::ChunksExact<'_, T>>;
        fn par_chunks_exact_mut(&mut self, n: usize) -> Id<std::slice::ChunksExactMut<'_, T>>;
        fn par_windows(&self, n: usize) -> Id<std::slice::Windows<'_, T>>;
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_iter(&self) -> Id<std::slice::Iter<'_, T>> {
            par(self.iter(), true)
        }
        fn par_iter_mut(&mut self) -> Id<std::slice::IterMut<'_, T>> {
            par(self.iter_mut(), true)
        }
        fn par_chunks(&self, n: usize) -> Id<std::slice::Chunks<'_, T>> {
            par(self.chunks(n), true)
        }
        fn par_chunks_mut(&mut self, n: usize) -> Id<std::slice::ChunksMut<'_, T>> {
            par(self.chunks_mut(n), true)
        }
        fn par_chunks_exact(&self, n: usize) -> Id<std::slice::ChunksExact<'_, T>> {
            par(self.chunks_exact(n), true)
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Id<std::slice::ChunksExactMut<'_, T>> {
            par(self.chunks_exact_mut(n), true)
        }
        fn par_windows(&self, n: usize) -> Id<std::slice::Windows<'_, T>> {
            par(self.windows(n), true)
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.sort_unstable_by_key(f)
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.sort_by_key(f)
        }
    }
    /// Named in imports only.
    pub trait ParallelIterator {}
    pub trait IndexedParallelIterator {}
}

pub mod prelude {
    pub use crate::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelBridge, ParallelIterator, ParallelSlice, ParallelSlice as ParallelSliceMut, ParallelSlice as IntoParallelRefIterator, ParallelSlice as IntoParallelRefMutIterator};
}

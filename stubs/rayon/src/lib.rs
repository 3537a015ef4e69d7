//! Sequential stand-in for `rayon`: runs every parallel item/job one after another, in an order chosen by
//! the harness (`set_order`): 0 forward, 1 backward, k>=2 rotated by k-1. Before and after every item it calls the marker functions
//! `vp_task_begin(i)` / `vp_task_end(i)` so that the engine can attribute writes to tasks.
use std::sync::atomic::{AtomicUsize, Ordering};

static ORDER: AtomicUsize = AtomicUsize::new(0);

pub fn set_order(n: usize) {
    ORDER.store(n, Ordering::Relaxed)
}

static mut BEGUN: usize = 0;
static mut ENDED: usize = 0;
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_task_begin(i: usize) {
    unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(BEGUN), i) }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_task_end(i: usize) {
    unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(ENDED), i) }
}

/// index order of n tasks under the chosen schedule
fn order(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match ORDER.load(Ordering::Relaxed) {
        0 => {}
        1 => v.reverse(),
        k => {
            if n > 0 {
                v.rotate_left((k - 1) % n)
            }
        }
    }
    v
}

fn run_tasks<T, R>(items: Vec<T>, mut f: impl FnMut(T) -> R) -> Vec<R> {
    let n = items.len();
    let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    for i in order(n) {
        let it = items[i].take().unwrap();
        vp_task_begin(i);
        out[i] = Some(f(it));
        vp_task_end(i);
    }
    out.into_iter().map(|r| r.unwrap()).collect()
}

pub fn current_num_threads() -> usize {
    num_threads_hint()
}
fn num_threads_hint() -> usize {
    THREADS.load(Ordering::Relaxed)
}
static THREADS: AtomicUsize = AtomicUsize::new(1);
pub fn set_threads(n: usize) {
    THREADS.store(n, Ordering::Relaxed)
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if ORDER.load(Ordering::Relaxed) == 0 {
        vp_task_begin(0);
        let ra = a();
        vp_task_end(0);
        vp_task_begin(1);
        let rb = b();
        vp_task_end(1);
        (ra, rb)
    } else {
        vp_task_begin(1);
        let rb = b();
        vp_task_end(1);
        vp_task_begin(0);
        let ra = a();
        vp_task_end(0);
        (ra, rb)
    }
}

pub struct Scope<'scope> {
    jobs: std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>>>,
}
unsafe impl Sync for Scope<'_> {}

impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.jobs.borrow_mut().push(Box::new(body))
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    let s = Scope { jobs: std::cell::RefCell::new(Vec::new()) };
    let r = op(&s);
    loop {
        let jobs = std::mem::take(&mut *s.jobs.borrow_mut());
        if jobs.is_empty() {
            break;
        }
        run_tasks(jobs, |j| j(&s));
    }
    r
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { jobs: std::cell::RefCell::new(Vec::new()) };
    let r = op(&s);
    loop {
        let jobs = std::mem::take(&mut *s.jobs.borrow_mut());
        if jobs.is_empty() {
            break;
        }
        run_tasks(jobs, |j| j(&s));
    }
    r
}

/// The one "parallel iterator": a materialised list of items.
pub struct ParIter<T>(pub Vec<T>);

pub mod iter {
    pub use super::*;
    pub mod plumbing {}

    pub trait IntoParallelIterator {
        type Item: Send;
        type Iter;
        fn into_par_iter(self) -> ParIter<Self::Item>;
    }
    impl<I> IntoParallelIterator for I
    where
        I: IntoIterator,
        I::Item: Send,
    {
        type Item = I::Item;
        type Iter = ParIter<I::Item>;
        fn into_par_iter(self) -> ParIter<Self::Item> {
            ParIter(self.into_iter().collect())
        }
    }

    impl<T> IntoIterator for ParIter<T> {
        type Item = T;
        type IntoIter = std::vec::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }

    pub trait IntoParallelRefIterator<'a> {
        type Item: Send + 'a;
        fn par_iter(&'a self) -> ParIter<Self::Item>;
    }
    impl<'a, C: 'a + ?Sized> IntoParallelRefIterator<'a> for C
    where
        &'a C: IntoIterator,
        <&'a C as IntoIterator>::Item: Send,
    {
        type Item = <&'a C as IntoIterator>::Item;
        fn par_iter(&'a self) -> ParIter<Self::Item> {
            ParIter(self.into_iter().collect())
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: Send + 'a;
        fn par_iter_mut(&'a mut self) -> ParIter<Self::Item>;
    }
    impl<'a, C: 'a + ?Sized> IntoParallelRefMutIterator<'a> for C
    where
        &'a mut C: IntoIterator,
        <&'a mut C as IntoIterator>::Item: Send,
    {
        type Item = <&'a mut C as IntoIterator>::Item;
        fn par_iter_mut(&'a mut self) -> ParIter<Self::Item> {
            ParIter(self.into_iter().collect())
        }
    }

    pub trait ParallelIterator: Sized {
        type Item;
        fn into_items(self) -> Vec<Self::Item>;

        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            run_tasks(self.into_items(), |t| f(t));
        }
        fn try_for_each<F, E>(self, f: F) -> Result<(), E>
        where
            F: Fn(Self::Item) -> Result<(), E> + Sync + Send,
        {
            run_tasks(self.into_items(), |t| f(t)).into_iter().collect()
        }
        fn map<F, R>(self, f: F) -> ParIter<R>
        where
            F: Fn(Self::Item) -> R + Sync + Send,
        {
            ParIter(run_tasks(self.into_items(), |t| f(t)))
        }
        fn filter_map<F, R>(self, f: F) -> ParIter<R>
        where
            F: Fn(Self::Item) -> Option<R> + Sync + Send,
        {
            ParIter(run_tasks(self.into_items(), |t| f(t)).into_iter().flatten().collect())
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.into_items().into_iter().collect()
        }
        fn count(self) -> usize {
            self.into_items().len()
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            run_tasks(self.into_items(), |t| f(t)).into_iter().all(|x| x)
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            run_tasks(self.into_items(), |t| f(t)).into_iter().any(|x| x)
        }
        fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
            self.into_items().into_iter().find(|x| f(x))
        }
        fn reduce<ID, OP>(self, id: ID, op: OP) -> Self::Item
        where
            ID: Fn() -> Self::Item,
            OP: Fn(Self::Item, Self::Item) -> Self::Item,
        {
            self.into_items().into_iter().fold(id(), |a, b| op(a, b))
        }
    }

    pub trait IndexedParallelIterator: ParallelIterator {
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> ParIter<(Self::Item, Z::Item)> {
            ParIter(self.into_items().into_iter().zip(z.into_par_iter().0).collect())
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> ParIter<(Self::Item, Z::Item)> {
            self.zip(z)
        }
        fn enumerate(self) -> ParIter<(usize, Self::Item)> {
            ParIter(self.into_items().into_iter().enumerate().collect())
        }
        fn rev(self) -> ParIter<Self::Item> {
            let mut v = self.into_items();
            v.reverse();
            ParIter(v)
        }
        fn with_min_len(self, _n: usize) -> ParIter<Self::Item> {
            ParIter(self.into_items())
        }
        fn with_max_len(self, _n: usize) -> ParIter<Self::Item> {
            ParIter(self.into_items())
        }
        fn len(self) -> usize {
            self.into_items().len()
        }
    }

    impl<T> ParallelIterator for ParIter<T> {
        type Item = T;
        fn into_items(self) -> Vec<T> {
            self.0
        }
    }
    impl<T> IndexedParallelIterator for ParIter<T> {}
}

pub mod slice {
    use super::ParIter;
    pub trait ParallelSlice<T: Sync> {
        fn par_chunks(&self, n: usize) -> ParIter<&[T]>;
        fn par_chunks_exact(&self, n: usize) -> ParIter<&[T]>;
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> ParIter<&[T]> {
            ParIter(self.chunks(n).collect())
        }
        fn par_chunks_exact(&self, n: usize) -> ParIter<&[T]> {
            ParIter(self.chunks_exact(n).collect())
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn par_chunks_mut(&mut self, n: usize) -> ParIter<&mut [T]>;
        fn par_chunks_exact_mut(&mut self, n: usize) -> ParIter<&mut [T]>;
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn par_chunks_mut(&mut self, n: usize) -> ParIter<&mut [T]> {
            ParIter(self.chunks_mut(n).collect())
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> ParIter<&mut [T]> {
            ParIter(self.chunks_exact_mut(n).collect())
        }
    }
}

pub mod prelude {
    pub use crate::iter::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

//! Control-flow models of standard-library combinators, in Rust so that the
//! driver can turn them into the same facts as the code under analysis.  They
//! are only ever inspected, never run.  `intr` holds the primitives that stay
//! opaque to the analysis.
#![allow(dead_code, unused_variables, unused_mut)]
use std::ops::ControlFlow;

pub mod intr {
    pub fn coll_new<C>() -> C { loop {} }
    pub fn coll_add<C, T>(c: &mut C, x: T) { loop {} }
    pub fn join_add<C, T, S>(c: &mut C, x: T, sep: S) { loop {} }
    pub fn content<G: ?Sized, T: ?Sized>(g: &mut G) -> &mut T { loop {} }
    pub fn idx() -> usize { loop {} }
    pub fn nondet() -> bool { loop {} }
    pub fn map_key<T>(x: T) -> T { loop {} }
    pub fn is_lt<T>(a: &T, b: &T) -> bool { loop {} }
}

// ---- adaptors -----------------------------------------------------------------
pub struct Map<I, F> { iter: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.iter.next() { Some(x) => Some((self.f)(x)), None => None } }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> { match self.iter.next_back() { Some(x) => Some((self.f)(x)), None => None } }
}
pub fn map<I, F>(iter: I, f: F) -> Map<I, F> { Map { iter, f } }

pub struct Filter<I, F> { iter: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop { match self.iter.next() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } }
    }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, F> {
    fn next_back(&mut self) -> Option<I::Item> {
        loop { match self.iter.next_back() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } }
    }
}
pub fn filter<I, F>(iter: I, f: F) -> Filter<I, F> { Filter { iter, f } }

pub struct FilterMap<I, F> { iter: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop { match self.iter.next() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y); }, None => return None } }
    }
}
pub fn filter_map<I, F>(iter: I, f: F) -> FilterMap<I, F> { FilterMap { iter, f } }

pub struct Inspect<I, F> { iter: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.iter.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
}
pub fn inspect<I, F>(iter: I, f: F) -> Inspect<I, F> { Inspect { iter, f } }

pub struct MapWhile<I, F> { iter: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.iter.next() { Some(x) => (self.f)(x), None => None } }
}
pub fn map_while<I, F>(iter: I, f: F) -> MapWhile<I, F> { MapWhile { iter, f } }

pub struct TakeWhile<I, F> { iter: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.iter.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None }
    }
}
pub fn take_while<I, F>(iter: I, f: F) -> TakeWhile<I, F> { TakeWhile { iter, f, done: false } }

pub struct SkipWhile<I, F> { iter: I, f: F, started: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.iter.next() {
                Some(x) => { if self.started || !(self.f)(&x) { self.started = true; return Some(x); } }
                None => return None,
            }
        }
    }
}
pub fn skip_while<I, F>(iter: I, f: F) -> SkipWhile<I, F> { SkipWhile { iter, f, started: false } }

/// `take(n)` and `step_by(n)`: may stop or skip at a point the analysis does not know.
pub struct Take<I> { iter: I, n: usize }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if intr::nondet() { None } else { self.iter.next() } }
}
pub fn take<I>(iter: I, n: usize) -> Take<I> { Take { iter, n } }
pub struct Skip<I> { iter: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop { match self.iter.next() { Some(x) => if !intr::nondet() { return Some(x); }, None => return None } }
    }
}
pub fn skip<I>(iter: I, n: usize) -> Skip<I> { Skip { iter, n } }

pub struct Enumerate<I> { iter: I }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> { match self.iter.next() { Some(x) => Some((intr::idx(), x)), None => None } }
}
pub fn enumerate<I>(iter: I) -> Enumerate<I> { Enumerate { iter } }

pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<Self::Item> {
        match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
    }
}
pub fn zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }

pub struct Chain<A, B> { a: Option<A>, b: B }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if let Some(a) = &mut self.a {
            match a.next() { Some(x) => return Some(x), None => self.a = None }
        }
        self.b.next()
    }
}
pub fn chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a: Some(a), b: b.into_iter() } }

pub struct Rev<I> { iter: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.iter.next_back() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
    fn next_back(&mut self) -> Option<I::Item> { self.iter.next() }
}
pub fn rev<I>(iter: I) -> Rev<I> { Rev { iter } }

pub struct FlatMap<I, F, U> { iter: I, f: F, cur: Option<U> }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, F, U::IntoIter> where U::IntoIter: Iterator<Item = U::Item> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                match c.next() { Some(x) => return Some(x), None => self.cur = None }
            }
            match self.iter.next() { Some(x) => self.cur = Some((self.f)(x).into_iter()), None => return None }
        }
    }
}
pub fn flat_map<I, F, U>(iter: I, f: F) -> FlatMap<I, F, U> { FlatMap { iter, f, cur: None } }
pub struct Flatten<I, U> { iter: I, cur: Option<U> }
impl<I: Iterator> Iterator for Flatten<I, <I::Item as IntoIterator>::IntoIter> where I::Item: IntoIterator {
    type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                match c.next() { Some(x) => return Some(x), None => self.cur = None }
            }
            match self.iter.next() { Some(x) => self.cur = Some(x.into_iter()), None => return None }
        }
    }
}
pub fn flatten<I, U>(iter: I) -> Flatten<I, U> { Flatten { iter, cur: None } }

pub struct Peekable<I: Iterator> { iter: I, peeked: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.peeked.take() { Some(v) => v, None => self.iter.next() } }
}
pub fn peekable<I: Iterator>(iter: I) -> Peekable<I> { Peekable { iter, peeked: None } }
pub fn peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if p.peeked.is_none() { p.peeked = Some(p.iter.next()); }
    match &p.peeked { Some(Some(x)) => Some(x), _ => None }
}

pub struct OptIter<T> { opt: Option<T> }
impl<T> Iterator for OptIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.opt.take() }
}
impl<T> DoubleEndedIterator for OptIter<T> {
    fn next_back(&mut self) -> Option<T> { self.opt.take() }
}
pub fn opt_into_iter<T>(opt: Option<T>) -> OptIter<T> { OptIter { opt } }
pub fn opt_iter<T>(opt: &Option<T>) -> OptIter<&T> { OptIter { opt: opt.as_ref() } }
pub fn once<T>(x: T) -> OptIter<T> { OptIter { opt: Some(x) } }
pub fn empty<T>() -> OptIter<T> { OptIter { opt: None } }

pub struct FromFn<F> { f: F }
impl<B, F: FnMut() -> Option<B>> Iterator for FromFn<F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { (self.f)() }
}
pub fn from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }

// ---- sinks ----------------------------------------------------------------------
pub fn collect<I: Iterator, C>(mut it: I) -> C {
    let mut c = intr::coll_new();
    while let Some(x) = it.next() { intr::coll_add(&mut c, x); }
    c
}
pub fn from_iter<I: IntoIterator, C>(it: I) -> C { collect(it.into_iter()) }
pub fn collect_result<I: Iterator<Item = Result<T, E>>, T, E, C>(mut it: I) -> Result<C, E> {
    let mut c = intr::coll_new();
    while let Some(x) = it.next() { match x { Ok(x) => intr::coll_add(&mut c, x), Err(e) => return Err(e) } }
    Ok(c)
}
pub fn collect_option<I: Iterator<Item = Option<T>>, T, C>(mut it: I) -> Option<C> {
    let mut c = intr::coll_new();
    while let Some(x) = it.next() { match x { Some(x) => intr::coll_add(&mut c, x), None => return None } }
    Some(c)
}
pub fn extend<C, I: IntoIterator>(c: &mut C, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { intr::coll_add(c, x); }
}
pub fn unzip<I: Iterator<Item = (A, B)>, A, B, C, D>(mut it: I) -> (C, D) {
    let mut c = intr::coll_new();
    let mut d = intr::coll_new();
    while let Some((x, y)) = it.next() { intr::coll_add(&mut c, x); intr::coll_add(&mut d, y); }
    (c, d)
}
pub fn partition<I: Iterator, C, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (C, C) {
    let mut c = intr::coll_new();
    let mut d = intr::coll_new();
    while let Some(x) = it.next() { if f(&x) { intr::coll_add(&mut c, x) } else { intr::coll_add(&mut d, x) } }
    (c, d)
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x); }
    acc
}
pub fn try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { match f(x) { Ok(()) => {} Err(e) => return Err(e) } }
    Ok(())
}
pub fn try_for_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() { match f(x) { Some(()) => {} None => return None } }
    Some(())
}
pub fn try_for_each_cf<I: Iterator, B, F: FnMut(I::Item) -> ControlFlow<B>>(it: &mut I, mut f: F) -> ControlFlow<B> {
    while let Some(x) = it.next() { match f(x) { ControlFlow::Continue(()) => {} ControlFlow::Break(e) => return ControlFlow::Break(e) } }
    ControlFlow::Continue(())
}
pub fn try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) } }
    Ok(acc)
}
pub fn try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Some(a) => acc = a, None => return None } }
    Some(acc)
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x); }
    l
}
pub fn retain<C, T, F: FnMut(&T) -> bool>(c: &mut C, f: F) { loop {} }

// ---- cells ------------------------------------------------------------------------
pub fn once_get_or_init<'a, T, F: FnOnce() -> T>(c: &'a std::sync::OnceLock<T>, f: F) -> &'a T {
    match c.get() { Some(x) => x, None => { once_set(c, f()); once_value(c) } }
}
pub fn once_set<T>(c: &std::sync::OnceLock<T>, x: T) { loop {} }
pub fn once_value<T>(c: &std::sync::OnceLock<T>) -> &T { loop {} }

// ---- raw pointers -------------------------------------------------------------
pub unsafe fn ptr_as_ref<'a, T: ?Sized>(p: *const T) -> Option<&'a T> { if intr::nondet() { None } else { Some(unsafe { &*p }) } }

// ---- locks --------------------------------------------------------------------
pub fn with_upgraded<G, T: ?Sized, R, F: FnOnce(&mut T) -> R>(g: &mut G, f: F) -> R { f(intr::content(g)) }

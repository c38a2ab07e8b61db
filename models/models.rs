//! Behavioural models of the standard-library combinators used (or likely to be used) by the
//! analysed program. They are compiled to MIR by driver/mirfacts and substituted for the real
//! (unavailable) bodies by vlib/sim.py; they are never executed.
#![allow(non_snake_case, dead_code, clippy::all)]

use std::collections::{HashMap, VecDeque};

pub struct Map<I, F> { it: I, f: F }
pub struct Filter<I, F> { it: I, f: F }
pub struct FilterMap<I, F> { it: I, f: F }
pub struct Enumerate<I> { it: I, n: usize }
pub struct Zip<A, B> { a: A, b: B }
pub struct Chain<A, B> { a: A, b: B, first: bool }
pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
pub struct SkipWhile<I, F> { it: I, f: F, started: bool }
pub struct Inspect<I, F> { it: I, f: F }
pub struct Take<I> { it: I, n: usize }
pub struct Skip<I> { it: I, n: usize }

// Option
pub fn Option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { if f(&x) { Some(x) } else { None } } None => None } }
pub fn Option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn Option_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn Option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn Option_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn Option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn Option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn Option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn Option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn Option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn Option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn Option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn Option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option_as_deref_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option_take<T>(o: &mut Option<T>) -> Option<T> { core::mem::replace(o, None) }
pub fn Option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { core::mem::replace(o, Some(v)) }
pub fn Option_insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => panic!() } }

// Result
pub fn Result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn Result_and<T, E, U>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn Result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn Result_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn Result_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn Result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn Result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn Result_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn Result_expect<T, E>(o: Result<T, E>, _m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn Result_unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => panic!(), Err(e) => e } }
pub fn Result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn Result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn Result_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn Result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn Result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn Result_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn Result_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => { f(&x); Ok(x) } Err(e) => Err(e) } }

// bool
pub fn Bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn Bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }

// iterator adaptors
pub fn Iter_map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn Iter_filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn Iter_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn Iter_enumerate<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
pub fn Iter_zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn Iter_chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a, b: b.into_iter(), first: true } }
pub fn Iter_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }
pub fn Iter_skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, started: false } }
pub fn Iter_inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn Iter_take<I>(it: I, n: usize) -> Take<I> { Take { it, n } }
pub fn Iter_skip<I>(it: I, n: usize) -> Skip<I> { Skip { it, n } }

impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> { type Item = B; fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(x) => { if (self.f)(&x) { return Some(x); } } None => return None } } } }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> { type Item = B; fn next(&mut self) -> Option<B> { loop { match self.it.next() { Some(x) => { if let Some(y) = (self.f)(x) { return Some(y); } } None => return None } } } }
impl<I: Iterator> Iterator for Enumerate<I> { type Item = (usize, I::Item); fn next(&mut self) -> Option<(usize, I::Item)> { match self.it.next() { Some(x) => { let i = self.n; self.n = i.wrapping_add(1); Some((i, x)) } None => None } } }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> { type Item = (A::Item, B::Item); fn next(&mut self) -> Option<(A::Item, B::Item)> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } } }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> { type Item = A::Item; fn next(&mut self) -> Option<A::Item> { if self.first { match self.a.next() { Some(x) => return Some(x), None => { self.first = false; } } } self.b.next() } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.done { return None; } match self.it.next() { Some(x) => { if (self.f)(&x) { Some(x) } else { self.done = true; None } } None => None } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(x) => { if self.started { return Some(x); } if !(self.f)(&x) { self.started = true; return Some(x); } } None => return None } } } }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } } }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.n == 0 { None } else { self.n = self.n.wrapping_sub(1); self.it.next() } } }
impl<I: Iterator> Iterator for Skip<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while self.n != 0 { self.n = self.n.wrapping_sub(1); if let None = self.it.next() { return None; } } self.it.next() } }

// iterator consumers
pub fn Iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => { if f(x) { return true; } } None => return false } } }
pub fn Iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => { if !f(x) { return false; } } None => return true } } }
pub fn Iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { loop { match it.next() { Some(x) => { if f(&x) { return Some(x); } } None => return None } } }
pub fn Iter_find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { loop { match it.next() { Some(x) => { if let Some(y) = f(x) { return Some(y); } } None => return None } } }
pub fn Iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut i = 0usize; loop { match it.next() { Some(x) => { if f(x) { return Some(i); } i = i.wrapping_add(1); } None => return None } } }
pub fn Iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { loop { match it.next() { Some(x) => f(x), None => return } } }
pub fn Iter_try_for_each<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> { loop { match it.next() { Some(x) => match f(x) { Ok(_) => {} Err(e) => return Err(e) }, None => return Ok(()) } } }
pub fn Iter_fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; loop { match it.next() { Some(x) => { acc = f(acc, x); } None => return acc } } }
pub fn Iter_drain_effects<I: Iterator>(mut it: I) { loop { match it.next() { Some(_) => {} None => return } } }
pub fn Iter_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); loop { match it.next() { Some(x) => { v.push(x); } None => return v } } }
pub fn Iter_collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> { let mut v = Vec::new(); loop { match it.next() { Some(Ok(x)) => { v.push(x); } Some(Err(e)) => return Err(e), None => return Ok(v) } } }
pub fn Iter_collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> { let mut v = Vec::new(); loop { match it.next() { Some(Some(x)) => { v.push(x); } Some(None) => return None, None => return Some(v) } } }
pub fn Iter_collect_map<K: Eq + std::hash::Hash, V, I: Iterator<Item = (K, V)>>(mut it: I) -> HashMap<K, V> { let mut m = HashMap::new(); loop { match it.next() { Some((k, x)) => { m.insert(k, x); } None => return m } } }

// Option/Result as Default etc.
pub fn Vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut i = 0usize; while i < v.len() { if f(&v[i]) { i = i.wrapping_add(1); } else { v.remove(i); } } }
pub fn Vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some(x) => v.push(x), None => return } } }
pub fn Vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some(x) => v.push(*x), None => return } } }
pub fn Deque_extend<T, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some(x) => v.push_back(x), None => return } } }
pub fn String_extend<'a, I: IntoIterator<Item = &'a str>>(v: &mut String, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some(x) => v.push_str(x), None => return } } }
pub fn Map_extend<K: Eq + std::hash::Hash, V, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V>, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some((k, x)) => { m.insert(k, x); } None => return } } }

// std::fs::write is create, then write_all
pub fn fs_write<P: AsRef<std::path::Path>, C: AsRef<[u8]>>(path: P, contents: C) -> std::io::Result<()> {
    use std::io::Write;
    let mut f = std::fs::File::create(path)?;
    f.write_all(contents.as_ref())
}

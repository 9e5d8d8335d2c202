// Definitions of the standard iterator adaptors / consumers and of the
// Option / Result combinators, in terms of `next` and `match`.  They are
// compiled only to MIR facts; the analyser reads calls to the standard
// library functions as calls to these.
#![allow(dead_code, unused)]
use std::collections::{BTreeMap, BTreeSet};

pub struct Filter<I, P> { pub it: I, pub f: P }
pub struct Map<I, F> { pub it: I, pub f: F }
pub struct FilterMap<I, F> { pub it: I, pub f: F }
pub struct Enumerate<I> { pub it: I, pub n: usize }
pub struct Zip<I, J> { pub a: I, pub b: J }
pub struct Chain<I, J> { pub a: I, pub b: J, pub st: usize }
pub struct Skip<I> { pub it: I, pub n: usize }
pub struct Take<I> { pub it: I, pub n: usize }
pub struct SkipWhile<I, P> { pub it: I, pub f: P, pub done: bool }
pub struct TakeWhile<I, P> { pub it: I, pub f: P, pub done: bool }
pub struct MapWhile<I, F> { pub it: I, pub f: F }
pub struct Inspect<I, F> { pub it: I, pub f: F }
pub struct Flatten<I, J> { pub it: I, pub cur: Option<J> }
pub struct FlatMap<I, J, F> { pub it: I, pub cur: Option<J>, pub f: F }
pub struct OptIter<T> { pub o: Option<T> }
pub struct Peekable<I: Iterator> { pub it: I, pub p: Option<Option<I::Item>> }
pub struct Successors<T, F> { pub cur: Option<T>, pub f: F }
pub struct FromFn<F> { pub f: F }
pub struct Matches<'a> { pub s: &'a str, pub i: usize, pub p: char }
pub struct MatchIndices<'a> { pub s: &'a str, pub i: usize, pub p: char }
pub struct Split<'a> { pub s: &'a str, pub i: usize, pub p: char, pub done: bool }
pub struct OnceIter<T> { pub o: Option<T> }

// analyser intrinsics
pub fn retry_filter<I: Iterator, P: FnMut(&I::Item) -> bool>(s: &mut Filter<I, P>) -> Option<I::Item> {
    loop {
        match s.it.next() {
            None => return None,
            Some(x) => if (s.f)(&x) { return Some(x); },
        }
    }
}
pub fn retry_filter_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> {
    loop {
        match s.it.next() {
            None => return None,
            Some(x) => match (s.f)(x) { Some(y) => return Some(y), None => {} },
        }
    }
}
pub fn retry_flatten<I: Iterator, J: Iterator>(s: &mut Flatten<I, J>) -> Option<J::Item> where I::Item: IntoIterator<IntoIter = J, Item = J::Item> {
    loop {
        match &mut s.cur {
            Some(j) => match j.next() {
                Some(x) => return Some(x),
                None => { s.cur = None; }
            },
            None => match s.it.next() {
                None => return None,
                Some(x) => { s.cur = Some(x.into_iter()); }
            },
        }
    }
}
pub fn retry_flat_map<U: IntoIterator, I: Iterator, F: FnMut(I::Item) -> U>(s: &mut FlatMap<I, U::IntoIter, F>) -> Option<U::Item> {
    loop {
        match &mut s.cur {
            Some(j) => match j.next() {
                Some(x) => return Some(x),
                None => { s.cur = None; }
            },
            None => match s.it.next() {
                None => return None,
                Some(x) => { s.cur = Some((s.f)(x).into_iter()); }
            },
        }
    }
}

// next functions: <adaptor>_next
pub fn filter_next<I: Iterator, P: FnMut(&I::Item) -> bool>(s: &mut Filter<I, P>) -> Option<I::Item> {
    match s.it.next() {
        None => None,
        Some(x) => if (s.f)(&x) { Some(x) } else { retry_filter(s) },
    }
}
pub fn filter_map_next<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> {
    match s.it.next() {
        None => None,
        Some(x) => match (s.f)(x) { Some(y) => Some(y), None => retry_filter_map(s) },
    }
}
pub fn map_next<B, I: Iterator, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> {
    match s.it.next() { None => None, Some(x) => Some((s.f)(x)) }
}
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(s: &mut Inspect<I, F>) -> Option<I::Item> {
    match s.it.next() { None => None, Some(x) => { (s.f)(&x); Some(x) } }
}
pub fn enumerate_next<I: Iterator>(s: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match s.it.next() { None => None, Some(x) => { let n = s.n; s.n = n + 1; Some((n, x)) } }
}
pub fn zip_next<I: Iterator, J: Iterator>(s: &mut Zip<I, J>) -> Option<(I::Item, J::Item)> {
    match s.a.next() { None => None, Some(x) => match s.b.next() { None => None, Some(y) => Some((x, y)) } }
}
pub fn chain_next<I: Iterator, J: Iterator<Item = I::Item>>(s: &mut Chain<I, J>) -> Option<I::Item> {
    if s.st == 0 {
        match s.a.next() { Some(x) => return Some(x), None => { s.st = 1; } }
    }
    s.b.next()
}
pub fn skip_next<I: Iterator>(s: &mut Skip<I>) -> Option<I::Item> {
    while s.n > 0 { s.n -= 1; if s.it.next().is_none() { return None; } }
    s.it.next()
}
pub fn take_next<I: Iterator>(s: &mut Take<I>) -> Option<I::Item> {
    if s.n == 0 { None } else { s.n -= 1; s.it.next() }
}
pub fn skip_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(s: &mut SkipWhile<I, P>) -> Option<I::Item> {
    loop {
        match s.it.next() {
            None => return None,
            Some(x) => if s.done || !(s.f)(&x) { s.done = true; return Some(x); },
        }
    }
}
pub fn take_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(s: &mut TakeWhile<I, P>) -> Option<I::Item> {
    if s.done { return None; }
    match s.it.next() {
        None => None,
        Some(x) => if (s.f)(&x) { Some(x) } else { s.done = true; None },
    }
}
pub fn map_while_next<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(s: &mut MapWhile<I, F>) -> Option<B> {
    match s.it.next() { None => None, Some(x) => (s.f)(x) }
}
pub fn flatten_next<I: Iterator, J: Iterator>(s: &mut Flatten<I, J>) -> Option<J::Item> where I::Item: IntoIterator<IntoIter = J, Item = J::Item> {
    match &mut s.cur {
        Some(j) => match j.next() {
            Some(x) => Some(x),
            None => { s.cur = None; retry_flatten(s) }
        },
        None => match s.it.next() {
            None => None,
            Some(x) => { s.cur = Some(x.into_iter()); retry_flatten(s) }
        },
    }
}
pub fn flat_map_next<U: IntoIterator, I: Iterator, F: FnMut(I::Item) -> U>(s: &mut FlatMap<I, U::IntoIter, F>) -> Option<U::Item> {
    match &mut s.cur {
        Some(j) => match j.next() {
            Some(x) => Some(x),
            None => { s.cur = None; retry_flat_map(s) }
        },
        None => match s.it.next() {
            None => None,
            Some(x) => { s.cur = Some((s.f)(x).into_iter()); retry_flat_map(s) }
        },
    }
}
pub fn opt_iter_next<T>(s: &mut OptIter<T>) -> Option<T> { s.o.take() }
pub fn peekable_next<I: Iterator>(s: &mut Peekable<I>) -> Option<I::Item> {
    match s.p.take() { Some(v) => v, None => s.it.next() }
}
pub fn successors_next<T, F: FnMut(&T) -> Option<T>>(s: &mut Successors<T, F>) -> Option<T> {
    match s.cur.take() { None => None, Some(x) => { s.cur = (s.f)(&x); Some(x) } }
}
pub fn from_fn_next<T, F: FnMut() -> Option<T>>(s: &mut FromFn<F>) -> Option<T> { (s.f)() }

// constructors
pub fn iterator_filter<I, P>(it: I, f: P) -> Filter<I, P> { Filter { it, f } }
pub fn iterator_map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn iterator_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn iterator_inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn iterator_enumerate<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
pub fn iterator_zip<I, J: IntoIterator>(a: I, b: J) -> Zip<I, J::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn iterator_chain<I, J: IntoIterator>(a: I, b: J) -> Chain<I, J::IntoIter> { Chain { a, b: b.into_iter(), st: 0 } }
pub fn iterator_skip<I>(it: I, n: usize) -> Skip<I> { Skip { it, n } }
pub fn iterator_take<I>(it: I, n: usize) -> Take<I> { Take { it, n } }
pub fn iterator_skip_while<I, P>(it: I, f: P) -> SkipWhile<I, P> { SkipWhile { it, f, done: false } }
pub fn iterator_take_while<I, P>(it: I, f: P) -> TakeWhile<I, P> { TakeWhile { it, f, done: false } }
pub fn iterator_map_while<I, F>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub fn iterator_flatten<I, J>(it: I) -> Flatten<I, J> { Flatten { it, cur: None } }
pub fn iterator_flat_map<I, J, F>(it: I, f: F) -> FlatMap<I, J, F> { FlatMap { it, cur: None, f } }
pub fn iterator_peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, p: None } }
pub fn iterator_by_ref<I>(it: &mut I) -> &mut I { it }
pub fn option_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { o } }
pub fn iter_once<T>(x: T) -> OptIter<T> { OptIter { o: Some(x) } }
pub fn iter_successors<T, F>(cur: Option<T>, f: F) -> Successors<T, F> { Successors { cur, f } }
pub fn iter_from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
// searches for a one-byte character
pub fn matches_next<'a>(s: &mut Matches<'a>) -> Option<&'a str> {
    match s.s[s.i..].find(s.p) {
        Some(k) => { let j = s.i + k; s.i = j + 1; Some(&s.s[j..j + 1]) }
        None => None,
    }
}
pub fn match_indices_next<'a>(s: &mut MatchIndices<'a>) -> Option<(usize, &'a str)> {
    match s.s[s.i..].find(s.p) {
        Some(k) => { let j = s.i + k; s.i = j + 1; Some((j, &s.s[j..j + 1])) }
        None => None,
    }
}
pub fn split_next<'a>(s: &mut Split<'a>) -> Option<&'a str> {
    if s.done { return None; }
    let rest = &s.s[s.i..];
    match rest.find(s.p) {
        Some(k) => { s.i += k + 1; Some(&rest[..k]) }
        None => { s.done = true; Some(rest) }
    }
}
pub fn str_matches<'a>(s: &'a str, p: char) -> Matches<'a> { Matches { s, i: 0, p } }
pub fn str_match_indices<'a>(s: &'a str, p: char) -> MatchIndices<'a> { MatchIndices { s, i: 0, p } }
pub fn str_split<'a>(s: &'a str, p: char) -> Split<'a> { Split { s, i: 0, p, done: false } }
pub fn str_rfind(s: &str, p: char) -> Option<usize> {
    let mut r = None;
    let mut i = 0;
    while let Some(k) = s[i..].find(p) { r = Some(i + k); i = i + k + 1; }
    r
}
pub fn str_split_once<'a>(s: &'a str, p: char) -> Option<(&'a str, &'a str)> {
    match s.find(p) { Some(k) => Some((&s[..k], &s[k + 1..])), None => None }
}
pub fn str_rsplit_once<'a>(s: &'a str, p: char) -> Option<(&'a str, &'a str)> {
    match str_rfind(s, p) { Some(k) => Some((&s[..k], &s[k + 1..])), None => None }
}
pub fn peekable_peek<I: Iterator>(s: &mut Peekable<I>) -> Option<&I::Item> {
    if s.p.is_none() { let v = s.it.next(); s.p = Some(v); }
    match &s.p { Some(v) => v.as_ref(), None => None }
}

// consumers
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn collect_set<I: Iterator>(mut it: I) -> BTreeSet<I::Item> where I::Item: Ord {
    let mut v = BTreeSet::new();
    while let Some(x) = it.next() { v.insert(x); }
    v
}
pub fn collect_map<K: Ord, V, I: Iterator<Item = (K, V)>>(mut it: I) -> BTreeMap<K, V> {
    let mut v = BTreeMap::new();
    while let Some((k, x)) = it.next() { v.insert(k, x); }
    v
}
pub fn collect_string<I: Iterator>(mut it: I) -> String where I::Item: std::fmt::Display {
    let mut v = String::new();
    while let Some(x) = it.next() { v.push_str(&x.to_string()); }
    v
}
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { match x { Ok(x) => v.push(x), Err(e) => return Err(e) } }
    Ok(v)
}
pub fn collect_result_unit<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> {
    while let Some(x) = it.next() { match x { Ok(_) => {}, Err(e) => return Err(e) } }
    Ok(())
}
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { match x { Some(x) => v.push(x), None => return None } }
    Some(v)
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn set_extend<T: Ord, I: IntoIterator<Item = T>>(v: &mut BTreeSet<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.insert(x); }
}
pub fn map_extend<K: Ord, V, I: IntoIterator<Item = (K, V)>>(v: &mut BTreeMap<K, V>, it: I) {
    let mut it = it.into_iter();
    while let Some((k, x)) = it.next() { v.insert(k, x); }
}
pub fn string_extend<T: std::fmt::Display, I: IntoIterator<Item = T>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push_str(&x.to_string()); }
}
pub fn vec_retain<T: Clone, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut it = v.clone().into_iter();
    let mut out = Vec::new();
    while let Some(x) = it.next() { if f(&x) { out.push(x); } }
    *v = out;
}
pub fn iterator_any<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn iterator_all<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn iterator_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn iterator_find_map<B, I: Iterator, P: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: P) -> Option<B> {
    while let Some(x) = it.next() { match f(x) { Some(y) => return Some(y), None => {} } }
    None
}
pub fn iterator_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; }
    None
}
pub fn iterator_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn iterator_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut n = None;
    while let Some(x) = it.next() { n = Some(x); }
    n
}
pub fn iterator_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 { n -= 1; if it.next().is_none() { return None; } }
    it.next()
}
pub fn iterator_fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn iterator_try_fold<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) } }
    Ok(acc)
}
pub fn iterator_try_for_each<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { match f(x) { Ok(_) => {}, Err(e) => return Err(e) } }
    Ok(())
}
pub fn iterator_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn iterator_sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut acc = 0;
    while let Some(x) = it.next() { acc += x; }
    acc
}
pub fn iterator_max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut acc: Option<I::Item> = None;
    while let Some(x) = it.next() { match acc { None => acc = Some(x), Some(y) => acc = if y > x { Some(y) } else { Some(x) } } }
    acc
}
pub fn iterator_min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord {
    let mut acc: Option<I::Item> = None;
    while let Some(x) = it.next() { match acc { None => acc = Some(x), Some(y) => acc = if x < y { Some(x) } else { Some(y) } } }
    acc
}

// Option
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if o.is_none() { *o = Some(f()); } match o { Some(x) => x, None => loop {} } }
// Result
pub fn result_map<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn result_map_err<T, U, E, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn result_and<T, U, E>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn result_or_else<T, U, E, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn result_map_or<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn result_map_or_else<T, U, E, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
// Ordering
pub fn ordering_then(a: std::cmp::Ordering, b: std::cmp::Ordering) -> std::cmp::Ordering { match a { std::cmp::Ordering::Equal => b, o => o } }
pub fn ordering_then_with<F: FnOnce() -> std::cmp::Ordering>(a: std::cmp::Ordering, f: F) -> std::cmp::Ordering { match a { std::cmp::Ordering::Equal => f(), o => o } }
pub fn ordering_reverse(a: std::cmp::Ordering) -> std::cmp::Ordering { match a { std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Equal => std::cmp::Ordering::Equal, std::cmp::Ordering::Greater => std::cmp::Ordering::Less } }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
pub fn entry_or_default<T, F: FnOnce() -> T>(slot: &mut T, f: F) -> &mut T { *slot = f(); slot }

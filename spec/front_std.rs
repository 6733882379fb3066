#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_upper_case_globals, non_camel_case_types)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
macro_rules! vx_stopm { ($($t:tt)*) => { vx_stop() } }
macro_rules! vx_formatm { ($($t:tt)*) => { vx_text() } }
verus!{
global size_of usize == 8;
// ======================================================================================
// Trusted contracts on std (assumptions, listed in the evidence)
// ======================================================================================
// the macro stop! of the CLI prints a message and ends the process
#[verifier::external_body]
pub fn vx_stop() -> ! ensures false { std::process::exit(1) }
// format!: the text is not interpreted
#[verifier::external_body]
pub fn vx_text() -> (r: String) { unimplemented!() }
// two string slices with the same characters are equal
pub axiom fn vx_str_eq(a: &str, b: &str) requires a@ == b@ ensures a == b;
// String::from(text)
pub trait VxText { spec fn vx_t(&self) -> Seq<char>; fn vx_own(self) -> (r: String) where Self: Sized ensures r@ == self.vx_t(); }
impl<'a> VxText for &'a str { open spec fn vx_t(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vx_own(self) -> (r: String) { String::from(self) } }
impl<'a> VxText for &'a String { open spec fn vx_t(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vx_own(self) -> (r: String) { String::from(self) } }
impl VxText for String { open spec fn vx_t(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_own(self) -> (r: String) { self } }
pub fn vx_string_from<T: VxText>(s: T) -> (r: String) ensures r@ == s.vx_t() { s.vx_own() }
// to_string, to_owned of a text
pub trait VxToString { spec fn vx_ts(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_ts(); }
impl VxToString for str { open spec fn vx_ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for String { open spec fn vx_ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
// derived clone
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: T) { self.clone() } }
pub trait VxCloned<T> { spec fn vx_o(&self) -> Option<T>; fn vx_cloned(self) -> (r: Option<T>) ensures r == self.vx_o(); }
impl<'a, T: Clone> VxCloned<T> for Option<&'a T> { open spec fn vx_o(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { self.cloned() } }
pub trait VxToVec<T> { fn vx_to_vec(&self) -> (r: Vec<T>); }
impl<T: Clone> VxToVec<T> for [T] { #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self@ { self.to_vec() } }
pub trait VxReverse { fn vx_reverse(&mut self); }
impl<T> VxReverse for Vec<T> { #[verifier::external_body] fn vx_reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { self.reverse() } }
pub trait VxJoin { fn vx_join(&self, s: &str) -> String; }
impl VxJoin for [String] { #[verifier::external_body] fn vx_join(&self, s: &str) -> String { self.join(s) } }
// str::split(char): never empty, the pieces joined by the separator give the text back, no piece contains it
pub open spec fn vx_views(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub uninterp spec fn vx_splits(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub axiom fn vx_splits_some(s: Seq<char>, c: char) ensures vx_splits(s, c).len() > 0;
pub trait VxSplit { fn vx_split<'a>(&'a self, c: char) -> (r: std::vec::IntoIter<&'a str>); }
impl VxSplit for str {
    #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: std::vec::IntoIter<&'a str>)
        ensures r.remaining().len() > 0, r.obeys_prophetic_iter_laws(), vx_views(r.remaining()) == vx_splits(self@, c)
    { self.split(c).collect::<Vec<_>>().into_iter() } }
// collect into a vector
pub trait VxFromSeq<T>: Sized { spec fn vx_is(self, s: Seq<T>) -> bool; }
impl<T> VxFromSeq<T> for Vec<T> { open spec fn vx_is(self, s: Seq<T>) -> bool { self@ == s } }
pub trait VxCollect<T> { fn vx_collect<B: VxFromSeq<T>>(self) -> (r: B); }
impl<T> VxCollect<T> for std::vec::IntoIter<T> { #[verifier::external_body] fn vx_collect<B: VxFromSeq<T>>(self) -> (r: B) ensures r.vx_is(self.remaining()) { unimplemented!() } }
// x.iter().find(f) and relatives
pub trait VxSeq<T>: View<V = Seq<T>> {
    fn vx_iter_find<'a, F: Fn(&&'a T) -> bool>(&'a self, f: F) -> (r: Option<&'a T>) where T: 'a
        requires forall|x: &'a T| f.requires((&x,))
        ensures match r {
            Some(x) => exists|p: int| 0 <= p < self@.len() && *x == #[trigger] self@[p] && f.ensures((&x,), true) && forall|i: int| 0 <= i < p ==> f.ensures((&&#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&&#[trigger] self@[i],), false),
        };
    fn vx_iter_any<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: bool) where T: 'a
        requires forall|x: &'a T| f.requires((x,))
        ensures if r { exists|p: int| 0 <= p < self@.len() && f.ensures((&#[trigger] self@[p],), true) }
           else { forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false) };
    fn vx_iter_position<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: Option<usize>) where T: 'a
        requires forall|x: &'a T| f.requires((x,))
        ensures match r {
            Some(p) => p < self@.len() && f.ensures((&self@[p as int],), true) && forall|i: int| 0 <= i < p ==> f.ensures((&#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
        };
    fn vx_iter_map<'a, U, F: Fn(&'a T) -> U>(&'a self, f: F) -> (r: std::vec::IntoIter<U>) where T: 'a
        requires forall|x: &'a T| f.requires((x,))
        ensures r.remaining().len() == self@.len(), r.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((&self@[i],), #[trigger] r.remaining()[i]);
    fn vx_iter_enumerate<'a>(&'a self) -> (r: Vec<(usize, &'a T)>)
        ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, &self@[i])), self@.len() <= usize::MAX;
}
impl<T> VxSeq<T> for [T] {
    #[verifier::external_body] fn vx_iter_find<'a, F: Fn(&&'a T) -> bool>(&'a self, f: F) -> (r: Option<&'a T>) where T: 'a { self.iter().find(f) }
    #[verifier::external_body] fn vx_iter_any<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: bool) where T: 'a { self.iter().any(f) }
    #[verifier::external_body] fn vx_iter_position<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: Option<usize>) where T: 'a { self.iter().position(f) }
    #[verifier::external_body] fn vx_iter_map<'a, U, F: Fn(&'a T) -> U>(&'a self, f: F) -> (r: std::vec::IntoIter<U>) where T: 'a { self.iter().map(f).collect::<Vec<U>>().into_iter() }
    #[verifier::external_body] fn vx_iter_enumerate<'a>(&'a self) -> (r: Vec<(usize, &'a T)>) { self.iter().enumerate().collect() }
}
impl<T> VxSeq<T> for Vec<T> {
    #[verifier::external_body] fn vx_iter_find<'a, F: Fn(&&'a T) -> bool>(&'a self, f: F) -> (r: Option<&'a T>) where T: 'a { self.iter().find(f) }
    #[verifier::external_body] fn vx_iter_any<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: bool) where T: 'a { self.iter().any(f) }
    #[verifier::external_body] fn vx_iter_position<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: Option<usize>) where T: 'a { self.iter().position(f) }
    #[verifier::external_body] fn vx_iter_map<'a, U, F: Fn(&'a T) -> U>(&'a self, f: F) -> (r: std::vec::IntoIter<U>) where T: 'a { self.iter().map(f).collect::<Vec<U>>().into_iter() }
    #[verifier::external_body] fn vx_iter_enumerate<'a>(&'a self) -> (r: Vec<(usize, &'a T)>) { self.iter().enumerate().collect() }
}
// classes of characters
pub open spec fn vx_ascii(c: char) -> bool { (c as u32) < 128 }
pub open spec fn vx_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0c' }
pub open spec fn vx_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn vx_alnum(c: char) -> bool { vx_digit(c) || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool) ensures r == vx_ws(*c);
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == vx_ascii(*c);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == vx_digit(*c);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == vx_alnum(*c);
// a text has at most isize::MAX characters
pub axiom fn vx_mem_string(s: &String) ensures s@.len() <= isize::MAX;

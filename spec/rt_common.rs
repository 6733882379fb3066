// Shims for the runtime of generated producers: every item stands for a dependency, with its contract.
use vstd::prelude::*;
macro_rules! vx_logm { ($($t:tt)*) => { () } }
macro_rules! vx_formatm { ($($t:tt)*) => { crate::vx::vx_text() } }
verus! {

pub mod vx {
    use vstd::prelude::*;
    use super::*;
    pub use super::uuid::Uuid;
    pub use super::vxs::*;

    // ---- std
    pub uninterp spec fn vx_disp<T: ?Sized>(t: &T) -> Seq<char>;
    pub trait VxToString { fn vx_to_string(&self) -> (r: String) ensures r@ == vx_disp(self); }
    impl<T> VxToString for T { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
    #[verifier::external_body]
    pub fn vx_text() -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
    // a clone of a value of these types is an equal value
    pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
    impl<T: Sized> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
    #[verifier::external_body]
    pub fn vx_text_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
    pub trait VxReborrow<'b, T> {
        spec fn vx_o(&self) -> Option<&'b mut T>;
        fn vx_as_deref_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures old(self).vx_o() is None ==> r is None && final(self).vx_o() is None,
            old(self).vx_o() is Some ==> (r is Some && *(r->Some_0) == *(old(self).vx_o()->Some_0) && final(self).vx_o() is Some && *final(r->Some_0) == *(final(self).vx_o()->Some_0)
                && *final(final(self).vx_o()->Some_0) == *final(old(self).vx_o()->Some_0));
    }
    impl<'b, T> VxReborrow<'b, T> for Option<&'b mut T> {
        open spec fn vx_o(&self) -> Option<&'b mut T> { *self }
        fn vx_as_deref_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>) { match self { Some(x) => Some(&mut **x), None => None } }
    }

    // an iterator of which only the set of its items matters
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct VxIt<T> { v: Vec<T> }
    impl<T> VxIt<T> {
        pub uninterp spec fn may(&self, t: T) -> bool;      // no other item comes
        pub uninterp spec fn must(&self, t: T) -> bool;     // each of these items comes
        pub uninterp spec fn once(&self) -> bool;           // no item comes twice
        #[verifier::external_body]
        pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIt<T>)
            requires forall|t: T| #[trigger] self.may(t) ==> f.requires((&t,)),
            ensures forall|t: T| #[trigger] r.may(t) ==> self.may(t) && f.ensures((&t,), true),
                    forall|t: T| #[trigger] self.must(t) ==> r.must(t) || f.ensures((&t,), false),
                    r.once() == self.once()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIt<U>)
            requires forall|t: T| #[trigger] self.may(t) ==> f.requires((t,)),
            ensures forall|u: U| #[trigger] r.may(u) ==> exists|t: T| #[trigger] self.may(t) && f.ensures((t,), u),
                    forall|t: T| #[trigger] self.must(t) ==> exists|u: U| #[trigger] r.must(u) && f.ensures((t,), u)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn collect<L: VxColl<T>>(self) -> (r: L)
            ensures r.vx_s().len() <= usize::MAX, forall|t: T| #[trigger] r.vx_s().contains(t) ==> self.may(t), forall|t: T| #[trigger] self.must(t) ==> r.vx_s().contains(t), self.once() ==> r.vx_s().no_duplicates()
        { unimplemented!() }
    }
    pub trait VxColl<T>: Sized { spec fn vx_s(&self) -> Seq<T>; }
    impl<T> VxColl<T> for Vec<T> { open spec fn vx_s(&self) -> Seq<T> { self@ } }
    pub trait VxIter<T> {
        fn vx_iter_any<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: bool) where T: 'a
            requires forall|i: int| 0 <= i < self.vx_l().len() ==> f.requires((&#[trigger] self.vx_l()[i],))
            ensures r ==> exists|i: int| 0 <= i < self.vx_l().len() && f.ensures((&#[trigger] self.vx_l()[i],), true),
                    !r ==> forall|i: int| 0 <= i < self.vx_l().len() ==> f.ensures((&#[trigger] self.vx_l()[i],), false);
        spec fn vx_l(&self) -> Seq<T>;
    }
    impl<T> VxIter<T> for Vec<T> {
        open spec fn vx_l(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn vx_iter_any<'a, F: Fn(&'a T) -> bool>(&'a self, f: F) -> (r: bool) where T: 'a { self.iter().any(f) }
    }
    impl<'a, T> VxIt<&'a T> {
        #[verifier::external_body]
        pub fn cloned(self) -> (r: VxIt<T>) ensures forall|t: T| #[trigger] r.may(t) ==> self.may(&t), forall|t: T| #[trigger] self.must(&t) ==> r.must(t), r.once() == self.once() { unimplemented!() }
    }

    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
    impl<K, V> HashMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K, V>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
            ensures match r {
                Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn keys<'a>(&'a self) -> (r: VxIt<&'a K>) ensures forall|k: K| #[trigger] r.may(&k) ==> self@.dom().contains(k), forall|k: K| #[trigger] self@.dom().contains(k) ==> r.must(&k), r.once() { unimplemented!() }
        #[verifier::external_body]
        pub fn values<'a>(&'a self) -> (r: VxIt<&'a V>)
            ensures forall|v: V| #[trigger] r.may(&v) ==> exists|k: K| #[trigger] self@.dom().contains(k) && self@[k] == v,
                    forall|k: K| #[trigger] self@.dom().contains(k) ==> r.must(&self@[k])
        { unimplemented!() }
    }

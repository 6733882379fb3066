#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_upper_case_globals, non_camel_case_types)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
macro_rules! vx_formatm { ($($t:tt)*) => { vx_text() } }
verus!{
global size_of usize == 8;
// ======================================================================================
// Trusted contracts on std, ring and data-encoding (assumptions, listed in the evidence)
// ======================================================================================
#[verifier::external_body]
pub fn vx_text() -> (r: String) { unimplemented!() }
pub struct VxIoError { x: u8 }
impl VxIoError { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxIoError { #[verifier::external_body] pub fn kind(&self) -> (r: io::ErrorKind) { unimplemented!() } }
pub mod io { use vstd::prelude::*; pub use super::VxIoError as Error; pub use super::{Read, BufReader};
    pub enum ErrorKind { Interrupted, NotFound, PermissionDenied, UnexpectedEof, Other }
    pub type Result<T> = core::result::Result<T, super::VxIoError>; }
pub struct Path { x: u8 }
pub type PathBuf = Path;
/// the bytes of a file, while it is read
pub uninterp spec fn vx_file(p: Path) -> Seq<u8>;
/// a place bytes are read into
pub trait VxBuf { spec fn vx_b(&self) -> Seq<u8>; }
impl<const N: usize> VxBuf for [u8; N] { open spec fn vx_b(&self) -> Seq<u8> { self@ } }
impl VxBuf for [u8] { open spec fn vx_b(&self) -> Seq<u8> { self@ } }
impl VxBuf for Vec<u8> { open spec fn vx_b(&self) -> Seq<u8> { self@ } }
pub broadcast axiom fn vx_array_len<const N: usize>(a: &[u8; N]) ensures #[trigger] a.vx_b().len() == N;
/// what a source still holds; a read hands out a part of it from the front, nothing only at its end
pub trait Read {
    spec fn vx_rest(&self) -> Seq<u8>;
    fn read<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<usize, VxIoError>)
        ensures final(buf).vx_b().len() == old(buf).vx_b().len(), match r {
            Ok(n) => n <= old(buf).vx_b().len() && n <= old(self).vx_rest().len() && final(buf).vx_b().take(n as int) == old(self).vx_rest().take(n as int) && final(self).vx_rest() == old(self).vx_rest().skip(n as int)
                && (n == 0 ==> old(buf).vx_b().len() == 0 || old(self).vx_rest().len() == 0),
            Err(_) => true };
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxIoError>)
        ensures r is Ok ==> final(buf)@ == old(buf)@ + old(self).vx_rest() && final(self).vx_rest().len() == 0;
}
pub struct File { x: u8 }
impl File { pub uninterp spec fn vx_r(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn open(p: &Path) -> (r: Result<File, VxIoError>) ensures r is Ok ==> r->Ok_0.vx_rest() == vx_file(*p) { unimplemented!() } }
impl Read for File { open spec fn vx_rest(&self) -> Seq<u8> { self.vx_r() }
    #[verifier::external_body] fn read<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<usize, VxIoError>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxIoError>) { unimplemented!() } }
pub struct BufReader<R> { r: R }
impl<R: Read> BufReader<R> { pub uninterp spec fn vx_r(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(r: R) -> (b: BufReader<R>) ensures b.vx_rest() == r.vx_rest() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize, r: R) -> (b: BufReader<R>) ensures b.vx_rest() == r.vx_rest() { unimplemented!() } }
impl<R: Read> Read for BufReader<R> { open spec fn vx_rest(&self) -> Seq<u8> { self.vx_r() }
    #[verifier::external_body] fn read<B: VxBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<usize, VxIoError>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxIoError>) { unimplemented!() } }
pub mod fs { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn read(p: &Path) -> (r: Result<Vec<u8>, VxIoError>) ensures r is Ok ==> r->Ok_0@ == vx_file(*p) { unimplemented!() } }
// slicing of a buffer
#[verifier::external_body]
pub fn vx_cut_to<B: VxBuf + ?Sized>(b: &B, n: usize) -> (r: &[u8]) requires n <= b.vx_b().len() ensures r@ == b.vx_b().take(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cut<B: VxBuf + ?Sized>(b: &B, m: usize, n: usize) -> (r: &[u8]) requires m <= n <= b.vx_b().len() ensures r@ == b.vx_b().subrange(m as int, n as int) { unimplemented!() }
/// what is given to a digest
pub trait VxBytes { spec fn vx_y(&self) -> Seq<u8>; }
impl<const N: usize> VxBytes for [u8; N] { open spec fn vx_y(&self) -> Seq<u8> { self@ } }
impl VxBytes for [u8] { open spec fn vx_y(&self) -> Seq<u8> { self@ } }
impl VxBytes for Vec<u8> { open spec fn vx_y(&self) -> Seq<u8> { self@ } }
// the digest of a text of bytes and its digits
pub struct Algorithm { pub id: u8 }
pub const SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { id: 1 };
pub const SHA256: Algorithm = Algorithm { id: 2 };
pub const SHA384: Algorithm = Algorithm { id: 3 };
pub const SHA512: Algorithm = Algorithm { id: 4 };
pub const SHA512_256: Algorithm = Algorithm { id: 5 };
pub uninterp spec fn vx_digest(a: Algorithm, b: Seq<u8>) -> Seq<u8>;
pub struct Digest { x: u8 }
impl Digest { pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() } }
pub struct Context { x: u8 }
impl Context { pub uninterp spec fn v(&self) -> Seq<u8>; pub uninterp spec fn alg(&self) -> Algorithm;
    #[verifier::external_body] pub fn new(a: &Algorithm) -> (r: Context) ensures r.v() == Seq::<u8>::empty(), r.alg() == *a { unimplemented!() }
    #[verifier::external_body] pub fn update<B: VxBytes + ?Sized>(&mut self, b: &B) ensures final(self).v() == old(self).v() + b.vx_y(), final(self).alg() == old(self).alg() { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: Digest) ensures r.v() == vx_digest(self.alg(), self.v()) { unimplemented!() } }
pub mod digest { use vstd::prelude::*; pub use super::{Algorithm, Context, Digest, SHA256, SHA384, SHA512}; use super::*;
    #[verifier::external_body] pub fn digest<B: VxBytes + ?Sized>(a: &Algorithm, b: &B) -> (r: Digest) ensures r.v() == vx_digest(*a, b.vx_y()) { unimplemented!() } }
pub struct Encoding { pub id: u8 }
pub const HEXUPPER: Encoding = Encoding { id: 1 };
pub const HEXLOWER: Encoding = Encoding { id: 2 };
pub const HEXUPPER_PERMISSIVE: Encoding = Encoding { id: 1 };
pub const HEXLOWER_PERMISSIVE: Encoding = Encoding { id: 2 };
pub const BASE64: Encoding = Encoding { id: 3 };
pub const BASE32: Encoding = Encoding { id: 4 };
pub uninterp spec fn vx_digits(e: Encoding, b: Seq<u8>) -> Seq<char>;
impl Encoding { #[verifier::external_body] pub fn encode<B: VxBytes + ?Sized>(&self, b: &B) -> (r: String) ensures r@ == vx_digits(*self, b.vx_y()) { unimplemented!() } }
// ======================================================================================
// What the hash of a file is: the SHA-256 of all of its bytes, in upper-case hexadecimal digits
// ======================================================================================
pub open spec fn vx_hash(p: Path) -> Seq<char> { vx_digits(HEXUPPER, vx_digest(SHA256, vx_file(p))) }
pub proof fn vx_h01_bytes(p: Path, q: Path) requires vx_file(p) == vx_file(q) ensures vx_hash(p) == vx_hash(q) {}
pub proof fn vx_probe_bytes(p: Path, q: Path) requires vx_hash(p) == vx_hash(q) ensures vx_file(p) == vx_file(q) {}
pub proof fn vx_probe_false<R: Read>(r: R) ensures r.vx_rest().len() == 0 {}

#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code, non_camel_case_types, unused_must_use)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;

// =====================================================================================================
// Trusted shim: contracts for the parts of the standard library and of sha2 that the extracted code uses.
// Everything marked external_body, assume_specification or axiom in this module is an assumption; the check
// counts and lists them in its evidence.
// =====================================================================================================
pub mod shim {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    verus! {

    // the target platform is 64-bit
    global size_of usize == 8;

    // ---- panics -------------------------------------------------------------------------------------
    /// Not interpreted: whether stopping with a panic is acceptable here.  `assert!(c)` becomes
    /// `x_assert(c)`.  A function with precondition `!may_panic() ==> valid` is thereby proved never to stop
    /// on valid input, and, since `x_assert` returns only when `c` holds, never to go on past a violated `c`.
    pub uninterp spec fn may_panic() -> bool;

    #[verifier::external_body]
    pub const fn x_assert(c: bool)
        requires c || may_panic(),
        ensures c,
    { assert!(c) }

    pub trait XUnwrap: Sized {
        type Value;
        spec fn full(self) -> Option<Self::Value>;
        fn x_value(self) -> (r: Self::Value)
            requires self.full() is Some || may_panic(),
            ensures self.full() == Some(r);
    }
    impl<T> XUnwrap for Option<T> {
        type Value = T;
        open spec fn full(self) -> Option<T> { self }
        #[verifier::external_body]
        fn x_value(self) -> (r: T) { unimplemented!() }
    }
    impl<T, E> XUnwrap for Result<T, E> {
        type Value = T;
        open spec fn full(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
        #[verifier::external_body]
        fn x_value(self) -> (r: T) { unimplemented!() }
    }
    pub fn x_unwrap<X: XUnwrap>(x: X) -> (r: X::Value)
        requires x.full() is Some || may_panic(),
        ensures x.full() == Some(r),
    { x.x_value() }

    /// any value; used by the probes for vacuity only
    #[verifier::external_body]
    pub const fn x_any() -> bool { false }

    #[verifier::external_body]
    pub const fn x_debug_assert(c: bool)
        requires c || may_panic(),
    { debug_assert!(c) }

    #[verifier::external_body]
    pub const fn x_panic<T>() -> (r: T)
        requires may_panic(),
        ensures false,
    { panic!() }

    #[verifier::external_body]
    pub fn x_format() -> (r: String) { unimplemented!() }
    /// what format! makes of a value
    pub uninterp spec fn shown<T: ?Sized>(t: &T) -> Seq<char>;
    pub broadcast axiom fn axiom_shown_string(t: &String)
        ensures #[trigger] shown::<String>(t) == t@;
    pub broadcast axiom fn axiom_string_to_string(t: &String, r: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(t, r) ==> r@ == t@;
    pub broadcast axiom fn axiom_shown_str(t: &str)
        ensures #[trigger] shown::<str>(t) == t@;
    pub broadcast axiom fn axiom_shown_ref(t: &&str)
        ensures #[trigger] shown::<&str>(t) == t@;
    #[verifier::external_body]
    pub fn x_fmt0(t: &str) -> (r: String)
        ensures r@ == t@,
    { unimplemented!() }
    /// `n` is the number of characters of the literal `t`
    #[verifier::external_body]
    pub fn x_fmt<T: ?Sized>(s: String, a: &T, t: &str, n: usize) -> (r: String)
        ensures r@ == s@ + shown(a) + t@, t@.len() == n,
    { unimplemented!() }

    // ---- AsRef<[u8]> / AsMut<[u8]> --------------------------------------------------------------------
    pub trait XBytes {
        spec fn xb(&self) -> Seq<u8>;
        fn x_as_ref(&self) -> (r: &[u8])
            ensures r@ == self.xb();
    }
    pub trait XBytesMut {
        spec fn xbm(&self) -> Seq<u8>;
        /// the slice covers the whole container and its length is fixed
        fn x_as_mut(&mut self) -> (r: &mut [u8])
            ensures r@ == (*old(self)).xbm(), final(r)@ == (*final(self)).xbm(), final(r)@.len() == r@.len();
    }
    impl XBytes for [u8] {
        open spec fn xb(&self) -> Seq<u8> { self@ }
        fn x_as_ref(&self) -> (r: &[u8]) { self }
    }
    impl XBytes for Vec<u8> {
        open spec fn xb(&self) -> Seq<u8> { self@ }
        fn x_as_ref(&self) -> (r: &[u8]) { self.as_slice() }
    }
    impl<const N: usize> XBytes for [u8; N] {
        open spec fn xb(&self) -> Seq<u8> { self@ }
        fn x_as_ref(&self) -> (r: &[u8]) { self.as_slice() }
    }
    impl<T: XBytes + ?Sized> XBytes for &T {
        open spec fn xb(&self) -> Seq<u8> { (**self).xb() }
        fn x_as_ref(&self) -> (r: &[u8]) { (**self).x_as_ref() }
    }
    impl XBytesMut for Vec<u8> {
        open spec fn xbm(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn x_as_mut(&mut self) -> (r: &mut [u8]) { self.as_mut_slice() }
    }
    impl<const N: usize> XBytesMut for [u8; N] {
        open spec fn xbm(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn x_as_mut(&mut self) -> (r: &mut [u8]) { self }
    }
    impl XBytesMut for [u8] {
        open spec fn xbm(&self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn x_as_mut(&mut self) -> (r: &mut [u8]) { self }
    }
    impl<T: XBytesMut + ?Sized> XBytesMut for &mut T {
        open spec fn xbm(&self) -> Seq<u8> { (**self).xbm() }
        #[verifier::external_body]
        fn x_as_mut(&mut self) -> (r: &mut [u8]) { (**self).x_as_mut() }
    }

    // ---- strings ----------------------------------------------------------------------------------------
    /// the UTF-8 bytes of a string
    pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
    impl XBytes for str {
        open spec fn xb(&self) -> Seq<u8> { utf8(self@) }
        #[verifier::external_body]
        fn x_as_ref(&self) -> (r: &[u8]) { self.as_bytes() }
    }
    impl XBytes for String {
        open spec fn xb(&self) -> Seq<u8> { utf8(self@) }
        #[verifier::external_body]
        fn x_as_ref(&self) -> (r: &[u8]) { self.as_bytes() }
    }
    /// `unsafe { String::from_utf8_unchecked(v) }`: the safety condition (here: ASCII) is a precondition
    #[verifier::external_body]
    pub fn x_string(v: Vec<u8>) -> (r: String)
        requires forall|i: int| 0 <= i < v@.len() ==> v@[i] < 128,
        ensures utf8(r@) == v@,
    { unimplemented!() }

    // ---- counters, conversions -----------------------------------------------------------------------------
    /// `enumerate()` counts without overflow
    #[verifier::external_body]
    pub fn x_succ(n: usize) -> (r: usize)
        ensures r == n + 1,
    { n + 1 }

    pub fn x_min(a: usize, b: usize) -> (r: usize)
        ensures r == if a <= b { a } else { b },
    { if a <= b { a } else { b } }
    pub fn x_max(a: usize, b: usize) -> (r: usize)
        ensures r == if a >= b { a } else { b },
    { if a >= b { a } else { b } }

    /// Euclidean division is the mathematical `/` of the verifier
    pub assume_specification [<isize>::div_euclid] (a: isize, b: isize) -> (r: isize)
        requires b != 0, !(a == isize::MIN && b == -1),
        ensures r == a as int / b as int;

    pub uninterp spec fn arr<const N: usize>(s: Seq<u8>) -> [u8; N];
    pub broadcast axiom fn axiom_arr<const N: usize>(s: Seq<u8>)
        requires s.len() == N,
        ensures (#[trigger] arr::<N>(s))@ == s;
    pub broadcast axiom fn axiom_arr_view<const N: usize>(a: [u8; N])
        ensures arr::<N>(#[trigger] a@) == a;

    #[derive(Debug)]
    pub struct XTryErr;
    pub trait XTryInto<T>: Sized {
        spec fn conv(self) -> Option<T>;
        fn x_try_into(self) -> (r: Result<T, XTryErr>)
            ensures
                self.conv() is Some ==> r == Ok::<T, XTryErr>(self.conv()->0),
                self.conv() is None ==> r is Err;
    }
    impl<const N: usize> XTryInto<[u8; N]> for &[u8] {
        open spec fn conv(self) -> Option<[u8; N]> { if self@.len() == N { Some(arr::<N>(self@)) } else { None } }
        #[verifier::external_body]
        fn x_try_into(self) -> (r: Result<[u8; N], XTryErr>) { unimplemented!() }
    }
    impl XTryInto<usize> for u64 {
        open spec fn conv(self) -> Option<usize> { if self <= usize::MAX { Some(self as usize) } else { None } }
        fn x_try_into(self) -> (r: Result<usize, XTryErr>) { if self <= usize::MAX as u64 { Ok(self as usize) } else { Err(XTryErr) } }
    }
    impl XTryInto<usize> for u32 {
        open spec fn conv(self) -> Option<usize> { if self <= usize::MAX { Some(self as usize) } else { None } }
        fn x_try_into(self) -> (r: Result<usize, XTryErr>) { Ok(self as usize) }
    }
    impl XTryInto<u32> for usize {
        open spec fn conv(self) -> Option<u32> { if self <= u32::MAX { Some(self as u32) } else { None } }
        fn x_try_into(self) -> (r: Result<u32, XTryErr>) { if self <= u32::MAX as usize { Ok(self as u32) } else { Err(XTryErr) } }
    }
    impl XTryInto<u64> for usize {
        open spec fn conv(self) -> Option<u64> { Some(self as u64) }
        fn x_try_into(self) -> (r: Result<u64, XTryErr>) { Ok(self as u64) }
    }
    pub trait XInto<T>: Sized {
        spec fn into_spec(self, r: T) -> bool;
        fn x_into(self) -> (r: T)
            ensures self.into_spec(r);
    }
    impl XInto<u64> for u8 {
        open spec fn into_spec(self, r: u64) -> bool { r == self }
        fn x_into(self) -> (r: u64) { self as u64 }
    }
    impl XInto<u64> for u16 {
        open spec fn into_spec(self, r: u64) -> bool { r == self }
        fn x_into(self) -> (r: u64) { self as u64 }
    }
    impl XInto<u64> for u32 {
        open spec fn into_spec(self, r: u64) -> bool { r == self }
        fn x_into(self) -> (r: u64) { self as u64 }
    }
    impl XInto<u64> for u64 {
        open spec fn into_spec(self, r: u64) -> bool { r == self }
        fn x_into(self) -> (r: u64) { self }
    }

    // ---- slices ----------------------------------------------------------------------------------------------
    /// `b` is what cloning the elements of `a` gives
    pub open spec fn cloned_seq<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> call_ensures(T::clone, (&#[trigger] a[i],), b[i])
    }
    pub broadcast proof fn lemma_cloned_bytes(a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] cloned_seq(a, b),
        ensures a == b,
    { assert(a =~= b); }
    pub trait XToVec<E> {
        spec fn tv(&self, r: Seq<E>) -> bool;
        fn x_to_vec(&self) -> (r: Vec<E>)
            ensures self.tv(r@);
    }
    impl<T: Clone> XToVec<T> for [T] {
        open spec fn tv(&self, r: Seq<T>) -> bool { cloned_seq(self@, r) }
        #[verifier::external_body]
        fn x_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
    }

    // ---- files ---------------------------------------------------------------------------------------------------
    #[derive(Debug)]
    #[verifier::external_body]
    pub struct XIoError { pub opaque: () }
    /// reading and writing succeed
    pub uninterp spec fn disk_works() -> bool;
    /// there is such a file, and it can be read
    pub uninterp spec fn file_there(path: Seq<char>) -> bool;
    /// the file held these bytes when it was read
    pub uninterp spec fn held_by_file(path: Seq<char>, data: Seq<u8>) -> bool;
    /// these bytes were written to the file as its whole content
    pub uninterp spec fn written_to_file(path: Seq<char>, data: Seq<u8>) -> bool;
    #[verifier::external_body]
    pub fn x_fs_read(path: &str) -> (r: Result<Vec<u8>, XIoError>)
        ensures
            r matches Ok(d) ==> held_by_file(path@, d@),
            file_there(path@) ==> r is Ok,
    { unimplemented!() }
    /// a file that must not be lost: it is replaced as a whole or not at all
    pub uninterp spec fn precious(path: Seq<char>) -> bool;
    /// what may be kept in such a file
    pub uninterp spec fn keepable(data: Seq<u8>) -> bool;
    /// stopped on the way, it leaves any part of the data in the file
    #[verifier::external_body]
    pub fn x_fs_write(path: impl XText, data: impl XBytes) -> (r: Result<(), XIoError>)
        requires
            !precious(path.text()),
            keepable(data.xb()),
        ensures
            r is Ok ==> written_to_file(path.text(), data.xb()),
            disk_works() ==> r is Ok,
    { unimplemented!() }
    /// happens as a whole or not at all
    #[verifier::external_body]
    pub fn x_fs_rename(from: impl XText, to: impl XText) -> (r: Result<(), XIoError>)
        requires
            !precious(from.text()),
            precious(to.text()) ==> exists|d: Seq<u8>| #[trigger] written_to_file(from.text(), d) && keepable(d),
        ensures
            r is Ok ==> forall|d: Seq<u8>| #[trigger] written_to_file(from.text(), d) ==> written_to_file(to.text(), d),
            disk_works() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn x_fs_remove(path: impl XText) -> (r: Result<(), XIoError>)
        requires !precious(path.text()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn x_fs_copy(from: impl XText, to: impl XText) -> (r: Result<u64, XIoError>)
        requires !precious(to.text()),
        ensures
            r is Ok ==> forall|d: Seq<u8>| #[trigger] written_to_file(from.text(), d) ==> written_to_file(to.text(), d),
            disk_works() ==> r is Ok,
    { unimplemented!() }

    // ---- block files: they do not change while they are read ---------------------------------------------------
    /// the bytes of the file at this path
    pub uninterp spec fn disk(path: Seq<char>) -> Seq<u8>;
    /// it exists and opening, seeking and reading it succeed
    pub uninterp spec fn disk_readable(path: Seq<char>) -> bool;
    /// std::path::Path::join
    pub uninterp spec fn path_join(dir: Seq<char>, name: Seq<char>) -> Seq<char>;
    pub broadcast axiom fn axiom_file_size(path: Seq<char>)
        ensures #[trigger] disk(path).len() <= 0x4000_0000_0000_0000;
    pub trait XText {
        spec fn text(&self) -> Seq<char>;
    }
    impl XText for String { open spec fn text(&self) -> Seq<char> { self@ } }
    impl XText for str { open spec fn text(&self) -> Seq<char> { self@ } }
    impl<T: XText + ?Sized> XText for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
    #[verifier::external_body]
    pub struct Path { pub opaque: () }
    impl Path {
        pub uninterp spec fn text(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new<S: XText + ?Sized>(s: &S) -> (r: Path)
            ensures r.text() == s.text(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn join<S: XText>(&self, s: S) -> (r: Path)
            ensures r.text() == path_join(self.text(), s.text()),
        { unimplemented!() }
        /// the parts are UTF-8 strings, so the whole is one
        #[verifier::external_body]
        pub fn to_str(&self) -> (r: Option<&str>)
            ensures r is Some, (r->0)@ == self.text(),
        { unimplemented!() }
    }
    pub enum SeekFrom { Start(u64) }
    #[verifier::external_body]
    pub struct File { pub opaque: () }
    impl File {
        pub uninterp spec fn path(&self) -> Seq<char>;
        pub uninterp spec fn at(&self) -> nat;
        #[verifier::external_body]
        pub fn open<S: XText>(path: S) -> (r: Result<File, XIoError>)
            ensures
                r matches Ok(f) ==> f.path() == path.text() && f.at() == 0,
                disk_readable(path.text()) ==> r is Ok,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, XIoError>)
            ensures
                final(self).path() == old(self).path(),
                r matches Ok(n) ==> to matches SeekFrom::Start(m) && n == m && final(self).at() == m,
                disk_readable(old(self).path()) && (to matches SeekFrom::Start(m) && m <= i64::MAX) ==> r is Ok,
        { unimplemented!() }
        /// a read stops short of the buffer's end at the end of the file only (assumed of regular files)
        #[verifier::external_body]
        pub fn read<const N: usize>(&mut self, b: &mut [u8; N]) -> (r: Result<usize, XIoError>)
            ensures
                final(self).path() == old(self).path(),
                r matches Ok(n) ==> {
                    let (d, p) = (disk(old(self).path()), old(self).at() as int);
                    &&& n == if p >= d.len() { 0 } else if d.len() - p < N { d.len() - p } else { N as int }
                    &&& final(self).at() == p + n
                    &&& forall|i: int| 0 <= i < n ==> #[trigger] final(b)@[i] == d[p + i]
                    &&& forall|i: int| n <= i < N ==> #[trigger] final(b)@[i] == old(b)@[i]
                },
                disk_readable(old(self).path()) ==> r is Ok,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<(), XIoError>)
            ensures
                final(self).path() == old(self).path(), final(b)@.len() == old(b)@.len(),
                r is Ok ==> {
                    let (d, p) = (disk(old(self).path()), old(self).at() as int);
                    &&& p + old(b)@.len() <= d.len()
                    &&& final(self).at() == p + old(b)@.len()
                    &&& final(b)@ == d.subrange(p, p + old(b)@.len())
                },
                disk_readable(old(self).path()) && old(self).at() + old(b)@.len() <= disk(old(self).path()).len() ==> r is Ok,
        { unimplemented!() }
    }
    /// the files of a directory, by name, in some order
    pub uninterp spec fn file_list(dir: Seq<char>) -> Seq<Seq<char>>;
    /// it exists, can be listed, and all names in it are UTF-8
    pub uninterp spec fn dir_readable(dir: Seq<char>) -> bool;
    /// no two files of a directory have the same name
    pub broadcast axiom fn axiom_names(dir: Seq<char>)
        ensures (#[trigger] file_list(dir)).no_duplicates();
    #[verifier::external_body]
    pub struct DirEntry { pub opaque: () }
    #[derive(Debug)]
    #[verifier::external_body]
    pub struct OsString { pub opaque: () }
    impl DirEntry {
        pub uninterp spec fn name(&self) -> Seq<char>;
        pub uninterp spec fn readable(&self) -> bool;
        #[verifier::external_body]
        pub fn file_name(&self) -> (r: OsString)
            ensures r.text() == self.name(), r.is_utf8() == self.readable(),
        { unimplemented!() }
    }
    impl OsString {
        pub uninterp spec fn text(&self) -> Seq<char>;
        pub uninterp spec fn is_utf8(&self) -> bool;
        #[verifier::external_body]
        pub fn into_string(self) -> (r: Result<String, OsString>)
            ensures self.is_utf8() ==> r is Ok, r matches Ok(s) ==> s@ == self.text(),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn read_dir<S: XText>(dir: S) -> (r: Result<Vec<Result<DirEntry, XIoError>>, XIoError>)
        ensures
            dir_readable(dir.text()) ==> r is Ok,
            r matches Ok(v) ==> v@.len() == file_list(dir.text()).len() && forall|i: int| 0 <= i < v@.len() ==> {
                &&& (#[trigger] v@[i]) matches Ok(e) ==> e.name() == file_list(dir.text())[i]
                &&& dir_readable(dir.text()) ==> v@[i] is Ok && v@[i]->Ok_0.readable()
            },
    { unimplemented!() }
    /// regular expressions
    #[derive(Debug)]
    #[verifier::external_body]
    pub struct XReError { pub opaque: () }
    #[verifier::external_body]
    pub struct Regex { pub opaque: () }
    pub uninterp spec fn re_valid(pattern: Seq<char>) -> bool;
    pub uninterp spec fn re_match(pattern: Seq<char>, text: Seq<char>) -> bool;
    impl Regex {
        pub uninterp spec fn pattern(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new(pattern: &str) -> (r: Result<Regex, XReError>)
            ensures re_valid(pattern@) ==> r is Ok, r matches Ok(x) ==> x.pattern() == pattern@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_match<S: XText>(&self, text: S) -> (r: bool)
            ensures r == re_match(self.pattern(), text.text()),
        { unimplemented!() }
    }
    /// `blk` and five digits and `.dat`
    pub open spec fn is_blk_name(t: Seq<char>) -> bool {
        &&& t.len() == 12 && t[0] == 'b' && t[1] == 'l' && t[2] == 'k'
        &&& (forall|i: int| 3 <= i < 8 ==> '0' <= #[trigger] t[i] && t[i] <= '9')
        &&& t[8] == '.' && t[9] == 'd' && t[10] == 'a' && t[11] == 't'
    }
    /// the meaning of the regular expression that is used (assumed)
    pub broadcast axiom fn axiom_blk_re(t: Seq<char>)
        ensures re_valid("^blk[0-9]{5}\\.dat$"@), #[trigger] re_match("^blk[0-9]{5}\\.dat$"@, t) == is_blk_name(t);
    /// a sorted permutation
    pub assume_specification<T: core::cmp::Ord> [<[T]>::sort] (s: &mut [T])
        ensures final(s)@.to_multiset() == old(s)@.to_multiset();
    /// a Vec is determined by its elements
    pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
        ensures a@ == b@ ==> a == b;

    // ---- producers: what the code takes as `impl Iterator` and implements as Iterator -------------------------
    pub trait XSource: Sized {
        type Item;
        spec fn swf(&self) -> bool;
        /// `outs` is a possible sequence of everything that is still to come
        spec fn may(&self, outs: Seq<Self::Item>) -> bool;
        /// bound on how many there are
        spec fn left(&self) -> nat;
        fn next(&mut self) -> (r: Option<Self::Item>)
            requires old(self).swf(),
            ensures
                final(self).swf(),
                r matches Some(x) ==> final(self).left() < old(self).left() && forall|rest: Seq<Self::Item>| #[trigger] final(self).may(rest) ==> old(self).may(seq![x] + rest),
                r is None ==> old(self).may(Seq::empty());
        /// everything, in order
        fn x_all(self) -> (r: Vec<Self::Item>)
            requires self.swf(),
            ensures self.may(r@),
        {
            let mut s = self;
            let mut v: Vec<Self::Item> = Vec::new();
            let ghost old = self;
            proof { assert forall|rest: Seq<Self::Item>| #[trigger] s.may(rest) implies old.may(v@ + rest) by { assert(v@ + rest =~= rest); } }
            loop
                invariant_except_break s.swf(), forall|rest: Seq<Self::Item>| #[trigger] s.may(rest) ==> old.may(v@ + rest),
                ensures old.may(v@),
                decreases s.left(),
            {
                let ghost before = s;
                match s.next() {
                    Some(x) => {
                        let ghost v0 = v@;
                        v.push(x);
                        proof {
                            assert forall|rest: Seq<Self::Item>| #[trigger] s.may(rest) implies old.may(v@ + rest) by {
                                assert(before.may(seq![x] + rest));
                                assert(v0 + (seq![x] + rest) =~= v@ + rest);
                            }
                        }
                    }
                    None => {
                        proof { assert(before.may(Seq::empty())); assert(v@ + Seq::<Self::Item>::empty() =~= v@); }
                        break;
                    }
                }
            }
            v
        }
    }
    /// `into_iter()` of a Vec is the Vec itself
    impl<T> XSource for Vec<T> {
        type Item = T;
        open spec fn swf(&self) -> bool { true }
        open spec fn may(&self, outs: Seq<T>) -> bool { outs == self@ }
        open spec fn left(&self) -> nat { self@.len() }
        fn next(&mut self) -> (r: Option<T>) {
            let ghost v = self@;
            if self.len() == 0 { proof { assert(v =~= Seq::empty()); } None } else {
                let x = self.remove(0);
                proof { assert(seq![x] + self@ =~= v); }
                Some(x)
            }
        }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(S)]
    pub struct Numbered<S> { s: S, n: usize }
    impl<S> Numbered<S> {
        pub uninterp spec fn inner(&self) -> S;
        pub uninterp spec fn at(&self) -> int;
    }
    pub open spec fn seconds<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }
    impl<S: XSource> XSource for Numbered<S> {
        type Item = (usize, S::Item);
        open spec fn swf(&self) -> bool { self.inner().swf() }
        open spec fn left(&self) -> nat { self.inner().left() }
        open spec fn may(&self, outs: Seq<(usize, S::Item)>) -> bool {
            self.inner().may(seconds(outs)) && (forall|i: int| 0 <= i < outs.len() ==> (#[trigger] outs[i]).0 == self.at() + i) && self.at() + outs.len() <= usize::MAX
        }
        #[verifier::external_body]
        fn next(&mut self) -> (r: Option<(usize, S::Item)>) { unimplemented!() }
    }

    pub trait XEnumerate: XSource {
        /// numbers the elements from 0 (the count does not overflow: assumed)
        fn enumerate(self) -> (r: Numbered<Self>)
            requires self.swf(),
            ensures r.swf(), r.inner() == self, r.at() == 0;
    }
    impl<S: XSource> XEnumerate for S {
        #[verifier::external_body]
        fn enumerate(self) -> (r: Numbered<Self>) { unimplemented!() }
    }

    pub trait XExtend<T> {
        spec fn all(&self) -> Seq<T>;
        fn x_extend(&mut self, more: Vec<T>)
            ensures final(self).all() == old(self).all() + more@;
    }
    impl<T> XExtend<T> for Vec<T> {
        open spec fn all(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn x_extend(&mut self, more: Vec<T>) { self.extend(more) }
    }

    /// `chunks(n)`: consecutive pieces of n elements, the last one possibly shorter
    pub open spec fn chunked<T>(c: Seq<&[T]>, s: Seq<T>, n: int) -> bool {
        &&& c.len() == (s.len() + n - 1) / n
        &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == s.subrange(n * i, if n * i + n <= s.len() { n * i + n } else { s.len() as int })
    }
    pub trait XChunks<T> {
        spec fn ch(&self) -> Seq<T>;
        fn x_chunks(&self, n: usize) -> (r: Vec<&[T]>)
            requires n > 0 || may_panic(),
            ensures n > 0, chunked(r@, self.ch(), n as int);
    }
    impl<T> XChunks<T> for [T] {
        open spec fn ch(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn x_chunks(&self, n: usize) -> (r: Vec<&[T]>)
        { self.chunks(n).collect() }
    }

    pub assume_specification<T> [core::mem::drop::<T>] (t: T);
    pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
        ensures final(s)@ == old(s)@.reverse();

    // ---- little-endian integers ---------------------------------------------------------------------------------
    #[verifier::external_body]
    pub fn x_u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
        ensures r as nat == crate::nums::le_val(b@, 256),
    { u16::from_le_bytes(b) }
    #[verifier::external_body]
    pub fn x_u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
        ensures r as nat == crate::nums::le_val(b@, 256),
    { u32::from_le_bytes(b) }
    #[verifier::external_body]
    pub fn x_i32_from_le_bytes(b: [u8; 4]) -> (r: i32)
        ensures r as u32 as nat == crate::nums::le_val(b@, 256),
    { i32::from_le_bytes(b) }
    #[verifier::external_body]
    pub fn x_u64_from_le_bytes(b: [u8; 8]) -> (r: u64)
        ensures r as nat == crate::nums::le_val(b@, 256),
    { u64::from_le_bytes(b) }
    pub trait XLe<const N: usize>: Sized {
        spec fn le(self) -> nat;
        fn x_to_le_bytes(self) -> (r: [u8; N])
            ensures r@ == crate::nums::le_fix(self.le(), N as nat);
    }
    impl XLe<4> for u32 {
        open spec fn le(self) -> nat { self as nat }
        #[verifier::external_body]
        fn x_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    }
    impl XLe<8> for u64 {
        open spec fn le(self) -> nat { self as nat }
        #[verifier::external_body]
        fn x_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    }

    // ---- errors: their text is not modelled ------------------------------------------------------------------
    /// crate::Error
    #[derive(Debug)]
    #[verifier::external_body]
    pub struct Error { pub opaque: () }
    impl Error {
        #[verifier::external_body]
        pub fn new<T>(message: T) -> Error { unimplemented!() }
    }
    /// Box<dyn std::error::Error>
    #[derive(Debug)]
    #[verifier::external_body]
    pub struct XError { pub opaque: () }
    impl From<Error> for XError {
        #[verifier::external_body]
        fn from(e: Error) -> XError { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<Error> for XError {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(e: Error) -> XError { arbitrary() }
    }
    impl XInto<XError> for Error {
        open spec fn into_spec(self, r: XError) -> bool { true }
        #[verifier::external_body]
        fn x_into(self) -> (r: XError) { unimplemented!() }
    }

    // ---- sha2 ---------------------------------------------------------------------------------------------------
    /// SHA-256, not interpreted
    pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
    pub broadcast axiom fn axiom_sha256_len(s: Seq<u8>)
        ensures #[trigger] sha256(s).len() == 32;
    pub open spec fn sha256d(s: Seq<u8>) -> Seq<u8> { sha256(sha256(s)) }
    #[verifier::external_body]
    pub struct U32 { pub opaque: () }
    pub type GenericArray<T, N> = <N as XSizeOf<T>>::Arr;
    pub trait XSizeOf<T> { type Arr; }
    impl XSizeOf<u8> for U32 { type Arr = [u8; 32]; }
    pub struct Sha256 { pub fed: Ghost<Seq<u8>> }
    impl Sha256 {
        pub closed spec fn fed(&self) -> Seq<u8> { self.fed@ }
        #[verifier::external_body]
        pub fn new() -> (r: Self)
            ensures r.fed() == Seq::<u8>::empty(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, b: impl XBytes)
            ensures final(self).fed() == old(self).fed() + b.xb(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: [u8; 32])
            ensures r@ == sha256(self.fed()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn digest(b: impl XBytes) -> (r: [u8; 32])
            ensures r@ == sha256(b.xb()),
        { unimplemented!() }
    }
    impl<const N: usize> XTryInto<[u8; N]> for [u8; N] {
        open spec fn conv(self) -> Option<[u8; N]> { Some(self) }
        fn x_try_into(self) -> (r: Result<[u8; N], XTryErr>) { Ok(self) }
    }

    // ---- equality ----------------------------------------------------------------------------------------------
    pub broadcast axiom fn axiom_array_eq<const N: usize>(a: [u8; N], b: [u8; N])
        ensures #[trigger] <[u8; N] as PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (a == b);
    pub broadcast axiom fn axiom_array_eq_ob<const N: usize>()
        ensures #[trigger] <[u8; N] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_slice_eq(a: &[u8], b: &[u8])
        ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
    pub broadcast axiom fn axiom_slice_eq_ob()
        ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();

    // ---- tokio's locks, taken by one task at a time -------------------------------------------------------------
    /// nobody else holds it, so it is had at once
    pub struct RwLock<T> { pub v: T }
    impl<T> RwLock<T> {
        pub fn new(v: T) -> (r: Self)
            ensures r.v == v,
        { RwLock { v } }
        pub fn read(&self) -> (r: &T)
            ensures *r == self.v,
        { &self.v }
        pub fn write(&mut self) -> (r: &mut T)
            ensures *r == old(self).v, final(self).v == *final(r),
        { &mut self.v }
    }
    pub struct Mutex<T> { pub v: T }
    /// somewhere in the history, a lock that was tried was found taken (callers see only the contract of `try_lock`)
    pub uninterp spec fn lock_taken() -> bool;
    impl<T> Mutex<T> {
        pub fn new(v: T) -> (r: Self)
            ensures r.v == v,
        { Mutex { v } }
        pub fn lock(&mut self) -> (r: &mut T)
            ensures *r == old(self).v, final(self).v == *final(r),
        { &mut self.v }
        pub fn try_lock(&self) -> (r: Result<(), ()>)
            ensures r is Ok || lock_taken(),
        { Ok(()) }
    }

    // ---- f64 --------------------------------------------------------------------------------------------------
    /// a finite f64; its operations are correctly rounded (IEEE 754), which is all that is assumed of them
    #[derive(Clone, Copy)]
    #[verifier::external_body]
    pub struct F64 { opaque: f64 }
    impl F64 {
        pub uninterp spec fn val(&self) -> real;
    }
    /// 2^53
    pub open spec fn ulps() -> real { 9007199254740992real }
    pub open spec fn absr(x: real) -> real { if x >= 0real { x } else { -x } }
    /// r is x, rounded: exact when x is an integer of at most 53 bits, otherwise off by at most one part in 2^53.
    /// (No claim outside the range of normal numbers.)
    pub open spec fn rounds_to(x: real, r: real) -> bool { absr(r - x) * ulps() <= absr(x) }
    pub trait XFloat {
        spec fn whole(self) -> int;
    }
    impl XFloat for u64 { open spec fn whole(self) -> int { self as int } }
    impl XFloat for u32 { open spec fn whole(self) -> int { self as int } }
    impl XFloat for usize { open spec fn whole(self) -> int { self as int } }
    #[verifier::external_body]
    pub fn x_f64<T: XFloat>(n: T) -> (r: F64)
        ensures
            0 <= n.whole() <= 0x20_0000_0000_0000 ==> r.val() == n.whole() as real,
            n.whole() >= 0 ==> rounds_to(n.whole() as real, r.val()),
    { unimplemented!() }
    impl vstd::std_specs::ops::DivSpecImpl for F64 {
        open spec fn obeys_div_spec() -> bool { false }
        open spec fn div_req(self, b: F64) -> bool { true }
        open spec fn div_spec(self, b: F64) -> F64 { arbitrary() }
    }
    impl core::ops::Div for F64 {
        type Output = F64;
        #[verifier::external_body]
        fn div(self, b: F64) -> (r: F64)
            ensures b.val() >= 1real && self.val() >= 0real && (self.val() == 0real || self.val() >= 1real) && b.val() <= ulps() && self.val() <= 18446744073709551616real ==> rounds_to(self.val() / b.val(), r.val()),
        { unimplemented!() }
    }
    impl vstd::std_specs::ops::MulSpecImpl for F64 {
        open spec fn obeys_mul_spec() -> bool { false }
        open spec fn mul_req(self, b: F64) -> bool { true }
        open spec fn mul_spec(self, b: F64) -> F64 { arbitrary() }
    }
    impl core::ops::Mul for F64 {
        type Output = F64;
        #[verifier::external_body]
        fn mul(self, b: F64) -> (r: F64)
            ensures self.val() >= 0real && b.val() >= 1real && b.val() <= ulps() && (self.val() == 0real || self.val() * ulps() >= 1real) && self.val() <= 18446744073709551616real ==> rounds_to(self.val() * b.val(), r.val()),
        { unimplemented!() }
    }

    // ---- text: numbers and parts ---------------------------------------------------------------------------------
    pub open spec fn is_decimal(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> '0' <= #[trigger] t[i] <= '9' }
    pub open spec fn decimal(t: Seq<char>) -> nat
        decreases t.len(),
    { if t.len() == 0 { 0 } else { (decimal(t.drop_last()) * 10 + (t.last() as u32 - 48)) as nat } }
    /// a decimal number, with or without a plus sign
    pub open spec fn number(t: Seq<char>) -> Option<nat> {
        let u = if t.len() > 0 && t[0] == '+' { t.skip(1) } else { t };
        if is_decimal(u) { Some(decimal(u)) } else { None }
    }
    /// the same with a minus sign
    pub open spec fn negative(t: Seq<char>) -> Option<nat> {
        if t.len() > 0 && t[0] == '-' && is_decimal(t.skip(1)) { Some(decimal(t.skip(1))) } else { None }
    }
    #[derive(Debug)]
    #[verifier::external_body]
    pub struct XParseErr { opaque: () }
    /// integer types and what their from_str reads
    pub trait XNumber: Sized {
        spec fn reads(t: Seq<char>) -> Option<int>;
        spec fn of(self) -> int;
    }
    pub open spec fn within(n: Option<nat>, top: nat) -> Option<int> { match n { Some(n) => if n <= top { Some(n as int) } else { None }, None => None } }
    pub open spec fn within_signed(t: Seq<char>, top: nat) -> Option<int> {
        match negative(t) { Some(n) => if n <= top + 1 { Some(-(n as int)) } else { None }, None => within(number(t), top) }
    }
    impl XNumber for usize { open spec fn reads(t: Seq<char>) -> Option<int> { within(number(t), usize::MAX as nat) } open spec fn of(self) -> int { self as int } }
    impl XNumber for u64 { open spec fn reads(t: Seq<char>) -> Option<int> { within(number(t), u64::MAX as nat) } open spec fn of(self) -> int { self as int } }
    impl XNumber for u32 { open spec fn reads(t: Seq<char>) -> Option<int> { within(number(t), u32::MAX as nat) } open spec fn of(self) -> int { self as int } }
    impl XNumber for u16 { open spec fn reads(t: Seq<char>) -> Option<int> { within(number(t), u16::MAX as nat) } open spec fn of(self) -> int { self as int } }
    impl XNumber for u8 { open spec fn reads(t: Seq<char>) -> Option<int> { within(number(t), u8::MAX as nat) } open spec fn of(self) -> int { self as int } }
    impl XNumber for isize { open spec fn reads(t: Seq<char>) -> Option<int> { within_signed(t, isize::MAX as nat) } open spec fn of(self) -> int { self as int } }
    impl XNumber for i64 { open spec fn reads(t: Seq<char>) -> Option<int> { within_signed(t, i64::MAX as nat) } open spec fn of(self) -> int { self as int } }
    impl XNumber for i32 { open spec fn reads(t: Seq<char>) -> Option<int> { within_signed(t, i32::MAX as nat) } open spec fn of(self) -> int { self as int } }
    /// the parts of a text between separators
    pub open spec fn split_at(t: Seq<char>, c: char) -> Seq<Seq<char>>
        decreases t.len(),
    {
        if !t.contains(c) { seq![t] } else {
            let i = t.index_of_first(c)->0;
            if 0 <= i < t.len() { seq![t.take(i)] + split_at(t.skip(i + 1), c) } else { seq![t] }
        }
    }
    /// what is before and after the first separator
    pub open spec fn cut_at(t: Seq<char>, c: char) -> Seq<Seq<char>> {
        if !t.contains(c) { seq![t] } else { let i = t.index_of_first(c)->0; seq![t.take(i), t.skip(i + 1)] }
    }
    // ---- parts of a text by positions in its bytes
    /// the bytes that a character takes
    pub open spec fn width(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
    /// where the character is in the bytes
    pub open spec fn offset_of(t: Seq<char>, k: int) -> int
        decreases k,
    { if k <= 0 { 0 } else { offset_of(t, k - 1) + width(t[k - 1]) } }
    pub proof fn lemma_offset(t: Seq<char>, i: int, j: int)
        requires 0 <= i <= j,
        ensures 0 <= offset_of(t, i), offset_of(t, i) + (j - i) <= offset_of(t, j),
        decreases j,
    { if j > 0 { if i < j { lemma_offset(t, i, j - 1); } else { lemma_offset(t, i - 1, j - 1); } } }
    pub open spec fn x_whole(t: Seq<char>, i: int, j: int, a: int, b: int) -> bool { 0 <= i <= j <= t.len() && offset_of(t, i) == a && offset_of(t, j) == b }
    /// &t[a..b]
    #[verifier::external_body]
    pub fn x_sub<'t>(t: &'t str, a: usize, b: usize) -> (r: &'t str)
        requires (exists|i: int, j: int| x_whole(t@, i, j, a as int, b as int)) || may_panic(),
        ensures forall|i: int, j: int| #[trigger] x_whole(t@, i, j, a as int, b as int) ==> r@ == t@.subrange(i, j),
    { unimplemented!() }
    /// &t[a..]
    #[verifier::external_body]
    pub fn x_sub_from<'t>(t: &'t str, a: usize) -> (r: &'t str)
        requires (exists|i: int| 0 <= i <= t@.len() && #[trigger] offset_of(t@, i) == a) || may_panic(),
        ensures forall|i: int| 0 <= i <= t@.len() && #[trigger] offset_of(t@, i) == a ==> r@ == t@.skip(i),
    { unimplemented!() }
    pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
    /// an iterator over parts
    #[verifier::external_body]
    pub struct XParts<'a> { opaque: &'a str }
    impl<'a> XParts<'a> {
        pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a str>)
            ensures
                r is Some <==> old(self).rest().len() > 0,
                r matches Some(t) ==> t@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                r is None ==> final(self).rest() == old(self).rest(),
        { unimplemented!() }
    }
    pub trait XStrings {
        spec fn chars_of(&self) -> Seq<char>;
        fn x_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>)
            ensures texts(r@) == split_at(self.chars_of(), c);
        /// with a limit of two
        fn x_splitn<'a>(&'a self, n: usize, c: char) -> (r: XParts<'a>)
            requires n == 2,
            ensures r.rest() == cut_at(self.chars_of(), c);
        fn x_parse<T: XNumber>(&self) -> (r: Result<T, XParseErr>)
            ensures r is Ok <==> T::reads(self.chars_of()) is Some, r matches Ok(n) ==> T::reads(self.chars_of()) == Some(n.of());
    }
    impl XStrings for str {
        open spec fn chars_of(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn x_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() }
        #[verifier::external_body]
        fn x_splitn<'a>(&'a self, n: usize, c: char) -> (r: XParts<'a>) { unimplemented!() }
        #[verifier::external_body]
        fn x_parse<T: XNumber>(&self) -> (r: Result<T, XParseErr>) { unimplemented!() }
    }
    impl XStrings for String {
        open spec fn chars_of(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn x_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() }
        #[verifier::external_body]
        fn x_splitn<'a>(&'a self, n: usize, c: char) -> (r: XParts<'a>) { unimplemented!() }
        #[verifier::external_body]
        fn x_parse<T: XNumber>(&self) -> (r: Result<T, XParseErr>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct XUtf8Err { opaque: () }
    /// the text that these bytes encode, if any
    pub uninterp spec fn from_utf8(b: Seq<u8>) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn x_from_utf8<'a>(b: &'a Vec<u8>) -> (r: Result<&'a str, XUtf8Err>)
        ensures r is Ok <==> from_utf8(b@) is Some, r matches Ok(t) ==> from_utf8(b@) == Some(t@) && utf8(t@) == b@,
    { unimplemented!() }
    impl XInto<String> for &str {
        open spec fn into_spec(self, r: String) -> bool { r@ == self@ }
        #[verifier::external_body]
        fn x_into(self) -> (r: String) { unimplemented!() }
    }
    impl XInto<String> for String {
        open spec fn into_spec(self, r: String) -> bool { r@ == self@ }
        fn x_into(self) -> (r: String) { self }
    }

    // ---- serde_json: values of a few shapes -----------------------------------------------------------------------
    pub enum J { Bool(bool), Num(int), Str(Seq<u8>), Strs(Seq<Seq<u8>>), Float(F64), List(Seq<J>), Obj(Map<Seq<char>, J>), Other }
    #[verifier::external_body]
    pub struct Value { opaque: () }
    impl Value {
        pub uninterp spec fn j(&self) -> J;
    }
    #[verifier::external_body]
    pub struct JsonError { opaque: () }
    #[verifier::external]
    impl std::fmt::Debug for JsonError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    pub trait XJson {
        spec fn xj(&self) -> J;
    }
    impl XJson for bool { open spec fn xj(&self) -> J { J::Bool(*self) } }
    impl XJson for usize { open spec fn xj(&self) -> J { J::Num(*self as int) } }
    impl XJson for u64 { open spec fn xj(&self) -> J { J::Num(*self as int) } }
    impl XJson for u32 { open spec fn xj(&self) -> J { J::Num(*self as int) } }
    impl XJson for i32 { open spec fn xj(&self) -> J { J::Num(*self as int) } }
    impl XJson for String { open spec fn xj(&self) -> J { J::Str(utf8(self@)) } }
    impl XJson for &str { open spec fn xj(&self) -> J { J::Str(utf8(self@)) } }
    impl XJson for F64 { open spec fn xj(&self) -> J { J::Float(*self) } }
    impl XJson for Value { open spec fn xj(&self) -> J { self.j() } }
    impl XJson for Vec<Value> { open spec fn xj(&self) -> J { J::List(js(self@)) } }
    impl XJson for Vec<String> { open spec fn xj(&self) -> J { J::Strs(self@.map_values(|x: String| utf8(x@))) } }
    pub open spec fn js(v: Seq<Value>) -> Seq<J> { v.map_values(|x: Value| x.j()) }
    /// the elements of an array
    pub open spec fn items(j: J) -> Option<Seq<J>> {
        match j { J::List(l) => Some(l), J::Strs(l) => Some(l.map_values(|x: Seq<u8>| J::Str(x))), _ => None }
    }
    /// `json!({ .. })`: of equal names the last one counts
    #[verifier::external_body]
    pub fn x_members() -> (r: Value)
        ensures r.j() == J::Obj(Map::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn x_member(o: Value, name: &str, v: Value) -> (r: Value)
        ensures o.j() matches J::Obj(m) ==> r.j() == J::Obj(m.insert(name@, v.j())),
    { unimplemented!() }
    /// the text of a JSON value
    pub uninterp spec fn printed(j: J) -> Seq<char>;
    /// the JSON value a text spells, if any
    pub uninterp spec fn spelled(t: Seq<char>) -> Option<J>;
    impl Value {
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String)
            ensures r@ == printed(self.j()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
            ensures
                r is Some <==> items(self.j()) is Some,
                r matches Some(v) ==> items(self.j()) == Some(js(v@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: Option<&str>)
            ensures r is Some <==> self.j() is Str, r matches Some(t) ==> self.j() == J::Str(utf8(t@)),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn from_str(t: &str) -> (r: Result<Value, JsonError>)
        ensures r is Ok <==> spelled(t@) is Some, r matches Ok(v) ==> spelled(t@) == Some(v.j()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn x_json<T: XJson>(t: T) -> (r: Value)
        ensures r.j() == t.xj(),
    { unimplemented!() }
    pub trait XFromJson: Sized {
        spec fn xfits(j: J) -> bool;
        spec fn xis(&self, j: J) -> bool;
    }
    impl XFromJson for String {
        open spec fn xfits(j: J) -> bool { j is Str }
        open spec fn xis(&self, j: J) -> bool { j matches J::Str(s) && s == utf8(self@) }
    }
    impl XFromJson for Vec<String> {
        open spec fn xfits(j: J) -> bool { j is Strs }
        open spec fn xis(&self, j: J) -> bool { j matches J::Strs(s) && s == self@.map_values(|x: String| utf8(x@)) }
    }
    #[verifier::external_body]
    pub fn from_value<T: XFromJson>(v: Value) -> (r: Result<T, JsonError>)
        ensures r is Ok <==> T::xfits(v.j()), r matches Ok(t) ==> t.xis(v.j()),
    { unimplemented!() }

    // ---- keys of hash maps ---------------------------------------------------------------------------------------
    /// implemented by the extractor for types whose Hash, PartialEq and Eq are all derived
    pub trait XKey {}
    impl XKey for [u8; 32] {}
    pub axiom fn axiom_key<K: XKey>()
        ensures vstd::std_specs::hash::obeys_key_model::<K>();

    // ---- std::collections::HashMap: what vstd does not specify ------------------------------------------------------
    pub assume_specification<K, V, S> [std::collections::HashMap::<K, V, S>::with_hasher] (h: S) -> (r: std::collections::HashMap<K, V, S>)
        ensures r@ == Map::<K, V>::empty();
    pub assume_specification<K, V, S> [std::collections::HashMap::<K, V, S>::with_capacity_and_hasher] (c: usize, h: S) -> (r: std::collections::HashMap<K, V, S>)
        ensures r@ == Map::<K, V>::empty();
    /// the two maps differ at most in what `k` maps to
    pub open spec fn same_but<K, V, Q: ?Sized>(a: Map<K, V>, b: Map<K, V>, k: &Q) -> bool {
        exists|mid: Map<K, V>| vstd::std_specs::hash::borrowed_key_removed(a, mid, k) && #[trigger] vstd::std_specs::hash::borrowed_key_removed(b, mid, k)
    }
    pub broadcast proof fn lemma_same_but<K, V>(a: Map<K, V>, b: Map<K, V>, k: &K)
        requires #[trigger] same_but(a, b, k), a.contains_key(*k), b.contains_key(*k),
        ensures b == a.insert(*k, b[*k]),
    {
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        assert(a.remove(*k) == b.remove(*k));
        assert forall|x: K| #[trigger] a.contains_key(x) == b.contains_key(x) && (x != *k && a.contains_key(x) ==> a[x] == b[x]) by {
            assert(a.remove(*k).contains_key(x) == b.remove(*k).contains_key(x));
            if x != *k && a.contains_key(x) { assert(a.remove(*k)[x] == b.remove(*k)[x]); }
        }
        assert(b =~= a.insert(*k, b[*k]));
    }
    pub assume_specification<'a, K: core::cmp::Eq + core::hash::Hash + core::borrow::Borrow<Q>, V, S: core::hash::BuildHasher, A: core::alloc::Allocator, Q: core::cmp::Eq + core::hash::Hash + ?Sized>
        [std::collections::HashMap::<K, V, S, A>::get_mut] (m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: Option<&'a mut V>)
        ensures
            vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> match r {
                Some(v) =>
                    vstd::std_specs::hash::maps_borrowed_key_to_value((*old(m))@, k, *v)
                    && vstd::std_specs::hash::maps_borrowed_key_to_value((*final(m))@, k, *final(v))
                    && same_but((*old(m))@, (*final(m))@, k),
                None => !vstd::std_specs::hash::contains_borrowed_key((*old(m))@, k) && (*final(m))@ == (*old(m))@,
            };

    // ---- the question mark operator converts the error with From ---------------------------------------------
    pub broadcast axiom fn axiom_question_mark<S, T: core::convert::From<S>>(v: S, r: T)
        requires #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(v, r),
        ensures <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec() ==> r == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(v);

    pub broadcast group shim_axioms {
        axiom_shown_string,
        axiom_string_to_string,
        axiom_shown_str,
        axiom_shown_ref,
        lemma_cloned_bytes,
        axiom_question_mark,
        axiom_sha256_len,
        axiom_arr,
        axiom_arr_view,
        axiom_array_eq,
        axiom_array_eq_ob,
        axiom_slice_eq,
        axiom_slice_eq_ob,
    }
    }
} // mod shim

// =====================================================================================================
// Mathematical definitions and proved lemmas about positional numerals.
// =====================================================================================================
pub mod nums {
    use vstd::prelude::*;
    use vstd::arithmetic::mul::*;
    use vstd::arithmetic::div_mod::*;
    verus! {

    pub open spec fn pw(b: nat, n: nat) -> nat
        decreases n,
    { if n == 0 { 1 } else { b * pw(b, (n - 1) as nat) } }

    /// value of a little-endian digit sequence
    pub open spec fn le_val(s: Seq<u8>, b: nat) -> nat
        decreases s.len(),
    { if s.len() == 0 { 0 } else { s[0] as nat + b * le_val(s.drop_first(), b) } }

    /// value of a big-endian digit sequence
    pub open spec fn be_val(s: Seq<u8>, b: nat) -> nat
        decreases s.len(),
    { if s.len() == 0 { 0 } else { be_val(s.drop_last(), b) * b + s.last() as nat } }

    /// the shortest little-endian numeral of `v` in base `b` (2 <= b <= 256)
    pub open spec fn le_digits(v: nat, b: nat) -> Seq<u8>
        decreases v,
    {
        if v == 0 || b < 2 { Seq::empty() } else { seq![(v % b) as u8] + le_digits(smaller(v / b, v), b) }
    }
    pub open spec fn smaller(x: nat, v: nat) -> nat { if x < v { x } else { 0 } }

    /// `v` in exactly n little-endian bytes
    pub open spec fn le_fix(v: nat, n: nat) -> Seq<u8>
        decreases n,
    { if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_fix(v / 256, (n - 1) as nat) } }

    pub proof fn lemma_le_fix(v: nat, n: nat)
        requires v < pw(256, n),
        ensures le_val(le_fix(v, n), 256) == v, le_fix(v, n).len() == n,
        decreases n,
    {
        if n > 0 {
            let p = pw(256, (n - 1) as nat);
            assert(v / 256 < p) by(nonlinear_arith) requires v < 256 * p;
            lemma_le_fix(v / 256, (n - 1) as nat);
            assert(le_fix(v, n).drop_first() =~= le_fix(v / 256, (n - 1) as nat));
            lemma_fundamental_div_mod(v as int, 256);
        }
    }
    pub proof fn lemma_le_fix_all(v32: u32, v64: u64)
        ensures
            le_val(le_fix(v32 as nat, 4), 256) == v32, le_fix(v32 as nat, 4).len() == 4,
            le_val(le_fix(v64 as nat, 8), 256) == v64, le_fix(v64 as nat, 8).len() == 8,
    {
        assert(pw(256, 4) == 0x1_0000_0000) by(compute_only);
        assert(pw(256, 8) == 0x1_0000_0000_0000_0000) by(compute_only);
        lemma_le_fix(v32 as nat, 4);
        lemma_le_fix(v64 as nat, 8);
    }

    pub open spec fn digits_ok(s: Seq<u8>, b: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < b }

    pub open spec fn canonical(s: Seq<u8>, b: nat) -> bool { digits_ok(s, b) && (s.len() > 0 ==> s[s.len() - 1] != 0) }

    pub proof fn lemma_pw_pos(b: nat, n: nat)
        requires b > 0,
        ensures pw(b, n) > 0,
        decreases n,
    { if n > 0 { lemma_pw_pos(b, (n - 1) as nat); assert(b * pw(b, (n - 1) as nat) > 0) by(nonlinear_arith) requires b > 0, pw(b, (n - 1) as nat) > 0; } }

    pub proof fn lemma_le_push(s: Seq<u8>, d: u8, b: nat)
        ensures le_val(s.push(d), b) == le_val(s, b) + d as nat * pw(b, s.len()),
        decreases s.len(),
    {
        if s.len() == 0 {
            assert(s.push(d).drop_first() =~= Seq::<u8>::empty());
            assert(b * le_val(Seq::<u8>::empty(), b) == 0) by(nonlinear_arith) requires le_val(Seq::<u8>::empty(), b) == 0;
            assert(d as nat * 1 == d as nat) by(nonlinear_arith);
        } else {
            assert(s.push(d).drop_first() =~= s.drop_first().push(d));
            lemma_le_push(s.drop_first(), d, b);
            let x = le_val(s.drop_first(), b);
            let p = pw(b, (s.len() - 1) as nat);
            assert(b * (x + d as nat * p) == b * x + d as nat * (b * p)) by(nonlinear_arith);
        }
    }

    pub proof fn lemma_le_bound(s: Seq<u8>, b: nat)
        requires digits_ok(s, b), b > 0,
        ensures le_val(s, b) < pw(b, s.len()),
        decreases s.len(),
    {
        if s.len() > 0 {
            let t = s.drop_first();
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < b by { assert(t[i] == s[i + 1]); }
            lemma_le_bound(t, b);
            let x = le_val(t, b);
            let p = pw(b, t.len());
            assert(s[0] as nat + b * x < b * p) by(nonlinear_arith) requires s[0] < b, x + 1 <= p;
        }
    }

    /// canonical numerals are unique
    pub proof fn lemma_canonical(s: Seq<u8>, b: nat)
        requires canonical(s, b), 2 <= b <= 256,
        ensures s == le_digits(le_val(s, b), b), s.len() > 0 ==> le_val(s, b) > 0,
        decreases s.len(),
    {
        if s.len() > 0 {
            let t = s.drop_first();
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < b by { assert(t[i] == s[i + 1]); }
            if t.len() > 0 { assert(t[t.len() - 1] == s[s.len() - 1]); }
            lemma_canonical(t, b);
            let x = le_val(t, b);
            let v = le_val(s, b);
            assert(v == s[0] as nat + b * x);
            if t.len() > 0 {
                assert(b * x > 0) by(nonlinear_arith) requires b > 0, x > 0;
            } else {
                assert(s[0] != 0);
            }
            assert(v > 0);
            assert(b * x == x * b) by(nonlinear_arith);
            lemma_fundamental_div_mod_converse(v as int, b as int, x as int, s[0] as int);
            assert(v / b == x);
            assert(v % b == s[0]);
            assert(x < v) by(nonlinear_arith) requires v == s[0] as nat + b * x, b >= 2, v > 0;
            assert(s =~= seq![s[0]] + t);
            assert(le_digits(v, b) == seq![(v % b) as u8] + le_digits(smaller(v / b, v), b));
        }
    }

    pub proof fn lemma_digits(v: nat, b: nat)
        requires 2 <= b <= 256,
        ensures canonical(le_digits(v, b), b), le_val(le_digits(v, b), b) == v,
        decreases v,
    {
        if v > 0 {
            lemma_div_decreases(v as int, b as int);
            lemma_fundamental_div_mod(v as int, b as int);
            let q = v / b;
            lemma_digits(q, b);
            let t = le_digits(q, b);
            let d = (v % b) as u8;
            let s = seq![d] + t;
            assert(s.drop_first() =~= t);
            lemma_mod_bound(v as int, b as int);
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) < b by { if i > 0 { assert(s[i] == t[i - 1]); } }
            if t.len() > 0 {
                assert(s[s.len() - 1] == t[t.len() - 1]);
            } else {
                if q > 0 { assert(le_val(t, b) == 0); assert(false); }
                assert(b * q == 0) by(nonlinear_arith) requires q == 0;
                assert(d != 0);
            }
        }
    }

    /// length of the shortest numeral: below b^n it has at most n digits
    pub proof fn lemma_digits_len(v: nat, b: nat, n: nat)
        requires 2 <= b <= 256, v < pw(b, n),
        ensures le_digits(v, b).len() <= n,
        decreases n,
    {
        if v > 0 {
            if n == 0 { assert(false); }
            lemma_div_decreases(v as int, b as int);
            lemma_fundamental_div_mod(v as int, b as int);
            lemma_mod_bound(v as int, b as int);
            let q = v / b;
            let p = pw(b, (n - 1) as nat);
            assert(q < p) by(nonlinear_arith) requires b * q <= v, v < b * p, b > 0;
            lemma_digits_len(q, b, (n - 1) as nat);
        }
    }

    /// ... and from b^n on it has more than n digits
    pub proof fn lemma_digits_len_min(v: nat, b: nat, n: nat)
        requires 2 <= b <= 256, v >= pw(b, n),
        ensures le_digits(v, b).len() > n,
    {
        lemma_digits(v, b);
        let s = le_digits(v, b);
        lemma_le_bound(s, b);
        if s.len() <= n { lemma_pw_mono(b, s.len(), n); }
    }

    pub proof fn lemma_pw_mono(b: nat, m: nat, n: nat)
        requires b > 0, m <= n,
        ensures pw(b, m) <= pw(b, n),
        decreases n,
    {
        if m < n {
            lemma_pw_mono(b, m, (n - 1) as nat);
            let p = pw(b, (n - 1) as nat);
            assert(p <= b * p) by(nonlinear_arith) requires b > 0;
        }
    }

    /// a digit sequence whose value is at least b^(len-1) does not end in zero
    pub proof fn lemma_top_digit(s: Seq<u8>, b: nat)
        requires s.len() > 0, digits_ok(s, b), b > 0, le_val(s, b) >= pw(b, (s.len() - 1) as nat),
        ensures s[s.len() - 1] != 0,
    {
        let n = (s.len() - 1) as nat;
        if s[s.len() - 1] == 0 {
            let t = s.drop_last();
            assert(t.push(0u8) =~= s);
            lemma_le_push(t, 0u8, b);
            assert(0 * pw(b, n) == 0) by(nonlinear_arith);
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < b by { assert(t[i] == s[i]); }
            lemma_le_bound(t, b);
        }
    }

    /// a canonical numeral of n > 0 digits is at least b^(n-1)
    pub proof fn lemma_le_min(s: Seq<u8>, b: nat)
        requires s.len() > 0, s[s.len() - 1] != 0, b > 0,
        ensures le_val(s, b) >= pw(b, (s.len() - 1) as nat),
    {
        let t = s.drop_last();
        let d = s[s.len() - 1];
        assert(t.push(d) =~= s);
        lemma_le_push(t, d, b);
        let p = pw(b, t.len());
        assert(d as nat * p >= p) by(nonlinear_arith) requires d >= 1;
    }

    pub proof fn lemma_be_le(s: Seq<u8>, b: nat)
        ensures be_val(s, b) == le_val(s.reverse(), b),
        decreases s.len(),
    {
        if s.len() > 0 {
            let r = s.reverse();
            assert(r.drop_first() =~= s.drop_last().reverse());
            assert(r[0] == s.last());
            lemma_be_le(s.drop_last(), b);
            let x = be_val(s.drop_last(), b);
            assert(x * b == b * x) by(nonlinear_arith);
        }
    }

    pub proof fn lemma_be_prefix_zeros(n: nat, s: Seq<u8>, b: nat)
        ensures be_val(zeros(n) + s, b) == be_val(s, b),
        decreases n + s.len(),
    {
        let z = zeros(n) + s;
        if s.len() > 0 {
            assert(z.drop_last() =~= zeros(n) + s.drop_last());
            lemma_be_prefix_zeros(n, s.drop_last(), b);
        } else if n > 0 {
            assert(z.drop_last() =~= zeros((n - 1) as nat) + s);
            lemma_be_prefix_zeros((n - 1) as nat, s, b);
            assert(0 * b == 0) by(nonlinear_arith);
        } else {
            assert(z =~= s);
        }
    }

    pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }

    /// number of leading elements equal to z
    pub open spec fn leading(s: Seq<u8>, z: u8) -> nat
        decreases s.len(),
    { if s.len() == 0 || s[0] != z { 0 } else { 1 + leading(s.drop_first(), z) } }

    pub proof fn lemma_leading(s: Seq<u8>, z: u8, n: nat)
        requires n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] == z, n < s.len() ==> s[n as int] != z,
        ensures leading(s, z) == n,
        decreases n,
    {
        if n > 0 {
            let t = s.drop_first();
            assert forall|i: int| 0 <= i < n - 1 implies t[i] == z by { assert(t[i] == s[i + 1]); }
            if n < s.len() { assert(t[n - 1] == s[n as int]); }
            lemma_leading(t, z, (n - 1) as nat);
        }
    }

    pub proof fn lemma_leading_props(s: Seq<u8>, z: u8)
        ensures leading(s, z) <= s.len(), forall|i: int| 0 <= i < leading(s, z) ==> s[i] == z, leading(s, z) < s.len() ==> s[leading(s, z) as int] != z,
        decreases s.len(),
    {
        if s.len() > 0 && s[0] == z {
            let t = s.drop_first();
            lemma_leading_props(t, z);
            let n = leading(t, z);
            assert forall|i: int| 0 <= i < n + 1 implies s[i] == z by { if i > 0 { assert(t[i - 1] == s[i]); } }
            if n + 1 < s.len() { assert(t[n as int] == s[n as int + 1]); }
        }
    }

    pub proof fn lemma_be_take(s: Seq<u8>, k: int, b: nat)
        requires 0 <= k < s.len(),
        ensures be_val(s.take(k + 1), b) == be_val(s.take(k), b) * b + s[k] as nat,
    {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
    }
    pub proof fn lemma_le_take(s: Seq<u8>, k: int, b: nat)
        requires 0 <= k < s.len(),
        ensures le_val(s.take(k + 1), b) == le_val(s.take(k), b) + s[k] as nat * pw(b, k as nat),
    {
        assert(s.take(k + 1) =~= s.take(k).push(s[k]));
        lemma_le_push(s.take(k), s[k], b);
    }
    pub proof fn lemma_be_mono(s: Seq<u8>, k: int, b: nat)
        requires 0 <= k <= s.len(), b > 0,
        ensures be_val(s.take(k), b) <= be_val(s, b),
        decreases s.len() - k,
    {
        if k < s.len() {
            lemma_be_mono(s, k + 1, b);
            lemma_be_take(s, k, b);
            let x = be_val(s.take(k), b);
            assert(x * b >= x) by(nonlinear_arith) requires b > 0;
        } else {
            assert(s.take(k) =~= s);
        }
    }
    /// one step of multiply-and-add over a little-endian numeral
    pub proof fn lemma_muladd(x: nat, carry: nat, y: nat, m: nat, c: nat, d: nat, p: nat, b: nat)
        requires x + carry * p == y * m + c, b > 0,
        ensures (x + ((carry + d * m) % b) * p) + ((carry + d * m) / b) * (b * p) == (y + d * p) * m + c,
    {
        let t = carry + d * m;
        lemma_fundamental_div_mod(t as int, b as int);
        let q = t / b;
        let r = t % b;
        assert(q * (b * p) + r * p == t * p) by(nonlinear_arith) requires t == b * q + r;
        assert(t * p == carry * p + (d * p) * m) by(nonlinear_arith) requires t == carry + d * m;
        assert((y + d * p) * m == y * m + (d * p) * m) by(nonlinear_arith);
    }
    pub proof fn lemma_carry(x: nat, carry: nat, p: nat, b: nat)
        requires b > 0,
        ensures (x + (carry % b) * p) + (carry / b) * (b * p) == x + carry * p,
    {
        lemma_fundamental_div_mod(carry as int, b as int);
        let q = carry / b;
        let r = carry % b;
        assert(q * (b * p) + r * p == carry * p) by(nonlinear_arith) requires carry == b * q + r;
    }

    pub proof fn lemma_pw_add(b: nat, m: nat, n: nat)
        ensures pw(b, m + n) == pw(b, m) * pw(b, n),
        decreases m,
    {
        if m == 0 {
            assert(1 * pw(b, n) == pw(b, n)) by(nonlinear_arith);
        } else {
            lemma_pw_add(b, (m - 1) as nat, n);
            let (x, y) = (pw(b, (m - 1) as nat), pw(b, n));
            assert(b * (x * y) == (b * x) * y) by(nonlinear_arith);
        }
    }
    /// 256^n <= 58^(8n/5+1): the buffer allocated for Base58 text is large enough
    pub proof fn lemma_58_room(n: nat)
        ensures pw(256, n) <= pw(58, (n * 8) / 5 + 1),
        decreases n,
    {
        if n < 5 {
            assert(pw(256, 0) <= pw(58, 1)) by(compute_only);
            assert(pw(256, 1) <= pw(58, 2)) by(compute_only);
            assert(pw(256, 2) <= pw(58, 4)) by(compute_only);
            assert(pw(256, 3) <= pw(58, 5)) by(compute_only);
            assert(pw(256, 4) <= pw(58, 7)) by(compute_only);
        } else {
            let m = (n - 5) as nat;
            lemma_58_room(m);
            lemma_pw_add(256, 5, m);
            lemma_pw_add(58, 8, ((m * 8) / 5 + 1) as nat);
            assert(pw(256, 5) <= pw(58, 8)) by(compute_only);
            assert((n * 8) / 5 + 1 == 8 + ((m * 8) / 5 + 1));
            let (a, b, c, d) = (pw(256, 5), pw(58, 8), pw(256, m), pw(58, ((m * 8) / 5 + 1) as nat));
            assert(a * c <= b * d) by(nonlinear_arith) requires a <= b, c <= d;
        }
    }
    pub proof fn lemma_be_bound(s: Seq<u8>, b: nat)
        requires digits_ok(s, b), b > 0,
        ensures be_val(s, b) < pw(b, s.len()),
    {
        lemma_be_le(s, b);
        let r = s.reverse();
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) < b by { assert(r[i] == s[s.len() - 1 - i]); }
        lemma_le_bound(r, b);
    }

    /// the numeral of a string in another base: leading zeros kept one for one, then the shortest numeral
    pub open spec fn rebase(s: Seq<u8>, from: nat, to: nat) -> Seq<u8> {
        zeros(leading(s, 0u8)) + le_digits(be_val(s, from), to).reverse()
    }

    /// a big-endian string is its leading zeros followed by the shortest numeral of its value
    pub proof fn lemma_split(s: Seq<u8>, b: nat)
        requires 2 <= b <= 256, digits_ok(s, b),
        ensures s == zeros(leading(s, 0u8)) + le_digits(be_val(s, b), b).reverse(),
    {
        lemma_leading_props(s, 0u8);
        let n = leading(s, 0u8);
        let t = s.subrange(n as int, s.len() as int);
        assert(s =~= zeros(n) + t);
        lemma_be_prefix_zeros(n, t, b);
        lemma_be_le(t, b);
        let r = t.reverse();
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) < b by { assert(r[i] == t[t.len() - 1 - i]); assert(t[t.len() - 1 - i] == s[n + (t.len() - 1 - i)]); }
        if r.len() > 0 { assert(r[r.len() - 1] == t[0]); assert(t[0] == s[n as int]); }
        lemma_canonical(r, b);
        assert(r.reverse() =~= t);
    }

    pub proof fn lemma_rebase_58_len(s: Seq<u8>)
        ensures rebase(s, 256, 58).len() <= (s.len() * 8) / 5 + 1,
    {
        lemma_leading_props(s, 0u8);
        let z = leading(s, 0u8);
        let t = s.subrange(z as int, s.len() as int);
        assert(s =~= zeros(z) + t);
        lemma_be_prefix_zeros(z, t, 256);
        lemma_be_bound(t, 256);
        lemma_58_room(t.len());
        lemma_digits_len(be_val(t, 256), 58, (t.len() * 8) / 5 + 1);
    }

    /// re-basing there and back is the identity
    pub proof fn lemma_rebase_inverse(s: Seq<u8>, a: nat, b: nat)
        requires 2 <= a <= 256, 2 <= b <= 256, digits_ok(s, a),
        ensures rebase(rebase(s, a, b), b, a) == s, digits_ok(rebase(s, a, b), b),
    {
        let n = leading(s, 0u8);
        let v = be_val(s, a);
        let d = le_digits(v, b).reverse();
        let t = zeros(n) + d;
        lemma_digits(v, b);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < b by {
            if i >= n { assert(t[i] == d[i - n]); assert(d[i - n] == le_digits(v, b)[le_digits(v, b).len() - 1 - (i - n)]); }
        }
        if d.len() > 0 { assert(t[n as int] == d[0]); assert(d[0] == le_digits(v, b)[le_digits(v, b).len() - 1]); }
        lemma_leading(t, 0u8, n);
        lemma_be_prefix_zeros(n, d, b);
        lemma_be_le(d, b);
        assert(d.reverse() =~= le_digits(v, b));
        lemma_split(s, a);
    }
    }
} // mod nums

pub mod serde_json { pub use crate::shim::{from_str, from_value, Value}; }
#[allow(unused_imports)] pub use shim::Error;
#[allow(unused_imports)] pub use address::Address;
#[allow(unused_imports)] pub use buffer_writer::BufferWriter;
#[allow(unused_imports)] pub use hashing_buffer_reader::{Hasher, HashingBufferReader};
#[allow(unused_imports)] pub use transaction::Transaction;
#[allow(unused_imports)] pub use transaction_output::TransactionOutput;
#[allow(unused_imports)] pub use block::{iterate_transactions, Block, BlockHeader, BlockTrait};
#[allow(unused_imports)] pub use hashmap::{AddressHashMap, TransactionOutputHashMap};
#[allow(unused_imports)] pub use store::{AugmentedStore, AugmentedTransactionStore, IndexedStore, IndexedTransactionStoreBackend, IntermediaryStore, ReadonlyAugmentedTransactionStoreBackend, ReadonlyTransactionStore, ReadonlyTransactionStoreBackendTrait, Store, TransactionStore, TransactionStoreAugmentation, TransactionStoreBackendTrait};
#[allow(unused_imports)] pub use batcher::Batcher;
#[allow(unused_imports)] pub use client::Client;
#[allow(unused_imports)] pub use last_blocks::LastBlocks;
#[allow(unused_imports)] pub use state::State;
#[allow(unused_imports)] pub use server::Server;
#[allow(unused_imports)] pub use sequential_thread_pool::SequentialThreadPool;
#[allow(unused_imports)] pub use thread_pool::ThreadPool;

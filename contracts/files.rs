// ---------------------------------------------------------------- files (stand-ins; assumed contracts)
pub struct Path { x: u8 }
pub trait AsRef<T> {}
/// characters of the file at a path
pub uninterp spec fn file_text<A>(p: A) -> Seq<char>;
#[verifier::external_body]
pub struct File { x: u8 }
/// what is left to be read
pub uninterp spec fn file_rest(f: File) -> Seq<char>;
impl File {
    #[verifier::external_body]
    pub fn open<A>(p: A) -> (r: Result<File, VIoError>) ensures r matches Ok(f) ==> file_rest(f) == file_text(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize, VIoError>)
        ensures r is Ok ==> final(s)@ == old(s)@ + file_rest(*old(self)) && blen(final(s)@) <= isize::MAX && src_ok(final(s)@), file_rest(*final(self)) == Seq::<char>::empty()
    { unimplemented!() }
}
/// data is the meta data of one text under the syntax that another text describes
pub open spec fn data_of(data: Seq<MD>, st: Seq<char>, dt: Seq<char>) -> bool { exists|s: Syntax| #[trigger] loaded(s, st) && accepted(s.rules@, dt, data) }

// ---------------------------------------------------------------- standard streams and announced panics (stand-ins; assumed contracts)
/// a standard stream
pub struct VStream { x: u8 }
pub uninterp spec fn stream_out(f: VStream) -> Seq<char>;
pub uninterp spec fn stream_failed(f: VStream) -> Option<VIoError>;
impl VWrite for VStream {
    open spec fn out(&self) -> Seq<char> { stream_out(*self) }
    open spec fn failed(&self) -> Option<VIoError> { stream_failed(*self) }
    open spec fn can_fail() -> bool { true }
    #[verifier::external_body]
    fn w_char(&mut self, c: char) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_lit(&mut self, t: &str) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_disp<T: VDisp + ?Sized>(&mut self, t: &T) -> (r: Result<(), VIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn w_fmt<T: VFmt>(&mut self, f: &str, t: &T) -> (r: Result<(), VIoError>) { unimplemented!() }
}
#[verifier::external_body]
pub fn stderr() -> VStream { unimplemented!() }
#[verifier::external_body]
pub fn stdout() -> VStream { unimplemented!() }
/// a panic that the documentation of the function announces: nothing after it is reached
#[verifier::external_body]
pub fn vp_stop() -> ! ensures false { unimplemented!() }
pub trait VOrStop { type Out; spec fn stop_val(self) -> Option<Self::Out>; fn vp_or_stop(self) -> (r: Self::Out) ensures self.stop_val() == Some(r); }
impl<T, E> VOrStop for Result<T, E> {
    type Out = T;
    open spec fn stop_val(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body]
    fn vp_or_stop(self) -> (r: T) { unimplemented!() }
}

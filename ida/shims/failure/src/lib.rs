//! Stand-in for the part of the failure crate which the integrator sources use.
use std::any::Any;
use std::fmt::{self, Debug, Display};
pub use failure_derive::Fail;

pub trait Fail: Display + Debug + Any + Send + Sync + 'static {
    fn name(&self) -> Option<&str> { None }
    fn cause(&self) -> Option<&dyn Fail> { None }
}
pub type Fallible<T> = Result<T, Error>;

pub struct Error {
    inner: Box<dyn Any + Send + Sync>,
    text: String,
    debug: String,
}
#[derive(Debug)]
pub struct Message(pub String);
impl Display for Message {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) }
}
impl Fail for Message {}

impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Self { Error { text: f.to_string(), debug: format!("{:?}", f), inner: Box::new(f) } }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.debug) }
}
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text) }
}
impl Error {
    pub fn downcast<T: Fail>(self) -> Result<T, Error> {
        let Error { inner, text, debug } = self;
        inner.downcast::<T>().map(|b| *b).map_err(|inner| Error { inner, text, debug })
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> { self.inner.downcast_ref::<T>() }
    pub fn downcast_mut<T: Fail>(&mut self) -> Option<&mut T> { self.inner.downcast_mut::<T>() }
    pub fn as_fail(&self) -> &dyn Debug { self }
    pub fn msg(s: String) -> Error { Message(s).into() }
}
pub fn err_msg<D: Display>(d: D) -> Error { Error::msg(d.to_string()) }
#[macro_export]
macro_rules! format_err {
    ($($t:tt)*) => { $crate::Error::msg(format!($($t)*)) };
}
#[macro_export]
macro_rules! bail {
    ($e:expr) => { return Err($crate::err_msg($e)) };
    ($f:expr, $($t:tt)+) => { return Err($crate::err_msg(format!($f, $($t)+))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => { if !$c { $crate::bail!($($t)+) } };
}

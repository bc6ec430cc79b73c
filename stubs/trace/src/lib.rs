//! Stand-in for the logging half of common/trace: every log call evaluates nothing.
#[macro_export] macro_rules! __nolog { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! logargs { ($f:literal $(, $a:expr)* $(,)?) => {{ $( let _ = || { let _ = &$a; }; )* }}; ($($t:tt)*) => {{}} }
pub use logargs as debug; pub use logargs as info; pub use logargs as warn; pub use logargs as error;
#[macro_export] macro_rules! __trace { ($($t:tt)*) => {{}} }
pub use __trace as trace;

#[derive(Debug, Clone, Copy, Default)]
pub struct SpanContext;
impl SpanContext { pub fn random() -> Self { SpanContext } pub fn from_span(_: &Span) -> Option<Self> { None } }
#[derive(Debug, Default)]
pub struct Span;
impl Span {
    pub fn noop() -> Self { Span }
    pub fn from_context(_: impl Into<String>, _: Option<&SpanContext>) -> Self { Span }
    pub fn root(_: impl Into<String>, _: SpanContext) -> Self { Span }
    pub fn enter_with_parent(_: impl Into<String>, _: &Span) -> Self { Span }
    pub fn context(&self) -> Option<SpanContext> { None }
    pub fn add_properties<I, F, K, V>(&self, _: F) where I: IntoIterator<Item = (K, V)>, F: FnOnce() -> I {}
    pub fn add_property<F, K, V>(&self, _: F) where F: FnOnce() -> (K, V) {}
}
pub mod span_ext { pub trait SpanExt { fn error(&self, _: impl Into<String>) {} fn ok(&self, _: impl Into<String>) {} } impl SpanExt for super::Span {} }

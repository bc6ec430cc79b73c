//! the two derives the storage engine uses, for enums whose variants name their values
use proc_macro::TokenStream;
use quote::quote;
fn parts(i: TokenStream) -> (syn::Ident, syn::Ident, Vec<(syn::Ident, syn::Expr)>) {
    let d: syn::DeriveInput = syn::parse(i).unwrap();
    let repr = d.attrs.iter().find(|a| a.path().is_ident("repr")).map(|a| a.parse_args::<syn::Ident>().unwrap()).unwrap();
    let syn::Data::Enum(e) = d.data else { panic!("an enum") };
    (d.ident, repr, e.variants.into_iter().map(|v| (v.ident, v.discriminant.expect("a value").1)).collect())
}
#[proc_macro_derive(IntoPrimitive)]
pub fn into_primitive(i: TokenStream) -> TokenStream {
    let (n, r, _) = parts(i);
    quote!(impl From<#n> for #r { fn from(v: #n) -> #r { v as #r } }).into()
}
#[proc_macro_derive(TryFromPrimitive)]
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
    let (n, r, vs) = parts(i);
    let (a, b): (Vec<_>, Vec<_>) = vs.into_iter().unzip();
    quote!(impl TryFrom<#r> for #n { type Error = #r; fn try_from(v: #r) -> Result<Self, #r> { #(if v == #b { return Ok(#n::#a) })* Err(v) } }).into()
}

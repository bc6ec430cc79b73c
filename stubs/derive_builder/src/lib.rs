//! Stand-in for the crate that cannot be fetched here: struct-level `setter(into, strip_option), default` only.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, GenericArgument, PathArguments, Type};
fn option_of(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t { let s = p.path.segments.last()?; if s.ident == "Option" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(t)) = a.args.first() { return Some(t.clone()); } } } }
    None
}
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(input).unwrap();
    let mut attrs = String::new();
    for a in &d.attrs { if a.path().is_ident("builder") { attrs += &quote!(#a).to_string(); } }
    let (into, strip) = (attrs.contains("into"), attrs.contains("strip_option"));
    let (name, vis) = (&d.ident, &d.vis);
    let (b, e) = (format_ident!("{}Builder", name), format_ident!("{}BuilderError", name));
    let Data::Struct(s) = &d.data else { panic!() };
    let Fields::Named(fs) = &s.fields else { panic!() };
    let mut decl = vec![]; let mut set = vec![]; let mut fin = vec![];
    for f in &fs.named {
        let (n, t) = (f.ident.as_ref().unwrap(), &f.ty);
        decl.push(quote!(#n: ::std::option::Option<#t>));
        let inner = if strip { option_of(t) } else { None };
        let vt = inner.clone().unwrap_or_else(|| t.clone());
        let val = if into { quote!(v.into()) } else { quote!(v) };
        let val = if inner.is_some() { quote!(::std::option::Option::Some(#val)) } else { val };
        let arg = if into { quote!(impl ::std::convert::Into<#vt>) } else { quote!(#vt) };
        set.push(quote!(#vis fn #n(&mut self, v: #arg) -> &mut Self { self.#n = ::std::option::Option::Some(#val); self }));
        fin.push(quote!(if let ::std::option::Option::Some(v) = &self.#n { d.#n = v.clone(); }));
    }
    quote! {
        #[derive(Clone, Default)]
        #vis struct #b { #(#decl),* }
        #[derive(Debug)]
        #vis enum #e { UninitializedField(&'static str), ValidationError(String) }
        impl ::std::convert::From<String> for #e { fn from(s: String) -> Self { #e::ValidationError(s) } }
        impl ::std::fmt::Display for #e { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { match self { #e::UninitializedField(s) => f.write_str(s), #e::ValidationError(s) => f.write_str(s) } } }
        impl ::std::error::Error for #e {}
        impl #b { #(#set)* #vis fn build(&self) -> ::std::result::Result<#name, #e> { let mut d = <#name as ::std::default::Default>::default(); #(#fin)* Ok(d) } }
    }.into()
}

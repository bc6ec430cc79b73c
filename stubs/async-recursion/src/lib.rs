//! Stand-in: boxes the future of an async fn whose reference arguments share the lifetime 'a.
use quote::quote;
#[proc_macro_attribute]
pub fn async_recursion(_: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut f: syn::ItemFn = syn::parse(item).unwrap();
    f.sig.asyncness = None;
    let out: syn::Type = match &f.sig.output { syn::ReturnType::Type(_, t) => (**t).clone(), _ => syn::parse_quote!(()) };
    if f.sig.generics.lifetimes().next().is_none() {
        f.sig.generics.params.push(syn::parse_quote!('a));
    }
    for a in f.sig.inputs.iter_mut() {
        if let syn::FnArg::Receiver(r) = a {
            let m = &r.mutability;
            *a = syn::parse_quote!(&'a #m self);
        } else if let syn::FnArg::Typed(p) = a {
            if let syn::Type::Reference(r) = &mut *p.ty { if r.lifetime.is_none() { r.lifetime = Some(syn::parse_quote!('a)) } }
        }
    }
    f.sig.output = syn::parse_quote!(-> ::std::pin::Pin<Box<dyn ::std::future::Future<Output = #out> + Send + 'a>>);
    let b = &f.block;
    f.block = syn::parse_quote!({ Box::pin(async move #b) });
    quote!(#f).into()
}

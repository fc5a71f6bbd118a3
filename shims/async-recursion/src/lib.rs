//! Stand-in for async-recursion, for methods that take &self and named lifetimes.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_quote, FnArg, GenericParam, ItemFn, ReturnType};

#[proc_macro_attribute]
pub fn async_recursion(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut f = syn::parse_macro_input!(input as ItemFn);
    f.sig.asyncness = None;
    let mut lts: Vec<syn::Lifetime> = f
        .sig
        .generics
        .params
        .iter()
        .filter_map(|p| if let GenericParam::Lifetime(l) = p { Some(l.lifetime.clone()) } else { None })
        .collect();
    let mut n = 0;
    for a in f.sig.inputs.iter_mut() {
        let life = match a {
            FnArg::Receiver(r) => match &mut r.reference {
                Some((_, l @ None)) => {
                    let new = syn::Lifetime::new("'life_self", proc_macro2::Span::call_site());
                    *l = Some(new.clone());
                    if let syn::Type::Reference(t) = &mut *r.ty {
                        t.lifetime = Some(new.clone());
                    }
                    Some(new)
                }
                _ => None,
            },
            FnArg::Typed(t) => match &mut *t.ty {
                syn::Type::Reference(t) if t.lifetime.is_none() => {
                    let new = syn::Lifetime::new(&format!("'life{n}"), proc_macro2::Span::call_site());
                    n += 1;
                    t.lifetime = Some(new.clone());
                    Some(new)
                }
                _ => None,
            },
        };
        if let Some(l) = life {
            f.sig.generics.params.insert(0, parse_quote!(#l));
            lts.push(l);
        }
    }
    let out = match &f.sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    f.sig.generics.params.insert(0, parse_quote!('async_recursion));
    let w = f.sig.generics.make_where_clause();
    for l in lts {
        w.predicates.push(parse_quote!(#l: 'async_recursion));
    }
    f.sig.output = parse_quote!(-> ::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'async_recursion>>);
    let body = &f.block;
    f.block = parse_quote!({ ::std::boxed::Box::pin(async move #body) });
    quote!(#f).into()
}

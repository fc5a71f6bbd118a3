//! Stand-in for num_enum's TryFromPrimitive and IntoPrimitive on unit-variant enums.
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput};
fn repr(i: &DeriveInput) -> syn::Ident {
    let mut out = None;
    for a in &i.attrs {
        if a.path().is_ident("repr") {
            out = Some(a.parse_args::<syn::Ident>().expect("repr"));
        }
    }
    out.expect("an integer repr")
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from(input: TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(input as DeriveInput);
    let (name, r) = (&i.ident, repr(&i));
    let Data::Enum(e) = &i.data else { panic!("enum expected") };
    let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let msg = name.to_string();
    quote!(impl ::core::convert::TryFrom<#r> for #name {
        type Error = ::std::string::String;
        fn try_from(n: #r) -> ::core::result::Result<Self, Self::Error> {
            #(if n == #name::#v as #r { return Ok(#name::#v); })*
            Err(format!("No discriminant in enum `{}` matches the value `{}`", #msg, n))
        }
    })
    .into()
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into(input: TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(input as DeriveInput);
    let (name, r) = (&i.ident, repr(&i));
    quote!(impl ::core::convert::From<#name> for #r { fn from(e: #name) -> #r { e as #r } }).into()
}

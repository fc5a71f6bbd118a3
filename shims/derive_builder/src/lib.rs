//! Stand-in for derive_builder (not in the offline registry), for the one form cnosdb uses:
//! #[builder(setter(into, strip_option), default)] on a struct with named fields.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, GenericArgument, PathArguments, Type};

fn option_inner(t: &Type) -> Option<&Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Option" {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return Some(t);
                }
            }
        }
    }
    None
}

#[proc_macro_derive(Builder, attributes(builder))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = syn::parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let vis = &input.vis;
    let builder = format_ident!("{}Builder", name);
    let error = format_ident!("{}BuilderError", name);
    let Data::Struct(s) = &input.data else { panic!("struct expected") };
    let Fields::Named(fields) = &s.fields else { panic!("named fields expected") };
    let mut decl = vec![];
    let mut setters = vec![];
    let mut build = vec![];
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        decl.push(quote!(#id: ::core::option::Option<#ty>));
        let (arg, val) = match option_inner(ty) {
            Some(t) => (t, quote!(::core::option::Option::Some(value.into()))),
            None => (ty, quote!(value.into())),
        };
        setters.push(quote!(
            #[allow(unused_mut)]
            pub fn #id<VALUE: ::core::convert::Into<#arg>>(&mut self, value: VALUE) -> &mut Self {
                let mut new = self;
                new.#id = ::core::option::Option::Some(#val);
                new
            }
        ));
        build.push(quote!(#id: match self.#id {
            ::core::option::Option::Some(ref value) => ::core::clone::Clone::clone(value),
            ::core::option::Option::None => __default.#id,
        }));
    }
    quote!(
        #[derive(Clone, Default)]
        #vis struct #builder { #(#decl,)* }
        impl #builder {
            #(#setters)*
            pub fn build(&self) -> ::core::result::Result<#name, #error> {
                let __default: #name = ::core::default::Default::default();
                Ok(#name { #(#build,)* })
            }
        }
        #[derive(Debug)]
        #[non_exhaustive]
        #vis enum #error {
            UninitializedField(&'static str),
            ValidationError(::std::string::String),
        }
        impl ::std::convert::From<::std::string::String> for #error {
            fn from(s: ::std::string::String) -> Self { Self::ValidationError(s) }
        }
        impl ::std::fmt::Display for #error {
            fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                match self {
                    Self::UninitializedField(field) => write!(f, "`{}` must be initialized", field),
                    Self::ValidationError(error) => write!(f, "{}", error),
                }
            }
        }
        impl ::std::error::Error for #error {}
    )
    .into()
}

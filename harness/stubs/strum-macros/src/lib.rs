//! Stand-in for strum's derives: EnumString, Display and AsRefStr of unit-like variants.
use quote::quote;
use syn::*;

fn names(v: &Variant) -> Vec<String> {
    let mut out = vec![];
    for a in v.attrs.iter().filter(|a| a.path.is_ident("strum")) {
        if let Ok(Meta::List(l)) = a.parse_meta() {
            for m in &l.nested {
                if let NestedMeta::Meta(Meta::NameValue(nv)) = m {
                    if let (true, Lit::Str(s)) = (nv.path.is_ident("serialize") || nv.path.is_ident("to_string"), &nv.lit) {
                        out.push(s.value());
                    }
                }
            }
        }
    }
    if out.is_empty() {
        out.push(v.ident.to_string());
    }
    out
}
fn variants(d: &DeriveInput) -> Vec<Variant> {
    match &d.data {
        Data::Enum(e) => e.variants.iter().cloned().collect(),
        _ => panic!("enum expected"),
    }
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (name, (ig, tg, wc)) = (&d.ident, d.generics.split_for_impl());
    let arms = variants(&d).into_iter().map(|v| {
        let (id, n) = (&v.ident, names(&v));
        let val = match &v.fields {
            Fields::Unit => quote!(#name::#id),
            Fields::Named(f) => {
                let i = f.named.iter().map(|f| &f.ident);
                quote!(#name::#id { #(#i: ::core::default::Default::default()),* })
            }
            Fields::Unnamed(f) => {
                let i = f.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
                quote!(#name::#id(#(#i),*))
            }
        };
        quote!(#(#n)|* => ::core::result::Result::Ok(#val))
    });
    let arms2 = quote!(#(#arms,)*);
    quote! {
        impl #ig ::core::str::FromStr for #name #tg #wc {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
                match s { #arms2 _ => ::core::result::Result::Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl #ig ::core::convert::TryFrom<&str> for #name #tg #wc {
            type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::core::result::Result<Self, Self::Error> { ::core::str::FromStr::from_str(s) }
        }
    }
    .into()
}
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (name, (ig, tg, wc)) = (&d.ident, d.generics.split_for_impl());
    let arms = variants(&d).into_iter().map(|v| {
        let (id, n) = (&v.ident, names(&v).pop().unwrap());
        quote!(#name::#id { .. } => f.write_str(#n))
    });
    quote! {
        impl #ig ::core::fmt::Display for #name #tg #wc {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match self { #(#arms),* } }
        }
    }
    .into()
}

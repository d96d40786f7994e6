//! Stand-in for smart-default: derive(SmartDefault) with #[default], #[default(expr)] and
//! #[default(_code = "expr")] on fields, #[default] on a variant.
use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

fn field_default(f: &Field) -> TokenStream {
    for a in &f.attrs {
        if a.path.is_ident("default") {
            if let Ok(Meta::List(l)) = a.parse_meta() {
                if let Some(NestedMeta::Meta(Meta::NameValue(nv))) = l.nested.first() {
                    if nv.path.is_ident("_code") {
                        if let Lit::Str(s) = &nv.lit {
                            let e: Expr = s.parse().expect("code");
                            return quote!(#e);
                        }
                    }
                }
            }
            if a.tokens.is_empty() {
                return quote!(::core::default::Default::default());
            }
            if let Ok(e) = a.parse_args::<Expr>() {
                if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = e {
                    return quote!(::core::convert::From::from(#e));
                }
                return quote!(#e);
            }
        }
    }
    quote!(::core::default::Default::default())
}
fn body(path: TokenStream, fields: &Fields) -> TokenStream {
    match fields {
        Fields::Unit => path,
        Fields::Named(n) => {
            let i = n.named.iter().map(|f| {
                let (id, d) = (&f.ident, field_default(f));
                quote!(#id: #d)
            });
            quote!(#path { #(#i),* })
        }
        Fields::Unnamed(u) => {
            let i = u.unnamed.iter().map(field_default);
            quote!(#path(#(#i),*))
        }
    }
}
#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let b = match &d.data {
        Data::Struct(s) => body(quote!(#name), &s.fields),
        Data::Enum(e) => {
            let v = e
                .variants
                .iter()
                .find(|v| v.attrs.iter().any(|a| a.path.is_ident("default")))
                .expect("a default variant");
            let id = &v.ident;
            body(quote!(#name::#id), &v.fields)
        }
        _ => panic!("union"),
    };
    let mut g = d.generics.clone();
    let params: Vec<_> = d.generics.type_params().map(|p| p.ident.clone()).collect();
    {
        let w = g.make_where_clause();
        for p in params {
            w.predicates.push(parse_quote!(#p: ::core::default::Default));
        }
    }
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = d.generics.split_for_impl();
    quote! {
        #[automatically_derived]
        impl #ig ::core::default::Default for #name #tg #wc {
            fn default() -> Self { #b }
        }
    }
    .into()
}

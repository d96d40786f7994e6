//! Stand-in for the attribute macro of wasm-bindgen: imported functions, methods and types of the
//! page are answered by `wasm_bindgen::host`, exported items stay the Rust items they are.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse::Parser, *};

#[derive(Default)]
struct Opts {
    method: bool,
    getter: bool,
    js_name: Option<String>,
    source: Option<proc_macro2::TokenStream>,
}
fn opts(ts: proc_macro2::TokenStream) -> Opts {
    let mut o = Opts::default();
    let metas = punctuated::Punctuated::<Meta, Token![,]>::parse_terminated.parse2(ts).expect("wasm_bindgen attribute");
    for m in metas {
        let name = m.path().get_ident().expect("option").to_string();
        let value = match &m {
            Meta::NameValue(nv) => Some(nv.value.clone()),
            _ => None,
        };
        let text = value.clone().map(|v| match v {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            e => quote!(#e).to_string(),
        });
        match name.as_str() {
            "method" => o.method = true,
            "getter" => o.getter = true,
            "js_name" => o.js_name = text,
            "inline_js" => o.source = Some(quote!(#value)),
            "catch" | "structural" | "typescript_type" | "typescript_custom_section" | "module" | "js_namespace" | "constructor" => {}
            n => panic!("the stand-in for wasm-bindgen does not know {n}"),
        }
    }
    o
}
fn own_opts(attrs: &mut Vec<Attribute>) -> Opts {
    let mut o = Opts::default();
    attrs.retain(|a| {
        if !a.path().is_ident("wasm_bindgen") {
            return true;
        }
        if let Meta::List(l) = &a.meta {
            o = opts(l.tokens.clone());
        }
        false
    });
    o
}

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let outer = opts(attr.into());
    let item = parse_macro_input!(item as Item);
    let m = match item {
        Item::ForeignMod(m) => m,
        Item::Struct(s) => {
            let n = &s.ident;
            return quote!(#s impl From<#n> for ::wasm_bindgen::JsValue { fn from(v: #n) -> Self { ::wasm_bindgen::JsValue::any(v) } }).into();
        }
        i => return quote!(#[allow(dead_code)] #i).into(),
    };
    let source = outer.source.map(|s| quote!(Some(#s))).unwrap_or(quote!(None));
    let mut out = quote!();
    for f in m.items {
        match f {
            ForeignItem::Type(t) => {
                let (vis, n) = (t.vis, t.ident);
                out.extend(quote! {
                    #[derive(Clone, Debug)] #vis struct #n(pub ::wasm_bindgen::JsValue);
                    impl From<::wasm_bindgen::JsValue> for #n { fn from(v: ::wasm_bindgen::JsValue) -> Self { #n(v) } }
                    impl From<#n> for ::wasm_bindgen::JsValue { fn from(v: #n) -> Self { v.0 } }
                    impl AsRef<::wasm_bindgen::JsValue> for #n { fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.0 } }
                });
            }
            ForeignItem::Fn(mut f) => {
                let o = own_opts(&mut f.attrs);
                let (vis, mut sig) = (f.vis, f.sig);
                let name = o.js_name.unwrap_or(sig.ident.to_string());
                let mut inputs: Vec<(Ident, Type)> = vec![];
                for i in &sig.inputs {
                    if let FnArg::Typed(p) = i {
                        if let Pat::Ident(id) = &*p.pat {
                            inputs.push((id.ident.clone(), (*p.ty).clone()));
                        }
                    }
                }
                let this = if o.method { Some(inputs.remove(0)) } else { None };
                let args = inputs.iter().map(|(i, _)| quote!(::wasm_bindgen::ToJs::to_js(&#i)));
                let body = match (&this, o.getter) {
                    (Some(_), true) => quote!(::wasm_bindgen::get(&self.0, #name)),
                    (Some(_), false) => quote!(::wasm_bindgen::call_method(&self.0, #name, vec![#(#args),*])),
                    (None, _) if sig.asyncness.is_some() => quote!(::wasm_bindgen::call_async(#name, #source, vec![#(#args),*]).await),
                    (None, _) => quote!(::wasm_bindgen::call(#name, #source, vec![#(#args),*])),
                };
                let body = quote!({ ::wasm_bindgen::FromJs::from_js(#body) });
                if let Some((_, ty)) = this {
                    let ty = match ty {
                        Type::Reference(r) => *r.elem,
                        t => t,
                    };
                    sig.inputs = sig.inputs.into_iter().skip(1).collect();
                    sig.inputs.insert(0, parse_quote!(&self));
                    out.extend(quote!(#[allow(dead_code)] impl #ty { #vis #sig #body }));
                } else {
                    out.extend(quote!(#[allow(dead_code)] #vis #sig #body));
                }
            }
            _ => panic!("the stand-in for wasm-bindgen does not know this import"),
        }
    }
    out.into()
}

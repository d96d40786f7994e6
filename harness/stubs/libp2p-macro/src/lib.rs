//! Stand-in for the derive of libp2p: the events of every part are given to the behaviour.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;
#[proc_macro_derive(NetworkBehaviour, attributes(behaviour))]
pub fn network_behaviour(item: TokenStream) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let n = &s.ident;
    let f = s.fields.iter().map(|f| {
        let (i, t) = (&f.ident, &f.ty);
        quote! {
            while let Some(e) = libp2p::swarm::Part::next_event(&mut self.#i).await {
                <Self as libp2p::swarm::NetworkBehaviourEventProcess<<#t as libp2p::swarm::Part>::Event>>::inject_event(self, e);
            }
        }
    });
    quote! {
        impl libp2p::swarm::NetworkBehaviour for #n {
            fn work(&mut self) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + '_>> {
                Box::pin(async move { #(#f)* })
            }
        }
    }
    .into()
}

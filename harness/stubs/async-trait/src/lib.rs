//! Stand-in for async-trait: traits may have async functions by themselves.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

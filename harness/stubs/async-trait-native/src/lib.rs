//! Stand-in for async-trait where the trait itself has async functions.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

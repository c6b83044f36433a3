use proc_macro::TokenStream;
/// The compiler's native `async fn` in traits is enough here.
#[proc_macro_attribute]
pub fn async_trait(_a: TokenStream, item: TokenStream) -> TokenStream {
    item
}

use proc_macro::TokenStream;
/// Spans carry no behaviour: `#[instrument]` is the identity.
#[proc_macro_attribute]
pub fn instrument(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}

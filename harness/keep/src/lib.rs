//! Lets a program call functions marked as tests.
use proc_macro::TokenStream;

/// Stands in for the attribute of the test harness, which drops such functions from ordinary programs.
#[proc_macro_attribute]
pub fn test(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

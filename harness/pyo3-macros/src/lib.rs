//! Attributes of the Python binding that leave the Rust item as it is.
use proc_macro::TokenStream;

macro_rules! same {
    ($($n:ident)*) => {$(
        #[proc_macro_attribute]
        pub fn $n(_: TokenStream, item: TokenStream) -> TokenStream {
            item
        }
    )*};
}
same!(pyclass pymethods pyfunction pymodule new staticmethod classmethod getter setter pyo3 classattr);

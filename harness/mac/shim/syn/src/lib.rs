//! syn, with a `parse_macro_input!` over proc_macro2's token streams (as syn's own does over the compiler's).
pub use real::*;
#[doc(hidden)]
pub use proc_macro2::TokenStream as __TokenStream;

#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => {
        match $crate::parse2::<$ty>($t) {
            Ok(data) => data,
            Err(err) => return $crate::__TokenStream::from(err.to_compile_error()),
        }
    };
    ($t:ident with $p:path) => {
        match $crate::parse::Parser::parse2($p, $t) {
            Ok(data) => data,
            Err(err) => return $crate::__TokenStream::from(err.to_compile_error()),
        }
    };
    ($t:ident) => {
        $crate::parse_macro_input!($t as _)
    };
}

//! One module per property.

use crate::runner::Property;

macro_rules! props {
    ($($m:ident),* $(,)?; $($b:ident),*) => {
        $(pub mod $m;)*
        $(#[cfg(feature = "blocks")]
        pub mod $b;)*
        pub fn all() -> Vec<&'static Property> {
            vec![$(&$m::P,)* $(#[cfg(feature = "blocks")] &$b::P),*]
        }
    };
}

props!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c31, c32; c29, c30);

pub fn by_id(id: &str) -> Option<&'static Property> {
    all().into_iter().find(|p| p.id == id)
}

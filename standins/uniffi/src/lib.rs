//! Stand-in for uniffi: only the custom-type trait that the scaffolding declares.
pub type Result<T> = std::result::Result<T, Box<dyn std::error::Error + Send + Sync>>;
#[macro_export]
macro_rules! include_scaffolding {
    ($x:tt) => {
        pub trait UniffiCustomTypeConverter {
            type Builtin;
            fn into_custom(val: Self::Builtin) -> ::uniffi::Result<Self> where Self: Sized;
            fn from_custom(obj: Self) -> Self::Builtin;
        }
    };
}

//! Stand-in for uniffi: the generated scaffolding is only declarations the crate's own code refers to.
pub type Result<T> = anyhow::Result<T>;

#[macro_export]
macro_rules! include_scaffolding {
    ($udl:literal) => {
        pub trait UniffiCustomTypeConverter {
            type Builtin;
            fn into_custom(val: Self::Builtin) -> uniffi::Result<Self>
            where
                Self: Sized;
            fn from_custom(obj: Self) -> Self::Builtin;
        }
    };
}

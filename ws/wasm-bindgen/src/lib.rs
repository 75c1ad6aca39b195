//! Stand-in for wasm-bindgen and the part of JavaScript the bindings meet: values, exceptions, promises and the event loop.
pub mod js;
pub use js::{JsCast, JsValue};
pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::js::{JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

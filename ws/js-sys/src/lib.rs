pub use wasm_bindgen::js::{Array, Error, JsString, Promise};

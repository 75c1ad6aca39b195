pub use wasm_bindgen::js::{future_to_promise, spawn_local, JsFuture};

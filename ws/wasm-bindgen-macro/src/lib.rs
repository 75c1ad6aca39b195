//! `#[wasm_bindgen]` over native code: exported types become values, imported types become typed views of values whose
//! methods look up and call the JavaScript function of that name.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn js_name(attrs: &[Attribute]) -> Option<String> {
    for a in attrs {
        if a.path().is_ident("wasm_bindgen") {
            if let Meta::List(l) = &a.meta {
                let s = l.tokens.to_string();
                if let Some(i) = s.find("js_name") {
                    let t = s[i + 7..].trim_start_matches([' ', '=']);
                    return Some(t.split([',', ' ']).next().unwrap_or("").trim_matches('"').to_string());
                }
            }
        }
    }
    None
}
fn has(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("wasm_bindgen") && matches!(&a.meta, Meta::List(l) if l.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == what)))
}
fn keep(attrs: &[Attribute]) -> Vec<Attribute> {
    attrs.iter().filter(|a| !a.path().is_ident("wasm_bindgen")).cloned().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, item: TokenStream) -> TokenStream {
    let item: Item = match syn::parse(item) {
        Ok(i) => i,
        Err(e) => return e.to_compile_error().into(),
    };
    match item {
        Item::Struct(s) => {
            let n = &s.ident;
            quote! {
                #s
                impl ::std::convert::From<#n> for ::wasm_bindgen::JsValue {
                    fn from(x: #n) -> Self {
                        ::wasm_bindgen::JsValue::exported(::std::boxed::Box::new(x))
                    }
                }
            }
            .into()
        }
        Item::Impl(mut i) => {
            for x in i.items.iter_mut() {
                if let ImplItem::Fn(f) = x {
                    f.attrs = keep(&f.attrs);
                }
            }
            quote!(#i).into()
        }
        Item::Const(mut c) => {
            c.attrs.push(parse_quote!(#[allow(dead_code)]));
            quote!(#c).into()
        }
        Item::ForeignMod(m) => {
            let mut out = quote!();
            for x in m.items {
                match x {
                    ForeignItem::Type(t) => {
                        let (vis, n) = (&t.vis, &t.ident);
                        out.extend(quote! {
                            #[derive(Clone, Debug)]
                            #[repr(transparent)]
                            #vis struct #n(::wasm_bindgen::JsValue);
                            impl ::std::ops::Deref for #n {
                                type Target = ::wasm_bindgen::JsValue;
                                fn deref(&self) -> &Self::Target {
                                    &self.0
                                }
                            }
                            impl ::std::convert::From<::wasm_bindgen::JsValue> for #n {
                                fn from(x: ::wasm_bindgen::JsValue) -> Self {
                                    #n(x)
                                }
                            }
                            impl ::std::convert::From<#n> for ::wasm_bindgen::JsValue {
                                fn from(x: #n) -> Self {
                                    x.0
                                }
                            }
                            impl ::std::convert::AsRef<::wasm_bindgen::JsValue> for #n {
                                fn as_ref(&self) -> &::wasm_bindgen::JsValue {
                                    &self.0
                                }
                            }
                            unsafe impl ::wasm_bindgen::JsCast for #n {
                                fn instanceof(_: &::wasm_bindgen::JsValue) -> bool {
                                    true
                                }
                            }
                        });
                    }
                    ForeignItem::Fn(f) => {
                        let name = js_name(&f.attrs).unwrap_or_else(|| f.sig.ident.to_string());
                        let (vis, id, catch) = (&f.vis, &f.sig.ident, has(&f.attrs, "catch"));
                        let mut args = vec![];
                        let mut this = None;
                        for (k, a) in f.sig.inputs.iter().enumerate() {
                            if let FnArg::Typed(p) = a {
                                if k == 0 {
                                    if let Type::Reference(r) = &*p.ty {
                                        this = Some((*r.elem).clone());
                                        continue;
                                    }
                                }
                                let Pat::Ident(pi) = &*p.pat else { continue };
                                args.push((pi.ident.clone(), p.ty.clone()));
                            }
                        }
                        let Some(this) = this else {
                            return Error::new_spanned(&f.sig, "the stand-in knows imported methods only").to_compile_error().into();
                        };
                        let (names, tys): (Vec<_>, Vec<_>) = args.into_iter().unzip();
                        let out_ty = &f.sig.output;
                        let call = quote!(::wasm_bindgen::js::call_method(&self.0, #name, &[#(::wasm_bindgen::js::IntoJs::into_js(#names)),*]));
                        let asy = &f.sig.asyncness;
                        let body = match (asy.is_some(), catch) {
                            (true, true) => quote!(::wasm_bindgen::js::settled(#call?).await),
                            (true, false) => quote!(::wasm_bindgen::js::settled(#call.expect("uncaught exception")).await.expect("uncaught exception")),
                            (false, true) => quote!(#call),
                            (false, false) => quote!(#call.expect("uncaught exception")),
                        };
                        out.extend(quote! {
                            impl #this {
                                #vis #asy fn #id(&self #(, #names: #tys)*) #out_ty {
                                    #body
                                }
                            }
                        });
                    }
                    _ => {}
                }
            }
            out.into()
        }
        other => quote!(#other).into(),
    }
}

//! `#[wasm_bindgen]` on the host: classes become opaque values, imported types become wrappers around a value,
//! imported async methods become calls on the host object, typescript sections vanish.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn strip(a: &mut Vec<Attribute>) { a.retain(|x| !x.path().is_ident("wasm_bindgen")); }

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    match parse_macro_input!(item as Item) {
        Item::Struct(mut s) => {
            strip(&mut s.attrs);
            let n = &s.ident;
            quote! { #s impl From<#n> for ::wasm_bindgen::JsValue { fn from(x: #n) -> Self { ::wasm_bindgen::JsValue::from_rust(x) } } }.into()
        }
        Item::Impl(mut i) => {
            strip(&mut i.attrs);
            for x in &mut i.items { match x { ImplItem::Fn(f) => strip(&mut f.attrs), ImplItem::Const(f) => strip(&mut f.attrs), _ => {} } }
            quote! { #i }.into()
        }
        Item::Fn(mut f) => { strip(&mut f.attrs); quote! { #f }.into() }
        Item::Const(_) => TokenStream::new(),
        Item::ForeignMod(m) => {
            let mut out = quote! {};
            for x in m.items {
                match x {
                    ForeignItem::Type(t) => { let n = t.ident; out.extend(quote! { ::wasm_bindgen::class!(#n, |_v| true); }); }
                    ForeignItem::Fn(f) => {
                        let sig = f.sig;
                        let mut it = sig.inputs.iter();
                        let this = match it.next() { Some(FnArg::Typed(p)) => match &*p.ty { Type::Reference(r) => r.elem.clone(), t => Box::new(t.clone()) }, _ => panic!("method expected") };
                        let rest: Vec<_> = it.cloned().collect();
                        let names: Vec<_> = rest.iter().map(|a| match a { FnArg::Typed(p) => p.pat.clone(), _ => panic!("argument") }).collect();
                        let (name, ret, vis) = (&sig.ident, &sig.output, &f.vis);
                        let mut text = name.to_string();
                        for a in &f.attrs { if a.path().is_ident("wasm_bindgen") { let _ = a.parse_nested_meta(|m| { if m.path.is_ident("js_name") { let l: Result<LitStr> = m.value().and_then(|v| v.parse()); if let Ok(l) = l { text = l.value(); } } else if m.input.peek(Token![=]) { let _: Expr = m.value()?.parse()?; } Ok(()) }); } }
                        out.extend(quote! { impl #this { #vis async fn #name(&self #(, #rest)*) #ret { ::wasm_bindgen::call(&self.0, #text, vec![#(::wasm_bindgen::JsValue::from(#names)),*]).await } } });
                    }
                    _ => {}
                }
            }
            out.into()
        }
        x => quote! { #x }.into(),
    }
}

//! `#[wasm_bindgen]` without JavaScript: items stay what they are; what is imported becomes types that wrap a value and
//! functions that ask `wasm_bindgen::__call`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, ForeignItem, Item, ItemForeignMod, Meta, NestedMeta, ReturnType, Type};

fn strip(attrs: &mut Vec<syn::Attribute>) -> Vec<(String, String)> {
	let mut options = vec![];
	attrs.retain(|a| {
		let ours = a.path.segments.last().map_or(false, |s| s.ident == "wasm_bindgen");
		if ours {
			// `a = b, c, d = "e"`
			for part in a.tokens.to_string().trim_start_matches('(').trim_end_matches(')').split(',') {
				let (k, v) = part.split_once('=').unwrap_or((part, ""));
				options.push((k.trim().to_string(), v.trim().trim_matches('"').to_string()));
			}
		}
		!ours
	});
	let _ = (None::<Meta>, None::<NestedMeta>);
	options
}

fn foreign(m: ItemForeignMod) -> TokenStream {
	let mut out = quote! {};
	for item in m.items {
		match item {
			ForeignItem::Type(mut t) => {
				strip(&mut t.attrs);
				let (attrs, vis, name) = (&t.attrs, &t.vis, &t.ident);
				out.extend(quote! { ::wasm_bindgen::__js_type! { #(#attrs)* #vis #name } });
			}
			ForeignItem::Fn(mut f) => {
				let options = strip(&mut f.attrs);
				let get = |k: &str| options.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
				let (attrs, vis, name) = (&f.attrs, &f.vis, f.sig.ident.clone());
				let js = get("js_name").unwrap_or(name.to_string().trim_start_matches("r#").to_string());
				let params: Vec<_> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((t.pat.clone(), t.ty.clone())) } else { None }).collect();
				let (pats, tys): (Vec<_>, Vec<_>) = params.iter().cloned().unzip();
				let ret: Type = match &f.sig.output { ReturnType::Default => syn::parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
				let convert = if get("catch").is_some() {
					quote! { match r { Ok(v) => Ok(::wasm_bindgen::__FromJs::from_js(v)), Err(e) => Err(e.into()) } }
				} else {
					quote! { ::wasm_bindgen::__FromJs::from_js(r.unwrap_or_else(|e| panic!("JavaScript exception: {e:?}"))) }
				};
				let body = |path: String, this: bool| {
					let first = if this { quote! { ::wasm_bindgen::__ToJs::to_js(self), } } else { quote! {} };
					quote! { { let r = ::wasm_bindgen::__call(#path, vec![#first #(::wasm_bindgen::__ToJs::to_js(&#pats)),*]); #convert } }
				};
				if let Some(t) = get("static_method_of") {
					let (t, b) = (format_ident!("{}", t), body(format!("{t}.{js}"), false));
					out.extend(quote! { impl #t { #(#attrs)* #vis fn #name(#(#pats: #tys),*) -> #ret #b } });
				} else if get("constructor").is_some() {
					let t = match &ret { Type::Path(p) => p.path.segments.last().unwrap().ident.clone(), _ => panic!("constructor of what?") };
					let b = body(format!("new {t}"), false);
					out.extend(quote! { impl #t { #(#attrs)* #vis fn #name(#(#pats: #tys),*) -> #ret #b } });
				} else if get("method").is_some() {
					let t = match &*tys[0] { Type::Reference(r) => r.elem.clone(), o => Box::new(o.clone()) };
					let (p, y) = (&pats[1..], &tys[1..]);
					let tn = quote!(#t).to_string();
					let path = format!("{tn}.prototype.{js}");
					let b = quote! { { let r = ::wasm_bindgen::__call(#path, vec![::wasm_bindgen::__ToJs::to_js(self) #(, ::wasm_bindgen::__ToJs::to_js(&#p))*]); #convert } };
					out.extend(quote! { impl #t { #(#attrs)* #vis fn #name(&self #(, #p: #y)*) -> #ret #b } });
				} else {
					let b = body(get("js_namespace").map_or(js.clone(), |n| format!("{n}.{js}")), false);
					out.extend(quote! { #(#attrs)* #[allow(dead_code)] #vis fn #name(#(#pats: #tys),*) -> #ret #b });
				}
			}
			_ => panic!("an import that the stand-in does not know"),
		}
	}
	out.into()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
	match parse_macro_input!(item as Item) {
		Item::ForeignMod(m) => foreign(m),
		Item::Impl(mut i) => {
			for m in &mut i.items {
				match m {
					syn::ImplItem::Method(m) => drop(strip(&mut m.attrs)),
					syn::ImplItem::Const(m) => drop(strip(&mut m.attrs)),
					_ => {}
				}
			}
			quote!(#i).into()
		}
		Item::Struct(mut s) => {
			for f in &mut s.fields {
				strip(&mut f.attrs);
			}
			quote!(#s).into()
		}
		i => quote!(#i).into(),
	}
}

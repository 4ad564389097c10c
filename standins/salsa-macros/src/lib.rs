use proc_macro::TokenStream;
use proc_macro2::{Ident, TokenStream as TS};
use quote::{format_ident, quote, ToTokens};
use syn::{parse_macro_input, parse_quote, punctuated::Punctuated, Token};

struct Args {
	return_ref: bool,
	jar: syn::Path,
	db: Option<syn::Path>,
}

impl syn::parse::Parse for Args {
	fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
		let mut a = Args { return_ref: false, jar: parse_quote!(crate::Jar), db: None };
		while !input.is_empty() {
			let id: Ident = input.parse()?;
			if input.peek(Token![=]) {
				input.parse::<Token![=]>()?;
				let p: syn::Path = input.parse()?;
				match id.to_string().as_str() {
					"jar" => a.jar = p,
					"db" => a.db = Some(p),
					_ => (),
				}
			} else if id == "return_ref" {
				a.return_ref = true;
			}
			if input.peek(Token![,]) {
				input.parse::<Token![,]>()?;
			}
		}
		Ok(a)
	}
}

#[proc_macro_attribute]
pub fn db(args: TokenStream, item: TokenStream) -> TokenStream {
	let jars = parse_macro_input!(args with Punctuated<syn::Path, Token![,]>::parse_terminated);
	let s = parse_macro_input!(item as syn::ItemStruct);
	let name = &s.ident;
	let field = s
		.fields
		.iter()
		.find(|f| f.ty.to_token_stream().to_string().contains("Storage"))
		.and_then(|f| f.ident.clone())
		.unwrap_or_else(|| format_ident!("storage"));
	let jars = jars.iter();
	quote! {
		#s
		impl ::salsa::HasStorage for #name {
			fn salsa_storage(&self) -> &::salsa::Runtime { &self.#field.runtime }
		}
		#(impl ::salsa::DbWithJar<#jars> for #name {})*
	}
	.into()
}

#[proc_macro_attribute]
pub fn jar(args: TokenStream, item: TokenStream) -> TokenStream {
	let args = parse_macro_input!(args as Args);
	let s = parse_macro_input!(item as syn::ItemStruct);
	let name = &s.ident;
	let vis = &s.vis;
	let db = args.db.expect("jar needs db = ");
	let tys = s.fields.iter().map(|f| &f.ty);
	// Like the original, every member of the jar is a type (tracked functions included).
	quote! {
		#vis struct #name;
		const _: () = { #[allow(dead_code)] fn members() { #(let _ = ::std::mem::size_of::<#tys>();)* } };
		impl<'db> ::salsa::Jar<'db> for #name { type DynDb = dyn #db + 'db; }
	}
	.into()
}

fn take_return_ref(attrs: &mut Vec<syn::Attribute>) -> bool {
	let n = attrs.len();
	attrs.retain(|a| !a.path.is_ident("return_ref"));
	let found = attrs.len() != n;
	attrs.retain(|a| !a.path.is_ident("id"));
	found
}

enum Kind {
	Input,
	Tracked,
	Interned,
}

fn structish(args: Args, mut s: syn::ItemStruct, kind: Kind) -> TS {
	let jar = &args.jar;
	let name = s.ident.clone();
	let vis = s.vis.clone();
	let attrs: Vec<_> = s.attrs.clone();
	let data = format_ident!("__{}Data", name);
	let mut names = vec![];
	let mut tys = vec![];
	let mut getters: Vec<TS> = vec![];
	let store = match kind {
		Kind::Interned => quote!(::salsa::Interner<#name, #data>),
		_ => quote!(::salsa::Slots<#name, #data>),
	};
	for (i, f) in s.fields.iter_mut().enumerate() {
		let rr = take_return_ref(&mut f.attrs);
		let fname = f.ident.clone().unwrap_or_else(|| format_ident!("f{}", i));
		let fty = f.ty.clone();
		let fvis = match &f.vis {
			syn::Visibility::Inherited => quote!(pub),
			v => quote!(#v),
		};
		let dbty = quote!(&'db <#jar as ::salsa::Jar<'db>>::DynDb);
		let get = quote!(&::salsa::HasStorage::salsa_storage(__db).ingredient::<#store>().get(self.0).#fname);
		getters.push(if rr {
			quote!(#[allow(dead_code)] #fvis fn #fname<'db>(self, __db: #dbty) -> &'db #fty { #get })
		} else {
			quote!(#[allow(dead_code)] #fvis fn #fname<'db>(self, __db: #dbty) -> #fty { ::std::clone::Clone::clone(#get) })
		});
		if let Kind::Input = kind {
			let set = format_ident!("set_{}", fname);
			getters.push(quote! {
				#[allow(dead_code)]
				#fvis fn #set<'db>(self, __db: &'db mut <#jar as ::salsa::Jar<'db>>::DynDb) -> ::salsa::Setter<impl FnOnce(#fty) + 'db> {
					::salsa::Setter(move |value: #fty| {
						let rt = ::salsa::HasStorage::salsa_storage(&*__db);
						let slots = rt.ingredient::<#store>();
						let mut d = ::std::clone::Clone::clone(slots.get(self.0));
						d.#fname = value;
						slots.replace(self.0, d);
						rt.invalidate();
					})
				}
			});
		}
		names.push(fname);
		tys.push(fty);
	}
	let (derive, alloc) = match kind {
		Kind::Interned => (quote!(#[derive(Clone, PartialEq, Eq, Hash)]), quote!(intern)),
		Kind::Input => (quote!(#[derive(Clone)]), quote!(alloc)),
		_ => (quote!(), quote!(alloc)),
	};
	quote! {
		#(#attrs)*
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
		#vis struct #name(u32);
		#[doc(hidden)]
		#[allow(non_camel_case_types)]
		#derive
		#vis struct #data { #(#names: #tys,)* }
		impl #name {
			#[allow(dead_code)]
			pub fn new<'db>(__db: &'db <#jar as ::salsa::Jar<'db>>::DynDb, #(#names: #tys),*) -> Self {
				#name(::salsa::HasStorage::salsa_storage(__db).ingredient::<#store>().#alloc(#data { #(#names),* }))
			}
			#(#getters)*
		}
	}
}

#[proc_macro_attribute]
pub fn input(args: TokenStream, item: TokenStream) -> TokenStream {
	let a = parse_macro_input!(args as Args);
	structish(a, parse_macro_input!(item as syn::ItemStruct), Kind::Input).into()
}

#[proc_macro_attribute]
pub fn interned(args: TokenStream, item: TokenStream) -> TokenStream {
	let a = parse_macro_input!(args as Args);
	structish(a, parse_macro_input!(item as syn::ItemStruct), Kind::Interned).into()
}

#[proc_macro_attribute]
pub fn accumulator(args: TokenStream, item: TokenStream) -> TokenStream {
	let a = parse_macro_input!(args as Args);
	let s = parse_macro_input!(item as syn::ItemStruct);
	let jar = &a.jar;
	let name = &s.ident;
	let vis = &s.vis;
	let attrs = &s.attrs;
	let ty = &s.fields.iter().next().expect("accumulator needs one field").ty;
	quote! {
		#(#attrs)*
		#vis struct #name(#[allow(dead_code)] #ty);
		impl ::salsa::Accumulator for #name { type Value = #ty; }
		impl #name {
			#[allow(dead_code)]
			#vis fn push<'db>(__db: &'db <#jar as ::salsa::Jar<'db>>::DynDb, value: #ty) {
				::salsa::HasStorage::salsa_storage(__db).accumulate::<#name>(value)
			}
		}
	}
	.into()
}

#[proc_macro_attribute]
pub fn tracked(args: TokenStream, item: TokenStream) -> TokenStream {
	let a = parse_macro_input!(args as Args);
	match parse_macro_input!(item as syn::Item) {
		syn::Item::Struct(s) => structish(a, s, Kind::Tracked).into(),
		syn::Item::Fn(f) => tracked_fn(a, f).into(),
		other => quote!(#other).into(),
	}
}

fn tracked_fn(a: Args, f: syn::ItemFn) -> TS {
	let name = f.sig.ident.clone();
	let vis = f.vis.clone();
	let attrs = f.attrs.clone();
	let body = f.block.clone();
	let out: syn::Type = match &f.sig.output {
		syn::ReturnType::Default => parse_quote!(()),
		syn::ReturnType::Type(_, t) => (**t).clone(),
	};
	let mut inputs = f.sig.inputs.iter();
	let (db_pat, db_ty) = match inputs.next() {
		Some(syn::FnArg::Typed(t)) => ((*t.pat).clone(), (*t.ty).clone()),
		_ => panic!("tracked fn needs a db argument"),
	};
	let db_inner = match &db_ty {
		syn::Type::Reference(r) => (*r.elem).clone(),
		_ => panic!("db argument must be a reference"),
	};
	let mut pats = vec![];
	let mut tys = vec![];
	for i in inputs {
		if let syn::FnArg::Typed(t) = i {
			pats.push((*t.pat).clone());
			tys.push((*t.ty).clone());
		}
	}
	let names: Vec<Ident> = (0..pats.len()).map(|i| format_ident!("__a{}", i)).collect();
	let call = quote! {
		::salsa::HasStorage::salsa_storage(__db).fetch::<#name, (#(#tys,)*), #out>(
			(#(::std::clone::Clone::clone(&#names),)*),
			|| {
				fn __body(#db_pat: &#db_inner, #(#pats: #tys),*) -> #out #body
				__body(__db, #(#names),*)
			},
		)
	};
	let (ret, conv) = if a.return_ref {
		(quote!(&'__db #out), quote!(__r))
	} else {
		(quote!(#out), quote!(::std::clone::Clone::clone(__r)))
	};
	quote! {
		#[allow(non_camel_case_types)]
		#vis struct #name {}
		#(#attrs)*
		#vis fn #name<'__db>(__db: &'__db #db_inner, #(#names: #tys),*) -> #ret {
			let (_, __r) = #call;
			#conv
		}
		impl #name {
			#[allow(dead_code)]
			#vis fn accumulated<'__db, A: ::salsa::Accumulator>(__db: &'__db #db_inner, #(#names: #tys),*) -> Vec<A::Value> {
				let (__n, _) = #call;
				::salsa::HasStorage::salsa_storage(__db).gather::<A>(__n)
			}
		}
	}
}

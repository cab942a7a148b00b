use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Lit, Meta, NestedMeta};

/// `#[derive(Message)]` for structs with string / bytes / uint32 / bool / map<string, bytes> / message / oneof fields,
/// the repeated ones being bytes and messages.
#[proc_macro_derive(Message, attributes(prost))]
pub fn message(ts: TokenStream) -> TokenStream {
    let input = parse_macro_input!(ts as DeriveInput);
    let name = &input.ident;
    let fields = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => &n.named,
            _ => panic!("named fields only"),
        },
        _ => panic!("structs only"),
    };
    let (mut enc, mut dec, mut init, mut dbg) = (vec![], vec![], vec![], vec![]);
    for f in fields {
        let id = f.ident.as_ref().unwrap();
        let (mut kind, mut repeated, mut tag) = (String::new(), false, 0u32);
        let (mut tags, mut of) = (Vec::<u32>::new(), String::new());
        for a in &f.attrs {
            if !a.path.is_ident("prost") {
                continue;
            }
            if let Ok(Meta::List(l)) = a.parse_meta() {
                for n in l.nested {
                    match n {
                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("repeated") => repeated = true,
                        NestedMeta::Meta(Meta::Path(p)) => kind = p.get_ident().unwrap().to_string(),
                        NestedMeta::Meta(Meta::NameValue(nv)) => {
                            let v = match nv.lit {
                                Lit::Str(s) => s.value(),
                                _ => panic!("str"),
                            };
                            if nv.path.is_ident("tag") {
                                tag = v.parse().unwrap();
                            } else if nv.path.is_ident("tags") {
                                tags = v.split(',').map(|t| t.trim().parse().unwrap()).collect();
                            } else if nv.path.is_ident("oneof") {
                                kind = "oneof".to_string();
                                of = v;
                            } else {
                                kind = nv.path.get_ident().unwrap().to_string();
                            }
                        }
                        _ => panic!("prost attribute"),
                    }
                }
            }
        }
        init.push(quote! { #id: Default::default() });
        dbg.push(quote! { .field(stringify!(#id), &self.#id) });
        let w = quote! { ::prost::wire };
        match (kind.as_str(), repeated) {
            ("string", false) => {
                enc.push(quote! { if !self.#id.is_empty() { #w::put_len(&mut o, #tag, self.#id.as_bytes()); } });
                dec.push(quote! { #tag => { #w::need(wt, 2)?; self.#id = #w::string(#w::len_delim(&mut d)?)?; } });
            }
            ("bytes", false) => {
                enc.push(quote! { if !self.#id.is_empty() { #w::put_len(&mut o, #tag, &self.#id); } });
                dec.push(quote! { #tag => { #w::need(wt, 2)?; self.#id = #w::len_delim(&mut d)?.to_vec(); } });
            }
            ("bytes", true) => {
                enc.push(quote! { for b in &self.#id { #w::put_len(&mut o, #tag, b); } });
                dec.push(quote! { #tag => { #w::need(wt, 2)?; self.#id.push(#w::len_delim(&mut d)?.to_vec()); } });
            }
            ("map", false) => {
                enc.push(quote! { #w::put_map(&mut o, #tag, &self.#id); });
                dec.push(quote! { #tag => { #w::need(wt, 2)?; #w::map_entry(&mut self.#id, #w::len_delim(&mut d)?)?; } });
            }
            ("message", false) => {
                enc.push(quote! { if let Some(m) = &self.#id { #w::put_len(&mut o, #tag, &::prost::Message::encode_raw_vec(m)); } });
                dec.push(quote! { #tag => { #w::need(wt, 2)?; let b = #w::len_delim(&mut d)?;
                    ::prost::Message::merge_vec(self.#id.get_or_insert_with(Default::default), b)?; } });
            }
            ("message", true) => {
                enc.push(quote! { for m in &self.#id { #w::put_len(&mut o, #tag, &::prost::Message::encode_raw_vec(m)); } });
                dec.push(quote! { #tag => { #w::need(wt, 2)?; let b = #w::len_delim(&mut d)?;
                    let mut m = Default::default(); ::prost::Message::merge_vec(&mut m, b)?; self.#id.push(m); } });
            }
            ("uint32", false) => {
                enc.push(quote! { if self.#id != 0 { #w::put_varint(&mut o, (#tag << 3) as u64); #w::put_varint(&mut o, self.#id as u64); } });
                dec.push(quote! { #tag => { #w::need(wt, 0)?; self.#id = #w::varint(&mut d)? as u32; } });
            }
            ("bool", false) => {
                enc.push(quote! { if self.#id { #w::put_varint(&mut o, (#tag << 3) as u64); #w::put_varint(&mut o, 1); } });
                dec.push(quote! { #tag => { #w::need(wt, 0)?; self.#id = #w::varint(&mut d)? != 0; } });
            }
            ("oneof", false) => {
                let ty = syn::Ident::new(&of, proc_macro2::Span::call_site());
                enc.push(quote! { if let Some(v) = &self.#id { v.encode_to(&mut o); } });
                dec.push(quote! { #(#tags)|* => { #ty::merge_one(&mut self.#id, tag, wt, &mut d)?; } });
            }
            (k, r) => panic!("unsupported prost field kind {k} repeated={r}"),
        }
    }
    quote! {
        impl ::prost::Message for #name {
            fn encode_raw_vec(&self) -> Vec<u8> {
                let mut o = Vec::new();
                #(#enc)*
                o
            }
            fn merge_vec(&mut self, d: &[u8]) -> ::core::result::Result<(), ::prost::DecodeError> {
                let mut d = d;
                while !d.is_empty() {
                    let (tag, wt) = ::prost::wire::key(&mut d)?;
                    match tag {
                        #(#dec)*
                        _ => ::prost::wire::skip(&mut d, wt)?,
                    }
                }
                Ok(())
            }
        }
        impl Default for #name {
            fn default() -> Self { #name { #(#init),* } }
        }
        impl ::core::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.debug_struct(stringify!(#name))#(#dbg)*.finish()
            }
        }
    }
    .into()
}


/// `#[derive(Oneof)]` for enums whose variants hold one uint32 or one message.
#[proc_macro_derive(Oneof, attributes(prost))]
pub fn oneof(ts: TokenStream) -> TokenStream {
    let input = parse_macro_input!(ts as DeriveInput);
    let name = &input.ident;
    let vars = match &input.data {
        Data::Enum(e) => &e.variants,
        _ => panic!("enums only"),
    };
    let (mut enc, mut dec, mut dbg) = (vec![], vec![], vec![]);
    let w = quote! { ::prost::wire };
    for v in vars {
        let id = &v.ident;
        let (mut kind, mut tag) = (String::new(), 0u32);
        for a in &v.attrs {
            if let (true, Ok(Meta::List(l))) = (a.path.is_ident("prost"), a.parse_meta()) {
                for n in l.nested {
                    match n {
                        NestedMeta::Meta(Meta::Path(p)) => kind = p.get_ident().unwrap().to_string(),
                        NestedMeta::Meta(Meta::NameValue(nv)) => {
                            if let Lit::Str(s) = nv.lit {
                                tag = s.value().parse().unwrap();
                            }
                        }
                        _ => panic!("prost attribute"),
                    }
                }
            }
        }
        dbg.push(quote! { #name::#id(v) => f.debug_tuple(stringify!(#id)).field(v).finish() });
        if kind == "uint32" {
            enc.push(quote! { #name::#id(v) => { #w::put_varint(o, (#tag << 3) as u64); #w::put_varint(o, *v as u64); } });
            dec.push(quote! { #tag => { #w::need(wt, 0)?; *to = Some(#name::#id(#w::varint(d)? as u32)); } });
        } else {
            enc.push(quote! { #name::#id(v) => #w::put_len(o, #tag, &::prost::Message::encode_raw_vec(v)) });
            dec.push(quote! { #tag => {
                #w::need(wt, 2)?;
                let b = #w::len_delim(d)?;
                let mut m = match to.take() { Some(#name::#id(m)) => m, _ => Default::default() };
                ::prost::Message::merge_vec(&mut m, b)?;
                *to = Some(#name::#id(m));
            } });
        }
    }
    quote! {
        impl #name {
            fn encode_to(&self, o: &mut Vec<u8>) {
                match self { #(#enc),* }
            }
            fn merge_one(to: &mut Option<Self>, tag: u32, wt: u64, d: &mut &[u8]) -> ::core::result::Result<(), ::prost::DecodeError> {
                match tag {
                    #(#dec)*
                    _ => unreachable!(),
                }
                Ok(())
            }
        }
        impl ::core::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                match self { #(#dbg),* }
            }
        }
    }
    .into()
}

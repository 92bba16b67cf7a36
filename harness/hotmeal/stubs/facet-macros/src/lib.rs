//! `#[derive(Facet)]`: the stand-in for the wire format (fields in order, proxies where asked for),
//! and `Display` and `Error` where `derive(Error)` asks for them.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields};

fn facets(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if !a.path().is_ident("facet") { continue }
        let Ok(l) = a.meta.require_list() else { continue };
        v.extend(l.tokens.to_string().replace(' ', "").split(',').map(str::to_owned));
    }
    v
}
fn proxy(attrs: &[Attribute]) -> Option<TokenStream> { facets(attrs).iter().find_map(|f| f.strip_prefix("proxy=").map(|p| p.parse().unwrap())) }

/// Pattern, code to write and code to read one list of fields.
fn fields(f: &Fields) -> (TokenStream, TokenStream, TokenStream) {
    let (mut pat, mut put, mut get) = (vec![], vec![], vec![]);
    for (i, f) in f.iter().enumerate() {
        let x = format_ident!("x{i}");
        match &f.ident { Some(n) => pat.push(quote!(#n: #x)), None => pat.push(quote!(#x)) }
        let ty = &f.ty;
        let (p, g) = match proxy(&f.attrs) {
            Some(q) => (quote!(::facet::Wire::put(&<#q>::from(#x), out);), quote!(<#ty>::from(<#q as ::facet::Wire>::get(from)?))),
            None => (quote!(::facet::Wire::put(#x, out);), quote!(<#ty as ::facet::Wire>::get(from)?)),
        };
        put.push(p);
        get.push(match &f.ident { Some(n) => quote!(#n: #g), None => g });
    }
    let wrap = |v: Vec<TokenStream>| match f { Fields::Named(_) => quote!({ #(#v),* }), Fields::Unnamed(_) => quote!(( #(#v),* )), Fields::Unit => quote!() };
    (wrap(pat), quote!(#(#put)*), wrap(get))
}

#[proc_macro_derive(Facet, attributes(facet))]
pub fn facet(item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: DeriveInput = syn::parse(item).unwrap();
    let name = &d.ident;
    let what = facets(&d.attrs);
    if what.iter().any(|f| f.starts_with("derive(Error")) {
        return quote!(
            impl ::std::fmt::Display for #name { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(self, f) } }
            impl ::std::error::Error for #name {}
        ).into();
    }
    let (ig, tg, wh) = d.generics.split_for_impl();
    let (put, get) = match &d.data {
        // either of two representations of one string
        Data::Enum(_) if what.iter().any(|f| f == "cow") => (
            quote!(match self { Self::Borrowed(x) => ::facet::Wire::put(&::std::string::String::from(*x), out), Self::Owned(x) => ::facet::Wire::put(&::std::string::String::from(x.as_str()), out) }),
            quote!(::std::option::Option::Some(Self::Owned(<::std::string::String as ::facet::Wire>::get(from)?.into()))),
        ),
        Data::Struct(s) => {
            let (p, w, r) = fields(&s.fields);
            (quote!(let Self #p = self; #w), quote!(::std::option::Option::Some(Self #r)))
        }
        Data::Enum(e) => {
            let (mut w, mut r) = (vec![], vec![]);
            for (i, v) in e.variants.iter().enumerate() {
                let (n, i) = (&v.ident, i as u8);
                let (p, a, b) = fields(&v.fields);
                w.push(quote!(Self::#n #p => { out.push(#i); #a }));
                r.push(quote!(#i => ::std::option::Option::Some(Self::#n #b)));
            }
            (quote!(match self { #(#w)* }), quote!(match <u8 as ::facet::Wire>::get(from)? { #(#r,)* _ => ::std::option::Option::None }))
        }
        Data::Union(_) => panic!("union"),
    };
    quote!(#[automatically_derived] impl #ig ::facet::Wire for #name #tg #wh {
        fn put(&self, out: &mut ::std::vec::Vec<u8>) { #put }
        fn get(from: &mut &[u8]) -> ::std::option::Option<Self> { #get }
    }).into()
}

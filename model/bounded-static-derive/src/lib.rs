use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, GenericParam};

#[proc_macro_derive(ToStatic)]
pub fn derive(input: TokenStream) -> TokenStream {
    let i = parse_macro_input!(input as DeriveInput);
    let name = &i.ident;
    let mut lts = vec![];
    let mut tys = vec![];
    for p in &i.generics.params {
        match p {
            GenericParam::Lifetime(l) => lts.push(l.lifetime.clone()),
            GenericParam::Type(t) => tys.push(t.ident.clone()),
            _ => panic!("const generics"),
        }
    }
    let statics = lts.iter().map(|_| quote!('static)).collect::<Vec<_>>();
    let gen_to = quote!(<#(#lts,)* #(#tys: ::bounded_static::ToBoundedStatic),*>);
    let gen_into = quote!(<#(#lts,)* #(#tys: ::bounded_static::IntoBoundedStatic),*>);
    let self_args = quote!(<#(#lts,)* #(#tys),*>);
    let st_to = quote!(<#(#statics,)* #(<#tys as ::bounded_static::ToBoundedStatic>::Static),*>);
    let st_into = quote!(<#(#statics,)* #(<#tys as ::bounded_static::IntoBoundedStatic>::Static),*>);
    let arms = |m: &str| -> proc_macro2::TokenStream {
        let m = format_ident!("{}", m);
        let one = |path: proc_macro2::TokenStream, f: &Fields| match f {
            Fields::Unit => quote!(#path => #path,),
            Fields::Unnamed(u) => {
                let v: Vec<_> = (0..u.unnamed.len()).map(|n| format_ident!("f{}", n)).collect();
                quote!(#path(#(#v),*) => #path(#(#v.#m()),*),)
            }
            Fields::Named(n) => {
                let v: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                quote!(#path{#(#v),*} => #path{#(#v: #v.#m()),*},)
            }
        };
        match &i.data {
            Data::Struct(s) => one(quote!(#name), &s.fields),
            Data::Enum(e) => {
                let v = e.variants.iter().map(|v| {
                    let id = &v.ident;
                    one(quote!(#name::#id), &v.fields)
                });
                quote!(#(#v)*)
            }
            _ => panic!(),
        }
    };
    let to = arms("to_static");
    let into = arms("into_static");
    quote!(
        impl #gen_to ::bounded_static::ToBoundedStatic for #name #self_args {
            type Static = #name #st_to;
            fn to_static(&self) -> Self::Static { match self { #to } }
        }
        impl #gen_into ::bounded_static::IntoBoundedStatic for #name #self_args {
            type Static = #name #st_into;
            fn into_static(self) -> Self::Static { match self { #into } }
        }
    )
    .into()
}

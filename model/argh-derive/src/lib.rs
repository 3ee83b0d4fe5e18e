use proc_macro::TokenStream;
use quote::quote;
/// `--<name> <value>` string options with a default expression, nothing else.
#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn from_args(input: TokenStream) -> TokenStream {
    let input: syn::DeriveInput = syn::parse(input).unwrap();
    let name = &input.ident;
    let syn::Data::Struct(data) = &input.data else { panic!("struct expected") };
    let fields = data.fields.iter().map(|f| {
        let id = f.ident.as_ref().unwrap();
        let flag = format!("--{}", id.to_string().replace('_', "-"));
        let mut default = quote!(panic!("missing option"));
        for a in f.attrs.iter().filter(|a| a.path().is_ident("argh")) {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident("default") {
                    let s: syn::LitStr = m.value()?.parse()?;
                    let e: syn::Expr = s.parse()?;
                    default = quote!(#e);
                } else if m.input.peek(syn::Token![=]) {
                    let _: syn::Expr = m.value()?.parse()?;
                }
                Ok(())
            });
        }
        quote!(#id: match argh::__option(args, #flag) {
            Some(v) => v.parse().expect("bad option value"),
            None => #default,
        })
    });
    quote!(impl argh::FromArgs for #name {
        fn __from(args: &[String]) -> Self { Self { #(#fields),* } }
    })
    .into()
}

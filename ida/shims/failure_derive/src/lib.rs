//! `#[derive(Fail)]` for plain enums and structs; the text of an error is its debug form.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn derive_fail(item: TokenStream) -> TokenStream {
    let mut it = item.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            if matches!(i.to_string().as_str(), "enum" | "struct") {
                let name = it.next().unwrap().to_string();
                return format!(
                    "impl ::failure::Fail for {0} {{}} impl ::std::fmt::Display for {0} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {{ ::std::fmt::Debug::fmt(self, f) }} }}",
                    name
                )
                .parse()
                .unwrap();
            }
        }
    }
    panic!("derive(Fail) on something that is neither enum nor struct");
}

//! `derive(Parser)` and `derive(ValueEnum)` for the subset of clap that a plain command line with options needs.
use heck::{ToKebabCase, ToSnakeCase};
use proc_macro::TokenStream;
use quote::quote;
use syn::parse::{Parse, ParseStream};
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields, GenericArgument, Lit, PathArguments, Token, Type};

/// `name`, `name = value` or `name(...)`
struct Meta {
    name: String,
    value: Option<Expr>,
}
impl Parse for Meta {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let name = syn::Ident::parse(i)?.to_string();
        let mut value = None;
        if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            value = Some(i.parse()?);
        } else if i.peek(syn::token::Paren) {
            let inner;
            syn::parenthesized!(inner in i);
            inner.parse::<proc_macro2::TokenStream>()?;
        }
        Ok(Meta { name, value })
    }
}
fn metas(attrs: &[Attribute]) -> Vec<Meta> {
    let mut v = vec![];
    for a in attrs {
        if ["arg", "clap", "value", "command"].iter().any(|n| a.path().is_ident(n)) {
            let list = a
                .parse_args_with(syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .expect("an attribute the stand-in for clap does not understand");
            v.extend(list);
        }
    }
    v
}
fn text(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => Some(s.value()),
            Lit::Char(c) => Some(c.value().to_string()),
            _ => None,
        },
        _ => None,
    }
}
/// The argument of `outer<...>`
fn inside<'a>(t: &'a Type, outer: &str) -> Option<&'a Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != outer {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.first()? {
        GenericArgument::Type(t) => Some(t),
        _ => None,
    }
}
fn cased(name: &str, style: &str) -> String {
    match style {
        "snake_case" | "snake" => name.to_snake_case(),
        "verbatim" => name.into(),
        "kebab-case" | "kebab" => name.to_kebab_case(),
        s => panic!("the stand-in for clap does not know rename_all = {s}"),
    }
}
#[proc_macro_derive(ValueEnum, attributes(value, clap))]
pub fn value_enum(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let style = metas(&d.attrs).into_iter().find(|m| m.name == "rename_all").and_then(|m| text(&m.value?)).unwrap_or("kebab-case".into());
    let Data::Enum(e) = &d.data else { panic!("not an enum") };
    let (mut idents, mut names) = (vec![], vec![]);
    for v in &e.variants {
        let m = metas(&v.attrs);
        if m.iter().any(|m| m.name == "skip") {
            continue;
        }
        let given = m.iter().find(|m| m.name == "name").and_then(|m| text(m.value.as_ref()?));
        names.push(given.unwrap_or_else(|| cased(&v.ident.to_string(), &style)));
        idents.push(v.ident.clone());
    }
    quote! {
        impl ::clap::ValueEnum for #name {
            fn value_variants<'a>() -> &'a [Self] { &[#(Self::#idents),*] }
            fn to_possible_value(&self) -> ::std::option::Option<::clap::builder::PossibleValue> {
                #[allow(unreachable_patterns)]
                match self {
                    #(Self::#idents => Some(::clap::builder::PossibleValue::new(#names)),)*
                    _ => None,
                }
            }
        }
    }
    .into()
}
#[proc_macro_derive(Parser, attributes(arg, command, clap))]
pub fn parser(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let Data::Struct(s) = &d.data else { panic!("the stand-in for clap parses structures only") };
    let Fields::Named(fields) = &s.fields else { panic!("named fields only") };
    let (mut specs, mut builds) = (vec![], vec![]);
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let kebab = id.to_string().to_kebab_case();
        let m = metas(&f.attrs);
        let find = |n: &str| m.iter().find(|m| m.name == n);
        let value = |n: &str| find(n).and_then(|m| m.value.clone());
        let long = find("long").map(|x| x.value.as_ref().and_then(text).unwrap_or(kebab.clone()));
        let short = find("short").map(|x| x.value.as_ref().and_then(text).and_then(|t| t.chars().next()).unwrap_or(kebab.chars().next().unwrap()));
        assert!(long.is_some() || short.is_some(), "the stand-in for clap takes options only, no positional arguments");
        let (mut t, mut optional, mut many) = (&f.ty, false, false);
        if let Some(u) = inside(t, "Option") {
            (t, optional) = (u, true);
        }
        if let Some(u) = inside(t, "Vec") {
            (t, many) = (u, true);
        }
        let flag = matches!(t, Type::Path(p) if p.path.is_ident("bool")) && !optional && !many && find("action").is_none();
        // num_args: none, a number or a range
        let (lo, hi) = match value("num_args") {
            None => (if flag { 0 } else { 1 }, if flag { 0 } else { 1 }),
            Some(Expr::Range(r)) => {
                let number = |e: &Option<Box<Expr>>, or: usize| match e.as_deref() {
                    Some(Expr::Lit(l)) => match &l.lit {
                        Lit::Int(i) => i.base10_parse().unwrap(),
                        _ => or,
                    },
                    _ => or,
                };
                let hi = number(&r.end, usize::MAX);
                (number(&r.start, 0), if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.end.is_some() { hi - 1 } else { hi })
            }
            Some(Expr::Lit(l)) => match &l.lit {
                Lit::Int(i) => (i.base10_parse().unwrap(), i.base10_parse().unwrap()),
                _ => (1, 1),
            },
            Some(_) => (1, usize::MAX),
        };
        let delimiter = match value("value_delimiter").as_ref().and_then(text).and_then(|t| t.chars().next()) {
            Some(c) => quote!(Some(#c)),
            None => quote!(None),
        };
        let long = match long {
            Some(l) => quote!(Some(#l)),
            None => quote!(None),
        };
        let short = match short {
            Some(c) => quote!(Some(#c)),
            None => quote!(None),
        };
        let default = match (value("default_value"), value("default_value_t")) {
            (Some(e), _) => quote!(Some(::std::string::ToString::to_string(&#e))),
            (None, Some(e)) => quote!(Some(::std::string::ToString::to_string(&#e))),
            _ => quote!(None),
        };
        let required = match value("required") {
            Some(Expr::Lit(l)) => matches!(&l.lit, Lit::Bool(b) if b.value),
            Some(_) => true,
            None => find("required").is_some() || (!optional && !many && !flag && value("default_value").is_none() && value("default_value_t").is_none()),
        };
        let label = id.to_string();
        specs.push(quote! {
            ::clap::__private::Spec { id: #label, long: #long, short: #short, lo: #lo, hi: #hi, many: #many, required: #required, delimiter: #delimiter, default: #default }
        });
        let one = quote! {
            |s: &::std::ffi::OsStr| -> ::std::result::Result<#t, ::std::string::String> {
                #[allow(unused_imports)]
                use ::clap::__private::{ViaEnum, ViaFactory, ViaText};
                (&&&::clap::__private::Wrap::<#t>::NEW).value(s)
            }
        };
        builds.push(if flag {
            quote!(#id: m.present(#label))
        } else if many && optional {
            quote!(#id: m.many(#label, #one)?)
        } else if many {
            quote!(#id: m.many(#label, #one)?.unwrap_or_default())
        } else if optional {
            quote!(#id: m.one(#label, #one)?)
        } else {
            quote!(#id: m.one(#label, #one)?.ok_or("a value is missing")?)
        });
    }
    quote! {
        impl ::clap::Parser for #name {
            fn __specs() -> ::std::vec::Vec<::clap::__private::Spec> { ::std::vec![#(#specs),*] }
            fn __build(m: &::clap::__private::Matches) -> ::std::result::Result<Self, ::std::string::String> {
                Ok(Self { #(#builds),* })
            }
        }
    }
    .into()
}

//! Declarations of generated Rust code, as data.

use quote::ToTokens;
use serde_json::{Value, json};
use syn::{Fields, Item, Meta, Type, UseTree};

fn toks(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn use_paths(t: &UseTree, prefix: &str, out: &mut Vec<String>) {
    match t {
        UseTree::Path(p) => use_paths(&p.tree, &format!("{}{}::", prefix, p.ident), out),
        UseTree::Name(n) => out.push(format!("{}{}", prefix, n.ident)),
        UseTree::Rename(n) => out.push(format!("{}{} as {}", prefix, n.ident, n.rename)),
        UseTree::Glob(_) => out.push(format!("{}*", prefix)),
        UseTree::Group(g) => g.items.iter().for_each(|i| use_paths(i, prefix, out)),
    }
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Tuple(tt) => json!({"k": "tuple", "es": tt.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Paren(p) => ty(&p.elem),
        Type::Path(p) if p.qself.is_none() => {
            let path: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let full = format!("{}{}", if p.path.leading_colon.is_some() { "::" } else { "" }, path.join("::"));
            let args: Vec<&Type> = match &p.path.segments.last().unwrap().arguments {
                syn::PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None })
                    .collect(),
                _ => vec![],
            };
            let only_last = p.path.segments.iter().rev().skip(1).all(|s| s.arguments.is_none());
            match (full.as_str(), args.len(), only_last) {
                ("Option", 1, _) => json!({"k": "opt", "e": ty(args[0])}),
                ("Vec", 1, _) => json!({"k": "list", "e": ty(args[0])}),
                ("HashMap" | "std::collections::HashMap", 2, true) => {
                    json!({"k": "map", "q": full, "key": toks(args[0]), "e": ty(args[1])})
                }
                ("Value" | "serde_json::Value", 0, true) => json!({"k": "any", "q": full}),
                ("bool" | "String" | "i64" | "f64", 0, _) => json!({"k": "prim", "n": full}),
                (_, 0, true) => json!({"k": "ref", "n": full}),
                _ => json!({"k": "ref", "n": toks(t)}),
            }
        }
        _ => json!({"k": "ref", "n": toks(t)}),
    }
}

/// serde attributes as [name, value] pairs ("" for flags), derives, and anything else
fn attrs(attrs: &[syn::Attribute]) -> (Vec<Value>, Vec<String>, Vec<String>) {
    let mut serde = vec![];
    let mut derives = vec![];
    let mut other = vec![];
    for a in attrs {
        if a.path().is_ident("serde") {
            let list = a.parse_args_with(syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated);
            match list {
                Ok(list) => {
                    for m in list {
                        match m {
                            Meta::Path(p) => serde.push(json!([toks(p), ""])),
                            Meta::NameValue(nv) => {
                                let v = match &nv.value {
                                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => l.value(),
                                    e => format!("<expr>{}", toks(e)),
                                };
                                serde.push(json!([toks(nv.path), v]))
                            }
                            Meta::List(l) => serde.push(json!([toks(l), "<list>"])),
                        }
                    }
                }
                Err(_) => other.push(toks(a)),
            }
        } else if a.path().is_ident("derive") {
            let list = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated);
            match list {
                Ok(list) => derives.extend(list.iter().map(toks)),
                Err(_) => other.push(toks(a)),
            }
        } else {
            other.push(toks(a));
        }
    }
    (serde, derives, other)
}

fn vis(v: &syn::Visibility) -> String {
    match v {
        syn::Visibility::Restricted(r) if r.in_token.is_some() => format!("pub(in {})", toks(&*r.path)),
        _ => toks(v),
    }
}

pub fn extract(code: &str) -> Value {
    let file = match syn::parse_file(code) {
        Ok(f) => f,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let mut uses = vec![];
    let mut decls = vec![];
    let mut other = vec![];
    for item in &file.items {
        match item {
            Item::Use(u) => use_paths(&u.tree, "", &mut uses),
            Item::Type(t) if t.generics.params.is_empty() => {
                let (serde, derives, oth) = attrs(&t.attrs);
                if !serde.is_empty() || !derives.is_empty() || !oth.is_empty() {
                    other.push(toks(t));
                }
                decls.push(json!({"k": "alias", "n": t.ident.to_string(), "vis": vis(&t.vis), "t": ty(&t.ty)}))
            }
            Item::Struct(st) if st.generics.params.is_empty() => {
                let (serde, derives, oth) = attrs(&st.attrs);
                other.extend(oth);
                let mut fields = vec![];
                match &st.fields {
                    Fields::Named(named) => {
                        for f in &named.named {
                            let (fs, fd, fo) = attrs(&f.attrs);
                            other.extend(fd);
                            other.extend(fo);
                            fields.push(json!({"id": f.ident.as_ref().unwrap().to_string(), "vis": vis(&f.vis), "serde": fs, "t": ty(&f.ty)}))
                        }
                    }
                    _ => other.push(toks(st)),
                }
                decls.push(json!({"k": "class", "n": st.ident.to_string(), "vis": vis(&st.vis), "serde": serde, "derives": derives, "fields": fields}))
            }
            i => other.push(toks(i)),
        }
    }
    json!({"uses": uses, "decls": decls, "other": other})
}

use std::collections::HashMap;
use syn::*;

pub struct FnSrc {
    pub file: String,
    pub owner: Option<String>,
    pub vis_pub: bool,
    pub attrs: Vec<Attribute>,
    pub sig: Signature,
    pub block: Block,
    pub line: usize,
    /// exported with #[private]: the generated entry refuses any other caller than the contract itself
    pub private: bool,
}

#[derive(Default)]
pub struct Db {
    pub fns: HashMap<String, FnSrc>,
    pub consts: HashMap<String, ItemConst>,
    pub types: HashMap<String, Item>,
}

pub fn is_private(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("private")) }

pub fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote::ToTokens::to_token_stream(&a.meta).to_string().replace(' ', "");
        s == "cfg(test)" || s == "cfg(ref_verif)" || s == "cfg(not(target_arch=\"wasm32\"))"
    })
}

/// replaces a whole identifier
fn rename(text: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in text.chars().chain(std::iter::once('\n')) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            out.push_str(if word == from { to } else { &word });
            word.clear();
            out.push(c);
        }
    }
    out
}

impl Db {
    pub fn load(&mut self, repo: &str, rel: &str) -> std::result::Result<(), String> {
        // rel may be "path" or "path#prefix": prefix_ is put before the names of the file's constants (several files
        // of the repository define private constants of the same name)
        let (path, prefix) = match rel.split_once('#') {
            Some((p, x)) => (p, format!("{}_", x)),
            None => (rel, String::new()),
        };
        let full = format!("{}/{}", repo, path);
        let text = std::fs::read_to_string(&full).map_err(|e| format!("lost anchor: {}: {}", full, e))?;
        let mut file = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {}", full, e))?;
        if !prefix.is_empty() {
            let mut text = text;
            for it in &file.items {
                if let Item::Const(c) = it {
                    text = rename(&text, &c.ident.to_string(), &format!("{}{}", prefix, c.ident));
                }
            }
            file = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {}", full, e))?;
        }
        self.items(path, "", file.items);
        Ok(())
    }
    fn items(&mut self, path: &str, prefix: &str, items: Vec<Item>) {
        for it in items {
            match it {
                Item::Const(c) if !cfg_off(&c.attrs) => {
                    self.consts.insert(format!("{}{}", prefix, c.ident), c);
                }
                Item::Struct(s) if !cfg_off(&s.attrs) => {
                    self.types.insert(format!("{}{}", prefix, s.ident), Item::Struct(s));
                }
                Item::Enum(s) if !cfg_off(&s.attrs) => {
                    self.types.insert(format!("{}{}", prefix, s.ident), Item::Enum(s));
                }
                Item::Fn(f) if !cfg_off(&f.attrs) => {
                    let line = f.sig.ident.span().start().line;
                    self.fns.insert(
                        format!("{}{}", prefix, f.sig.ident),
                        FnSrc { file: path.into(), owner: None, vis_pub: true, private: false, attrs: f.attrs, sig: f.sig, block: *f.block, line },
                    );
                }
                Item::Impl(im) if !cfg_off(&im.attrs) => {
                    let ty = match &*im.self_ty {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => continue,
                    };
                    let tr = im.trait_.as_ref().map(|(_, p, _)| {
                        quote::ToTokens::to_token_stream(p).to_string().replace(' ', "")
                    });
                    let bindgen = im.attrs.iter().any(|a| a.path().is_ident("near_bindgen"));
                    for i in im.items {
                        if let ImplItem::Fn(f) = i {
                            if cfg_off(&f.attrs) {
                                continue;
                            }
                            let line = f.sig.ident.span().start().line;
                            let private = bindgen && is_private(&f.attrs);
                            let src = FnSrc {
                                private,
                                file: path.into(),
                                owner: Some(ty.clone()),
                                vis_pub: true,
                                attrs: f.attrs,
                                sig: f.sig.clone(),
                                block: f.block,
                                line,
                            };
                            let key = format!("{}{}::{}", prefix, ty, f.sig.ident);
                            match &tr {
                                Some(t) if t.starts_with("From<") || t.starts_with("Into<") => {
                                    self.fns.insert(format!("{}{}::{}<{}", prefix, ty, f.sig.ident, &t[5..]), src);
                                }
                                _ => {
                                    self.fns.insert(key, src);
                                }
                            }
                        }
                    }
                }
                Item::Mod(m) if !cfg_off(&m.attrs) => {
                    if let Some((_, items)) = m.content {
                        for x in &items {
                            match x {
                                Item::Struct(s) => { self.types.insert(format!("{}::{}", m.ident, s.ident), x.clone()); }
                                Item::Enum(s) => { self.types.insert(format!("{}::{}", m.ident, s.ident), x.clone()); }
                                _ => {}
                            }
                        }
                        self.items(path, prefix, items);
                    }
                }
                _ => {}
            }
        }
    }
}

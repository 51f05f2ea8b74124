//! ndjson request/response server around the schema-side crates of /repo.
//! Reports what the code did; decides nothing.

use std::{
    io::{BufRead, Write},
    panic::{AssertUnwindSafe, catch_unwind},
    path::{Path, PathBuf},
};

use mabo_compiler::simplify as si;
use mabo_parser::token::Delimiter;
use mabo_parser::{
    Attribute, AttributeValue, Attributes, Comment, DataType, Definition, Fields, Generics, Id,
    Literal, LiteralValue, Name, Schema, Span, Spanned, Type,
};
use serde_json::{Value as J, json};

// ---------------------------------------------------------------- parser AST -> JSON (+ spans)

struct Dump {
    spans: Vec<J>,
}

impl Dump {
    fn sp(&mut self, kind: &str, s: Span) {
        let r: std::ops::Range<usize> = s.into();
        self.spans.push(json!([kind, r.start, r.end]));
    }
    fn tok(&mut self, s: Span) {
        self.sp("tok", s);
    }
    fn delim(&mut self, d: &impl Delimiter) {
        self.tok(d.open());
        self.tok(d.close());
    }
    fn commas<T>(&mut self, p: &mabo_parser::punctuated::Punctuated<T>) {
        for (_, c) in p {
            if let Some(c) = c {
                self.tok(c.span());
            }
        }
    }
    fn name(&mut self, n: &Name<'_>) -> J {
        self.sp("name", n.span());
        json!(n.get())
    }
    fn comment(&mut self, c: &Comment<'_>) -> J {
        c.0.iter()
            .map(|l| {
                self.sp("comment", l.span());
                json!(l.value)
            })
            .collect()
    }
    fn generics(&mut self, g: Option<&Generics<'_>>) -> J {
        g.map_or(json!([]), |g| {
            self.delim(&g.angle);
            self.commas(&g.types);
            g.types.values().map(|n| self.name(n)).collect()
        })
    }
    fn id(&mut self, id: Option<&Id>) -> J {
        id.map_or(json!([]), |i| {
            self.sp("id", i.span());
            json!([i.get().to_string()])
        })
    }
    fn fields(&mut self, f: &Fields<'_>) -> J {
        match f {
            Fields::Named(brace, fs) => {
                self.delim(brace);
                self.commas(fs);
                let fs: Vec<J> = fs
                    .values()
                    .map(|f| {
                        self.sp("field", f.span());
                        let comment = self.comment(&f.comment);
                        let name = self.name(&f.name);
                        self.tok(f.colon.span());
                        let ty = self.ty(&f.ty);
                        let id = self.id(f.id.as_ref());
                        json!({"comment": comment, "name": name, "ty": ty, "id": id})
                    })
                    .collect();
                json!({"k": "named", "fs": fs})
            }
            Fields::Unnamed(paren, fs) => {
                self.delim(paren);
                self.commas(fs);
                let fs: Vec<J> = fs
                    .values()
                    .map(|f| {
                        self.sp("field", f.span());
                        let ty = self.ty(&f.ty);
                        let id = self.id(f.id.as_ref());
                        json!({"comment": [], "name": "", "ty": ty, "id": id})
                    })
                    .collect();
                json!({"k": "unnamed", "fs": fs})
            }
            Fields::Unit => json!({"k": "unit", "fs": []}),
        }
    }
    fn ty(&mut self, t: &Type<'_>) -> J {
        self.sp("type", t.span());
        match &t.value {
            DataType::Bool => json!({"k": "bool"}),
            DataType::U8 => json!({"k": "u8"}),
            DataType::U16 => json!({"k": "u16"}),
            DataType::U32 => json!({"k": "u32"}),
            DataType::U64 => json!({"k": "u64"}),
            DataType::U128 => json!({"k": "u128"}),
            DataType::I8 => json!({"k": "i8"}),
            DataType::I16 => json!({"k": "i16"}),
            DataType::I32 => json!({"k": "i32"}),
            DataType::I64 => json!({"k": "i64"}),
            DataType::I128 => json!({"k": "i128"}),
            DataType::F32 => json!({"k": "f32"}),
            DataType::F64 => json!({"k": "f64"}),
            DataType::String => json!({"k": "string"}),
            DataType::StringRef => json!({"k": "strref"}),
            DataType::Bytes => json!({"k": "bytes"}),
            DataType::BytesRef => json!({"k": "bytesref"}),
            DataType::BoxString => json!({"k": "boxstr"}),
            DataType::BoxBytes => json!({"k": "boxbytes"}),
            DataType::Vec { span, angle, ty } => {
                self.tok(*span);
                self.delim(angle);
                json!({"k": "vec", "e": self.ty(ty)})
            }
            DataType::HashMap { span, angle, key, comma, value } => {
                self.tok(*span);
                self.delim(angle);
                self.tok(comma.span());
                let a = self.ty(key);
                let b = self.ty(value);
                json!({"k": "map", "a": a, "b": b})
            }
            DataType::HashSet { span, angle, ty } => {
                self.tok(*span);
                self.delim(angle);
                json!({"k": "set", "e": self.ty(ty)})
            }
            DataType::Option { span, angle, ty } => {
                self.tok(*span);
                self.delim(angle);
                json!({"k": "opt", "e": self.ty(ty)})
            }
            DataType::NonZero { span, angle, ty } => {
                self.tok(*span);
                self.delim(angle);
                json!({"k": "nz", "e": self.ty(ty)})
            }
            DataType::Tuple { paren, types } => {
                self.delim(paren);
                self.commas(types);
                let es: Vec<J> = types.values().map(|t| self.ty(t)).collect();
                json!({"k": "tup", "es": es})
            }
            DataType::Array { bracket, ty, semicolon, size } => {
                self.delim(bracket);
                self.tok(semicolon.span());
                json!({"k": "arr", "e": self.ty(ty), "n": size.to_string()})
            }
            DataType::External(e) => {
                let path: Vec<J> = e
                    .path
                    .iter()
                    .map(|(n, c)| {
                        self.tok(c.span());
                        self.name(n)
                    })
                    .collect();
                if let Some(a) = &e.angle {
                    self.delim(a);
                }
                if let Some(g) = &e.generics {
                    self.commas(g);
                }
                let name = self.name(&e.name);
                let ts: Vec<J> = e
                    .generics
                    .as_ref()
                    .map_or_else(Vec::new, |g| g.values().map(|t| self.ty(t)).collect());
                json!({"k": "ext", "path": path, "name": name, "ts": ts})
            }
        }
    }
    fn lit(&mut self, l: &Literal) -> J {
        self.sp("literal", l.span());
        match &l.value {
            LiteralValue::Bool(b) => json!({"k": "bool", "v": b.to_string()}),
            LiteralValue::Int(i) => json!({"k": "int", "v": i.to_string()}),
            LiteralValue::Float(f) => json!({"k": "float", "v": format!("{:016x}", f.to_bits())}),
            LiteralValue::String(s) => json!({"k": "str", "v": s}),
            LiteralValue::Bytes(b) => json!({"k": "bytes", "v": hex(b)}),
        }
    }
    fn attrs(&mut self, a: &Attributes<'_>) -> J {
        a.0.iter().map(|a| self.attr(a)).collect()
    }
    fn attr(&mut self, a: &Attribute<'_>) -> J {
        let v = match &a.value {
            AttributeValue::Unit => json!({"k": "unit"}),
            AttributeValue::Single(l) => json!({"k": "single", "lit": self.lit(l)}),
            AttributeValue::Multi(v) => {
                let v: Vec<J> = v.iter().map(|a| self.attr(a)).collect();
                json!({"k": "multi", "attrs": v})
            }
        };
        json!({"name": a.name, "v": v})
    }
    fn def(&mut self, d: &Definition<'_>) -> J {
        match d {
            Definition::Module(m) => {
                self.tok(m.keyword.span());
                self.delim(&m.brace);
                let comment = self.comment(&m.comment);
                let name = self.name(&m.name);
                let defs: Vec<J> = m.definitions.iter().map(|d| self.def(d)).collect();
                json!({"d": "mod", "comment": comment, "name": name, "defs": defs})
            }
            Definition::Struct(s) => {
                self.tok(s.keyword.span());
                let comment = self.comment(&s.comment);
                let attrs = self.attrs(&s.attributes);
                let name = self.name(&s.name);
                let generics = self.generics(s.generics.as_ref());
                let fields = self.fields(&s.fields);
                json!({"d": "struct", "comment": comment, "attrs": attrs, "name": name,
                       "gen": generics, "fields": fields})
            }
            Definition::Enum(e) => {
                self.tok(e.keyword.span());
                self.delim(&e.brace);
                self.commas(&e.variants);
                let comment = self.comment(&e.comment);
                let attrs = self.attrs(&e.attributes);
                let name = self.name(&e.name);
                let generics = self.generics(e.generics.as_ref());
                let variants: Vec<J> = e
                    .variants
                    .values()
                    .map(|v| {
                        self.sp("variant", v.span());
                        let comment = self.comment(&v.comment);
                        let name = self.name(&v.name);
                        let fields = self.fields(&v.fields);
                        let id = self.id(v.id.as_ref());
                        json!({"comment": comment, "name": name, "fields": fields, "id": id})
                    })
                    .collect();
                json!({"d": "enum", "comment": comment, "attrs": attrs, "name": name,
                       "gen": generics, "variants": variants})
            }
            Definition::TypeAlias(a) => {
                self.tok(a.keyword.span());
                self.tok(a.equal.span());
                self.tok(a.semicolon.span());
                let comment = self.comment(&a.comment);
                let name = self.name(&a.name);
                let generics = self.generics(a.generics.as_ref());
                let ty = self.ty(&a.target);
                json!({"d": "alias", "comment": comment, "name": name, "gen": generics, "ty": ty})
            }
            Definition::Const(c) => {
                self.tok(c.keyword.span());
                self.tok(c.colon.span());
                self.tok(c.equal.span());
                self.tok(c.semicolon.span());
                let comment = self.comment(&c.comment);
                let name = self.name(&c.name);
                let ty = self.ty(&c.ty);
                let lit = self.lit(&c.value);
                json!({"d": "const", "comment": comment, "name": name, "ty": ty, "lit": lit})
            }
            Definition::Import(i) => {
                let segs: Vec<J> = i.segments.iter().map(|n| self.name(n)).collect();
                self.tok(i.keyword.span());
                self.tok(i.semicolon.span());
                self.sp("path", i.full.span());
                let elem: Vec<J> = i
                    .element
                    .iter()
                    .map(|(c, n)| {
                        self.tok(c.span());
                        self.name(n)
                    })
                    .collect();
                json!({"d": "use", "segs": segs, "elem": elem})
            }
        }
    }
    fn schema(&mut self, s: &Schema<'_>) -> J {
        let comment = self.comment(&s.comment);
        let defs: Vec<J> = s.definitions.iter().map(|d| self.def(d)).collect();
        json!({"comment": comment, "defs": defs})
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

// ---------------------------------------------------------------- simplified schema -> JSON

fn s_ty(t: &si::Type<'_>) -> J {
    match t {
        si::Type::Bool => json!({"k": "bool"}),
        si::Type::U8 => json!({"k": "u8"}),
        si::Type::U16 => json!({"k": "u16"}),
        si::Type::U32 => json!({"k": "u32"}),
        si::Type::U64 => json!({"k": "u64"}),
        si::Type::U128 => json!({"k": "u128"}),
        si::Type::I8 => json!({"k": "i8"}),
        si::Type::I16 => json!({"k": "i16"}),
        si::Type::I32 => json!({"k": "i32"}),
        si::Type::I64 => json!({"k": "i64"}),
        si::Type::I128 => json!({"k": "i128"}),
        si::Type::F32 => json!({"k": "f32"}),
        si::Type::F64 => json!({"k": "f64"}),
        si::Type::String => json!({"k": "string"}),
        si::Type::StringRef => json!({"k": "strref"}),
        si::Type::Bytes => json!({"k": "bytes"}),
        si::Type::BytesRef => json!({"k": "bytesref"}),
        si::Type::BoxString => json!({"k": "boxstr"}),
        si::Type::BoxBytes => json!({"k": "boxbytes"}),
        si::Type::Vec(t) => json!({"k": "vec", "e": s_ty(t)}),
        si::Type::HashMap(kv) => json!({"k": "map", "a": s_ty(&kv.0), "b": s_ty(&kv.1)}),
        si::Type::HashSet(t) => json!({"k": "set", "e": s_ty(t)}),
        si::Type::Option(t) => json!({"k": "opt", "e": s_ty(t)}),
        si::Type::NonZero(t) => json!({"k": "nz", "e": s_ty(t)}),
        si::Type::Tuple(ts) => json!({"k": "tup", "es": ts.iter().map(s_ty).collect::<Vec<_>>()}),
        si::Type::Array(t, n) => json!({"k": "arr", "e": s_ty(t), "n": n.to_string()}),
        si::Type::External(e) => json!({"k": "ext", "path": e.path, "name": e.name,
            "ts": e.generics.iter().map(s_ty).collect::<Vec<_>>()}),
    }
}

fn s_fields(f: &si::Fields<'_>) -> J {
    let k = match f.kind {
        si::FieldKind::Named => "named",
        si::FieldKind::Unnamed => "unnamed",
        si::FieldKind::Unit => "unit",
    };
    let fs: Vec<J> = f
        .fields
        .iter()
        .map(|f| {
            json!({"comment": f.comment, "name": f.name, "ty": s_ty(&f.ty), "id": f.id.to_string(),
                   "wire": wire(&f.ty)})
        })
        .collect();
    let next = guard(|| json!(mabo_meta::next_field_id(f).map(|n| vec![n.to_string()]).unwrap_or_default()));
    json!({"k": k, "fs": fs, "next": next})
}

fn wire(t: &si::Type<'_>) -> J {
    guard(|| {
        mabo_meta::wire_size(t).map_or(json!([]), |w| {
            let mut s = String::new();
            w.print(&mut s, 0);
            json!([s])
        })
    })
}

fn s_lit(l: &si::Literal) -> J {
    match l {
        si::Literal::Bool(b) => json!({"k": "bool", "v": b.to_string()}),
        si::Literal::Int(i) => json!({"k": "int", "v": i.to_string()}),
        si::Literal::Float(f) => json!({"k": "float", "v": format!("{:016x}", f.to_bits())}),
        si::Literal::String(s) => json!({"k": "str", "v": s}),
        si::Literal::Bytes(b) => json!({"k": "bytes", "v": hex(b)}),
    }
}

fn s_def(d: &si::Definition<'_>) -> J {
    match d {
        si::Definition::Module(m) => json!({"d": "mod", "comment": m.comment, "name": m.name,
            "defs": m.definitions.iter().map(s_def).collect::<Vec<_>>()}),
        si::Definition::Struct(s) => json!({"d": "struct", "comment": s.comment, "name": s.name,
            "gen": s.generics, "fields": s_fields(&s.fields)}),
        si::Definition::Enum(e) => json!({"d": "enum", "comment": e.comment, "name": e.name,
            "gen": e.generics,
            "next": guard(|| json!([mabo_meta::next_variant_id(&e.variants).to_string()])),
            "variants": e.variants.iter().map(|v| json!({"comment": v.comment, "name": v.name,
                "id": v.id.to_string(), "fields": s_fields(&v.fields)})).collect::<Vec<_>>()}),
        si::Definition::TypeAlias(a) => json!({"d": "alias", "comment": a.comment, "name": a.name,
            "gen": a.generics, "ty": s_ty(&a.target), "wire": wire(&a.target)}),
        si::Definition::Const(c) => json!({"d": "const", "comment": c.comment, "name": c.name,
            "ty": s_ty(&c.ty), "lit": s_lit(&c.value)}),
        si::Definition::Import(i) => json!({"d": "use", "segs": i.segments,
            "elem": i.element.iter().map(|s| s.to_string()).collect::<Vec<_>>()}),
    }
}

// ---------------------------------------------------------------- errors

fn labels(e: &dyn miette::Diagnostic, out: &mut Vec<J>) {
    for l in e.labels().into_iter().flatten() {
        out.push(json!([l.offset(), l.len(), l.label().unwrap_or("")]));
    }
    for r in e.related().into_iter().flatten() {
        labels(r, out);
    }
    if let Some(r) = e.diagnostic_source() {
        labels(r, out);
    }
}

fn diag(e: &dyn miette::Diagnostic) -> J {
    let mut l = vec![];
    labels(e, &mut l);
    json!({"msg": e.to_string(), "labels": l})
}

fn verr(e: &mabo_compiler::validate::Error) -> J {
    use mabo_compiler::validate::*;
    let r = |a: &std::ops::Range<usize>| json!([a.start, a.end]);
    match e {
        Error::DuplicateId(DuplicateId::EnumVariant(x)) => {
            json!({"k": "dup_id", "s": "variant", "id": x.id.get().to_string(),
                   "a": r(&x.first), "b": r(&x.second)})
        }
        Error::DuplicateId(DuplicateId::Field(DuplicateFieldId::Named(x))) => {
            json!({"k": "dup_id", "s": "named", "id": x.id.get().to_string(),
                   "a": r(&x.first), "b": r(&x.second)})
        }
        Error::DuplicateId(DuplicateId::Field(DuplicateFieldId::Unnamed(x))) => {
            json!({"k": "dup_id", "s": "unnamed", "id": x.id.get().to_string(),
                   "a": r(&x.first), "b": r(&x.second)})
        }
        Error::DuplicateName(DuplicateName::EnumVariant(x)) => {
            json!({"k": "dup_name", "s": "variant", "n": x.name, "a": r(&x.first), "b": r(&x.second)})
        }
        Error::DuplicateName(DuplicateName::Field(x)) => {
            json!({"k": "dup_name", "s": "field", "n": x.name, "a": r(&x.first), "b": r(&x.second)})
        }
        Error::DuplicateName(DuplicateName::InModule(x)) => {
            json!({"k": "dup_name", "s": "module", "n": x.name, "a": r(&x.first), "b": r(&x.second)})
        }
        Error::InvalidGeneric(InvalidGenericType::Duplicate(x)) => {
            json!({"k": "gen_dup", "n": x.name, "a": r(&x.first), "b": r(&x.second)})
        }
        Error::InvalidGeneric(InvalidGenericType::Unused(x)) => {
            json!({"k": "gen_unused", "n": x.name, "a": r(&x.declared)})
        }
        Error::TupleSize(x) => json!({"k": "tuple", "a": r(&x.declared)}),
    }
}

fn guard(f: impl FnOnce() -> J) -> J {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned()))
            .unwrap_or_default();
        json!({"panic": m})
    })
}

// ---------------------------------------------------------------- generated source -> JSON

fn r_ty(t: &syn::Type) -> J {
    match t {
        syn::Type::Path(p) => {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let mut args = vec![];
            if let Some(syn::PathArguments::AngleBracketed(a)) = p.path.segments.last().map(|s| &s.arguments) {
                for x in &a.args {
                    if let syn::GenericArgument::Type(t) = x {
                        args.push(r_ty(t));
                    }
                }
            }
            json!({"k": "path", "segs": segs, "args": args})
        }
        syn::Type::Tuple(t) => json!({"k": "tuple", "es": t.elems.iter().map(r_ty).collect::<Vec<_>>()}),
        syn::Type::Array(a) => json!({"k": "array", "e": r_ty(&a.elem), "n": match r_lit(&a.len) { Some(J::Object(o)) => o["v"].clone(), _ => json!("?") }}),
        syn::Type::Slice(s) => json!({"k": "slice", "e": r_ty(&s.elem)}),
        syn::Type::Reference(r) => json!({"k": "ref", "e": r_ty(&r.elem)}),
        syn::Type::Paren(p) => r_ty(&p.elem),
        syn::Type::Group(p) => r_ty(&p.elem),
        _ => json!({"k": "other"}),
    }
}

fn r_lit(e: &syn::Expr) -> Option<J> {
    Some(match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Bool(b) => json!({"k": "bool", "v": b.value.to_string()}),
            syn::Lit::Int(i) => json!({"k": "int", "v": i.base10_digits()}),
            syn::Lit::Float(f) => json!({"k": "float", "v": format!("{:016x}", f.base10_digits().parse::<f64>().ok()?.to_bits())}),
            syn::Lit::Str(s) => json!({"k": "str", "v": s.value()}),
            syn::Lit::ByteStr(s) => json!({"k": "bytes", "v": hex(&s.value())}),
            _ => return None,
        },
        syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => {
            let v = r_lit(expr)?;
            match v["k"].as_str()? {
                "int" => json!({"k": "int", "v": format!("-{}", v["v"].as_str()?)}),
                "float" => {
                    let b = u64::from_str_radix(v["v"].as_str()?, 16).ok()?;
                    json!({"k": "float", "v": format!("{:016x}", (-f64::from_bits(b)).to_bits())})
                }
                _ => return None,
            }
        }
        syn::Expr::Reference(r) => match &*r.expr {
            syn::Expr::Array(a) => {
                let mut b = vec![];
                for x in &a.elems {
                    b.push(r_lit(x)?["v"].as_str()?.parse::<u8>().ok()?);
                }
                json!({"k": "bytes", "v": hex(&b)})
            }
            x => r_lit(x)?,
        },
        syn::Expr::Paren(p) => r_lit(&p.expr)?,
        syn::Expr::Group(p) => r_lit(&p.expr)?,
        _ => return None,
    })
}

fn r_fields(f: &syn::Fields) -> J {
    let k = match f {
        syn::Fields::Named(_) => "named",
        syn::Fields::Unnamed(_) => "unnamed",
        syn::Fields::Unit => "unit",
    };
    let fs: Vec<J> = f
        .iter()
        .map(|f| json!({"name": f.ident.as_ref().map(ToString::to_string).unwrap_or_default(), "ty": r_ty(&f.ty)}))
        .collect();
    json!({"k": k, "fs": fs})
}

fn r_gen(g: &syn::Generics) -> J {
    g.params
        .iter()
        .filter_map(|p| match p {
            syn::GenericParam::Type(t) => Some(json!(t.ident.to_string())),
            _ => None,
        })
        .collect()
}

fn r_items(items: &[syn::Item]) -> J {
    let mut out = vec![];
    for i in items {
        match i {
            syn::Item::Mod(m) => {
                let inner = m.content.as_ref().map_or(json!([]), |c| r_items(&c.1));
                out.push(json!({"i": "mod", "name": m.ident.to_string(), "items": inner}));
            }
            syn::Item::Struct(s) => out.push(json!({"i": "struct", "name": s.ident.to_string(), "gen": r_gen(&s.generics), "f": r_fields(&s.fields)})),
            syn::Item::Enum(e) => out.push(json!({"i": "enum", "name": e.ident.to_string(), "gen": r_gen(&e.generics),
                "vs": e.variants.iter().map(|v| json!({"name": v.ident.to_string(), "f": r_fields(&v.fields)})).collect::<Vec<_>>()})),
            syn::Item::Type(t) => out.push(json!({"i": "type", "name": t.ident.to_string(), "gen": r_gen(&t.generics), "ty": r_ty(&t.ty)})),
            syn::Item::Const(c) => out.push(json!({"i": "const", "name": c.ident.to_string(), "ty": r_ty(&c.ty),
                "val": r_lit(&c.expr).unwrap_or(json!({"k": "?", "v": ""}))})),
            syn::Item::Impl(i) => {
                if let (Some((_, tr, _)), syn::Type::Path(p)) = (&i.trait_, &*i.self_ty) {
                    out.push(json!({"i": "impl", "tr": tr.segments.last().unwrap().ident.to_string(),
                        "name": p.path.segments.last().unwrap().ident.to_string()}));
                }
            }
            _ => {}
        }
    }
    json!(out)
}

// ---------------------------------------------------------------- ops

fn s<'a>(q: &'a J, k: &str) -> &'a str {
    q[k].as_str().unwrap_or_default()
}

fn perr(e: &mabo_parser::error::ParseSchemaError) -> J {
    // Rendering the report is part of reporting an error: do it like the CLI does.
    let rendered = guard(|| {
        let mut out = String::new();
        let ok = miette::NarratableReportHandler::new().render_report(&mut out, e).is_ok();
        json!({"ok": ok, "len": out.len()})
    });
    json!({"err": diag(e), "rendered": rendered, "cause": format!("{:?}", e.cause)})
}

fn tree_go(o: &mabo_go::Output<'_>) -> J {
    json!({"name": o.name, "content": o.content, "mods": o.modules.iter().map(tree_go).collect::<Vec<_>>()})
}

#[cfg(feature = "doc")]
fn tree_doc(o: &mabo_doc::Output<'_>) -> J {
    json!({"name": o.name, "path": o.path.iter().map(|p| p.to_string()).collect::<Vec<_>>(),
           "file": o.file, "content": o.content,
           "mods": o.modules.iter().map(tree_doc).collect::<Vec<_>>()})
}

fn handle(q: &J) -> J {
    let text = s(q, "text");
    let path = q["path"].as_str().map(PathBuf::from);
    let path: Option<&Path> = path.as_deref();
    match s(q, "op") {
        "parse" => match Schema::parse(text, path) {
            Err(e) => perr(&e),
            Ok(sc) => {
                let mut d = Dump { spans: vec![] };
                let ast = d.schema(&sc);
                json!({"ast": ast, "spans": d.spans, "fmt": guard(|| json!(sc.to_string()))})
            }
        },
        "parse_slice" => {
            let b: Vec<u8> = q["bytes"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8).collect();
            match mabo_parser::from_slice(&b, path) {
                Ok(_) => json!({"ok": 1}),
                Err(e) => json!({"err": e.to_string()}),
            }
        }
        "fmt" => match Schema::parse(text, path) {
            Err(e) => perr(&e),
            Ok(sc) => json!({"fmt": sc.to_string()}),
        },
        "validate" => match Schema::parse(text, path) {
            Err(e) => perr(&e),
            Ok(sc) => match mabo_compiler::validate_schema(&sc) {
                Ok(()) => json!({"ok": 1}),
                Err(e) => json!({"verr": verr(&e), "diag": diag(&e)}),
            },
        },
        "simplify" => match Schema::parse(text, path) {
            Err(e) => perr(&e),
            Ok(sc) => {
                let x = mabo_compiler::simplify_schema(&sc);
                json!({"comment": x.comment, "defs": x.definitions.iter().map(s_def).collect::<Vec<_>>()})
            }
        },
        "resolve" => {
            let files: Vec<(String, String)> = q["files"]
                .as_array()
                .unwrap()
                .iter()
                .map(|f| (s(f, "name").to_owned(), s(f, "text").to_owned()))
                .collect();
            let mut parsed = vec![];
            for (n, t) in &files {
                match Schema::parse(t, None) {
                    Err(e) => return perr(&e),
                    Ok(sc) => {
                        if let Err(e) = mabo_compiler::validate_schema(&sc) {
                            return json!({"verr": verr(&e)});
                        }
                        parsed.push((n.as_str(), sc));
                    }
                }
            }
            let refs: Vec<_> = parsed.iter().map(|(n, s)| (*n, s)).collect();
            match mabo_compiler::resolve_schemas(&refs) {
                Ok(()) => json!({"ok": 1}),
                Err(e) => {
                    use mabo_compiler::resolve::*;
                    let k = match &e.cause {
                        ResolveError::Local(l) => match **l {
                            ResolveLocal::MissingModule(_) => "missing_module",
                            ResolveLocal::MissingDefinition(_) => "missing_definition",
                            ResolveLocal::GenericsCount(_) => "generics_count",
                            ResolveLocal::InvalidKind(_) => "invalid_kind",
                        },
                        ResolveError::Import(l) => match **l {
                            ResolveImport::MissingSchema(_) => "import_schema",
                            ResolveImport::MissingModule(_) => "import_module",
                            ResolveImport::MissingDefinition(_) => "import_definition",
                            ResolveImport::InvalidKind(_) => "import_kind",
                        },
                        ResolveError::Remote(l) => match **l {
                            ResolveRemote::MissingImport(_) => "missing_import",
                            ResolveRemote::MissingModule(_) => "remote_module",
                            ResolveRemote::MissingDefinition(_) => "remote_definition",
                            ResolveRemote::GenericsCount(_) => "remote_generics",
                            ResolveRemote::InvalidKind(_) => "remote_kind",
                        },
                    };
                    let d = guard(|| {
                        let mut out = String::new();
                        let ok = miette::NarratableReportHandler::new().render_report(&mut out, &e).is_ok();
                        json!({"ok": ok})
                    });
                    json!({"rerr": k, "diag": diag(&e), "rendered": d})
                }
            }
        }
        // Generated code of one schema, without validation.
        "gen" => match Schema::parse(text, path) {
            Err(e) => perr(&e),
            Ok(sc) => {
                let x = mabo_compiler::simplify_schema(&sc);
                let code = mabo_build::compile_schema(&mabo_build::Opts::default(), &x);
                match syn::parse2(code.clone()) {
                    Ok(f) => json!({"code": prettyplease::unparse(&f)}),
                    Err(e) => json!({"syn": e.to_string(), "code": code.to_string()}),
                }
            }
        },
        // Items of a generated file.
        "items" => match syn::parse_file(&std::fs::read_to_string(s(q, "file")).unwrap_or_else(|_| "?".to_owned())) {
            Ok(f) => json!({"items": r_items(&f.items)}),
            Err(e) => json!({"syn": e.to_string()}),
        },
        // The whole build step of a project directory, as a build script runs it.
        "build" => {
            // SAFETY: single threaded
            unsafe { std::env::set_var("OUT_DIR", s(q, "out")) };
            let bt = if q["bytes"].as_bool() == Some(true) {
                mabo_build::BytesType::Bytes
            } else {
                mabo_build::BytesType::VecU8
            };
            match mabo_build::Compiler::default().with_bytes_type(bt).compile(s(q, "dir")) {
                Ok(()) => json!({"ok": 1}),
                Err(e) => {
                    let k = match &e {
                        mabo_build::Error::LoadProject(_) => "project",
                        mabo_build::Error::Parse { .. } => "parse",
                        mabo_build::Error::Compile { .. } => "compile",
                        mabo_build::Error::Read { .. } => "read",
                        mabo_build::Error::Write { .. } => "write",
                        mabo_build::Error::InvalidCode { .. } => "code",
                        _ => "other",
                    };
                    json!({"berr": k, "msg": format!("{e:?}")})
                }
            }
        }
        "go" => match Schema::parse(text, path) {
            Err(e) => perr(&e),
            Ok(sc) => {
                let x = mabo_compiler::simplify_schema(&sc);
                json!({"go": tree_go(&mabo_go::render_schema(&mabo_go::Opts { package: s(q, "package") }, &x))})
            }
        },
        #[cfg(feature = "doc")]
        "doc" => match Schema::parse(text, path) {
            Err(e) => perr(&e),
            Ok(sc) => {
                let x = mabo_compiler::simplify_schema(&sc);
                match mabo_doc::render_schema(&mabo_doc::Opts {}, &x) {
                    Ok(o) => json!({"doc": tree_doc(&o)}),
                    Err(e) => json!({"derr": e.to_string()}),
                }
            }
        },
        "load" => match mabo_project::load(s(q, "dir")) {
            Ok(p) => json!({"ok": project(&p)}),
            Err(e) => json!({"err": e.to_string()}),
        },
        "discover" => match mabo_project::discover(s(q, "dir")) {
            Ok(ps) => json!({"ok": ps.iter().map(project).collect::<Vec<_>>()}),
            Err(e) => json!({"err": e.to_string()}),
        },
        // Integer primitives of the runtime.
        "varint" => varint(q),
        op => json!({"bad_op": op}),
    }
}

fn project(p: &mabo_project::Project) -> J {
    json!({"name": p.project_file.package.name, "path": p.project_path.to_string_lossy(),
           "files": p.files.iter().map(|f| f.to_string_lossy().into_owned()).collect::<Vec<_>>()})
}

fn varint(q: &J) -> J {
    use mabo::{buf, varint as v};
    let ty = s(q, "ty");
    macro_rules! go {
        ($t:ty, $enc:ident, $dec:ident, $size:ident, $benc:ident, $bdec:ident, $bsize:ident) => {{
            if let Some(x) = q["v"].as_str() {
                let x: $t = x.parse().unwrap();
                let (b, n) = v::$enc(x);
                let mut w = Vec::new();
                buf::$benc(&mut w, x);
                json!({"bytes": b[..n], "cap": b.len(), "size": v::$size(x), "wbytes": w, "wsize": buf::$bsize(x)})
            } else {
                let b: Vec<u8> = q["bytes"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8).collect();
                let a = match v::$dec(&b) {
                    Ok((x, n)) => json!({"v": x.to_string(), "n": n}),
                    Err(_) => json!({"err": 1}),
                };
                let mut r: &[u8] = &b;
                let c = match buf::$bdec(&mut r) {
                    Ok(x) => json!({"v": x.to_string(), "n": b.len() - r.len()}),
                    Err(_) => json!({"err": 1}),
                };
                json!({"raw": a, "buf": c})
            }
        }};
    }
    match ty {
        "u16" => go!(u16, encode_u16, decode_u16, size_u16, encode_u16, decode_u16, size_u16),
        "u32" => go!(u32, encode_u32, decode_u32, size_u32, encode_u32, decode_u32, size_u32),
        "u64" => go!(u64, encode_u64, decode_u64, size_u64, encode_u64, decode_u64, size_u64),
        "u128" => go!(u128, encode_u128, decode_u128, size_u128, encode_u128, decode_u128, size_u128),
        "i16" => go!(i16, encode_i16, decode_i16, size_i16, encode_i16, decode_i16, size_i16),
        "i32" => go!(i32, encode_i32, decode_i32, size_i32, encode_i32, decode_i32, size_i32),
        "i64" => go!(i64, encode_i64, decode_i64, size_i64, encode_i64, decode_i64, size_i64),
        "i128" => go!(i128, encode_i128, decode_i128, size_i128, encode_i128, decode_i128, size_i128),
        t => json!({"bad_ty": t}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let q: J = serde_json::from_str(&line).unwrap();
        let r = guard(|| handle(&q));
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}

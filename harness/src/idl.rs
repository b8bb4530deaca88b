//! Parser for the thrift IDL subset accepted by the macros; independent of the code under test.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    Double,
    Binary,
    Str,
    List(Box<Ty>),
    Set(Box<Ty>),
    /// list<i32 enum> kept as a set of numbers 0..=30
    EncSet,
    Named(String),
    /// Box / Rc / Arc: invisible on the wire
    Wrap(Wrap, Box<Ty>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrap {
    Box,
    Rc,
    Arc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Req {
    Required,
    Optional,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub id: i16,
    pub req: Req,
    pub ty: Ty,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct StructDef {
    pub name: String,
    pub fields: Vec<Field>,
    pub is_union: bool,
}

#[derive(Clone, Debug)]
pub struct EnumDef {
    pub name: String,
    pub consts: Vec<(String, i32)>,
}

#[derive(Clone, Debug)]
pub enum Def {
    Struct(StructDef),
    Enum(EnumDef),
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub defs: HashMap<String, Def>,
    pub order: Vec<String>,
    pub aliases: HashMap<String, Ty>,
}

impl Schema {
    pub fn strukt(&self, name: &str) -> &StructDef {
        match self.defs.get(name) {
            Some(Def::Struct(s)) => s,
            _ => panic!("HARNESS: no struct {name}"),
        }
    }
    pub fn is_enum(&self, name: &str) -> bool {
        matches!(self.defs.get(name), Some(Def::Enum(_)))
    }
    /// protocol type of a declared type (field and element types coincide)
    pub fn wire_type(&self, ty: &Ty) -> u8 {
        match ty {
            Ty::Bool => 2,
            Ty::I8 => 3,
            Ty::I16 => 4,
            Ty::I32 => 5,
            Ty::I64 => 6,
            Ty::Double => 7,
            Ty::Binary | Ty::Str => 8,
            Ty::List(_) | Ty::EncSet => 9,
            Ty::Set(_) => 10,
            Ty::Named(n) => match self.defs.get(n) {
                Some(Def::Enum(_)) => 5,
                Some(Def::Struct(_)) => 12,
                None => panic!("HARNESS: unknown type {n}"),
            },
            Ty::Wrap(_, t) => self.wire_type(t),
        }
    }
    pub fn add(&mut self, text: &str) {
        let toks = saved_tokens(text).unwrap_or_else(|| tokenize(text).join("\n"));
        let mut p = P { t: toks.split('\n').collect(), i: 0, aliases: &self.aliases };
        let mut out = vec![];
        while p.i < p.t.len() {
            out.push(p.definition());
        }
        for d in out.into_iter().flatten() {
            let name = match &d {
                Def::Struct(s) => s.name.clone(),
                Def::Enum(e) => e.name.clone(),
            };
            self.order.push(name.clone());
            self.defs.insert(name, d);
        }
    }
    pub fn parse_type(&self, text: &str) -> Ty {
        let t = tokenize(text);
        let mut p = P { t: t.iter().map(|s| s.as_str()).collect(), i: 0, aliases: &self.aliases };
        p.ty()
    }
}

/// tokens of the long texts are kept in files for programs that run in an interpreter
fn token_file(s: &str) -> Option<std::path::PathBuf> {
    let dir = std::env::var_os("CTV_TOKENS").filter(|_| s.len() > 1000)?;
    Some(std::path::Path::new(&dir).join(format!("tokens-{}", s.len())))
}

/// what `save_tokens` wrote for a program in an interpreter: one token per line
fn saved_tokens(s: &str) -> Option<String> {
    let f = token_file(s).filter(|_| cfg!(miri))?;
    std::fs::read(f).ok().map(|b| String::from_utf8(b).unwrap())
}

pub fn save_tokens(s: &str) {
    if let Some(f) = token_file(s) {
        let tmp = f.with_extension(std::process::id().to_string());
        let r = std::fs::write(&tmp, tokenize(s).join("\n"));
        r.and_then(|_| std::fs::rename(&tmp, &f)).unwrap_or_else(|e| panic!("HARNESS: {f:?}: {e}"));
    }
}

pub fn tokenize(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            let mut depth = 1;
            while depth > 0 {
                if b[i] == '*' && b[i + 1] == '/' {
                    depth -= 1;
                    i += 2;
                } else if b[i] == '/' && b[i + 1] == '*' {
                    depth += 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '#' {
            // attribute (doc comments appear like this after macro expansion)
            while b[i] != '[' {
                i += 1;
            }
            let mut depth = 0;
            loop {
                match b[i] {
                    '[' => depth += 1,
                    ']' => depth -= 1,
                    '"' => {
                        i += 1;
                        while b[i] != '"' {
                            if b[i] == '\\' {
                                i += 1;
                            }
                            i += 1;
                        }
                    }
                    'r' if b[i + 1] == '"' => {
                        i += 2;
                        while b[i] != '"' {
                            i += 1;
                        }
                    }
                    _ => {}
                }
                i += 1;
                if depth == 0 {
                    break;
                }
            }
        } else if c == '"' {
            let st = i;
            i += 1;
            while b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
            out.push(b[st..i].iter().collect());
        } else if c.is_alphanumeric() || c == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '.' && b[st].is_ascii_digit()) {
                i += 1;
            }
            let mut w: String = b[st..i].iter().collect();
            if w == "r" && b.get(i) == Some(&'#') {
                i += 1;
                let st = i;
                while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                    i += 1;
                }
                w = b[st..i].iter().collect();
            }
            out.push(w);
        } else {
            out.push(c.to_string());
            i += 1;
        }
    }
    out
}

struct P<'a> {
    t: Vec<&'a str>,
    i: usize,
    aliases: &'a HashMap<String, Ty>,
}

impl<'a> P<'a> {
    fn peek(&self) -> &'a str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn next(&mut self) -> &'a str {
        let Some(&s) = self.t.get(self.i) else { panic!("HARNESS: unexpected end of IDL") };
        self.i += 1;
        s
    }
    fn expect(&mut self, s: &str) {
        let n = self.next();
        assert!(n == s, "HARNESS: IDL expected {s} got {n} near {:?}", &self.t[self.i.saturating_sub(8)..self.i]);
    }
    fn int(&mut self) -> i64 {
        let mut n = self.next();
        let mut neg = false;
        if n == "-" {
            neg = true;
            n = self.next();
        }
        let v: i64 = n.parse().unwrap_or_else(|_| panic!("HARNESS: bad int {n}"));
        if neg {
            -v
        } else {
            v
        }
    }
    fn definition(&mut self) -> Option<Def> {
        match self.next() {
            "namespace" => {
                self.next();
                self.next();
                None
            }
            "enum" => {
                let name = self.next().to_string();
                self.expect("{");
                let mut consts = vec![];
                while self.peek() != "}" {
                    let n = self.next();
                    self.expect("=");
                    let v = self.int() as i32;
                    if self.peek() == ";" {
                        self.next();
                    }
                    consts.push((n.to_string(), v));
                }
                self.expect("}");
                Some(Def::Enum(EnumDef { name, consts }))
            }
            k @ ("struct" | "union") => {
                let is_union = k == "union";
                let name = self.next().to_string();
                self.expect("{");
                let mut fields = vec![];
                while self.peek() != "}" {
                    let id = self.int() as i16;
                    self.expect(":");
                    let mut req = Req::Required;
                    if !is_union {
                        req = match self.next() {
                            "required" => Req::Required,
                            "optional" => Req::Optional,
                            x => panic!("HARNESS: bad requirement {x}"),
                        };
                    }
                    let ty = self.ty();
                    let name = self.next().to_string();
                    if self.peek() == "=" {
                        self.next();
                        if self.peek() == "-" {
                            self.next();
                        }
                        self.next();
                    }
                    if self.peek() == ";" || self.peek() == "," {
                        self.next();
                    }
                    fields.push(Field { id, req, ty, name });
                }
                self.expect("}");
                Some(Def::Struct(StructDef { name, fields, is_union }))
            }
            x => panic!("HARNESS: bad definition {x}"),
        }
    }
    fn ty(&mut self) -> Ty {
        let n = self.next();
        let mut arg = None;
        if self.peek() == "<" {
            self.next();
            arg = Some(Box::new(self.ty()));
            self.expect(">");
        }
        match (n, arg) {
            ("bool", None) => Ty::Bool,
            ("i8" | "byte", None) => Ty::I8,
            ("i16", None) => Ty::I16,
            ("i32", None) => Ty::I32,
            ("i64", None) => Ty::I64,
            ("double" | "f64", None) => Ty::Double,
            ("binary", None) => Ty::Binary,
            ("string" | "String" | "str", None) => Ty::Str,
            ("EncodingSet", None) => Ty::EncSet,
            ("list" | "Vec", Some(a)) => Ty::List(a),
            ("set", Some(a)) => Ty::Set(a),
            ("Box", Some(a)) => Ty::Wrap(Wrap::Box, a),
            ("Rc", Some(a)) => Ty::Wrap(Wrap::Rc, a),
            ("Arc", Some(a)) => Ty::Wrap(Wrap::Arc, a),
            (n, None) => self.aliases.get(n).cloned().unwrap_or_else(|| Ty::Named(n.to_string())),
            (n, _) => panic!("HARNESS: bad generic type {n}"),
        }
    }
}

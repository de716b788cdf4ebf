//! Generator of valid schemas.
use crate::ast::*;
use crate::gen_syn;
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet};

pub type Types = BTreeMap<String, TypeDef>;

#[derive(Clone, Copy, Default)]
pub struct SOpts {
    /// descriptions with arbitrary text
    pub descs: bool,
    /// directives applied to definitions
    pub applied: bool,
    /// deprecations
    pub deprecated: bool,
    /// @cost directive definition and uses
    pub cost: bool,
    /// keep the schema small
    pub small: bool,
    /// arbitrary constants as default values and directive arguments, valid or not
    pub wild_values: bool,
    /// leave out mutation and subscription
    pub query_only: bool,
}

pub type VarFn<'a> = &'a mut dyn FnMut(&mut Src, &Ty, bool) -> Option<Val>;

pub fn custom_scalar_ok(v: &Val) -> bool {
    match v {
        Val::Bool(_) => false,
        Val::Str(s) => !s.starts_with("bad"),
        _ => true,
    }
}

fn one_of(t: &TypeDef) -> bool {
    t.dirs.iter().any(|d| d.name == "oneOf")
}

/// a value that coerces to `ty`; `wrap` allows a single item for a list
pub fn value(s: &mut Src, types: &Types, ty: &Ty, depth: usize, wrap: bool, has_default: bool, vars: VarFn) -> Val {
    if let Some(v) = vars(s, ty, has_default) {
        return v;
    }
    if !ty.is_req() && s.chance(1, if depth == 0 { 2 } else { 9 }) {
        return Val::Null;
    }
    match ty {
        Ty::List(inner, _) => {
            if wrap && depth > 0 && s.chance(1, 6) {
                // a single item stands for a list of one; null would be the null list
                let v = named_value(s, types, inner.base(), depth - 1, &mut no_var);
                if !matches!(v, Val::List(_) | Val::Null) {
                    return v;
                }
            }
            let n = if depth == 0 { 0 } else { s.weighted(&[1, 3, 3, 1]) };
            Val::List((0..n).map(|_| value(s, types, inner, depth - 1, false, false, vars)).collect())
        }
        Ty::Named(n, _) => named_value(s, types, n, depth, vars),
    }
}

fn named_value(s: &mut Src, types: &Types, n: &str, depth: usize, vars: VarFn) -> Val {
    match types.get(n).map(|t| (&t.kind, t)) {
        Some((Kind::Enum { values }, _)) => Val::Enum(s.pick(values).name.clone()),
        Some((Kind::Input { fields }, t)) => {
            if one_of(t) {
                let f = if depth > 0 {
                    s.pick(fields).clone()
                } else {
                    // the first field never refers to a later type
                    let plain = |f: &&InputVal| !matches!(types.get(f.ty.base()).map(|t| &t.kind), Some(Kind::Input { .. }));
                    fields.iter().find(plain).or_else(|| fields.iter().find(|f| matches!(f.ty, Ty::List(..)))).unwrap_or(&fields[0]).clone()
                };
                let v = value(s, types, &f.ty.clone().req(), depth.saturating_sub(1), true, false, &mut |_, _, _| None);
                return Val::Obj(vec![(f.name, v)]);
            }
            let mut o = vec![];
            for f in fields {
                if f.required() || (depth > 0 && s.chance(1, 2)) {
                    o.push((f.name.clone(), value(s, types, &f.ty, depth.saturating_sub(1), true, f.default.is_some(), vars)));
                }
            }
            if s.chance(1, 4) {
                s.shuffle(&mut o);
            }
            Val::Obj(o)
        }
        Some((Kind::Scalar, _)) | None => match n {
            "Int" => Val::Int(gen_syn::int(s)),
            "Float" => {
                if s.chance(1, 3) {
                    Val::Int(gen_syn::int(s))
                } else {
                    Val::Float(gen_syn::float(s))
                }
            }
            "String" => Val::Str(short_string(s)),
            "Boolean" => Val::Bool(s.bool()),
            "ID" => {
                if s.chance(1, 3) {
                    Val::Int(gen_syn::int(s))
                } else {
                    Val::Str(short_string(s))
                }
            }
            _ => {
                let v = gen_syn::val(s, true, 2);
                if custom_scalar_ok(&v) && v != Val::Null {
                    v
                } else {
                    Val::Int(7)
                }
            }
        },
        _ => Val::Null,
    }
}

pub fn short_string(s: &mut Src) -> String {
    if s.chance(1, 12) {
        gen_syn::string(s)
    } else {
        s.pick(&["", "a", "b", "hello", "ok then", "é"]).to_string()
    }
}

pub fn no_var(_: &mut Src, _: &Ty, _: bool) -> Option<Val> {
    None
}

struct G<'a> {
    s: &'a mut Src,
    o: SOpts,
    types: Types,
    dirdefs: Vec<DirDef>,
}

pub fn wrap(s: &mut Src, n: &str, req: (usize, usize), list: (usize, usize)) -> Ty {
    let mut t = Ty::Named(n.into(), s.chance(req.0, req.1));
    let mut k = 0;
    while k < 2 && s.chance(list.0, list.1) {
        t = Ty::List(Box::new(t), s.chance(req.0, req.1));
        k += 1;
    }
    t
}

impl G<'_> {
    fn desc(&mut self) -> Option<String> {
        if self.o.descs && self.s.chance(1, 3) {
            Some(gen_syn::string(self.s))
        } else {
            None
        }
    }

    /// directives applicable at `loc`, with valid arguments
    fn dirs(&mut self, loc: &str) -> Vec<Dir> {
        let mut l = vec![];
        if !self.o.applied {
            return l;
        }
        let cands: Vec<DirDef> = self.dirdefs.iter().filter(|d| d.locs.iter().any(|x| x == loc)).cloned().collect();
        if !cands.is_empty() && self.s.chance(1, 4) {
            let n = self.s.weighted(&[6, 2]) + 1;
            for _ in 0..n {
                let d = self.s.pick(&cands).clone();
                if !d.repeatable && l.iter().any(|x: &Dir| x.name == d.name) {
                    continue;
                }
                let mut args = vec![];
                for a in &d.args {
                    if a.required() || self.s.bool() {
                        let v = if self.o.wild_values { gen_syn::val(self.s, true, 2) } else { value(self.s, &self.types, &a.ty, 2, true, false, &mut no_var) };
                        args.push((a.name.clone(), v));
                    }
                }
                l.push(Dir { name: d.name, args });
            }
        }
        if loc == "SCALAR" && self.s.chance(1, 4) {
            l.push(Dir { name: "specifiedBy".into(), args: vec![("url".into(), Val::Str("https://example.com".into()))] });
        }
        l
    }

    fn deprecation(&mut self, l: &mut Vec<Dir>) {
        if self.o.deprecated && self.s.chance(1, 4) {
            let args = match self.s.below(3) {
                0 => vec![],
                1 => vec![("reason".to_string(), Val::Str(short_string(self.s)))],
                _ => vec![("reason".to_string(), Val::Str("use another".into()))],
            };
            l.push(Dir { name: "deprecated".into(), args });
        }
    }

    fn input_val(&mut self, name: &str, tys: &[String], loc: &str, allow_default: bool) -> InputVal {
        let base = self.s.pick(tys).clone();
        let ty = wrap(self.s, &base, (1, 4), (1, 4));
        self.input_val_ty(name, ty, loc, allow_default)
    }

    fn input_val_ty(&mut self, name: &str, ty: Ty, loc: &str, allow_default: bool) -> InputVal {
        let desc = self.desc();
        let default = if allow_default && self.s.chance(1, 4) {
            Some(if self.o.wild_values { gen_syn::val(self.s, true, 2) } else { value(self.s, &self.types, &ty, 2, true, false, &mut no_var) })
        } else {
            None
        };
        let mut dirs = self.dirs(loc);
        if !(ty.is_req() && default.is_none()) {
            self.deprecation(&mut dirs);
        }
        InputVal { desc, name: name.into(), ty, default, dirs }
    }

    fn args(&mut self, tys: &[String]) -> Vec<InputVal> {
        let n = self.s.weighted(&[5, 3, 2, 1]);
        let mut names = ["a", "b", "c", "d"];
        self.s.shuffle(&mut names);
        (0..n).map(|i| self.input_val(names[i], tys, "ARGUMENT_DEFINITION", true)).collect()
    }
}

pub fn kinded(s: &mut Src, k: char, i: usize) -> String {
    let c = (b'A' + s.below(26) as u8) as char;
    format!("{c}{k}{i}")
}

pub fn schema(s: &mut Src, o: SOpts) -> SDoc {
    let mut g = G { s, o, types: BTreeMap::new(), dirdefs: vec![] };
    let mut defs: Vec<SDef> = vec![];
    let big = if o.small { 0 } else { 1 };
    // directives come first in the generation, with scalar-typed arguments
    let nd = g.s.below(3 + big);
    let prims: Vec<String> = ["Int", "Float", "String", "Boolean", "ID"].iter().map(|s| s.to_string()).collect();
    // enums and scalars are generated before the directives so these can use them
    let ns = g.s.below(2 + big);
    let ne = g.s.below(2 + big);
    let ni = g.s.below(3 + 2 * big);
    let scalars: Vec<String> = (0..ns).map(|i| kinded(g.s, 's', i)).collect();
    let enums: Vec<String> = (0..ne).map(|i| kinded(g.s, 'e', i)).collect();
    for n in &scalars {
        g.types.insert(n.clone(), TypeDef { desc: None, name: n.clone(), dirs: vec![], kind: Kind::Scalar });
    }
    for n in &enums {
        let k = g.s.range(1, 4);
        let mut vals = ["RED", "GREEN", "on", "type", "A1", "_x", "BLUE"];
        g.s.shuffle(&mut vals);
        let values = (0..k).map(|i| EnumVal { desc: None, name: vals[i].into(), dirs: vec![] }).collect();
        g.types.insert(n.clone(), TypeDef { desc: None, name: n.clone(), dirs: vec![], kind: Kind::Enum { values } });
    }
    let mut in_tys: Vec<String> = prims.iter().chain(&scalars).chain(&enums).cloned().collect();
    let mut dirdefs = vec![];
    for i in 0..nd {
        let name = format!("d{i}");
        let nargs = g.s.weighted(&[3, 3, 1]);
        let args = (0..nargs).map(|j| g.input_val(["x", "y"][j], &in_tys.clone(), "-", true)).collect();
        let mut locs: Vec<String> = vec![];
        let density = g.s.range(1, 4);
        for l in EXEC_LOCS.iter().chain(&TYPE_LOCS) {
            if g.s.chance(density, 5) {
                locs.push(l.to_string());
            }
        }
        if locs.is_empty() {
            locs.push("FIELD".into());
        }
        g.s.shuffle(&mut locs);
        dirdefs.push(DirDef { desc: g.desc(), name, args, repeatable: g.s.chance(1, 3), locs });
    }
    if o.cost {
        let st = |n: &str| InputVal { desc: None, name: n.into(), ty: Ty::named("String"), default: None, dirs: vec![] };
        dirdefs.push(DirDef { desc: None, name: "cost".into(), args: vec![st("weight"), st("kind")], repeatable: false, locs: vec!["FIELD_DEFINITION".into()] });
    }
    g.dirdefs = dirdefs.iter().filter(|d| d.name != "cost").cloned().collect();
    // now that directives are known, decorate scalars and enums
    for n in scalars.iter().chain(&enums) {
        let mut t = g.types[n].clone();
        t.desc = g.desc();
        match &mut t.kind {
            Kind::Enum { values } => {
                t.dirs = g.dirs("ENUM");
                for v in values {
                    v.desc = g.desc();
                    v.dirs = g.dirs("ENUM_VALUE");
                    g.deprecation(&mut v.dirs);
                }
            }
            _ => t.dirs = g.dirs("SCALAR"),
        }
        g.types.insert(n.clone(), t);
    }
    // input objects: required references only to earlier ones
    let inputs: Vec<String> = (0..ni).map(|i| kinded(g.s, 'i', i)).collect();
    for (i, n) in inputs.iter().enumerate() {
        let is_one_of = g.s.chance(1, 5);
        let nf = g.s.range(1, 4);
        let mut names = ["a", "b", "c", "e", "f0"];
        g.s.shuffle(&mut names);
        let mut fields = vec![];
        for name in names.iter().take(nf) {
            let self_ref = g.s.chance(1, 6) && !(is_one_of && fields.is_empty());
            let f = if self_ref {
                let target = g.s.pick(&inputs[i..]).clone();
                let list = g.s.bool();
                let ty = if list { Ty::List(Box::new(Ty::Named(target, g.s.bool())), g.s.chance(1, 4) && !is_one_of) } else { Ty::Named(target, false) };
                let desc = g.desc();
                let dirs = g.dirs("INPUT_FIELD_DEFINITION");
                InputVal { desc, name: name.to_string(), ty, default: None, dirs }
            } else {
                let base = g.s.pick(&in_tys).clone();
                let mut ty = wrap(g.s, &base, (1, 4), (1, 4));
                if is_one_of {
                    ty = ty.opt();
                }
                g.input_val_ty(name, ty, "INPUT_FIELD_DEFINITION", !is_one_of)
            };
            fields.push(f);
        }
        let mut dirs = g.dirs("INPUT_OBJECT");
        if is_one_of {
            dirs.push(Dir { name: "oneOf".into(), args: vec![] });
        }
        let t = TypeDef { desc: g.desc(), name: n.clone(), dirs, kind: Kind::Input { fields } };
        g.types.insert(n.clone(), t);
        in_tys.push(n.clone());
    }
    // output types
    let nif = g.s.below(2 + 2 * big);
    let no = g.s.range(1, 2 + 2 * big);
    let nu = g.s.below(2 + big);
    let ifaces: Vec<String> = (0..nif).map(|i| kinded(g.s, 'n', i)).collect();
    let objects: Vec<String> = (0..no).map(|i| kinded(g.s, 'o', i)).collect();
    let unions: Vec<String> = (0..nu).map(|i| kinded(g.s, 'u', i)).collect();
    let mut out_tys: Vec<String> = prims.clone();
    out_tys.extend(scalars.iter().chain(&enums).cloned());
    let composites: Vec<String> = ifaces.iter().chain(&objects).chain(&unions).cloned().collect();
    let out_ty = |g: &mut G, comp: (usize, usize)| -> Ty {
        let n = if g.s.chance(comp.0, comp.1) { g.s.pick(&composites).clone() } else { g.s.pick(&out_tys).clone() };
        wrap(g.s, &n, (1, 4), (1, 4))
    };
    let mk_field = |g: &mut G, name: &str, ty: Ty| -> FieldDef {
        let desc = g.desc();
        let args = g.args(&in_tys);
        let mut dirs = g.dirs("FIELD_DEFINITION");
        g.deprecation(&mut dirs);
        FieldDef { desc, name: name.into(), args, ty, dirs }
    };
    // interface relations
    let mut closure: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (i, n) in ifaces.iter().enumerate() {
        let mut l: Vec<String> = vec![];
        for m in &ifaces[..i] {
            if g.s.chance(1, 3) {
                for x in closure[m].clone().into_iter().chain([m.clone()]) {
                    if !l.contains(&x) {
                        l.push(x)
                    }
                }
            }
        }
        closure.insert(n.clone(), l);
    }
    let mut impls: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in &objects {
        let mut l: Vec<String> = vec![];
        for m in &ifaces {
            if g.s.chance(2, 5) {
                for x in closure[m].clone().into_iter().chain([m.clone()]) {
                    if !l.contains(&x) {
                        l.push(x)
                    }
                }
            }
        }
        if g.s.chance(1, 4) {
            g.s.shuffle(&mut l);
        }
        impls.insert(n.clone(), l);
    }
    // one definition per interface field name, shared by all interfaces that have it
    let mut table: BTreeMap<String, FieldDef> = BTreeMap::new();
    let mut iface_fields: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in &ifaces {
        let mut own: Vec<String> = vec![];
        for p in &closure[n] {
            for f in &iface_fields[p] {
                if !own.contains(f) {
                    own.push(f.clone())
                }
            }
        }
        let k = g.s.range(1, 2);
        for _ in 0..k {
            let f = format!("f{}", g.s.below(4));
            if !table.contains_key(&f) {
                let ty = out_ty(&mut g, (2, 5));
                let d = mk_field(&mut g, &f, ty);
                table.insert(f.clone(), d);
            }
            if !own.contains(&f) {
                own.push(f)
            }
        }
        iface_fields.insert(n.clone(), own);
    }
    for n in &ifaces {
        let mut fields: Vec<FieldDef> = iface_fields[n].iter().map(|f| table[f].clone()).collect();
        g.s.shuffle(&mut fields);
        let t = TypeDef { desc: g.desc(), name: n.clone(), dirs: g.dirs("INTERFACE"), kind: Kind::Interface { ifaces: closure[n].clone(), fields } };
        g.types.insert(n.clone(), t);
    }
    for n in &objects {
        let mut names: BTreeSet<String> = BTreeSet::new();
        let mut fields = vec![];
        for i in &impls[n] {
            for f in &iface_fields[i] {
                if names.insert(f.clone()) {
                    let mut d = table[f].clone();
                    // a covariant refinement
                    match g.s.weighted(&[6, 1, 1]) {
                        1 => d.ty = d.ty.req(),
                        2 => {
                            if let Ty::Named(b, r) = &d.ty {
                                let subs: Vec<&String> = objects.iter().filter(|x| impls[*x].contains(b)).collect();
                                if !subs.is_empty() {
                                    d.ty = Ty::Named((*g.s.pick(&subs)).clone(), *r);
                                }
                            }
                        }
                        _ => {}
                    }
                    if g.s.chance(1, 8) && !d.args.iter().any(|a| a.name == "extra") {
                        d.args.push(InputVal { desc: None, name: "extra".into(), ty: Ty::named("Int"), default: None, dirs: vec![] });
                    }
                    fields.push(d);
                }
            }
        }
        let k = g.s.range(1, 4);
        for _ in 0..k {
            let f = match g.s.below(8) {
                0 => "id".to_string(),
                1 => "on".to_string(),
                _ => format!("f{}", g.s.below(7)),
            };
            if names.insert(f.clone()) {
                let ty = out_ty(&mut g, (2, 5));
                fields.push(mk_field(&mut g, &f, ty));
            }
        }
        if g.s.chance(1, 3) {
            g.s.shuffle(&mut fields);
        }
        let t = TypeDef { desc: g.desc(), name: n.clone(), dirs: g.dirs("OBJECT"), kind: Kind::Object { ifaces: impls[n].clone(), fields } };
        g.types.insert(n.clone(), t);
    }
    for n in &unions {
        let mut m: Vec<String> = objects.iter().filter(|_| g.s.bool()).cloned().collect();
        if m.is_empty() {
            m.push(g.s.pick(&objects).clone());
        }
        let t = TypeDef { desc: g.desc(), name: n.clone(), dirs: g.dirs("UNION"), kind: Kind::Union { members: m } };
        g.types.insert(n.clone(), t);
    }
    // roots
    let explicit = g.s.chance(2, 5);
    let mut ops = vec![];
    for k in OpKind::ALL {
        if k != OpKind::Query && (o.query_only || g.s.chance(2, 5)) {
            continue;
        }
        let name = if explicit && g.s.chance(2, 3) { kinded(g.s, 'r', k as usize) } else { k.default_name().to_string() };
        let mut fields = vec![];
        for (i, c) in composites.iter().enumerate() {
            if g.s.chance(2, 3) {
                let ty = wrap(g.s, c, (1, 4), (1, 4));
                fields.push(mk_field(&mut g, &format!("r{i}"), ty));
            }
        }
        let extra = g.s.range(1, 3);
        let mut names = BTreeSet::new();
        for _ in 0..extra {
            let f = format!("f{}", g.s.below(7));
            if names.insert(f.clone()) {
                let ty = out_ty(&mut g, (1, 5));
                fields.push(mk_field(&mut g, &f, ty));
            }
        }
        let t = TypeDef { desc: g.desc(), name: name.clone(), dirs: g.dirs("OBJECT"), kind: Kind::Object { ifaces: vec![], fields } };
        g.types.insert(name.clone(), t);
        ops.push((k, name));
    }
    if explicit {
        // types that merely carry the default name of a root
        for k in OpKind::ALL {
            if !g.types.contains_key(k.default_name()) && g.s.chance(1, 6) {
                let ty = out_ty(&mut g, (1, 3));
                let f = mk_field(&mut g, "f0", ty);
                let t = TypeDef { desc: None, name: k.default_name().into(), dirs: vec![], kind: Kind::Object { ifaces: vec![], fields: vec![f] } };
                g.types.insert(k.default_name().into(), t);
            }
        }
        if g.s.chance(1, 4) {
            g.s.shuffle(&mut ops);
        }
        defs.push(SDef::Schema(SchemaDef { desc: g.desc(), dirs: g.dirs("SCHEMA"), ops }));
    }
    if g.o.applied {
        // directives on directive arguments: only from directives with an earlier name, to stay acyclic
        for i in 1..dirdefs.len() {
            let c: Vec<DirDef> = dirdefs[..i].iter().filter(|d| d.locs.iter().any(|l| l == "ARGUMENT_DEFINITION") && d.args.iter().all(|a| !a.required())).cloned().collect();
            if !c.is_empty() {
                let pick = g.s.pick(&c).name.clone();
                for a in &mut dirdefs[i].args {
                    if g.s.chance(1, 4) {
                        a.dirs.push(Dir { name: pick.clone(), args: vec![] });
                    }
                }
            }
        }
    }
    if g.o.cost {
        connections(&mut g);
    }
    let mut types: Vec<TypeDef> = g.types.values().cloned().collect();
    if g.s.chance(1, 10) {
        let n = g.s.pick(&["Int", "Float", "String", "Boolean", "ID"]).to_string();
        if g.o.wild_values {
            types.push(TypeDef { desc: g.desc(), name: n, dirs: g.dirs("SCALAR"), kind: Kind::Scalar });
        }
    }
    defs.extend(types.into_iter().map(SDef::Type));
    defs.extend(dirdefs.into_iter().map(SDef::Directive));
    if g.o.cost {
        for d in &mut defs {
            if let SDef::Type(t) = d {
                if let Kind::Object { fields, .. } | Kind::Interface { fields, .. } = &mut t.kind {
                    for f in fields {
                        add_cost(g.s, f);
                    }
                }
            }
        }
    }
    if g.s.chance(1, 2) {
        g.s.shuffle(&mut defs);
    }
    SDoc { defs }
}

/// Relay-style connections, on some objects and interfaces
fn connections(g: &mut G) {
    let comps: Vec<String> = g.types.values().filter(|t| matches!(t.kind, Kind::Object { .. } | Kind::Interface { .. } | Kind::Union { .. })).map(|t| t.name.clone()).collect();
    let hosts: Vec<String> = g.types.values().filter(|t| matches!(t.kind, Kind::Object { .. } | Kind::Interface { .. })).map(|t| t.name.clone()).collect();
    let n = g.s.range(1, 2);
    for i in 0..n {
        let of = g.s.pick(&comps).clone();
        let (cn, en) = (format!("Connection{i}"), format!("Edge{i}"));
        let plain = |name: &str, ty: Ty| FieldDef { desc: None, name: name.into(), args: vec![], ty, dirs: vec![] };
        let fields = vec![plain("edges", Ty::named(&en).list()), plain("nodes", Ty::named(&of).list()), plain("total", Ty::named("Int")), plain("first", Ty::named(&of))];
        g.types.insert(cn.clone(), TypeDef { desc: None, name: cn.clone(), dirs: vec![], kind: Kind::Object { ifaces: vec![], fields } });
        let fields = vec![plain("node", Ty::named(&of)), plain("cursor", Ty::named("String")), plain("nodes", Ty::named(&of).list())];
        g.types.insert(en.clone(), TypeDef { desc: None, name: en, dirs: vec![], kind: Kind::Object { ifaces: vec![], fields } });
        let int = |name: &str| InputVal { desc: None, name: name.into(), ty: Ty::named("Int"), default: None, dirs: vec![] };
        let field = FieldDef { desc: None, name: format!("conn{i}"), args: vec![int("first"), int("last")], ty: Ty::named(&cn), dirs: vec![] };
        let k = g.s.range(1, 2);
        for _ in 0..k {
            let host = g.s.pick(&hosts).clone();
            // an interface field goes to every type that implements the interface
            for t in g.types.values_mut() {
                if let Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } = &mut t.kind {
                    if (t.name == host || ifaces.contains(&host)) && !fields.iter().any(|f| f.name == field.name) {
                        let mut f = field.clone();
                        if g.s.chance(4, 5) {
                            let mut args = vec![("kind".to_string(), Val::Str("connection".into()))];
                            if g.s.chance(1, 3) {
                                args.push(("weight".to_string(), Val::Str(g.s.pick(&["0", "2", "3.5"]).to_string())));
                            }
                            f.dirs.push(Dir { name: "cost".into(), args });
                        }
                        fields.push(f);
                    }
                }
            }
        }
    }
}

fn add_cost(s: &mut Src, f: &mut FieldDef) {
    if f.dirs.iter().any(|d| d.name == "cost") || s.chance(1, 2) {
        return;
    }
    let mut args = vec![];
    if s.bool() {
        let w = s.pick(&["0", "1", "2", "5", "10", "0.5", "2.7", "-3", "1", "2", "4", "4e9", "9.3e18", "1e19", "inf", "NaN", "two", "+3", "1e400"]).to_string();
        args.push(("weight".to_string(), Val::Str(w)));
    }
    if s.bool() {
        args.push(("kind".to_string(), Val::Str(s.pick(&["connection", "connection", "object"]).to_string())));
    }
    f.dirs.push(Dir { name: "cost".into(), args });
}

//! C28, C29: comparison of schemas.
use super::exec::{tidy, validate, with_schema, MySchema};
use crate::ast::*;
use crate::dump;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::gen_schema::{self, SOpts};
use crate::gen_syn;
use crate::render;
use crate::schema::{Schema, SCALARS};
use crate::src::Src;
use bluejay_core::definition::{
    DirectiveDefinition as _, EnumValueDefinition as _, FieldDefinition as _, InputValueDefinition as _, InterfaceImplementation as _, SchemaDefinition as Core, TypeDefinitionReference, UnionMemberType as _,
};
use bluejay_core::{Argument, Directive};
use bluejay_schema_comparator::{compare, Change};
use std::collections::{BTreeMap, BTreeSet};

// ---- edits ----

#[derive(Clone, Copy, PartialEq)]
enum NK {
    Type,
    Field,
    Arg,
    InField,
    DirArg,
    EnumV,
    DirDef,
    Schema,
}

enum Node<'a> {
    Type(&'a mut TypeDef),
    Field(&'a mut FieldDef),
    In(&'a mut InputVal),
    EnumV(&'a mut EnumVal),
    DirDef(&'a mut DirDef),
    Schema(&'a mut SchemaDef),
}

fn visit(d: &mut SDoc, f: &mut dyn FnMut(NK, Node)) {
    for x in &mut d.defs {
        match x {
            SDef::Schema(s) => f(NK::Schema, Node::Schema(s)),
            SDef::Directive(dd) => {
                f(NK::DirDef, Node::DirDef(dd));
                dd.args.iter_mut().for_each(|a| f(NK::DirArg, Node::In(a)));
            }
            SDef::Type(t) => {
                f(NK::Type, Node::Type(t));
                match &mut t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => {
                        for fd in fields {
                            f(NK::Field, Node::Field(fd));
                            fd.args.iter_mut().for_each(|a| f(NK::Arg, Node::In(a)));
                        }
                    }
                    Kind::Input { fields } => fields.iter_mut().for_each(|a| f(NK::InField, Node::In(a))),
                    Kind::Enum { values } => values.iter_mut().for_each(|v| f(NK::EnumV, Node::EnumV(v))),
                    _ => {}
                }
            }
        }
    }
}

/// runs `f` on one node that `want` accepts
fn on_one(d: &mut SDoc, s: &mut Src, want: &dyn Fn(NK, &Node) -> bool, f: &mut dyn FnMut(&mut Src, NK, Node)) -> bool {
    let mut n = 0;
    visit(d, &mut |k, x| {
        if want(k, &x) {
            n += 1
        }
    });
    if n == 0 {
        return false;
    }
    let i = s.below(n);
    let mut at = 0;
    visit(d, &mut |k, x| {
        if want(k, &x) {
            if at == i {
                f(s, k, x);
            }
            at += 1;
        }
    });
    true
}

struct Pool {
    ins: Vec<String>,
    outs: Vec<String>,
    ifaces: Vec<String>,
    objects: Vec<String>,
    dirs: Vec<DirDef>,
    types: gen_schema::Types,
}

fn pool(d: &SDoc) -> Pool {
    let mut p = Pool { ins: SCALARS.iter().map(|s| s.to_string()).collect(), outs: SCALARS.iter().map(|s| s.to_string()).collect(), ifaces: vec![], objects: vec![], dirs: d.dirdefs().cloned().collect(), types: BTreeMap::new() };
    for t in d.types() {
        let n = t.name.clone();
        p.types.insert(n.clone(), t.clone());
        match t.kind {
            Kind::Scalar | Kind::Enum { .. } => {
                p.ins.push(n.clone());
                p.outs.push(n)
            }
            Kind::Input { .. } => p.ins.push(n),
            Kind::Object { .. } => {
                p.objects.push(n.clone());
                p.outs.push(n)
            }
            Kind::Interface { .. } => {
                p.ifaces.push(n.clone());
                p.outs.push(n)
            }
            Kind::Union { .. } => p.outs.push(n),
        }
    }
    let b = |n: &str, args: Vec<InputVal>, locs: &[&str]| DirDef { desc: None, name: n.into(), args, repeatable: false, locs: locs.iter().map(|l| l.to_string()).collect() };
    let reason = InputVal { desc: None, name: "reason".into(), ty: Ty::named("String"), default: None, dirs: vec![] };
    p.dirs.push(b("deprecated", vec![reason], &["FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE"]));
    p.dirs.push(b("oneOf", vec![], &["INPUT_OBJECT"]));
    p
}

fn fresh(s: &mut Src, stem: &str, used: &dyn Fn(&str) -> bool) -> String {
    let mut n = match s.below(3) {
        0 => gen_syn::name(s),
        _ => format!("{stem}{}", s.below(4)),
    };
    if n.starts_with("__") {
        n = format!("x{n}");
    }
    while used(&n) || ["true", "false", "null"].contains(&n.as_str()) {
        n.push('_');
    }
    n
}

fn text(s: &mut Src) -> Option<String> {
    if s.chance(1, 4) {
        None
    } else {
        Some(gen_schema::short_string(s))
    }
}

fn retype(s: &mut Src, ty: &Ty, bases: &[String]) -> Ty {
    fn flip(t: &Ty, at: usize) -> Ty {
        match t {
            Ty::Named(n, r) => Ty::Named(n.clone(), if at == 0 { !r } else { *r }),
            Ty::List(t, r) => {
                if at == 0 {
                    Ty::List(t.clone(), !r)
                } else {
                    Ty::List(Box::new(flip(t, at - 1)), *r)
                }
            }
        }
    }
    fn rebase(t: &Ty, b: &str) -> Ty {
        match t {
            Ty::Named(_, r) => Ty::Named(b.into(), *r),
            Ty::List(t, r) => Ty::List(Box::new(rebase(t, b)), *r),
        }
    }
    match s.weighted(&[6, 2, 1, 1]) {
        0 => flip(ty, s.below(3)),
        1 => rebase(ty, &s.pick(bases).clone()),
        2 => Ty::List(Box::new(ty.clone()), s.bool()),
        _ => match ty {
            Ty::List(t, _) => (**t).clone(),
            _ => Ty::List(Box::new(ty.clone()), s.bool()),
        },
    }
}

fn new_input(s: &mut Src, name: String, p: &Pool) -> InputVal {
    let b = s.pick(&p.ins).clone();
    let ty = gen_schema::wrap(s, &b, (1, 3), (1, 4));
    let default = if s.chance(1, 3) { Some(gen_schema::value(s, &p.types, &ty, 2, true, false, &mut gen_schema::no_var)) } else { None };
    InputVal { desc: text(s), name, ty, default, dirs: vec![] }
}

fn new_field(s: &mut Src, name: String, p: &Pool) -> FieldDef {
    let b = s.pick(&p.outs).clone();
    let ty = gen_schema::wrap(s, &b, (1, 3), (1, 4));
    let n = s.weighted(&[4, 1, 1]);
    let args = (0..n).map(|i| new_input(s, format!("a{i}"), p)).collect();
    FieldDef { desc: text(s), name, args, ty, dirs: vec![] }
}

fn apply(s: &mut Src, dd: &DirDef, p: &Pool) -> Dir {
    let mut args = vec![];
    for a in &dd.args {
        if a.required() || s.bool() {
            args.push((a.name.clone(), gen_schema::value(s, &p.types, &a.ty, 2, true, false, &mut gen_schema::no_var)));
        }
    }
    Dir { name: dd.name.clone(), args }
}

fn loc_of(k: NK, n: &Node) -> &'static str {
    match (k, n) {
        (NK::Schema, _) => "SCHEMA",
        (NK::Field, _) => "FIELD_DEFINITION",
        (NK::Arg | NK::DirArg, _) => "ARGUMENT_DEFINITION",
        (NK::InField, _) => "INPUT_FIELD_DEFINITION",
        (NK::EnumV, _) => "ENUM_VALUE",
        (_, Node::Type(t)) => match t.kind {
            Kind::Scalar => "SCALAR",
            Kind::Object { .. } => "OBJECT",
            Kind::Interface { .. } => "INTERFACE",
            Kind::Union { .. } => "UNION",
            Kind::Enum { .. } => "ENUM",
            Kind::Input { .. } => "INPUT_OBJECT",
        },
        _ => "",
    }
}

fn dirs_of<'a>(n: Node<'a>) -> Option<&'a mut Vec<Dir>> {
    Some(match n {
        Node::Type(t) => &mut t.dirs,
        Node::Field(t) => &mut t.dirs,
        Node::In(t) => &mut t.dirs,
        Node::EnumV(t) => &mut t.dirs,
        Node::Schema(t) => &mut t.dirs,
        Node::DirDef(_) => return None,
    })
}

fn edit_desc(d: &mut SDoc, s: &mut Src) {
    let (a, b) = (s.below(4), s.below(4));
    let class = |k: NK| match k {
        NK::Type => 0,
        NK::Field | NK::InField | NK::Schema => 1,
        NK::Arg | NK::DirArg => 2,
        NK::EnumV | NK::DirDef => 3,
    };
    let mut f = |s: &mut Src, _: NK, n: Node| {
        let t = text(s);
        match n {
            Node::Type(x) => x.desc = t,
            Node::Field(x) => x.desc = t,
            Node::In(x) => x.desc = t,
            Node::EnumV(x) => x.desc = t,
            Node::DirDef(x) => x.desc = t,
            Node::Schema(x) => x.desc = t,
        }
    };
    if !on_one(d, s, &|k, _| class(k) == a, &mut f) {
        on_one(d, s, &|k, _| class(k) == b, &mut f);
    }
}

fn edit_dirs(d: &mut SDoc, s: &mut Src, p: &Pool) {
    let all: Vec<&str> = TYPE_LOCS.to_vec();
    let loc = s.pick(&all).to_string();
    if s.bool() {
        // one more
        let cands: Vec<&DirDef> = p.dirs.iter().filter(|x| x.locs.contains(&loc)).collect();
        if cands.is_empty() {
            return;
        }
        let dd = (*s.pick(&cands)).clone();
        on_one(d, s, &|k, n| loc_of(k, n) == loc, &mut |s, k, n| {
            if k == NK::DirArg && !dd.args.is_empty() {
                return; // stay acyclic and simple
            }
            if let Some(l) = dirs_of(n) {
                if dd.repeatable || !l.iter().any(|x| x.name == dd.name) {
                    let at = s.below(l.len() + 1);
                    let x = apply(s, &dd, p);
                    l.insert(at, x);
                }
            }
        });
        return;
    }
    // the changed ones are where directives are
    let has = |_: NK, n: &Node| match n {
        Node::Type(t) => !t.dirs.is_empty(),
        Node::Field(t) => !t.dirs.is_empty(),
        Node::In(t) => !t.dirs.is_empty(),
        Node::EnumV(t) => !t.dirs.is_empty(),
        Node::Schema(t) => !t.dirs.is_empty(),
        Node::DirDef(_) => false,
    };
    on_one(d, s, &has, &mut |s, _, n| {
        let Some(l) = dirs_of(n) else { return };
        let i = s.below(l.len());
        if s.chance(1, 3) {
            l.remove(i);
            return;
        }
        let Some(dd) = p.dirs.iter().find(|x| x.name == l[i].name) else { return };
        let a = &mut l[i].args;
        match s.below(4) {
            0 if !a.is_empty() => {
                let j = s.below(a.len());
                a.remove(j);
            }
            1 => a.clear(),
            2 if !a.is_empty() => {
                let j = s.below(a.len());
                if let Some(ad) = dd.args.iter().find(|x| x.name == a[j].0) {
                    a[j].1 = gen_schema::value(s, &p.types, &ad.ty, 2, true, false, &mut gen_schema::no_var);
                }
            }
            _ => {
                for ad in &dd.args {
                    if !a.iter().any(|x| x.0 == ad.name) {
                        let v = gen_schema::value(s, &p.types, &ad.ty, 2, true, false, &mut gen_schema::no_var);
                        a.push((ad.name.clone(), v));
                        break;
                    }
                }
            }
        }
    });
}

fn edit_inputs(l: &mut Vec<InputVal>, s: &mut Src, p: &Pool, min: usize) {
    match s.weighted(&[2, 2, 3, 2]) {
        0 => {
            let n = fresh(s, ["a", "x", "f"][l.len() % 3], &|n| l.iter().any(|i| i.name == n));
            let i = new_input(s, n, p);
            let at = s.below(l.len() + 1);
            l.insert(at, i);
        }
        1 if l.len() > min => {
            let i = s.below(l.len());
            l.remove(i);
        }
        2 if !l.is_empty() => {
            let i = s.below(l.len());
            l[i].ty = retype(s, &l[i].ty, &p.ins);
        }
        _ if !l.is_empty() => {
            let i = s.below(l.len());
            l[i].default = if s.chance(1, 3) { None } else { Some(gen_schema::value(s, &p.types, &l[i].ty, 2, true, false, &mut gen_schema::no_var)) };
        }
        _ => {}
    }
}

/// several things about one element change together
fn edit_whole(d: &mut SDoc, s: &mut Src, p: &Pool) {
    fn input(i: &mut InputVal, s: &mut Src, p: &Pool) {
        if s.bool() {
            i.ty = retype(s, &i.ty, &p.ins);
        }
        if s.bool() {
            i.default = if s.chance(1, 4) { None } else { Some(gen_schema::value(s, &p.types, &i.ty, 2, true, false, &mut gen_schema::no_var)) };
        }
        if s.chance(1, 3) {
            i.desc = text(s);
        }
    }
    fn some_dirs(k: NK, mut n: Node, s: &mut Src, p: &Pool) {
        let loc = loc_of(k, &n);
        let Some(l) = dirs_of(reborrow(&mut n)) else { return };
        for _ in 0..s.below(3) {
            let cands: Vec<&DirDef> = p.dirs.iter().filter(|x| x.locs.iter().any(|l| l == loc) && (k != NK::DirArg || x.args.is_empty())).collect();
            if !cands.is_empty() && s.bool() {
                let dd = (*s.pick(&cands)).clone();
                if dd.repeatable || !l.iter().any(|x| x.name == dd.name) {
                    let at = s.below(l.len() + 1);
                    let x = apply(s, &dd, p);
                    l.insert(at, x);
                }
            } else if !l.is_empty() {
                let i = s.below(l.len());
                l.remove(i);
            }
        }
    }
    fn reborrow<'b>(n: &'b mut Node) -> Node<'b> {
        match n {
            Node::Type(x) => Node::Type(x),
            Node::Field(x) => Node::Field(x),
            Node::In(x) => Node::In(x),
            Node::EnumV(x) => Node::EnumV(x),
            Node::DirDef(x) => Node::DirDef(x),
            Node::Schema(x) => Node::Schema(x),
        }
    }
    let input_only = s.bool();
    on_one(d, s, &|_, n| matches!(n, Node::In(_)) || !input_only, &mut |s, k, mut n| {
        match &mut n {
            Node::In(i) => input(i, s, p),
            Node::Field(f) => {
                if s.bool() {
                    f.ty = retype(s, &f.ty, &p.outs);
                }
                if s.bool() {
                    edit_inputs(&mut f.args, s, p, 0);
                }
                f.args.iter_mut().for_each(|a| {
                    if s.bool() {
                        input(a, s, p)
                    }
                });
                if s.chance(1, 3) {
                    f.desc = text(s);
                }
            }
            Node::Type(t) => {
                if s.chance(1, 3) {
                    t.desc = text(s);
                }
                match &mut t.kind {
                    Kind::Input { fields } => {
                        edit_inputs(fields, s, p, 1);
                        fields.iter_mut().for_each(|a| input(a, s, p));
                    }
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.iter_mut().for_each(|f| {
                        if s.bool() {
                            f.ty = retype(s, &f.ty, &p.outs);
                        }
                    }),
                    _ => {}
                }
            }
            Node::EnumV(v) => v.desc = text(s),
            Node::DirDef(x) => {
                edit_inputs(&mut x.args, s, p, 0);
                x.args.iter_mut().for_each(|a| input(a, s, p));
                if s.bool() {
                    let l = s.pick(&EXEC_LOCS).to_string();
                    if !x.locs.contains(&l) {
                        x.locs.push(l);
                    }
                }
            }
            Node::Schema(x) => x.desc = text(s),
        }
        some_dirs(k, n, s, p);
    });
}

fn new_kind(s: &mut Src, p: &Pool) -> Kind {
    match s.below(6) {
        0 => Kind::Scalar,
        1 => Kind::Enum { values: vec![EnumVal { desc: None, name: "ONE".into(), dirs: vec![] }] },
        2 => Kind::Input { fields: vec![new_input(s, "a".into(), p)] },
        3 if !p.objects.is_empty() => Kind::Union { members: vec![s.pick(&p.objects).clone()] },
        4 => Kind::Interface { ifaces: vec![], fields: vec![new_field(s, "f0".into(), p)] },
        _ => {
            let ifaces = if !p.ifaces.is_empty() && s.bool() { vec![s.pick(&p.ifaces).clone()] } else { vec![] };
            Kind::Object { ifaces, fields: vec![new_field(s, "f0".into(), p)] }
        }
    }
}

fn shuffle_all(d: &mut SDoc, s: &mut Src) {
    s.shuffle(&mut d.defs);
    let dirs = |s: &mut Src, l: &mut Vec<Dir>| {
        let names: BTreeSet<&String> = l.iter().map(|d| &d.name).collect();
        if names.len() == l.len() {
            s.shuffle(l);
        }
        l.iter_mut().for_each(|d| s.shuffle(&mut d.args));
    };
    visit(d, &mut |_, n| match n {
        Node::Type(t) => {
            dirs(s, &mut t.dirs);
            match &mut t.kind {
                Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => {
                    s.shuffle(ifaces);
                    s.shuffle(fields);
                }
                Kind::Union { members } => s.shuffle(members),
                Kind::Enum { values } => s.shuffle(values),
                Kind::Input { fields } => s.shuffle(fields),
                Kind::Scalar => {}
            }
        }
        Node::Field(t) => {
            dirs(s, &mut t.dirs);
            s.shuffle(&mut t.args);
        }
        Node::In(t) => {
            dirs(s, &mut t.dirs);
            if let Some(Val::Obj(o)) = &mut t.default {
                s.shuffle(o);
            }
        }
        Node::EnumV(t) => dirs(s, &mut t.dirs),
        Node::DirDef(t) => {
            s.shuffle(&mut t.args);
            s.shuffle(&mut t.locs);
        }
        Node::Schema(t) => {
            dirs(s, &mut t.dirs);
            s.shuffle(&mut t.ops);
        }
    });
}

/// an input object that no finite value fits
fn endless(d: &SDoc) -> bool {
    let inputs: BTreeMap<&String, (&Vec<InputVal>, bool)> = d.types().filter_map(|t| if let Kind::Input { fields } = &t.kind { Some((&t.name, (fields, t.dirs.iter().any(|x| x.name == "oneOf")))) } else { None }).collect();
    let mut fine: BTreeSet<&String> = BTreeSet::new();
    loop {
        let ok = |i: &InputVal| matches!(i.ty, Ty::List(..)) || !inputs.contains_key(&i.ty.base().to_string()) || fine.contains(&i.ty.base().to_string());
        let more: Vec<&String> = inputs.iter().filter(|(n, (f, one))| !fine.contains(*n) && if *one { f.iter().any(|i| matches!(i.ty, Ty::List(..)) || !inputs.contains_key(&i.ty.base().to_string())) } else { f.iter().all(|i| !i.ty.is_req() || ok(i)) }).map(|(n, _)| *n).collect();
        if more.is_empty() {
            return fine.len() != inputs.len();
        }
        fine.extend(more);
    }
}

/// one change that leaves the schema well formed
pub fn edit(d: &mut SDoc, s: &mut Src) {
    let before = d.clone();
    let p = pool(d);
    match s.weighted(&[3, 8, 3, 3, 3, 3, 3, 2, 2, 2, 2, 3, 3, 2, 1, 1, 10]) {
        0 => edit_desc(d, s),
        1 => edit_dirs(d, s, &p),
        2 => {
            on_one(d, s, &|k, n| k == NK::Type && matches!(n, Node::Type(t) if matches!(t.kind, Kind::Object { .. } | Kind::Interface { .. })), &mut |s, _, n| {
                let Node::Type(t) = n else { return };
                let (Kind::Object { fields, .. } | Kind::Interface { fields, .. }) = &mut t.kind else { return };
                if s.bool() {
                    let n = fresh(s, "f", &|n| fields.iter().any(|f| f.name == n));
                    let f = new_field(s, n, &p);
                    let at = s.below(fields.len() + 1);
                    fields.insert(at, f);
                } else if fields.len() > 1 {
                    let i = s.below(fields.len());
                    fields.remove(i);
                }
            });
        }
        3 => {
            on_one(d, s, &|k, _| k == NK::Field, &mut |s, _, n| {
                if let Node::Field(f) = n {
                    f.ty = retype(s, &f.ty, &p.outs);
                }
            });
        }
        4 => {
            on_one(d, s, &|k, _| k == NK::Field, &mut |s, _, n| {
                if let Node::Field(f) = n {
                    edit_inputs(&mut f.args, s, &p, 0)
                }
            });
        }
        5 => {
            on_one(d, s, &|_, n| matches!(n, Node::Type(TypeDef { kind: Kind::Input { .. }, .. })), &mut |s, _, n| {
                if let Node::Type(TypeDef { kind: Kind::Input { fields }, .. }) = n {
                    edit_inputs(fields, s, &p, 1)
                }
            });
        }
        6 => {
            on_one(d, s, &|k, _| k == NK::DirDef, &mut |s, _, n| {
                if let Node::DirDef(x) = n {
                    edit_inputs(&mut x.args, s, &p, 0)
                }
            });
        }
        7 => {
            on_one(d, s, &|_, n| matches!(n, Node::Type(TypeDef { kind: Kind::Enum { .. }, .. })), &mut |s, _, n| {
                if let Node::Type(TypeDef { kind: Kind::Enum { values }, .. }) = n {
                    if s.bool() {
                        let n = fresh(s, "V", &|n| values.iter().any(|f| f.name == n));
                        let at = s.below(values.len() + 1);
                        values.insert(at, EnumVal { desc: text(s), name: n, dirs: vec![] });
                    } else if values.len() > 1 {
                        let i = s.below(values.len());
                        values.remove(i);
                    }
                }
            });
        }
        8 => {
            on_one(d, s, &|_, n| matches!(n, Node::Type(TypeDef { kind: Kind::Union { .. }, .. })), &mut |s, _, n| {
                if let Node::Type(TypeDef { kind: Kind::Union { members }, .. }) = n {
                    if s.bool() {
                        let o = s.pick(&p.objects).clone();
                        if !members.contains(&o) {
                            let at = s.below(members.len() + 1);
                            members.insert(at, o);
                        }
                    } else if members.len() > 1 {
                        let i = s.below(members.len());
                        members.remove(i);
                    }
                }
            });
        }
        9 => {
            // one type in eight that declares interfaces is an interface itself
            let also = s.chance(1, 8);
            on_one(d, s, &|_, n| matches!(n, Node::Type(t) if matches!(t.kind, Kind::Object { .. }) || also && matches!(t.kind, Kind::Interface { .. })), &mut |s, _, n| {
                let Node::Type(t) = n else { return };
                let name = t.name.clone();
                let (Kind::Object { ifaces, .. } | Kind::Interface { ifaces, .. }) = &mut t.kind else { return };
                if s.bool() && !p.ifaces.is_empty() {
                    let o = s.pick(&p.ifaces).clone();
                    if o != name && !ifaces.contains(&o) {
                        let at = s.below(ifaces.len() + 1);
                        ifaces.insert(at, o);
                    }
                } else if !ifaces.is_empty() {
                    let i = s.below(ifaces.len());
                    ifaces.remove(i);
                }
            });
        }
        10 => {
            // a type comes or goes
            let i = s.below(d.defs.len() + 2);
            if i < d.defs.len() {
                if matches!(d.defs[i], SDef::Type(_)) {
                    d.defs.remove(i);
                }
            } else {
                let n = fresh(s, "T", &|n| p.types.contains_key(n) || SCALARS.contains(&n));
                let kind = new_kind(s, &p);
                d.defs.push(SDef::Type(TypeDef { desc: text(s), name: n, dirs: vec![], kind }));
            }
        }
        11 => {
            on_one(d, s, &|k, _| k == NK::DirDef, &mut |s, _, n| {
                let Node::DirDef(x) = n else { return };
                if s.bool() {
                    let l = if s.bool() { s.pick(&EXEC_LOCS).to_string() } else { s.pick(&TYPE_LOCS).to_string() };
                    if !x.locs.contains(&l) {
                        let at = s.below(x.locs.len() + 1);
                        x.locs.insert(at, l);
                    }
                } else if x.locs.len() > 1 {
                    let i = s.below(x.locs.len());
                    x.locs.remove(i);
                }
            });
        }
        12 => {
            // a type changes its kind
            on_one(d, s, &|k, _| k == NK::Type, &mut |s, _, n| {
                if let Node::Type(t) = n {
                    t.kind = new_kind(s, &p)
                }
            });
        }
        13 => {
            // a directive definition comes or goes
            let at: Vec<usize> = (0..d.defs.len()).filter(|i| matches!(d.defs[*i], SDef::Directive(_))).collect();
            if !at.is_empty() && s.bool() {
                d.defs.remove(*s.pick(&at));
            } else {
                let n = fresh(s, "d", &|n| p.dirs.iter().any(|x| x.name == n) || ["skip", "include", "specifiedBy"].contains(&n));
                let args = if s.bool() { vec![new_input(s, "x".into(), &p)] } else { vec![] };
                d.defs.push(SDef::Directive(DirDef { desc: text(s), name: n, args, repeatable: s.bool(), locs: vec!["FIELD".into(), "OBJECT".into()] }));
            }
        }
        14 => {
            on_one(d, s, &|k, _| k == NK::DirDef, &mut |_, _, n| {
                if let Node::DirDef(x) = n {
                    x.repeatable = !x.repeatable
                }
            });
        }
        16 => edit_whole(d, s, &p),
        _ => {
            on_one(d, s, &|k, _| k == NK::Schema, &mut |s, _, n| {
                let Node::Schema(x) = n else { return };
                let i = s.below(x.ops.len());
                if s.bool() && x.ops[i].0 != OpKind::Query {
                    x.ops.remove(i);
                } else {
                    let o = s.pick(&p.objects).clone();
                    x.ops[i].1 = o;
                }
            });
        }
    }
    if Schema::resolve(d).is_err() || endless(d) || !super::schema::fields_unique(d) {
        *d = before;
    }
}

// ---- the reference ----

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ch {
    var: String,
    path: String,
    class: &'static str,
    detail: String,
}

const BREAKING: &str = "breaking";
const DANGEROUS: &str = "dangerous";
const SAFE: &str = "safe";

struct R {
    out: Vec<Ch>,
}

pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Val::Obj(x), Val::Obj(y)) => {
            let (x, y): (BTreeMap<_, _>, BTreeMap<_, _>) = (x.iter().map(|(k, v)| (k, v)).collect(), y.iter().map(|(k, v)| (k, v)).collect());
            x.len() == y.len() && x.iter().zip(&y).all(|((k, v), (l, w))| k == l && same(v, w))
        }
        _ => a == b,
    }
}

fn same_opt(a: &Option<Val>, b: &Option<Val>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => true,
        _ => false,
    }
}

/// every value of the new type is one of the old type
fn narrower(old: &Ty, new: &Ty) -> bool {
    match (old, new) {
        (Ty::Named(a, r), Ty::Named(b, q)) => a == b && (!r || *q),
        (Ty::List(a, r), Ty::List(b, q)) => (!r || *q) && narrower(a, b),
        _ => false,
    }
}

fn opt(d: &Option<String>) -> String {
    format!("{d:?}")
}

impl R {
    fn add(&mut self, var: &str, path: String, class: &'static str, detail: String) {
        self.out.push(Ch { var: var.into(), path, class, detail });
    }
    fn dirs(&mut self, a: &[Dir], b: &[Dir], loc: &str, member: &str) {
        // the k-th use of a directive corresponds to the k-th use of it
        let keyed = |l: &[Dir]| -> Vec<((String, usize), Dir)> { l.iter().enumerate().map(|(i, d)| ((d.name.clone(), l[..i].iter().filter(|x| x.name == d.name).count()), d.clone())).collect() };
        let (a, b) = (keyed(a), keyed(b));
        for (k, d) in &b {
            if !a.iter().any(|(l, _)| l == k) {
                let class = if loc == "INPUT_OBJECT" && k.0 == "oneOf" { BREAKING } else { SAFE };
                self.add("DirectiveAdded", d.name.clone(), class, format!("{loc} {member} {d:?}"));
            }
        }
        for (k, d) in &a {
            match b.iter().find(|(l, _)| l == k) {
                None => self.add("DirectiveRemoved", d.name.clone(), BREAKING, format!("{loc} {member} {d:?}")),
                Some((_, e)) => {
                    for (n, v) in &d.args {
                        let p = format!("@{}.{n}", d.name);
                        match e.args.iter().find(|x| x.0 == *n) {
                            None => self.add("DirectiveArgumentRemoved", p, SAFE, format!("{v:?}")),
                            Some((_, w)) if !same(v, w) => self.add("DirectiveArgumentValueChanged", p, SAFE, format!("{v:?} {w:?}")),
                            _ => {}
                        }
                    }
                    for (n, v) in &e.args {
                        if !d.args.iter().any(|x| x.0 == *n) {
                            self.add("DirectiveArgumentAdded", format!("@{}.{n}", d.name), SAFE, format!("{v:?}"));
                        }
                    }
                }
            }
        }
    }
    fn inputs(&mut self, a: &[InputVal], b: &[InputVal], prefix: &str, var: &str, path: &str, loc: &str) {
        for x in b {
            if !a.iter().any(|y| y.name == x.name) {
                self.add(&format!("{prefix}Added"), format!("{path}.{}", x.name), if x.required() { BREAKING } else { SAFE }, format!("{x:?}"));
            }
        }
        for x in a {
            let p = format!("{path}.{}", x.name);
            let Some(y) = b.iter().find(|y| y.name == x.name) else {
                self.add(&format!("{prefix}Removed"), p, BREAKING, format!("{x:?}"));
                continue;
            };
            if x.desc != y.desc {
                self.add(&format!("{var}DescriptionChanged"), p.clone(), SAFE, format!("{} {}", opt(&x.desc), opt(&y.desc)));
            }
            if x.ty != y.ty {
                // every value that was accepted still is
                let class = if narrower(&y.ty, &x.ty) { SAFE } else { BREAKING };
                self.add(&format!("{var}TypeChanged"), p.clone(), class, format!("{} {}", x.ty.show(), y.ty.show()));
            }
            if !same_opt(&x.default, &y.default) {
                self.add(&format!("{var}DefaultValueChanged"), p, DANGEROUS, format!("{:?} {:?}", x.default, y.default));
            }
            self.dirs(&x.dirs, &y.dirs, loc, &x.name);
        }
    }
    fn fields(&mut self, a: &[FieldDef], b: &[FieldDef], ty: &str) {
        for x in b {
            if !a.iter().any(|y| y.name == x.name) {
                self.add("FieldAdded", format!("{ty}.{}", x.name), SAFE, x.ty.show());
            }
        }
        for x in a {
            let p = format!("{ty}.{}", x.name);
            let Some(y) = b.iter().find(|y| y.name == x.name) else {
                self.add("FieldRemoved", p, BREAKING, x.ty.show());
                continue;
            };
            if x.desc != y.desc {
                self.add("FieldDescriptionChanged", p.clone(), SAFE, format!("{} {}", opt(&x.desc), opt(&y.desc)));
            }
            if x.ty != y.ty {
                self.add("FieldTypeChanged", p.clone(), if narrower(&x.ty, &y.ty) { SAFE } else { BREAKING }, format!("{} {}", x.ty.show(), y.ty.show()));
            }
            self.inputs(&x.args, &y.args, "FieldArgument", "FieldArgument", &p, "ARGUMENT_DEFINITION");
            self.dirs(&x.dirs, &y.dirs, "FIELD_DEFINITION", &x.name);
        }
    }
    fn names(&mut self, a: &[String], b: &[String], add: (&str, &'static str), rem: (&str, &'static str), path: &str) {
        for x in b {
            if !a.contains(x) {
                self.add(add.0, path.into(), add.1, x.clone());
            }
        }
        for x in a {
            if !b.contains(x) {
                self.add(rem.0, path.into(), rem.1, x.clone());
            }
        }
    }
}

fn kind_name(t: &TypeDef) -> &'static str {
    match t.kind {
        Kind::Scalar => "SCALAR",
        Kind::Object { .. } => "OBJECT",
        Kind::Interface { .. } => "INTERFACE",
        Kind::Union { .. } => "UNION",
        Kind::Enum { .. } => "ENUM",
        Kind::Input { .. } => "INPUT_OBJECT",
    }
}

/// the differences, and those the comparator has no way to report
fn reference(a: &Schema, b: &Schema) -> (Vec<Ch>, Vec<(&'static str, String)>) {
    let mut r = R { out: vec![] };
    let mut mute = vec![];
    for (n, t) in &b.types {
        if !a.types.contains_key(n) {
            r.add("TypeAdded", n.clone(), SAFE, kind_name(t).into());
        }
    }
    for (n, t) in &a.types {
        let Some(u) = b.types.get(n) else {
            r.add("TypeRemoved", n.clone(), BREAKING, kind_name(t).into());
            continue;
        };
        if t.desc != u.desc {
            r.add("TypeDescriptionChanged", n.clone(), SAFE, format!("{} {}", opt(&t.desc), opt(&u.desc)));
        }
        let common = match (&t.kind, &u.kind) {
            (Kind::Scalar, Kind::Scalar) => true,
            (Kind::Object { ifaces: i, .. }, Kind::Object { ifaces: j, .. }) => {
                r.names(i, j, ("ObjectInterfaceAddition", DANGEROUS), ("ObjectInterfaceRemoval", BREAKING), n);
                r.fields(&a.fields[n], &b.fields[n], n);
                true
            }
            (Kind::Interface { ifaces: i, .. }, Kind::Interface { ifaces: j, .. }) => {
                if i.iter().collect::<BTreeSet<_>>() != j.iter().collect() {
                    mute.push(("interface-implements-not-compared", format!("the interfaces that interface {n} implements")));
                }
                r.fields(&a.fields[n], &b.fields[n], n);
                true
            }
            (Kind::Union { members: i }, Kind::Union { members: j }) => {
                r.names(i, j, ("UnionMemberAdded", DANGEROUS), ("UnionMemberRemoved", BREAKING), n);
                true
            }
            (Kind::Enum { values: i }, Kind::Enum { values: j }) => {
                for x in j {
                    if !i.iter().any(|y| y.name == x.name) {
                        r.add("EnumValueAdded", format!("{n}.{}", x.name), DANGEROUS, String::new());
                    }
                }
                for x in i {
                    let p = format!("{n}.{}", x.name);
                    match j.iter().find(|y| y.name == x.name) {
                        None => r.add("EnumValueRemoved", p, BREAKING, String::new()),
                        Some(y) => {
                            if x.desc != y.desc {
                                r.add("EnumValueDescriptionChanged", p, SAFE, format!("{} {}", opt(&x.desc), opt(&y.desc)));
                            }
                            r.dirs(&x.dirs, &y.dirs, "ENUM_VALUE", &x.name);
                        }
                    }
                }
                true
            }
            (Kind::Input { fields: i }, Kind::Input { fields: j }) => {
                r.inputs(i, j, "InputField", "InputField", n, "INPUT_FIELD_DEFINITION");
                true
            }
            _ => {
                r.add("TypeKindChanged", n.clone(), BREAKING, format!("{} {}", kind_name(t), kind_name(u)));
                false
            }
        };
        if common {
            r.dirs(&t.dirs, &u.dirs, kind_name(t), n);
        }
    }
    for (n, _) in &b.dirs {
        if !a.dirs.contains_key(n) {
            r.add("DirectiveDefinitionAdded", format!("@{n}"), SAFE, String::new());
        }
    }
    for (n, x) in &a.dirs {
        let Some(y) = b.dirs.get(n) else {
            r.add("DirectiveDefinitionRemoved", format!("@{n}"), BREAKING, String::new());
            continue;
        };
        if x.desc != y.desc {
            r.add("DirectiveDefinitionDescriptionChanged", format!("@{n}"), SAFE, format!("{} {}", opt(&x.desc), opt(&y.desc)));
        }
        if x.repeatable != y.repeatable {
            mute.push(("repeatable-not-compared", format!("whether directive {n} is repeatable")));
        }
        r.names(&x.locs, &y.locs, ("DirectiveDefinitionLocationAdded", SAFE), ("DirectiveDefinitionLocationRemoved", BREAKING), &format!("@{n}"));
        r.inputs(&x.args, &y.args, "DirectiveDefinitionArgument", "DirectiveDefinitionArgument", &format!("@{n}"), "ARGUMENT_DEFINITION");
    }
    r.dirs(&a.schema_dirs, &b.schema_dirs, "SCHEMA", "");
    if a.desc != b.desc {
        mute.push(("schema-description-not-compared", "the description of the schema".into()));
    }
    for k in OpKind::ALL {
        if a.roots.get(&k) != b.roots.get(&k) {
            mute.push(("root-type-not-compared", format!("the root type of {} operations", k.kw())));
        }
    }
    r.out.sort();
    (r.out, mute)
}

// ---- what is reported ----

fn show_in<I: bluejay_core::definition::InputValueDefinition>(i: &I) -> String {
    format!("{:?}", dump::input_val(i))
}

fn owned(d: Option<&str>) -> Option<String> {
    d.map(|d| d.to_string())
}

fn kind_of<T: bluejay_core::definition::TypeDefinition>(t: &TypeDefinitionReference<'_, T>) -> &'static str {
    use TypeDefinitionReference as R;
    match t {
        R::BuiltinScalar(_) | R::CustomScalar(_) => "SCALAR",
        R::Object(_) => "OBJECT",
        R::Interface(_) => "INTERFACE",
        R::Union(_) => "UNION",
        R::Enum(_) => "ENUM",
        R::InputObject(_) => "INPUT_OBJECT",
    }
}

fn show_dir<D: Directive<true>>(d: &D) -> String {
    format!("{:?}", Dir { name: d.name().to_string(), args: dump::args::<true, _>(d.arguments()) })
}

fn describe<'a, S: Core>(c: &Change<'a, S>) -> String {
    use Change as C;
    let tys = |a: &S::InputValueDefinition, b: &S::InputValueDefinition| format!("{} {}", dump::ity(a.r#type()).show(), dump::ity(b.r#type()).show());
    let descs = |a: Option<&str>, b: Option<&str>| format!("{:?} {:?}", owned(a), owned(b));
    let defs = |a: &S::InputValueDefinition, b: &S::InputValueDefinition| format!("{:?} {:?}", dump::input_val(a).default, dump::input_val(b).default);
    #[allow(unreachable_patterns)]
    match c {
        C::TypeRemoved { removed_type_definition: t } => kind_of(t).into(),
        C::TypeAdded { added_type_definition: t } => kind_of(t).into(),
        C::TypeKindChanged { old_type_definition: t, new_type_definition: u } => format!("{} {}", kind_of(t), kind_of(u)),
        C::TypeDescriptionChanged { old_type_definition: t, new_type_definition: u } => descs(t.description(), u.description()),
        C::FieldAdded { added_field_definition: f, .. } => dump::oty(f.r#type()).show(),
        C::FieldRemoved { removed_field_definition: f, .. } => dump::oty(f.r#type()).show(),
        C::FieldDescriptionChanged { old_field_definition: a, new_field_definition: b, .. } => descs(a.description(), b.description()),
        C::FieldTypeChanged { old_field_definition: a, new_field_definition: b, .. } => format!("{} {}", dump::oty(a.r#type()).show(), dump::oty(b.r#type()).show()),
        C::FieldArgumentAdded { argument_definition: a, .. } | C::FieldArgumentRemoved { argument_definition: a, .. } => show_in(*a),
        C::DirectiveDefinitionArgumentAdded { argument_definition: a, .. } | C::DirectiveDefinitionArgumentRemoved { argument_definition: a, .. } => show_in(*a),
        C::InputFieldAdded { added_field_definition: a, .. } | C::InputFieldRemoved { removed_field_definition: a, .. } => show_in(*a),
        C::FieldArgumentDescriptionChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentDescriptionChanged { old_argument_definition: a, new_argument_definition: b, .. } => descs(a.description(), b.description()),
        C::InputFieldDescriptionChanged { old_field_definition: a, new_field_definition: b, .. } => descs(a.description(), b.description()),
        C::FieldArgumentTypeChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentTypeChanged { old_argument_definition: a, new_argument_definition: b, .. } => tys(a, b),
        C::InputFieldTypeChanged { old_field_definition: a, new_field_definition: b, .. } => tys(a, b),
        C::FieldArgumentDefaultValueChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentDefaultValueChanged { old_argument_definition: a, new_argument_definition: b, .. } => defs(a, b),
        C::InputFieldDefaultValueChanged { old_field_definition: a, new_field_definition: b, .. } => defs(a, b),
        C::ObjectInterfaceAddition { interface_implementation: i, .. } | C::ObjectInterfaceRemoval { interface_implementation: i, .. } => i.name().to_string(),
        C::UnionMemberAdded { union_member_type: m, .. } | C::UnionMemberRemoved { union_member_type: m, .. } => m.name().to_string(),
        C::EnumValueDescriptionChanged { old_enum_value_definition: a, new_enum_value_definition: b, .. } => descs(a.description(), b.description()),
        C::DirectiveDefinitionDescriptionChanged { old_directive_definition: a, new_directive_definition: b } => descs(a.description(), b.description()),
        C::DirectiveDefinitionLocationAdded { location, .. } | C::DirectiveDefinitionLocationRemoved { location, .. } => location.to_string(),
        C::DirectiveAdded { location, member_name, directive } | C::DirectiveRemoved { location, member_name, directive } => format!("{location} {member_name} {}", show_dir(*directive)),
        C::DirectiveArgumentAdded { argument, .. } | C::DirectiveArgumentRemoved { argument, .. } => format!("{:?}", dump::val::<true, _>(argument.value())),
        C::DirectiveArgumentValueChanged { old_argument, new_argument, .. } => format!("{:?} {:?}", dump::val::<true, _>(old_argument.value()), dump::val::<true, _>(new_argument.value())),
        _ => String::new(),
    }
}

/// the texts of what it was and what it became, for the changes that tell both
fn was_and_is<'a, S: Core>(c: &Change<'a, S>) -> Option<(Option<String>, Option<String>)> {
    use bluejay_printer::value::ValuePrinter;
    use Change as C;
    let tys = |a: &S::InputValueDefinition, b: &S::InputValueDefinition| Some((Some(dump::ity(a.r#type()).show()), Some(dump::ity(b.r#type()).show())));
    let defs = |a: &S::InputValueDefinition, b: &S::InputValueDefinition| {
        let v = |i: &S::InputValueDefinition| i.default_value().map(|v| ValuePrinter::new(v).to_string());
        Some((v(a), v(b)))
    };
    let descs = |a: Option<&str>, b: Option<&str>| Some((owned(a), owned(b)));
    #[allow(unreachable_patterns)]
    match c {
        C::TypeKindChanged { old_type_definition: t, new_type_definition: u } => Some((Some(kind_of(t).into()), Some(kind_of(u).into()))),
        C::TypeDescriptionChanged { old_type_definition: t, new_type_definition: u } => descs(t.description(), u.description()),
        C::FieldDescriptionChanged { old_field_definition: a, new_field_definition: b, .. } => descs(a.description(), b.description()),
        C::FieldTypeChanged { old_field_definition: a, new_field_definition: b, .. } => Some((Some(dump::oty(a.r#type()).show()), Some(dump::oty(b.r#type()).show()))),
        C::FieldArgumentDescriptionChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentDescriptionChanged { old_argument_definition: a, new_argument_definition: b, .. } => descs(a.description(), b.description()),
        C::InputFieldDescriptionChanged { old_field_definition: a, new_field_definition: b, .. } => descs(a.description(), b.description()),
        C::FieldArgumentTypeChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentTypeChanged { old_argument_definition: a, new_argument_definition: b, .. } => tys(a, b),
        C::InputFieldTypeChanged { old_field_definition: a, new_field_definition: b, .. } => tys(a, b),
        C::FieldArgumentDefaultValueChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentDefaultValueChanged { old_argument_definition: a, new_argument_definition: b, .. } => defs(a, b),
        C::InputFieldDefaultValueChanged { old_field_definition: a, new_field_definition: b, .. } => defs(a, b),
        C::EnumValueDescriptionChanged { old_enum_value_definition: a, new_enum_value_definition: b, .. } => descs(a.description(), b.description()),
        C::DirectiveDefinitionDescriptionChanged { old_directive_definition: a, new_directive_definition: b } => descs(a.description(), b.description()),
        C::DirectiveArgumentValueChanged { old_argument, new_argument, .. } => {
            Some((Some(ValuePrinter::new(old_argument.value()).to_string()), Some(ValuePrinter::new(new_argument.value()).to_string())))
        }
        _ => None,
    }
}

/// `part` in `text` from `from` on, as a whole: between quotes, blanks or ends
fn find_whole(text: &str, part: &str, from: usize) -> Option<usize> {
    let edge = |c: Option<char>| c.is_none_or(|c| c == '`' || c == ' ' || c == '.' || c == '\'');
    text[from..].match_indices(part).map(|(i, _)| i + from).find(|&i| edge(text[..i].chars().next_back()) && edge(text[i + part.len()..].chars().next()))
}

const VARIANTS: &[&str] = &[
    "TypeRemoved", "TypeAdded", "TypeKindChanged", "TypeDescriptionChanged", "FieldAdded", "FieldRemoved", "FieldDescriptionChanged", "FieldTypeChanged", "FieldArgumentAdded", "FieldArgumentRemoved",
    "FieldArgumentDescriptionChanged", "FieldArgumentDefaultValueChanged", "FieldArgumentTypeChanged", "ObjectInterfaceAddition", "ObjectInterfaceRemoval", "EnumValueAdded", "EnumValueRemoved",
    "EnumValueDescriptionChanged", "UnionMemberAdded", "UnionMemberRemoved", "InputFieldAdded", "InputFieldRemoved", "InputFieldDescriptionChanged", "InputFieldTypeChanged", "InputFieldDefaultValueChanged",
    "DirectiveDefinitionAdded", "DirectiveDefinitionRemoved", "DirectiveDefinitionLocationAdded", "DirectiveDefinitionLocationRemoved", "DirectiveDefinitionDescriptionChanged", "DirectiveDefinitionArgumentAdded",
    "DirectiveDefinitionArgumentRemoved", "DirectiveDefinitionArgumentDescriptionChanged", "DirectiveDefinitionArgumentDefaultValueChanged", "DirectiveDefinitionArgumentTypeChanged", "DirectiveAdded",
    "DirectiveRemoved", "DirectiveArgumentAdded", "DirectiveArgumentRemoved", "DirectiveArgumentValueChanged",
];

/// the changes, after checking that each belongs to one class and names what it is about
fn reported<'a, S: Core>(old: &'a S, new: &'a S) -> Result<Vec<Ch>, String> {
    let mut out = vec![];
    for c in compare(old, new).changes {
        let (b, d, s) = (c.breaking(), c.dangerous(), c.non_breaking());
        if b as u8 + d as u8 + s as u8 != 1 {
            return Err(format!("class: {} at {} is breaking: {b}, dangerous: {d}, safe: {s}", c.as_ref(), c.path()));
        }
        let k = c.criticality();
        if (k.is_breaking(), k.is_dangerous(), k.is_safe()) != (b, d, s) || k.reason().is_empty() {
            return Err(format!("class: the criticality of {} at {} is not its class", c.as_ref(), c.path()));
        }
        let (m, p) = (c.message(), c.path());
        for part in p.trim_start_matches('@').split('.') {
            if !m.contains(part) {
                return Err(format!("message: {m:?} does not name {p}"));
            }
        }
        if let Some((was, is)) = was_and_is(&c) {
            let mut at = 0;
            for (what, part) in [("was", was), ("is", is)] {
                let Some(part) = part.filter(|p| !p.is_empty()) else { continue };
                match find_whole(&m, &part, at) {
                    Some(i) => at = i + part.len(),
                    None => return Err(format!("message: {m:?} does not tell what it {what}: {part:?}")),
                }
            }
        }
        if m.contains(&format!("unknown `")) {
            return Err(format!("message: {m:?}"));
        }
        out.push(Ch { var: c.as_ref().to_string(), path: p, class: if b { BREAKING } else if d { DANGEROUS } else { SAFE }, detail: describe(&c) });
    }
    out.sort();
    Ok(out)
}

fn show(c: &Ch) -> String {
    format!("{} at {} ({}) {}", c.var, c.path, c.class, c.detail)
}

/// the multiset difference
fn minus(a: &[Ch], b: &[Ch]) -> Vec<Ch> {
    let mut b = b.to_vec();
    let mut out = vec![];
    for x in a {
        match b.iter().position(|y| y == x) {
            Some(i) => {
                b.swap_remove(i);
            }
            None => out.push(x.clone()),
        }
    }
    out
}

pub fn base(s: &mut Src, descs: bool) -> SDoc {
    let deprecated = s.bool();
    let small = s.chance(2, 3);
    let applied = s.chance(3, 4);
    let o = SOpts { descs, applied, deprecated, small, ..Default::default() };
    gen_schema::schema(s, o)
}

fn judge(ctx: &mut Ctx, a: &MySchema, b: &MySchema, m: &Schema, n: &Schema) -> CaseResult {
    let (want, mute) = reference(m, n);
    let mut got = reported(a, b)?;
    if !mute.is_empty() {
        for (id, what) in &mute {
            ctx.known(id, format!("{what} may change and nothing is reported"));
        }
        got.retain(|c| VARIANTS.contains(&c.var.as_str()));
    }
    if let Some(x) = minus(&want, &got).first() {
        return Err(format!("not reported: {}\nreported: {:#?}", show(x), got.iter().map(show).collect::<Vec<_>>()));
    }
    if let Some(x) = minus(&got, &want).first() {
        return Err(format!("reported without cause: {}\nexpected: {:#?}", show(x), want.iter().map(show).collect::<Vec<_>>()));
    }
    for c in &want {
        ctx.tag(VARIANTS.iter().find(|v| **v == c.var).unwrap_or(&"?"));
        ctx.tag(c.class);
    }
    Ok(())
}

fn c28(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let descs = s.bool();
    let mut a = base(s, descs);
    if s.chance(1, 4) {
        // arbitrary names, texts and values
        let w = super::schema::wild_sdoc(s);
        if super::schema::fields_unique(&w) && !endless(&w) && !w.types().any(|t| SCALARS.contains(&t.name.as_str())) && Schema::resolve(&w).is_ok() {
            a = w;
        }
    }
    let mut b = a.clone();
    let n = s.weighted(&[1, 3, 3, 2, 1, 1]);
    for _ in 0..n {
        edit(&mut b, s);
    }
    let moved = s.chance(1, 3);
    if moved {
        shuffle_all(&mut b, s);
    }
    let (ma, mb) = (Schema::resolve(&a)?, Schema::resolve(&b)?);
    let (ta, tb) = (render::sdoc_text(&a), render::sdoc_text(&b));
    ctx.show("old", &ta);
    ctx.show("new", &tb);
    ctx.nontrivial = a != b;
    ctx.tag_if(moved, "reordered");
    with_schema(&ta, |x| {
        with_schema(&tb, |y| {
            judge(ctx, x, y, &ma, &mb)?;
            judge(ctx, y, x, &mb, &ma)?;
            for z in [x, y] {
                if let Some(c) = reported(z, z)?.first() {
                    return Err(format!("a schema compared with itself: {}", show(c)));
                }
            }
            Ok(())
        })
    })
}

fn inverse(v: &str) -> String {
    for (a, b) in [("Added", "Removed"), ("Addition", "Removal")] {
        if let Some(p) = v.strip_suffix(a) {
            return format!("{p}{b}");
        }
        if let Some(p) = v.strip_suffix(b) {
            return format!("{p}{a}");
        }
    }
    v.to_string()
}

fn c29(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let a = base(s, false);
    let ma = Schema::resolve(&a)?;
    let mut b = a.clone();
    let safe_only = s.chance(2, 3);
    let n = if safe_only { s.range(2, 8) } else { s.range(1, 2) };
    for _ in 0..n {
        let before = b.clone();
        edit(&mut b, s);
        if safe_only && reference(&ma, &Schema::resolve(&b)?).0.iter().any(|c| c.class != SAFE) {
            b = before;
        }
    }
    let mb = Schema::resolve(&b)?;
    let (ta, tb) = (render::sdoc_text(&a), render::sdoc_text(&b));
    ctx.show("old", &ta);
    ctx.show("new", &tb);
    with_schema(&ta, |x| {
        with_schema(&tb, |y| {
            let (fwd, back) = (reported(x, y)?, reported(y, x)?);
            let key = |v: &[Ch], inv: bool| {
                let mut l: Vec<(String, String)> = v.iter().map(|c| (if inv { inverse(&c.var) } else { c.var.clone() }, c.path.clone())).collect();
                l.sort();
                l
            };
            let (k, l) = (key(&fwd, false), key(&back, true));
            if k != l {
                return Err(format!("the reverse comparison is not the reverse: {k:?} and {l:?}"));
            }
            if fwd.iter().any(|c| c.class != SAFE) {
                ctx.tag("not safe");
                ctx.nontrivial = false;
                return Ok(());
            }
            ctx.nontrivial = !fwd.is_empty();
            for c in &fwd {
                ctx.tag(VARIANTS.iter().find(|v| **v == c.var).unwrap_or(&"?"));
            }
            let k = s.range(2, 4);
            for _ in 0..k {
                let o = DOpts { collide: s.chance(1, 4), ..Default::default() };
                let mut d = gen_doc::doc(s, &ma, o);
                tidy(&mut d);
                let t = render::doc_text(&d);
                if !validate(x, &t)?.is_empty() {
                    ctx.tag("document invalid to begin with");
                    continue;
                }
                ctx.evals += 1;
                let e = validate(y, &t)?;
                if e.is_empty() {
                    ctx.tag("still valid");
                    continue;
                }
                // differences that are not reported at all
                let root = d.ops.iter().any(|o| ma.roots.get(&o.kind) != mb.roots.get(&o.kind));
                if root {
                    ctx.known("root-type-not-compared", "a root operation type may change and nothing is reported".into());
                    continue;
                }
                let repeats = |n: &str| ma.dirs.get(n).is_some_and(|x| x.repeatable) && mb.dirs.get(n).is_some_and(|x| !x.repeatable);
                let text = format!("{e:?}");
                if ma.dirs.keys().any(|n| repeats(n)) && e.iter().all(|k| k.0 == "C13") {
                    ctx.known("repeatable-not-compared", "a directive may stop being repeatable and nothing is reported".into());
                    continue;
                }
                if e.iter().all(|k| k.0 == "C16") && fwd.iter().any(|c| c.var == "FieldTypeChanged") {
                    ctx.known("required-in-one-place", "making one of several fields selected under one response name required is reported as safe, and the selections then conflict".into());
                    continue;
                }
                ctx.show("document", &t);
                return Err(format!("only safe changes ({:?}), yet the document became invalid: {text}", fwd.iter().map(show).collect::<Vec<_>>()));
            }
            Ok(())
        })
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C28", quick: 150_000, thorough: 2_000_000, rule: "the schemas differ; distinct = distinct pairs of texts", case: c28, assumptions: &["pairs of schemas are related by up to five generated edits and a reordering", "classes follow the published table of changes (spec-following reading: relaxing inputs and narrowing outputs is safe)"] },
        Prop { id: "C29", quick: 60_000, thorough: 2_000_000, rule: "some change is reported, and all are safe; distinct = distinct pairs of texts and documents", case: c29, assumptions: &["documents come from this harness's generator"] },
    ]
}

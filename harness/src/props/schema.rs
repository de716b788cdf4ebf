//! C03, C08, C09, C10: type system documents.
use crate::ast::*;
use crate::dump;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_schema::{self, SOpts};
use crate::gen_syn as g;
use crate::props::syntax::{check_errors, check_resolution_errors, err_text, parse_def};
use crate::refparse as rp;
use crate::render::*;
use crate::schema::{Schema, SCALARS};
use crate::src::Src;
use crate::view::{diff, model_view, view};
use bluejay_core::definition::{EnumTypeDefinition as _, InputObjectTypeDefinition as _, ObjectTypeDefinition as _, SchemaDefinition as CoreSchema};
use bluejay_parser::ast::definition::SchemaDefinition;
use bluejay_parser::Error;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

fn each_input_val<'a>(d: &'a mut SDef, f: &mut dyn FnMut(&mut InputVal)) {
    match d {
        SDef::Directive(d) => d.args.iter_mut().for_each(f),
        SDef::Type(t) => match &mut t.kind {
            Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.iter_mut().for_each(|x| x.args.iter_mut().for_each(&mut *f)),
            Kind::Input { fields } => fields.iter_mut().for_each(f),
            _ => {}
        },
        _ => {}
    }
}

fn each_ty(d: &mut SDef, f: &mut dyn FnMut(&mut Ty)) {
    each_input_val(d, &mut |i| f(&mut i.ty));
    if let SDef::Type(TypeDef { kind: Kind::Object { fields, .. } | Kind::Interface { fields, .. }, .. }) = d {
        fields.iter_mut().for_each(|x| f(&mut x.ty));
    }
}

fn each_dirs(d: &mut SDef, f: &mut dyn FnMut(&mut Vec<Dir>)) {
    each_input_val(d, &mut |i| f(&mut i.dirs));
    match d {
        SDef::Schema(s) => f(&mut s.dirs),
        SDef::Type(t) => {
            f(&mut t.dirs);
            match &mut t.kind {
                Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.iter_mut().for_each(|x| f(&mut x.dirs)),
                Kind::Enum { values } => values.iter_mut().for_each(|x| f(&mut x.dirs)),
                _ => {}
            }
        }
        _ => {}
    }
}

fn base_mut(t: &mut Ty) -> &mut String {
    match t {
        Ty::Named(n, _) => n,
        Ty::List(t, _) => base_mut(t),
    }
}

/// consistently rename types and directives
pub fn rename(doc: &mut SDoc, types: &BTreeMap<String, String>, dirs: &BTreeMap<String, String>) {
    let r = |m: &BTreeMap<String, String>, n: &mut String| {
        if let Some(x) = m.get(n) {
            *n = x.clone()
        }
    };
    for d in &mut doc.defs {
        each_ty(d, &mut |t| r(types, base_mut(t)));
        each_dirs(d, &mut |l| l.iter_mut().for_each(|x| r(dirs, &mut x.name)));
        match d {
            SDef::Schema(s) => s.ops.iter_mut().for_each(|(_, n)| r(types, n)),
            SDef::Directive(x) => r(dirs, &mut x.name),
            SDef::Type(t) => {
                r(types, &mut t.name);
                match &mut t.kind {
                    Kind::Object { ifaces, .. } | Kind::Interface { ifaces, .. } => ifaces.iter_mut().for_each(|n| r(types, n)),
                    Kind::Union { members } => members.iter_mut().for_each(|n| r(types, n)),
                    _ => {}
                }
            }
        }
    }
}

/// a resolvable document, with arbitrary names, descriptions, values and directives
pub fn wild_sdoc(s: &mut Src) -> SDoc {
    let mut o = SOpts { descs: true, applied: true, deprecated: s.bool(), wild_values: true, ..Default::default() };
    o.small = s.chance(1, 3);
    let mut d = gen_schema::schema(s, o);
    if s.chance(1, 2) {
        // arbitrary names, keywords among them
        let implicit = d.schema().is_none();
        let mut used: BTreeSet<String> = BTreeSet::new();
        let mut fresh = |s: &mut Src, extra: &str| {
            let mut n = g::name(s);
            if n.starts_with("__") || SCALARS.contains(&n.as_str()) || (implicit && ["Query", "Mutation", "Subscription"].contains(&n.as_str())) {
                n = format!("x{n}");
            }
            while !used.insert(n.clone()) {
                n.push_str(extra);
            }
            n
        };
        let names: Vec<String> = d.types().map(|t| t.name.clone()).filter(|n| !SCALARS.contains(&n.as_str()) && !(implicit && ["Query", "Mutation", "Subscription"].contains(&n.as_str()))).collect();
        let mut tm = BTreeMap::new();
        for n in names {
            if s.chance(2, 3) {
                tm.insert(n, fresh(s, "_"));
            } else {
                let f = format!("{n}__");
                tm.insert(n, f);
            }
        }
        let dn: Vec<String> = d.dirdefs().map(|t| t.name.clone()).collect();
        let mut dm = BTreeMap::new();
        for n in dn {
            let mut f = fresh(s, "0");
            if ["skip", "include", "deprecated", "specifiedBy", "oneOf"].contains(&f.as_str()) {
                f.push('9');
            }
            dm.insert(n, f);
        }
        rename(&mut d, &tm, &dm);
        // fields, arguments and enum values
        for x in &mut d.defs {
            let mut ren = |n: &mut String| {
                if s.chance(1, 4) {
                    *n = g::name(s);
                }
            };
            if let SDef::Type(t) = x {
                match &mut t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => {
                        fields.iter_mut().for_each(|f| ren(&mut f.name));
                    }
                    Kind::Input { fields } => fields.iter_mut().for_each(|f| ren(&mut f.name)),
                    Kind::Enum { values } => values.iter_mut().for_each(|f| {
                        ren(&mut f.name);
                        if ["true", "false", "null"].contains(&f.name.as_str()) {
                            f.name = "nil".into()
                        }
                    }),
                    _ => {}
                }
            }
        }
    }
    // built-in directives may be replaced, in whatever shape
    if s.chance(1, 8) {
        let n = s.pick(&["skip", "include", "deprecated", "specifiedBy", "oneOf"]).to_string();
        let args = if s.bool() { vec![InputVal { desc: None, name: "reason".into(), ty: Ty::named("String"), default: Some(Val::Str("x".into())), dirs: vec![] }] } else { vec![] };
        d.defs.push(SDef::Directive(DirDef { desc: None, name: n, args, repeatable: s.bool(), locs: vec!["FIELD".into(), "OBJECT".into()] }));
    }
    d
}

pub fn fields_unique(d: &SDoc) -> bool {
    let uniq = |l: Vec<&String>| l.iter().collect::<BTreeSet<_>>().len() == l.len();
    d.types().all(|t| match &t.kind {
        Kind::Object { fields, .. } | Kind::Interface { fields, .. } => uniq(fields.iter().map(|f| &f.name).collect()) && !fields.iter().any(|f| ["__typename", "__schema", "__type"].contains(&f.name.as_str())),
        Kind::Input { fields } => uniq(fields.iter().map(|f| &f.name).collect()),
        Kind::Enum { values } => uniq(values.iter().map(|f| &f.name).collect()),
        _ => true,
    })
}

fn check_view(d: &SDoc, m: &Schema, sd: &SchemaDefinition) -> CaseResult {
    let mut v = view(sd)?;
    let repeats = |t: &TypeDef| matches!(&t.kind, Kind::Object { ifaces, .. } if ifaces.iter().collect::<BTreeSet<_>>().len() != ifaces.len());
    if d.types().any(repeats) {
        // implementing an interface twice is not forbidden here; what it means is left open
        v.implementors.values_mut().for_each(|l| l.dedup());
    }
    if let Some(x) = diff(&v, &model_view(m)) {
        return Err(format!("unfaithful schema: {x}"));
    }
    Ok(())
}

fn c03(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let k = s.weighted(&[4, 3, 2, 1, 4, 2]);
    let t = if k >= 4 {
        let d = wild_sdoc(s);
        let mut toks = sdoc_tokens(&d, Some(s));
        if k == 5 {
            g::mutate_tokens(&mut toks, s);
        }
        join_random(&toks, s)
    } else if k == 3 {
        g::soup(s)
    } else {
        let d = g::sdoc(s);
        let mut toks = sdoc_tokens(&d, Some(s));
        if k == 1 {
            g::mutate_tokens(&mut toks, s);
        }
        let t = join_random(&toks, s);
        if k == 2 {
            g::mutate_chars(&t, s)
        } else {
            t
        }
    };
    ctx.tag(["valid", "token-mutant", "char-mutant", "soup", "resolvable", "resolvable-mutant"][k]);
    ctx.show("text", &format!("{t:?}"));
    ctx.nontrivial = t.len() > 5;
    match (parse_def(&t, false), rp::parse_sdoc(&t, false)) {
        (Err(_), Err(_)) => {
            ctx.tag("rejected");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("accepts a text outside the grammar: {e}")),
        (Err(e), Ok(_)) => Err(format!("rejects a text of the grammar: {}", err_text(&t, e))),
        (Ok(d), Ok(r)) => {
            ctx.tag("accepted");
            // built-in definitions are added when the document has none of that name
            let mut want: Vec<DirDef> = r.dirdefs().cloned().collect();
            let user: BTreeSet<String> = want.iter().map(|d| d.name.clone()).collect();
            want.extend(crate::schema::builtin().dirs.iter().filter(|d| !user.contains(&d.name)).cloned());
            let got: Vec<DirDef> = d.directive_definitions().iter().map(dump::dirdef).collect();
            let nu = r.dirdefs().count();
            if got.len() != want.len() || got[..nu] != want[..nu] {
                return Err(format!("directive definitions: got {got:?}, expected {want:?}"));
            }
            if let Ok(m) = Schema::resolve(&r) {
                // repeated member names make lookups by name ambiguous: C09 has those
                if fields_unique(&r) {
                    let sd = SchemaDefinition::try_from(&d).map_err(|e| format!("not resolved: {}", err_text(&t, e.into_iter().map(Into::into).collect())))?;
                    check_view(&r, &m, &sd)?;
                    ctx.tag("contents-compared");
                }
            }
            Ok(())
        }
    }
}

fn c08(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = loop {
        let d = wild_sdoc(s);
        if fields_unique(&d) {
            break d;
        }
    };
    let t = sdoc_text(&d);
    ctx.show("schema", &t);
    ctx.nontrivial = true;
    let dd = parse_def(&t, false).map_err(|e| format!("harness: does not parse: {}", err_text(&t, e)))?;
    let sd = SchemaDefinition::try_from(&dd).map_err(|e| format!("harness: does not resolve: {}", err_text(&t, e.into_iter().map(Into::into).collect())))?;
    let p = SchemaDefinitionPrinter::to_string(&sd);
    ctx.show("printed", &p);
    let dd2 = parse_def(&p, false).map_err(|e| format!("printed schema does not parse: {}", err_text(&p, e)))?;
    let sd2 = SchemaDefinition::try_from(&dd2).map_err(|e| format!("printed schema does not resolve: {}", err_text(&p, e.into_iter().map(Into::into).collect())))?;
    let (a, b) = (view(&sd)?, view(&sd2)?);
    if let Some(x) = diff(&b, &a) {
        return Err(format!("round trip changes the schema: {x}"));
    }
    let p2 = SchemaDefinitionPrinter::to_string(&sd2);
    if p2 != p {
        return Err(format!("printing again gives another text:\n{p2}"));
    }
    ctx.tag_if(d.schema().is_some(), "explicit-schema");
    ctx.tag_if(p.contains("\"\"\""), "descriptions");
    Ok(())
}

fn unshort(mut d: Doc) -> Doc {
    d.ops.iter_mut().for_each(|o| o.short = false);
    d
}

fn c07(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use crate::props::syntax::parse_exec;
    use bluejay_printer::executable::ExecutableDocumentPrinter as P;
    let d = g::doc(s);
    let toks = doc_tokens(&d, Some(s));
    let t = if s.bool() { join_random(&toks, s) } else { join_space(&toks) };
    ctx.show("document", &t);
    ctx.nontrivial = true;
    let e = parse_exec(&t, false).map_err(|e| format!("harness: does not parse: {}", err_text(&t, e)))?;
    let a = dump::doc(&e);
    let p = P::to_string(&e);
    ctx.show("printed", &p);
    let e2 = parse_exec(&p, false).map_err(|e| format!("printed document does not parse: {}", err_text(&p, e)))?;
    let b = dump::doc(&e2);
    if b != unshort(a.clone()) {
        return Err(format!("round trip changes the document:\n{b:?}\nexpected\n{a:?}"));
    }
    let p2 = P::to_string(&e2);
    if p2 != p {
        return Err(format!("printing again gives another text:\n{p2}"));
    }
    ctx.tag_if(!a.frags.is_empty(), "fragments");
    ctx.tag_if(a.frags.iter().any(|f| !f.dirs.is_empty()), "fragment-directives");
    ctx.tag_if(a.ops.iter().any(|o| !o.vars.is_empty()), "variables");
    // values on their own
    use bluejay_parser::ast::{Parse, VariableValue};
    use bluejay_printer::value::ValuePrinter;
    let v = g::val(s, false, 4);
    let vt = val_text(&v);
    ctx.show("value", &vt);
    let pv = VariableValue::parse(vt.as_str()).map_err(|e| format!("harness: value does not parse: {}", err_text(&vt, e)))?;
    let vp = ValuePrinter::to_string(&pv);
    let pv2 = VariableValue::parse(vp.as_str()).map_err(|e| format!("printed value does not parse: {vp}: {}", err_text(&vp, e)))?;
    let got = dump::val::<false, _>(&pv2);
    if got != v {
        return Err(format!("round trip changes the value: printed {vp}, read {got:?}, expected {v:?}"));
    }
    ctx.evals = 2;
    Ok(())
}

/// break (or try to break) the schema at one place
pub fn fault(d: &mut SDoc, s: &mut Src) -> &'static str {
    let n = d.defs.len();
    let types: Vec<String> = d.types().map(|t| t.name.clone()).collect();
    let some_type = |s: &mut Src| -> String {
        match s.below(6) {
            0 => "Missing".into(),
            1 => s.pick(&["Int", "String", "__Type", "__TypeKind", "__Schema"]).to_string(),
            _ if types.is_empty() => "Missing".into(),
            _ => s.pick(&types).clone(),
        }
    };
    let i = s.below(n);
    match s.below(13) {
        0 | 1 => {
            // a type reference, anywhere
            let order: Vec<usize> = (0..n).map(|k| (i + k) % n).collect();
            for k in order {
                let mut c = 0;
                each_ty(&mut d.defs[k], &mut |_| c += 1);
                if c > 0 {
                    let w = s.below(c);
                    let to = some_type(s);
                    let mut j = 0;
                    each_ty(&mut d.defs[k], &mut |t| {
                        if j == w {
                            *base_mut(t) = to.clone()
                        }
                        j += 1;
                    });
                    return "type-reference";
                }
            }
            "none"
        }
        2 | 3 => {
            let mut c = 0;
            each_dirs(&mut d.defs[i], &mut |_| c += 1);
            if c == 0 {
                return "none";
            }
            let w = s.below(c);
            let to = s.pick(&["nope", "skip", "deprecated", "d0"]).to_string();
            let mut j = 0;
            each_dirs(&mut d.defs[i], &mut |l| {
                if j == w {
                    l.push(Dir { name: to.clone(), args: vec![] })
                }
                j += 1;
            });
            "applied-directive"
        }
        4 | 5 => {
            let to = some_type(s);
            let mut l: Vec<&mut TypeDef> = d.types_mut().filter(|t| matches!(t.kind, Kind::Object { .. } | Kind::Interface { .. } | Kind::Union { .. })).collect();
            if l.is_empty() {
                return "none";
            }
            let k = s.below(l.len());
            match &mut l[k].kind {
                Kind::Object { ifaces, .. } | Kind::Interface { ifaces, .. } => {
                    if ifaces.is_empty() || s.bool() {
                        ifaces.push(to)
                    } else {
                        let k = s.below(ifaces.len());
                        ifaces[k] = to
                    }
                    "implements"
                }
                Kind::Union { members } => {
                    members.push(to);
                    "union-member"
                }
                _ => "none",
            }
        }
        6 => {
            // two definitions of one name
            let t = d.defs[i].clone();
            match t {
                SDef::Type(mut t) => {
                    if s.bool() {
                        t = TypeDef { desc: None, name: t.name, dirs: vec![], kind: Kind::Scalar };
                    }
                    d.defs.push(SDef::Type(t));
                    "duplicate-type"
                }
                x => {
                    d.defs.push(x);
                    "duplicate-definition"
                }
            }
        }
        7 => {
            let n = s.pick(&["__Schema", "__Type", "__TypeKind", "__Field", "__InputValue", "__EnumValue", "__Directive", "__DirectiveLocation", "Int", "String", "ID", "__Other"]).to_string();
            let kind = match s.below(3) {
                0 => Kind::Scalar,
                1 => Kind::Enum { values: vec![EnumVal { desc: None, name: "A".into(), dirs: vec![] }] },
                _ => Kind::Object { ifaces: vec![], fields: vec![FieldDef { desc: None, name: "f".into(), args: vec![], ty: Ty::named("Boolean"), dirs: vec![] }] },
            };
            d.defs.push(SDef::Type(TypeDef { desc: None, name: n, dirs: vec![], kind }));
            "builtin-type-name"
        }
        8 => {
            let n = s.pick(&["skip", "include", "deprecated", "specifiedBy", "oneOf"]).to_string();
            let k = s.range(1, 2);
            for _ in 0..k {
                d.defs.push(SDef::Directive(DirDef { desc: None, name: n.clone(), args: vec![], repeatable: false, locs: vec!["FIELD".into()] }));
            }
            "builtin-directive-name"
        }
        9 => {
            // roots
            let to = some_type(s);
            match d.defs.iter_mut().find_map(|d| if let SDef::Schema(s) = d { Some(s) } else { None }) {
                Some(sd) => {
                    match s.below(3) {
                        0 => {
                            let k = s.below(sd.ops.len());
                            sd.ops[k].1 = to
                        }
                        1 => {
                            let k = *s.pick(&OpKind::ALL);
                            sd.ops.push((k, to))
                        }
                        _ => {
                            let k = s.below(sd.ops.len());
                            sd.ops.remove(k);
                            if sd.ops.is_empty() {
                                sd.ops.push((OpKind::Mutation, to))
                            }
                        }
                    }
                    "explicit-root"
                }
                None => {
                    if s.bool() {
                        let k = *s.pick(&OpKind::ALL);
                        d.defs.push(SDef::Schema(SchemaDef { desc: None, dirs: vec![], ops: vec![(k, to)] }));
                        "added-schema-definition"
                    } else {
                        let n = s.pick(&OpKind::ALL).default_name();
                        d.defs.retain(|d| !matches!(d, SDef::Type(t) if t.name == n));
                        let kind = match s.below(4) {
                            0 => Kind::Scalar,
                            1 => Kind::Enum { values: vec![EnumVal { desc: None, name: "A".into(), dirs: vec![] }] },
                            2 => Kind::Interface { ifaces: vec![], fields: vec![FieldDef { desc: None, name: "f".into(), args: vec![], ty: Ty::named("Boolean"), dirs: vec![] }] },
                            _ => return "removed-implicit-root",
                        };
                        d.defs.push(SDef::Type(TypeDef { desc: None, name: n.into(), dirs: vec![], kind }));
                        "implicit-root-kind"
                    }
                }
            }
        }
        10 => {
            d.defs.remove(i);
            if d.defs.is_empty() {
                d.defs.push(SDef::Type(TypeDef { desc: None, name: "X".into(), dirs: vec![], kind: Kind::Scalar }));
            }
            "removed-definition"
        }
        11 => {
            d.defs.retain(|d| !matches!(d, SDef::Schema(_)));
            if d.defs.is_empty() {
                d.defs.push(SDef::Type(TypeDef { desc: None, name: "X".into(), dirs: vec![], kind: Kind::Scalar }));
            }
            "removed-schema-definition"
        }
        _ => {
            // change a type's kind under its users
            let mut l: Vec<&mut TypeDef> = d.types_mut().collect();
            if l.is_empty() {
                return "none";
            }
            let k = s.below(l.len());
            l[k].kind = match s.below(4) {
                0 => Kind::Scalar,
                1 => Kind::Input { fields: vec![InputVal { desc: None, name: "f".into(), ty: Ty::named("Boolean"), default: None, dirs: vec![] }] },
                2 => Kind::Object { ifaces: vec![], fields: vec![FieldDef { desc: None, name: "f".into(), args: vec![], ty: Ty::named("Boolean"), dirs: vec![] }] },
                _ => Kind::Interface { ifaces: vec![], fields: vec![FieldDef { desc: None, name: "f".into(), args: vec![], ty: Ty::named("Boolean"), dirs: vec![] }] },
            };
            "kind-changed"
        }
    }
}

fn c09(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut d = if s.bool() {
        let mut d = wild_sdoc(s);
        if !fields_unique(&d) {
            d = gen_schema::schema(s, SOpts { applied: true, ..Default::default() });
        }
        d
    } else {
        let o = SOpts { applied: true, descs: s.bool(), small: s.bool(), deprecated: s.bool(), ..Default::default() };
        gen_schema::schema(s, o)
    };
    let nf = s.weighted(&[2, 4, 2]);
    for _ in 0..nf {
        ctx.tag(fault(&mut d, s));
    }
    let t = sdoc_text(&d);
    ctx.show("schema", &t);
    ctx.nontrivial = true;
    let dd = parse_def(&t, false).map_err(|e| format!("harness: does not parse: {}", err_text(&t, e)))?;
    match (SchemaDefinition::try_from(&dd), Schema::resolve(&d)) {
        (Ok(sd), Ok(m)) => {
            ctx.tag("resolved");
            if d.defs.len() != dd.definition_count() {
                let all = d.defs.len() + (m.types.len() - m.user_types.len()) + (m.dirs.len() - m.user_dirs.len());
                if all != dd.definition_count() {
                    return Err(format!("definition count: {} for {} definitions", dd.definition_count(), d.defs.len()));
                }
            }
            check_view(&d, &m, &sd)
        }
        (Err(e), Err(_)) => {
            ctx.tag("refused");
            drop(e);
            check_resolution_errors(ctx, &t, &dd, false)
        }
        (Ok(_), Err(e)) => Err(format!("resolves an unsound schema: {e}")),
        (Err(e), Ok(_)) => Err(format!("refuses a sound schema: {}", err_text(&t, e.into_iter().map(Into::into).collect()))),
    }
}

/// (kind, name) -> number of places, and how many types require themselves
pub fn definition_errors(m: &Schema) -> (BTreeMap<(String, String), usize>, usize) {
    // (kind, name, number of places)
    let mut want: BTreeMap<(String, String), usize> = BTreeMap::new();
    let dups = |l: Vec<&String>| -> Vec<(String, usize)> {
        let mut c: BTreeMap<&String, usize> = BTreeMap::new();
        for n in l {
            *c.entry(n).or_default() += 1;
        }
        c.into_iter().filter(|x| x.1 > 1).map(|x| (x.0.clone(), x.1)).collect()
    };
    let mut cyc = 0usize;
    for ty in m.types.values() {
        match &ty.kind {
            Kind::Enum { values } => {
                for (n, c) in dups(values.iter().map(|v| &v.name).collect()) {
                    *want.entry(("enum value".into(), n)).or_default() += c;
                }
            }
            Kind::Input { fields } => {
                for (n, c) in dups(fields.iter().map(|v| &v.name).collect()) {
                    *want.entry(("input field".into(), n)).or_default() += c;
                }
                // does it require itself
                let mut seen = BTreeSet::new();
                let mut todo = vec![ty.name.clone()];
                let mut refs = 0;
                while let Some(x) = todo.pop() {
                    if !seen.insert(x.clone()) {
                        continue;
                    }
                    if let Some(Kind::Input { fields }) = m.kind(&x) {
                        for f in fields {
                            if let Ty::Named(b, true) = &f.ty {
                                if *b == ty.name {
                                    refs += 1;
                                } else {
                                    todo.push(b.clone());
                                }
                            }
                        }
                    }
                }
                if refs > 0 {
                    cyc += 1;
                    want.insert(("cycle".into(), ty.name.clone()), refs);
                }
            }
            _ => {}
        }
    }
    (want, cyc)
}

/// a schema whose input objects refer to one another at will and repeat names
pub fn input_graph(s: &mut Src) -> SDoc {
    // a small or ordinary schema, plus input objects whose reference graph is arbitrary
    let o = SOpts { small: true, deprecated: s.bool(), applied: s.bool(), ..Default::default() };
    let mut d = gen_schema::schema(s, o);
    let n = s.range(1, 6);
    let mut names: Vec<String> = (0..n).map(|i| gen_schema::kinded(s, 'g', i)).collect();
    if s.chance(1, 3) {
        // names that relate to one another
        names = names.iter().enumerate().map(|(i, _)| "I".repeat(i + 1)).collect();
    }
    let density = s.range(1, 3);
    let dup = s.chance(1, 2);
    for i in 0..n {
        let k = s.range(1, 4);
        let mut fields = vec![];
        for j in 0..k {
            let b = if s.chance(density, 4) { s.pick(&names).clone() } else { "Int".to_string() };
            let mut ty = Ty::Named(b, s.chance(3, 4));
            while s.chance(1, 5) {
                ty = Ty::List(Box::new(ty), s.chance(3, 4));
            }
            let name = if dup && s.chance(1, 5) { "f0".to_string() } else { format!("f{j}") };
            let default = if s.chance(1, 6) { Some(Val::Obj(vec![])) } else { None };
            fields.push(InputVal { desc: None, name, ty, default, dirs: vec![] });
        }
        d.defs.push(SDef::Type(TypeDef { desc: None, name: names[i].clone(), dirs: vec![], kind: Kind::Input { fields } }));
    }
    if s.chance(1, 2) {
        let k = s.range(1, 5);
        let values = (0..k).map(|_| EnumVal { desc: None, name: s.pick(&["A", "B", "C", "a", "AA", "A1"]).to_string(), dirs: vec![] }).collect();
        d.defs.push(SDef::Type(TypeDef { desc: None, name: "Ez".into(), dirs: vec![], kind: Kind::Enum { values } }));
    }
    if s.bool() {
        s.shuffle(&mut d.defs);
    }
    d
}

/// a rule of the user's: what it is shown
struct Shown<S>(Vec<String>, PhantomData<S>);

impl<'a, S: CoreSchema> bluejay_validator::definition::Visitor<'a, S> for Shown<S> {
    fn visit_input_object_type_definition(&mut self, t: &'a S::InputObjectTypeDefinition) {
        self.0.push(format!("input {}", t.name()))
    }
    fn visit_enum_type_definition(&mut self, t: &'a S::EnumTypeDefinition) {
        self.0.push(format!("enum {}", t.name()))
    }
}

impl<S> IntoIterator for Shown<S> {
    type Item = String;
    type IntoIter = std::vec::IntoIter<String>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

impl<'a, S: CoreSchema> bluejay_validator::definition::Rule<'a, S> for Shown<S> {
    type Error = String;
    fn new(s: &'a S) -> Self {
        // the schema it is made for
        Shown(vec![format!("query {}", s.query().name())], PhantomData)
    }
}

fn c10(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = input_graph(s);
    let t = sdoc_text(&d);
    ctx.show("schema", &t);
    let m = Schema::resolve(&d).map_err(|e| format!("harness: {e}"))?;
    let dd = parse_def(&t, false).map_err(|e| format!("harness: does not parse: {}", err_text(&t, e)))?;
    let sd = SchemaDefinition::try_from(&dd).map_err(|e| format!("harness: does not resolve: {}", err_text(&t, e.into_iter().map(Into::into).collect())))?;
    let (want, cyc) = definition_errors(&m);
    use bluejay_validator::definition::{BuiltinRulesValidator, Error as E};
    let mut got: BTreeMap<(String, String), usize> = BTreeMap::new();
    for e in BuiltinRulesValidator::validate(&sd) {
        match e {
            E::NonUniqueInputValueDefinitionNames { name, input_value_definitions } => *got.entry(("input field".into(), name.to_string())).or_default() += input_value_definitions.len(),
            E::NonUniqueEnumValueDefinitionNames { name, enum_value_definitions } => *got.entry(("enum value".into(), name.to_string())).or_default() += enum_value_definitions.len(),
            E::InputObjectTypeDefinitionCircularReferences { input_object_type_definition: i, circular_references } => {
                if got.insert(("cycle".into(), i.name().to_string()), circular_references.len()).is_some() {
                    return Err(format!("cycle reported twice for {}", i.name()));
                }
            }
        }
    }
    ctx.nontrivial = true;
    ctx.tag(if want.is_empty() { "valid" } else { "invalid" });
    ctx.tag_if(cyc > 0, "cycle");
    ctx.tag_if(cyc > 1, "several-types-in-cycles");
    if got != want {
        return Err(format!("schema errors: got {got:?}, expected {want:?}"));
    }
    let mut shown: Vec<String> = bluejay_validator::definition::Validator::<_, Shown<SchemaDefinition>>::validate(&sd).collect();
    let mut all: Vec<String> = m
        .types
        .iter()
        .filter_map(|(n, t)| match t.kind {
            Kind::Enum { .. } => Some(format!("enum {n}")),
            Kind::Input { .. } => Some(format!("input {n}")),
            _ => None,
        })
        .collect();
    all.push(format!("query {}", m.roots[&OpKind::Query]));
    shown.sort();
    all.sort();
    if shown != all {
        return Err(format!("a rule is shown {shown:?}, expected {all:?}"));
    }
    let errs = || -> Vec<Error> { BuiltinRulesValidator::validate(&sd).map(Into::into).collect() };
    if !want.is_empty() {
        check_errors("schema validation", &t, errs(), errs(), false)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            quick: 400_000,
            thorough: 2_500_000,
            rule: "the text is longer than five bytes",
            case: c03,
            assumptions: &["the reference grammar in harness/src/refparse.rs is the type-system grammar of the GraphQL specification restricted as bluejay documents (no extensions)"],
        },
        Prop { id: "C07", quick: 300_000, thorough: 1_500_000, rule: "every case is a document of the grammar with at least one definition, and a value", case: c07, assumptions: &["the `{ .. }` shorthand and `query { .. }` are the same operation"] },
        Prop { id: "C08", quick: 150_000, thorough: 800_000, rule: "every case is a resolvable schema with roots, types and arbitrary descriptions, defaults and directives", case: c08, assumptions: &["schemas whose types repeat a member name are left to C10"] },
        Prop { id: "C09", quick: 250_000, thorough: 1_200_000, rule: "every case is a schema document of at least two definitions, most with an injected fault", case: c09, assumptions: &["the reference resolver in harness/src/schema.rs"] },
        Prop { id: "C10", quick: 400_000, thorough: 1_500_000, rule: "every case has at least one input object with an arbitrary reference graph", case: c10, assumptions: &[] },
    ]
}

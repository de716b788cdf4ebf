//! Reference validator of executable documents, written from the "Validation" chapter of the
//! specification. Issues are reported per property group. Where one fault leaves the meaning of
//! another part open (below an unknown field, duplicated fragment names ..), the document is
//! judged under every reading: what all readings report must be reported, what some report may be.
use crate::ast::*;
use crate::coerce::{coerce, From};
use crate::schema::Schema;
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub type Key = (&'static str, String);
pub type Keys = BTreeSet<Key>;

#[derive(Default, Debug)]
pub struct Report {
    pub must: Keys,
    pub may: Keys,
}

impl Report {
    pub fn valid(&self) -> bool {
        self.may.is_empty()
    }
}

#[derive(Clone, Copy)]
struct Mode {
    /// descend where the type is unknown
    deep: bool,
    /// which of several definitions of a name counts
    last_frag: bool,
    last_var: bool,
}

/// the key of a fault at a node: the text, and after a NUL the node's tag and address
pub fn at<T: ?Sized>(k: String, tag: char, node: &T) -> String {
    format!("{k}\0{tag}{:x}", node as *const T as *const u8 as usize)
}

pub fn plain(k: &str) -> &str {
    k.split('\0').next().unwrap()
}

fn strip(k: Keys) -> Keys {
    k.into_iter().map(|(g, k)| (g, plain(&k).to_string())).collect()
}

pub fn validate(sch: &Schema, doc: &Doc) -> Report {
    validate_in(sch, doc, false)
}

/// every fault with the node it is at
pub fn validate_located(sch: &Schema, doc: &Doc) -> Report {
    validate_in(sch, doc, true)
}

fn validate_in(sch: &Schema, doc: &Doc, located: bool) -> Report {
    let dup_f = {
        let mut s = HashSet::new();
        doc.frags.iter().any(|f| !s.insert(&f.name))
    };
    let dup_v = doc.ops.iter().any(|o| {
        let mut s = HashSet::new();
        o.vars.iter().any(|v| !s.insert(&v.name))
    });
    let mut r: Option<Report> = None;
    for deep in [false, true] {
        for last_frag in if dup_f { vec![false, true] } else { vec![false] } {
            for last_var in if dup_v { vec![false, true] } else { vec![false] } {
                let (mut must, mut may) = run(sch, doc, Mode { deep, last_frag, last_var });
                if !located {
                    must = strip(must);
                    may = strip(may);
                }
                match &mut r {
                    None => r = Some(Report { must, may }),
                    Some(r) => {
                        r.must = r.must.intersection(&must).cloned().collect();
                        r.may.extend(may);
                    }
                }
            }
        }
    }
    let mut r = r.unwrap();
    r.may.extend(r.must.iter().cloned());
    r
}

struct Usage<'a> {
    var: &'a Val,
    /// declared type and whether a default exists there; None where no type applies
    loc: Option<(Ty, bool)>,
}

#[derive(Default)]
struct Part<'a> {
    usages: Vec<Usage<'a>>,
    spreads: Vec<String>,
}

struct V<'a> {
    sch: &'a Schema,
    doc: &'a Doc,
    mode: Mode,
    must: Keys,
    may: Keys,
}

fn run(sch: &Schema, doc: &Doc, mode: Mode) -> (Keys, Keys) {
    let mut v = V { sch, doc, mode, must: Keys::new(), may: Keys::new() };
    v.document();
    let masked = v.must.iter().any(|(g, k)| *g == "C11" || (*g == "C14" && !k.starts_with("unused")) || (*g == "C17" && k.starts_with("root"))) || v.may.iter().any(|k| k.0 == "C14");
    let mut m = Merge { v: &v, seen_same: HashSet::new(), seen_shape: HashSet::new(), out: Keys::new() };
    m.document();
    let mut out = m.out;
    if out.iter().any(|k| !k.1.starts_with("loose ")) && !masked {
        v.must.insert(("C16", "conflict".into()));
    }
    out = out.into_iter().map(|(g, k)| (g, k.trim_start_matches("loose ").to_string())).collect();
    if !out.is_empty() || masked {
        v.may.insert(("C16", "conflict".into()));
    }
    v.may.extend(out);
    v.subscriptions(masked);
    let V { must, mut may, .. } = v;
    may.extend(must.iter().cloned());
    (must, may)
}

/// is a name given twice, in the arguments or in an object inside them?
fn repeats(a: &Args) -> bool {
    fn val(v: &Val) -> bool {
        match v {
            Val::List(l) => l.iter().any(val),
            Val::Obj(o) => repeats(o),
            _ => false,
        }
    }
    let mut s = HashSet::new();
    a.iter().any(|(n, v)| !s.insert(n) || val(v))
}

impl<'a> V<'a> {
    fn must(&mut self, g: &'static str, k: String) {
        self.must.insert((g, k));
    }

    fn frag(&self, n: &str) -> Option<&'a Frag> {
        if self.mode.last_frag {
            self.doc.frags.iter().rev().find(|f| f.name == n)
        } else {
            self.doc.frags.iter().find(|f| f.name == n)
        }
    }

    fn document(&mut self) {
        let (doc, sch) = (self.doc, self.sch);
        // operations
        let mut names: BTreeMap<&str, usize> = BTreeMap::new();
        for o in &doc.ops {
            if let Some(n) = &o.name {
                *names.entry(n).or_default() += 1;
            }
        }
        for o in &doc.ops {
            match &o.name {
                Some(n) if names[n.as_str()] > 1 => self.must("C17", at(format!("dup-op {n}"), 'O', o)),
                None if doc.ops.len() > 1 => self.must("C17", at("anon".into(), 'O', o)),
                _ => {}
            }
        }
        let mut op_parts = vec![];
        for o in &doc.ops {
            if !sch.roots.contains_key(&o.kind) {
                self.must("C17", at(format!("root {} {}", o.kind.kw(), o.name.clone().unwrap_or_default()), 'O', o));
            }
            let mut p = Part::default();
            self.dirs(&o.dirs, o.kind.loc(), &mut p);
            let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
            for v in &o.vars {
                *seen.entry(&v.name).or_default() += 1;
                let mut none = Part::default();
                self.dirs(&v.dirs, "VARIABLE_DEFINITION", &mut none);
                if !sch.is_input(v.ty.base()) {
                    self.must("C15", at(format!("not-input {}", v.name), 'P', v));
                } else if let Some(d) = &v.default {
                    self.value(&v.ty, d, 'P', v);
                }
            }
            for v in &o.vars {
                if seen[v.name.as_str()] > 1 {
                    self.must("C15", at(format!("dup-var {}", v.name), 'P', v));
                }
            }
            let root = sch.roots.get(&o.kind).map(|s| s.as_str());
            self.sels(&o.sel, root, &mut p);
            op_parts.push(p);
        }
        // fragments
        let mut frag_parts: BTreeMap<&str, Part> = BTreeMap::new();
        let mut counts: BTreeMap<&str, usize> = BTreeMap::new();
        for f in &doc.frags {
            *counts.entry(&f.name).or_default() += 1;
            let mut p = Part::default();
            let scope = sch.types.contains_key(&f.on).then_some(f.on.as_str());
            match scope {
                None => self.must("C14", at(format!("frag-type {}", f.name), 'G', f)),
                Some(t) if !sch.is_composite(t) => self.must("C14", at(format!("frag-not-composite {}", f.name), 'G', f)),
                _ => {}
            }
            self.sels(&f.sel, scope, &mut p);
            self.dirs(&f.dirs, "FRAGMENT_DEFINITION", &mut p);
            if self.mode.last_frag || !frag_parts.contains_key(f.name.as_str()) {
                // definitions of one name are merged below, when there are several
                frag_parts.insert(&f.name, p);
            } else {
                let _ = p;
            }
        }
        for f in &doc.frags {
            if counts[f.name.as_str()] > 1 {
                self.must("C14", at(format!("dup-frag {}", f.name), 'G', f));
            }
        }
        // use of fragments: any spread in the document, whichever definition it stands in
        let mut targets: HashSet<String> = HashSet::new();
        let mut collect = Part::default();
        {
            let mut quiet = V { sch, doc, mode: self.mode, must: Keys::new(), may: Keys::new() };
            for o in &doc.ops {
                quiet.sels(&o.sel, sch.roots.get(&o.kind).map(|s| s.as_str()), &mut collect);
            }
            for f in &doc.frags {
                quiet.sels(&f.sel, sch.types.contains_key(&f.on).then_some(f.on.as_str()), &mut collect);
            }
        }
        targets.extend(collect.spreads);
        for n in counts.keys() {
            let Some(f) = self.frag(n) else { continue };
            if !targets.contains(&f.name) {
                self.must("C14", at(format!("unused {}", f.name), 'G', f));
            }
        }
        // cycles are syntactic: every spread counts
        let mut graph: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
        for f in &doc.frags {
            if self.frag(&f.name).is_some_and(|g| std::ptr::eq(g, f)) {
                let mut s = BTreeSet::new();
                all_spreads(&f.sel, &mut s);
                graph.insert(&f.name, s);
            }
        }
        let reach = |f: &str| {
            let mut todo: Vec<&str> = graph.get(f).into_iter().flatten().map(|s| s.as_str()).collect();
            let mut seen: HashSet<&str> = HashSet::new();
            while let Some(x) = todo.pop() {
                if seen.insert(x) {
                    if let Some(l) = graph.get(x) {
                        todo.extend(l.iter().map(|s| s.as_str()));
                    }
                }
            }
            seen
        };
        for f in graph.keys() {
            let seen = reach(f);
            if seen.contains(f) {
                // the spreads that lie on a cycle through it
                for g in seen.iter().filter(|g| reach(g).contains(f)) {
                    let Some(g) = self.frag(g) else { continue };
                    let mut l = vec![];
                    spread_nodes(&g.sel, &mut l);
                    for (n, s) in l {
                        if n == *f || reach(n).contains(f) {
                            self.may.insert(("C14", at(format!("cycle {f}"), 'S', s)));
                        }
                    }
                }
                self.must("C14", "cycle".into());
            }
        }
        // variables
        for (o, p) in doc.ops.iter().zip(&op_parts) {
            let mut used: HashSet<&str> = HashSet::new();
            let mut parts = vec![p];
            let mut seen: HashSet<&str> = HashSet::new();
            let mut i = 0;
            while i < parts.len() {
                for s in &parts[i].spreads {
                    if seen.insert(s) {
                        if let Some(q) = frag_parts.get(s.as_str()) {
                            parts.push(q);
                        }
                    }
                }
                i += 1;
            }
            let op = o.name.clone().unwrap_or_default();
            let mut out = vec![];
            for part in parts {
                for u in &part.usages {
                    let Val::Var(name) = u.var else { unreachable!() };
                    used.insert(name);
                    let mut it = o.vars.iter().filter(|d| d.name == *name);
                    let d = if self.mode.last_var { it.last() } else { it.next() };
                    match d {
                        None => out.push(("C15", at(format!("undefined {name} {op}"), 'V', u.var))),
                        Some(d) => {
                            if let Some((ty, has_default)) = &u.loc {
                                if sch.is_input(d.ty.base()) && !usage_allowed(d, ty, *has_default) {
                                    out.push(("C15", at(format!("usage {name} {} {}", d.ty.show(), ty.show()), 'V', u.var)));
                                }
                            }
                        }
                    }
                }
            }
            for d in &o.vars {
                if !used.contains(d.name.as_str()) {
                    out.push(("C15", at(format!("unused {}", d.name), 'P', d)));
                }
            }
            self.must.extend(out);
        }
    }

    fn value<T>(&mut self, ty: &Ty, v: &Val, tag: char, owner: &T) {
        for (path, kind, detail) in coerce(self.sch, ty, v, From::Literal) {
            self.must("C12", at(format!("value {kind} {path} {detail}"), tag, owner));
        }
    }

    /// `defs`: None when the owner is unknown
    fn args(&mut self, owner: &str, at_owner: String, args: &'a Args, defs: Option<&[InputVal]>, p: &mut Part<'a>) {
        let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
        for a in args {
            let (n, v) = a;
            *seen.entry(n).or_default() += 1;
            let d = defs.and_then(|d| d.iter().find(|x| x.name == *n));
            match d {
                Some(d) => {
                    self.value(&d.ty, v, 'A', a);
                    self.usages(v, Some((&d.ty, d.default.is_some())), p);
                }
                None => {
                    if defs.is_some() {
                        self.must("C12", at(format!("unknown-arg {owner} {n}"), 'A', a));
                    }
                    if self.mode.deep {
                        self.usages(v, None, p);
                    }
                }
            }
        }
        for a in args {
            if seen[a.0.as_str()] > 1 && (defs.is_some() || self.mode.deep) {
                self.must("C12", at(format!("dup-arg {}", a.0), 'A', a));
            }
        }
        if let Some(defs) = defs {
            let missing: Vec<&str> = defs.iter().filter(|d| d.required() && !seen.contains_key(d.name.as_str())).map(|d| d.name.as_str()).collect();
            if !missing.is_empty() {
                self.must("C12", format!("missing-arg {owner} {}{at_owner}", missing.join(",")));
            }
        }
    }

    fn usages(&mut self, v: &'a Val, loc: Option<(&Ty, bool)>, p: &mut Part<'a>) {
        match v {
            Val::Var(_) => p.usages.push(Usage { var: v, loc: loc.map(|(t, d)| (t.clone(), d)) }),
            Val::List(l) => {
                for x in l {
                    let inner = match loc {
                        Some((Ty::List(i, _), _)) => Some((&**i, false)),
                        _ => None,
                    };
                    self.usages(x, inner, p);
                }
            }
            Val::Obj(o) => {
                for (k, x) in o {
                    let field = loc.and_then(|(t, _)| match self.sch.kind(t.base()) {
                        Some(Kind::Input { fields }) => fields.iter().find(|f| f.name == *k),
                        _ => None,
                    });
                    let field: Option<(Ty, bool)> = field.map(|f| (f.ty.clone(), f.default.is_some()));
                    self.usages(x, field.as_ref().map(|(t, d)| (t, *d)), p);
                }
            }
            _ => {}
        }
    }

    fn dirs(&mut self, ds: &'a [Dir], loc: &'static str, p: &mut Part<'a>) {
        let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
        for d in ds {
            match self.sch.dirs.get(&d.name) {
                None => {
                    self.must("C13", at(format!("undefined {}", d.name), 'D', d));
                    self.args(&format!("@{}", d.name), at(String::new(), 'D', d), &d.args, None, p);
                }
                Some(def) => {
                    *seen.entry(&d.name).or_default() += 1;
                    if !def.locs.iter().any(|l| l == loc) {
                        self.must("C13", at(format!("location {} {loc}", d.name), 'D', d));
                    }
                    self.args(&format!("@{}", d.name), at(String::new(), 'D', d), &d.args, Some(&def.args), p);
                }
            }
        }
        for d in ds {
            if seen.get(d.name.as_str()).is_some_and(|c| *c > 1) && !self.sch.dirs[&d.name].repeatable {
                self.must("C13", at(format!("repeated {}", d.name), 'D', d));
            }
        }
    }

    fn sels(&mut self, l: &'a [Sel], scope: Option<&str>, p: &mut Part<'a>) {
        if scope.is_none() && !self.mode.deep {
            return;
        }
        let composite = scope.is_some_and(|s| self.sch.is_composite(s));
        for sel in l {
            match sel {
                Sel::Field(f) => {
                    let def = scope.and_then(|t| self.sch.field(t, &f.name)).cloned();
                    match def {
                        None => {
                            if let Some(t) = scope {
                                if composite || !self.mode.deep {
                                    self.must("C11", at(format!("field {} {t}", f.name), 'F', f));
                                }
                            }
                            if self.mode.deep {
                                self.dirs(&f.dirs, "FIELD", p);
                                self.args(&f.name, at(String::new(), 'F', f), &f.args, None, p);
                                if let Some(l) = &f.sel {
                                    self.sels(l, None, p);
                                }
                            }
                        }
                        Some(d) => {
                            self.dirs(&f.dirs, "FIELD", p);
                            self.args(&f.name, at(String::new(), 'F', f), &f.args, Some(&d.args), p);
                            let comp = self.sch.is_composite(d.ty.base());
                            match &f.sel {
                                Some(l) => {
                                    if !comp {
                                        self.must("C11", at(format!("leaf {}", d.ty.show()), 'F', f));
                                    }
                                    self.sels(l, Some(d.ty.base()), p);
                                }
                                None => {
                                    if comp {
                                        self.must("C11", at(format!("nonleaf {} {}", f.name, d.ty.show()), 'F', f));
                                    }
                                }
                            }
                        }
                    }
                }
                Sel::Spread(n, ds) => {
                    self.dirs(ds, "FRAGMENT_SPREAD", p);
                    p.spreads.push(n.clone());
                    match self.frag(n) {
                        None => self.must("C14", at(format!("undefined-spread {n}"), 'S', sel)),
                        Some(f) => {
                            if let Some(s) = scope {
                                if composite && self.sch.is_composite(&f.on) && !self.sch.overlap(s, &f.on) {
                                    self.must("C14", at(format!("spread-impossible {n} {s}"), 'S', sel));
                                }
                            }
                        }
                    }
                }
                Sel::Inline(c, ds, l) => {
                    self.dirs(ds, "INLINE_FRAGMENT", p);
                    let inner = match c {
                        None => scope,
                        Some(t) => {
                            if !self.sch.types.contains_key(t) {
                                self.must("C14", at(format!("inline-type {t}"), 'S', sel));
                                None
                            } else {
                                if !self.sch.is_composite(t) {
                                    self.must("C14", at(format!("inline-not-composite {t}"), 'S', sel));
                                } else if let Some(s) = scope {
                                    if composite && !self.sch.overlap(s, t) {
                                        self.must("C14", at(format!("inline-impossible {t} {s}"), 'S', sel));
                                    }
                                }
                                Some(t.as_str())
                            }
                        }
                    };
                    self.sels(l, inner, p);
                }
            }
        }
    }

    fn subscriptions(&mut self, masked: bool) {
        let doc = self.doc;
        for o in doc.ops.iter().filter(|o| o.kind == OpKind::Subscription) {
            let mut keys: BTreeSet<&str> = BTreeSet::new();
            let mut names: BTreeSet<&str> = BTreeSet::new();
            let mut seen: HashSet<&str> = HashSet::new();
            self.collect(&o.sel, &mut keys, &mut names, &mut seen);
            let k = ("C17", at(format!("subscription {}", o.name.clone().unwrap_or_default()), 'O', o));
            if keys.len() != 1 && !masked {
                self.must.insert(k.clone());
            }
            // an introspection field as the only one is excluded by the specification, not by the property
            if keys.len() != 1 || masked || names.iter().any(|n| n.starts_with("__")) {
                self.may.insert(k);
            }
        }
    }

    fn collect(&self, l: &'a [Sel], keys: &mut BTreeSet<&'a str>, names: &mut BTreeSet<&'a str>, seen: &mut HashSet<&'a str>) {
        for s in l {
            match s {
                Sel::Field(f) => {
                    keys.insert(f.key());
                    names.insert(&f.name);
                }
                Sel::Spread(n, _) => {
                    if seen.insert(n) {
                        if let Some(f) = self.frag(n) {
                            self.collect(&f.sel, keys, names, seen);
                        }
                    }
                }
                Sel::Inline(_, _, l) => self.collect(l, keys, names, seen),
            }
        }
    }
}

pub fn all_spreads(l: &[Sel], out: &mut BTreeSet<String>) {
    for s in l {
        match s {
            Sel::Field(f) => {
                if let Some(l) = &f.sel {
                    all_spreads(l, out)
                }
            }
            Sel::Spread(n, _) => {
                out.insert(n.clone());
            }
            Sel::Inline(_, _, l) => all_spreads(l, out),
        }
    }
}

fn spread_nodes<'a>(l: &'a [Sel], out: &mut Vec<(&'a str, &'a Sel)>) {
    for s in l {
        match s {
            Sel::Field(f) => {
                if let Some(l) = &f.sel {
                    spread_nodes(l, out)
                }
            }
            Sel::Spread(n, _) => out.push((n, s)),
            Sel::Inline(_, _, l) => spread_nodes(l, out),
        }
    }
}

pub fn compatible(var: &Ty, loc: &Ty) -> bool {
    if loc.is_req() && !var.is_req() {
        return false;
    }
    match (var, loc) {
        (Ty::List(a, _), Ty::List(b, _)) => compatible(a, b),
        (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
        _ => false,
    }
}

pub fn usage_allowed(d: &VarDef, loc: &Ty, loc_default: bool) -> bool {
    if loc.is_req() && !d.ty.is_req() {
        let var_default = matches!(&d.default, Some(v) if *v != Val::Null);
        return (var_default || loc_default) && compatible(&d.ty, &loc.clone().opt());
    }
    compatible(&d.ty, loc)
}

#[derive(Clone)]
struct FC<'a> {
    f: &'a Field,
    parent: &'a str,
    ty: &'a Ty,
}

struct Merge<'a, 'b> {
    v: &'b V<'a>,
    seen_same: HashSet<(usize, usize, bool)>,
    seen_shape: HashSet<(usize, usize)>,
    out: Keys,
}

fn loosely_equal(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Float(a), Val::Float(b)) => a == b,
        (Val::List(a), Val::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| loosely_equal(a, b)),
        (Val::Obj(a), Val::Obj(b)) => args_equal(a, b, loosely_equal),
        _ => a == b,
    }
}

fn args_equal(a: &Args, b: &Args, eq: fn(&Val, &Val) -> bool) -> bool {
    a.len() == b.len() && a.iter().all(|(n, v)| b.iter().any(|(m, w)| m == n && eq(v, w)))
}

impl<'a> Merge<'a, '_> {
    fn document(&mut self) {
        let doc = self.v.doc;
        for o in &doc.ops {
            if let Some(r) = self.v.sch.roots.get(&o.kind) {
                self.set(&o.sel, r);
            }
        }
        for f in &doc.frags {
            if self.v.sch.types.contains_key(&f.on) {
                self.set(&f.sel, &f.on);
            }
        }
    }

    /// checks this selection set and all below it
    fn set(&mut self, l: &'a [Sel], scope: &'a str) {
        let mut fields = vec![];
        self.collect(l, scope, &mut fields, &mut HashSet::new());
        self.pairs(&fields, true);
        for s in l {
            match s {
                Sel::Field(f) => {
                    if let (Some(d), Some(l)) = (self.v.sch.field(scope, &f.name), &f.sel) {
                        self.set(l, d.ty.base());
                    }
                }
                Sel::Inline(c, _, l) => {
                    let t = c.as_deref().unwrap_or(scope);
                    if self.v.sch.types.contains_key(t) {
                        self.set(l, t);
                    }
                }
                _ => {}
            }
        }
    }

    fn collect(&self, l: &'a [Sel], scope: &'a str, out: &mut Vec<FC<'a>>, seen: &mut HashSet<&'a str>) {
        for s in l {
            match s {
                Sel::Field(f) => {
                    if let Some(d) = self.v.sch.field(scope, &f.name) {
                        out.push(FC { f, parent: scope, ty: &d.ty });
                    }
                }
                Sel::Spread(n, _) => {
                    if seen.insert(n) {
                        if let Some(f) = self.v.frag(n) {
                            if self.v.sch.types.contains_key(&f.on) {
                                self.collect(&f.sel, &f.on, out, seen);
                            }
                        }
                    }
                }
                Sel::Inline(c, _, l) => {
                    let t = c.as_deref().unwrap_or(scope);
                    if self.v.sch.types.contains_key(t) {
                        self.collect(l, t, out, seen);
                    }
                }
            }
        }
    }

    /// FieldsInSetCanMerge (`same`) or the shape part of it only
    fn pairs(&mut self, fields: &[FC<'a>], same: bool) {
        for i in 0..fields.len() {
            for j in i + 1..fields.len() {
                if fields[i].f.key() == fields[j].f.key() && !std::ptr::eq(fields[i].f, fields[j].f) {
                    self.shape(&fields[i], &fields[j]);
                    if same {
                        self.same(&fields[i], &fields[j]);
                    }
                } else if std::ptr::eq(fields[i].f, fields[j].f) {
                    // one field reached twice: nothing can differ
                }
            }
        }
    }

    fn names(a: &FC, b: &FC) -> String {
        let mut n = [a.f.name.as_str(), b.f.name.as_str()];
        n.sort();
        at(at(format!("{} {} {}", a.f.key(), n[0], n[1]), 'F', a.f), 'F', b.f)
    }

    fn merged(&self, a: &FC<'a>, b: &FC<'a>) -> Vec<FC<'a>> {
        let mut out = vec![];
        for x in [a, b] {
            if let Some(l) = &x.f.sel {
                self.collect(l, x.ty.base(), &mut out, &mut HashSet::new());
            }
        }
        out
    }

    fn shape(&mut self, a: &FC<'a>, b: &FC<'a>) {
        let (x, y) = (a.f as *const _ as usize, b.f as *const _ as usize);
        if !self.seen_shape.insert((x.min(y), x.max(y))) {
            return;
        }
        let (mut s, mut t) = (a.ty, b.ty);
        let bad = loop {
            if s.is_req() != t.is_req() {
                break true;
            }
            match (s, t) {
                (Ty::List(i, _), Ty::List(j, _)) => {
                    s = i;
                    t = j;
                }
                (Ty::Named(i, _), Ty::Named(j, _)) => {
                    let leaf = self.v.sch.is_leaf(i) || self.v.sch.is_leaf(j);
                    break leaf && i != j;
                }
                _ => break true,
            }
        };
        if bad {
            self.out.insert(("C16", format!("types {}", Self::names(a, b))));
            return;
        }
        let m = self.merged(a, b);
        self.pairs(&m, false);
    }

    fn same(&mut self, a: &FC<'a>, b: &FC<'a>) {
        let object = |t: &str| self.v.sch.is_object(t);
        if a.parent != b.parent && object(a.parent) && object(b.parent) {
            return;
        }
        let (x, y) = (a.f as *const _ as usize, b.f as *const _ as usize);
        if !self.seen_same.insert((x.min(y), x.max(y), true)) {
            return;
        }
        if a.f.name != b.f.name {
            self.out.insert(("C16", format!("names {}", Self::names(a, b))));
            return;
        }
        if repeats(&a.f.args) || repeats(&b.f.args) {
            self.out.insert(("C16", format!("loose args {}", Self::names(a, b))));
        } else if !args_equal(&a.f.args, &b.f.args, |a, b| a == b) {
            // 0.0 and -0.0, and literals that differ in the order of object fields: either reading
            let loose = if args_equal(&a.f.args, &b.f.args, loosely_equal) { "loose " } else { "" };
            self.out.insert(("C16", format!("{loose}args {}", Self::names(a, b))));
            if loose.is_empty() {
                return;
            }
        }
        let m = self.merged(a, b);
        self.pairs(&m, true);
    }
}

//! Reference execution of the static parts of an operation: inclusion, expansion, cost, depth,
//! sizes of input lists and uses of deprecated elements.
use crate::ast::*;
use crate::schema::Schema;
use serde_json::{Map, Value as Json};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

/// how the complexity is computed
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tariff {
    Default,
    Relay,
    /// a computer of this harness
    Own,
}

impl Tariff {
    pub const ALL: [Tariff; 3] = [Tariff::Default, Tariff::Relay, Tariff::Own];
}

fn hash(s: &str) -> usize {
    s.bytes().fold(7usize, |h, b| (h * 31 + b as usize) % 1009)
}

/// what a field costs, from its name and the number of its arguments
pub fn own_weight(name: &str, args: usize) -> usize {
    [0, 1, 2, 7][hash(name) % 4] + args % 2
}

/// how often a field counts in another, from that one's name and the number of arguments given, and its own name
pub fn own_factor(parent: &str, given: usize, name: &str) -> usize {
    [1, 1, 0, 3, 2][(hash(parent) + given + hash(name)) % 5]
}

pub struct Run<'a> {
    pub sch: &'a Schema,
    pub doc: &'a Doc,
    pub op: &'a Op,
    pub vars: &'a Map<String, Json>,
}

/// a field of the expanded operation
#[derive(Clone, Debug)]
pub struct Node {
    pub field: Field,
    pub def: FieldDef,
    /// the type whose selection set the field is written in
    pub scope: String,
    /// the concrete types for which the field is really selected
    pub types: BTreeSet<String>,
    pub included: bool,
    pub kids: Vec<Node>,
}

/// arguments given somewhere, and whether that place is part of what executes
pub struct Given<'a> {
    pub args: Args,
    pub defs: &'a [InputVal],
    pub sure: bool,
}

impl<'a> Run<'a> {
    fn var(&self, n: &str) -> Option<&'a VarDef> {
        self.op.vars.iter().find(|v| v.name == n)
    }

    fn boolean(&self, v: &Val) -> Option<bool> {
        match v {
            Val::Bool(b) => Some(*b),
            Val::Var(n) => match self.vars.get(n) {
                Some(j) => j.as_bool(),
                None => match self.var(n)?.default.as_ref()? {
                    Val::Bool(b) => Some(*b),
                    _ => None,
                },
            },
            _ => None,
        }
    }

    fn int(&self, v: &Val) -> Option<i64> {
        match v {
            Val::Int(b) => Some(*b as i64),
            Val::Var(n) => match self.vars.get(n) {
                Some(j) => j.as_i64(),
                None => match self.var(n)?.default.as_ref()? {
                    Val::Int(b) => Some(*b as i64),
                    _ => None,
                },
            },
            _ => None,
        }
    }

    pub fn included(&self, dirs: &[Dir]) -> bool {
        dirs.iter().all(|d| {
            let c = d.args.iter().find(|a| a.0 == "if").and_then(|a| self.boolean(&a.1));
            match d.name.as_str() {
                "skip" => c != Some(true),
                "include" => c != Some(false),
                _ => true,
            }
        })
    }

    pub fn tree(&self) -> Vec<Node> {
        let Some(root) = self.sch.roots.get(&self.op.kind) else { return vec![] };
        self.expand(&self.op.sel, root, &self.sch.possible(root), true, &mut vec![])
    }

    fn expand(&self, sel: &[Sel], scope: &str, types: &BTreeSet<String>, included: bool, stack: &mut Vec<String>) -> Vec<Node> {
        let mut out = vec![];
        for s in sel {
            let inc = included && self.included(s.dirs());
            match s {
                Sel::Field(f) => {
                    let Some(def) = self.sch.field(scope, &f.name) else { continue };
                    let base = def.ty.base();
                    let kids = match &f.sel {
                        Some(l) if self.sch.is_composite(base) => self.expand(l, base, &self.sch.possible(base), inc, stack),
                        _ => vec![],
                    };
                    out.push(Node { field: f.clone(), def: def.clone(), scope: scope.into(), types: types.clone(), included: inc, kids });
                }
                Sel::Inline(on, _, l) => {
                    let t = on.as_deref().unwrap_or(scope);
                    let p = self.sch.possible(t);
                    let narrowed = types.intersection(&p).cloned().collect();
                    out.extend(self.expand(l, t, &narrowed, inc, stack));
                }
                Sel::Spread(n, _) => {
                    if stack.contains(n) {
                        continue;
                    }
                    if let Some(f) = self.doc.frags.iter().find(|f| f.name == *n) {
                        let p = self.sch.possible(&f.on);
                        let narrowed = types.intersection(&p).cloned().collect();
                        stack.push(n.clone());
                        out.extend(self.expand(&f.sel, &f.on, &narrowed, inc, stack));
                        stack.pop();
                    }
                }
            }
        }
        out
    }

    /// every place where arguments are given, once per expansion
    pub fn given(&self) -> Vec<Given<'a>> {
        let mut out = vec![];
        self.dirs(&self.op.dirs, true, &mut out);
        for v in &self.op.vars {
            self.dirs(&v.dirs, false, &mut out);
        }
        if let Some(root) = self.sch.roots.get(&self.op.kind) {
            self.args_in(&self.op.sel, root, true, &mut vec![], &mut out);
        }
        out
    }

    fn dirs(&self, dirs: &[Dir], sure: bool, out: &mut Vec<Given<'a>>) {
        for d in dirs {
            if let Some(def) = self.sch.dirs.get(&d.name) {
                out.push(Given { args: d.args.clone(), defs: &def.args, sure });
            }
        }
    }

    fn args_in(&self, sel: &[Sel], scope: &str, included: bool, stack: &mut Vec<String>, out: &mut Vec<Given<'a>>) {
        for s in sel {
            let inc = included && self.included(s.dirs());
            self.dirs(s.dirs(), inc, out);
            match s {
                Sel::Field(f) => {
                    let Some(def) = self.sch.field(scope, &f.name) else { continue };
                    out.push(Given { args: f.args.clone(), defs: &def.args, sure: inc });
                    if let (Some(l), true) = (&f.sel, self.sch.is_composite(def.ty.base())) {
                        self.args_in(l, def.ty.base(), inc, stack, out);
                    }
                }
                Sel::Inline(on, _, l) => self.args_in(l, on.as_deref().unwrap_or(scope), inc, stack, out),
                Sel::Spread(n, _) => {
                    if stack.contains(n) {
                        continue;
                    }
                    if let Some(f) = self.doc.frags.iter().find(|f| f.name == *n) {
                        stack.push(n.clone());
                        self.dirs(&f.dirs, inc, out);
                        self.args_in(&f.sel, &f.on, inc, stack, out);
                        stack.pop();
                    }
                }
            }
        }
    }

    pub fn depth(&self) -> usize {
        fn go(l: &[Node]) -> usize {
            l.iter().filter(|n| n.included).map(|n| 1 + go(&n.kids)).max().unwrap_or(0)
        }
        go(&self.tree())
    }

    // ---- cost

    /// `exact`: count for each concrete type only what is really selected for it; otherwise
    /// everything whose own type condition admits it
    pub fn cost(&self, by: Tariff, exact: bool) -> usize {
        let t = self.tree();
        let l: Vec<(&Node, usize)> = t.iter().filter(|n| n.included).map(|n| (n, 1)).collect();
        self.cost_of(&l, by, exact, &Cell::new(u64::MAX))
    }

    /// are the selections, and the ways in which types can nest, few enough to count them one by one?
    pub fn countable(&self) -> bool {
        fn size<'a>(r: &Run<'a>, l: &'a [Sel], known: &mut BTreeMap<&'a str, u64>) -> u64 {
            l.iter().fold(0u64, |n, s| {
                n.saturating_add(match s {
                    Sel::Field(f) => 1 + f.sel.as_ref().map_or(0, |l| size(r, l, known)),
                    Sel::Inline(_, _, l) => size(r, l, known),
                    Sel::Spread(n, _) => match known.get(n.as_str()) {
                        Some(k) => *k,
                        None => {
                            // a cycle counts nothing
                            known.insert(n, 0);
                            let k = r.doc.frags.iter().find(|f| f.name == *n).map_or(0, |f| size(r, &f.sel, known));
                            known.insert(n, k);
                            k
                        }
                    },
                })
            })
        }
        if size(self, &self.op.sel, &mut BTreeMap::new()) > 2000 {
            return false;
        }
        let t = self.tree();
        let l: Vec<(&Node, usize)> = t.iter().filter(|n| n.included).map(|n| (n, 1)).collect();
        let fuel = Cell::new(20_000);
        self.cost_of(&l, Tariff::Own, false, &fuel);
        fuel.get() > 0
    }

    fn weight(&self, n: &Node, by: Tariff) -> usize {
        match by {
            Tariff::Default => return 1,
            Tariff::Own => return own_weight(&n.def.name, n.def.args.len()),
            Tariff::Relay => {}
        }
        let w = n.def.dirs.iter().find(|d| d.name == "cost").and_then(|d| d.args.iter().find(|a| a.0 == "weight")).and_then(|a| if let Val::Str(s) = &a.1 { s.parse::<f32>().ok() } else { None });
        match w {
            Some(w) => {
                if w > 0.0 {
                    w.floor() as usize
                } else {
                    0
                }
            }
            None => self.sch.is_composite(n.def.ty.base()) as usize,
        }
    }

    fn page_factor(&self, n: &Node) -> Option<usize> {
        let c = n.def.dirs.iter().find(|d| d.name == "cost")?;
        match &c.args.iter().find(|a| a.0 == "kind")?.1 {
            Val::Str(s) if s == "connection" => {}
            _ => return None,
        }
        let size = n.field.args.iter().filter(|a| a.0 == "first" || a.0 == "last").filter_map(|a| self.int(&a.1)).max().unwrap_or(0);
        if size <= 0 {
            return Some(0);
        }
        Some((2.0 * (size.max(2) as f32).ln()).floor() as usize)
    }

    fn cost_of(&self, nodes: &[(&Node, usize)], by: Tariff, exact: bool, fuel: &Cell<u64>) -> usize {
        let spent = nodes.len() as u64 + 1;
        if fuel.get() <= spent {
            fuel.set(0);
            return 0;
        }
        fuel.set(fuel.get() - spent);
        // leaves that cost nothing take no part
        let l: Vec<(&Node, usize)> = nodes.iter().copied().filter(|(n, _)| self.weight(n, by) > 0 || self.sch.is_composite(n.def.ty.base())).collect();
        let of = |n: &Node| -> BTreeSet<String> {
            if exact {
                n.types.clone()
            } else {
                self.sch.possible(&n.scope)
            }
        };
        let all: BTreeSet<String> = l.iter().flat_map(|(n, _)| of(n)).collect();
        let mut best = 0;
        for t in all {
            let mut by_key: BTreeMap<&str, Vec<(&Node, usize)>> = BTreeMap::new();
            for (n, m) in l.iter().filter(|(n, _)| of(n).contains(&t)) {
                by_key.entry(n.field.key()).or_default().push((n, *m));
            }
            let mut sum = 0usize;
            for g in by_key.values() {
                let base = g.iter().map(|(n, _)| self.weight(n, by)).max().unwrap();
                let mult = g.iter().map(|(_, m)| *m).max().unwrap();
                let mut kids = vec![];
                for (n, _) in g {
                    let page = if by == Tariff::Relay { self.page_factor(n) } else { None };
                    for k in n.kids.iter().filter(|k| k.included) {
                        let m = match (page, k.field.name.as_str()) {
                            (_, k) if by == Tariff::Own => own_factor(&n.def.name, n.field.args.len(), k),
                            (Some(p), "edges" | "nodes") => p,
                            _ => 1,
                        };
                        kids.push((k, m));
                    }
                }
                sum = base.saturating_add(self.cost_of(&kids, by, exact, fuel)).saturating_mul(mult).saturating_add(sum);
            }
            best = best.max(sum);
        }
        best
    }

    // ---- input sizes

    /// (offenders that must be reported, those that may be)
    pub fn sizes(&self, limit: usize) -> (Vec<(usize, String)>, Vec<(usize, String)>) {
        let (mut must, mut may) = (vec![], vec![]);
        for g in self.given() {
            for (k, v) in &g.args {
                if !g.defs.iter().any(|d| d.name == *k) {
                    continue;
                }
                let mut l = vec![];
                self.size_val(v, k.clone(), limit, &mut l);
                if g.sure {
                    must.extend(l.iter().cloned());
                }
                may.extend(l);
            }
        }
        (must, may)
    }

    fn size_val(&self, v: &Val, path: String, limit: usize, out: &mut Vec<(usize, String)>) {
        match v {
            Val::List(l) if l.len() > limit => out.push((l.len(), path)),
            Val::List(l) => l.iter().enumerate().for_each(|(i, x)| self.size_val(x, format!("{path}.{i}"), limit, out)),
            Val::Obj(o) => o.iter().for_each(|(k, x)| self.size_val(x, format!("{path}.{k}"), limit, out)),
            Val::Var(n) => match self.vars.get(n) {
                Some(j) => self.size_val(&crate::props::coercion::unjson(j), path, limit, out),
                None => {
                    if let Some(d) = self.var(n).and_then(|v| v.default.as_ref()) {
                        self.size_val(d, path, limit, out)
                    }
                }
            },
            _ => {}
        }
    }

    // ---- deprecations

    pub fn deprecated(&self) -> (Vec<Use>, Vec<Use>) {
        let (mut must, mut may) = (vec![], vec![]);
        fn fields(l: &[Node], out: &mut Vec<Use>) {
            for n in l.iter().filter(|n| n.included) {
                if let Some(r) = reason(&n.def.dirs) {
                    out.push(("Field", n.field.name.clone(), r));
                }
                fields(&n.kids, out);
            }
        }
        fields(&self.tree(), &mut must);
        for g in self.given() {
            let mut l = vec![];
            for (k, v) in &g.args {
                let Some(d) = g.defs.iter().find(|d| d.name == *k) else { continue };
                if let Some(r) = reason(&d.dirs) {
                    l.push(("Argument", k.clone(), r));
                }
                self.dep_val(&d.ty, v, k, false, &mut l);
            }
            if g.sure {
                must.extend(l);
            } else {
                may.extend(l);
            }
        }
        for v in &self.op.vars {
            if !self.sch.is_input(v.ty.base()) {
                continue;
            }
            if let Some(j) = self.vars.get(&v.name) {
                self.dep_val(&v.ty, &crate::props::coercion::unjson(j), &v.name, true, &mut must);
            }
            if let Some(d) = &v.default {
                self.dep_val(&v.ty, d, &v.name, false, &mut must);
            }
        }
        may.extend(must.iter().cloned());
        (must, may)
    }

    fn dep_val(&self, ty: &Ty, v: &Val, name: &str, json: bool, out: &mut Vec<Use>) {
        match (ty, v) {
            (Ty::List(i, _), Val::List(l)) => l.iter().for_each(|x| self.dep_val(i, x, name, json, out)),
            (Ty::List(i, _), v) => self.dep_val(i, v, name, json, out),
            (Ty::Named(n, _), v) => match (self.sch.kind(n), v) {
                (Some(Kind::Enum { values }), Val::Enum(e)) => {
                    if let Some(r) = values.iter().find(|x| x.name == *e).and_then(|x| reason(&x.dirs)) {
                        out.push(("EnumValue", name.into(), r));
                    }
                }
                (Some(Kind::Enum { .. }), Val::Str(e)) if json => self.dep_val(ty, &Val::Enum(e.clone()), name, json, out),
                (Some(Kind::Input { fields }), Val::Obj(o)) => {
                    for f in fields {
                        if let Some((_, x)) = o.iter().find(|x| x.0 == f.name) {
                            if let Some(r) = reason(&f.dirs) {
                                out.push(("InputField", f.name.clone(), r));
                            }
                            self.dep_val(&f.ty, x, name, json, out);
                        }
                    }
                }
                _ => {}
            },
        }
    }
}

/// stands for the default reason
pub const DEFAULT: &str = "\u{0}default";

/// (kind of use, name, reason)
pub type Use = (&'static str, String, String);

fn reason(dirs: &[Dir]) -> Option<String> {
    let d = dirs.iter().find(|d| d.name == "deprecated")?;
    Some(match d.args.iter().find(|a| a.0 == "reason").map(|a| &a.1) {
        Some(Val::Str(s)) => s.clone(),
        _ => DEFAULT.into(),
    })
}

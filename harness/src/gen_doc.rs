//! Generator of (mostly) valid executable documents for a schema, and of typed corruptions.
use crate::ast::*;
use crate::gen_schema::{self, value};
use crate::gen_syn;
use crate::schema::Schema;
use crate::src::Src;
use crate::valid::compatible;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy)]
pub struct DOpts {
    /// upper bounds
    pub ops: usize,
    pub frags: usize,
    pub depth: usize,
    pub vars: bool,
    pub dirs: bool,
    /// let response keys collide on types that may never meet
    pub collide: bool,
    /// only query operations
    pub query_only: bool,
    pub introspection: bool,
    /// stay inside the documented limits of the type generator
    pub typegen: bool,
}

impl Default for DOpts {
    fn default() -> Self {
        DOpts { ops: 3, frags: 3, depth: 4, vars: true, dirs: true, collide: false, query_only: false, introspection: true, typegen: false }
    }
}

struct G<'a> {
    s: &'a mut Src,
    sch: &'a Schema,
    o: DOpts,
    /// response key -> what it stands for
    keys: BTreeMap<String, String>,
    vars: BTreeMap<String, VarDef>,
    frags: Vec<Frag>,
    budget: usize,
    /// names taken, for the type generator
    used: BTreeSet<String>,
}

pub fn doc(s: &mut Src, sch: &Schema, o: DOpts) -> Doc {
    let mut g = G { s, sch, o, keys: BTreeMap::new(), vars: BTreeMap::new(), frags: vec![], budget: 40, used: BTreeSet::new() };
    let comps: Vec<String> = sch.composites().into_iter().filter(|t| sch.user_types.contains(t)).collect();
    // sometimes long chains of spreads, and names that say nothing about their order
    let chain = o.frags > 0 && !o.typegen && g.s.chance(1, 5);
    let nf = if chain { g.s.range(2, o.frags + 4) } else { g.s.below(o.frags + 1) };
    let mut ids: Vec<usize> = (0..nf).collect();
    if g.s.bool() {
        g.s.shuffle(&mut ids);
    }
    // the order of generation is an order of possible spreading
    for i in ids {
        let mut on = g.s.pick(&comps).clone();
        let mut to = None;
        if let (true, Some(last)) = (chain, g.frags.last()) {
            if g.s.chance(2, 3) {
                on = last.on.clone();
            }
            if sch.overlap(&on, &last.on) && g.s.chance(5, 6) {
                to = Some(last.name.clone());
            }
        }
        g.budget = if chain { 5 } else { 14 };
        let mut sel = g.sels(&on, 2.min(o.depth));
        if let Some(n) = to {
            let at = g.s.below(sel.len() + 1);
            let dirs = g.dirs("FRAGMENT_SPREAD");
            let spread = Sel::Spread(n, dirs);
            if g.s.chance(1, 4) {
                sel = vec![spread];
            } else {
                sel.insert(at, spread);
            }
        }
        let dirs = g.dirs("FRAGMENT_DEFINITION");
        let name = if o.typegen { g.tg_name(false, i) } else { format!("{}{i}", ["F", "G", "frag_"][g.s.below(3)]) };
        g.frags.push(Frag { name, on, dirs, sel });
    }
    let kinds: Vec<OpKind> = sch.roots.keys().copied().filter(|k| !o.query_only || *k == OpKind::Query).collect();
    let no = g.s.weighted(&[5, 3, 2][..o.ops.clamp(1, 3)]) + 1;
    let mut ops = vec![];
    for i in 0..no {
        let kind = if g.s.chance(1, 3) { *g.s.pick(&kinds) } else { OpKind::Query };
        let root = sch.roots[&kind].clone();
        g.budget = 40;
        let sel = if kind == OpKind::Subscription {
            let mut f = g.field(&root, o.depth);
            if o.typegen {
                g.tg_key(&mut f, &mut BTreeSet::new());
            }
            vec![f]
        } else {
            let mut l = g.sels(&root, o.depth);
            if let (true, Some(f)) = (chain, g.frags.last()) {
                if sch.overlap(&root, &f.on) && g.s.chance(2, 3) {
                    l.push(Sel::Spread(f.name.clone(), vec![]));
                }
            }
            l
        };
        let dirs = g.dirs(kind.loc());
        let name = if no > 1 || g.s.bool() { Some(if o.typegen { g.tg_name(true, i) } else { format!("{}{i}", ["Q", "op", "Get"][g.s.below(3)]) }) } else { None };
        ops.push(Op { kind, short: false, name, vars: vec![], dirs, sel });
    }
    let mut d = Doc { ops, frags: std::mem::take(&mut g.frags) };
    // fragments nobody spreads go
    loop {
        let mut used = BTreeSet::new();
        for o in &d.ops {
            crate::valid::all_spreads(&o.sel, &mut used);
        }
        for f in &d.frags {
            crate::valid::all_spreads(&f.sel, &mut used);
        }
        let n = d.frags.len();
        d.frags.retain(|f| used.contains(&f.name));
        if n == d.frags.len() {
            break;
        }
    }
    let vars = std::mem::take(&mut g.vars);
    for o in &mut d.ops {
        let mut used = BTreeSet::new();
        reach_vars(&d.frags, &o.sel, &o.dirs, &mut used, &mut BTreeSet::new());
        let mut l: Vec<VarDef> = used.iter().filter_map(|n| vars.get(n)).cloned().collect();
        if g.s.chance(1, 3) {
            g.s.shuffle(&mut l);
        }
        for v in &mut l {
            v.dirs = g.const_dirs("VARIABLE_DEFINITION");
        }
        o.vars = l;
    }
    if d.ops.len() == 1 && d.ops[0].name.is_none() && d.ops[0].vars.is_empty() && d.ops[0].dirs.is_empty() && d.ops[0].kind == OpKind::Query {
        d.ops[0].short = g.s.bool();
    }
    if g.s.chance(1, 3) {
        g.s.shuffle(&mut d.frags);
    }
    d
}

pub fn reach_vars(frags: &[Frag], sel: &[Sel], dirs: &[Dir], out: &mut BTreeSet<String>, seen: &mut BTreeSet<String>) {
    fn val(v: &Val, out: &mut BTreeSet<String>) {
        match v {
            Val::Var(n) => {
                out.insert(n.clone());
            }
            Val::List(l) => l.iter().for_each(|v| val(v, out)),
            Val::Obj(o) => o.iter().for_each(|(_, v)| val(v, out)),
            _ => {}
        }
    }
    fn ds(d: &[Dir], out: &mut BTreeSet<String>) {
        d.iter().for_each(|d| d.args.iter().for_each(|(_, v)| val(v, out)))
    }
    ds(dirs, out);
    for s in sel {
        ds(s.dirs(), out);
        match s {
            Sel::Field(f) => {
                f.args.iter().for_each(|(_, v)| val(v, out));
                if let Some(l) = &f.sel {
                    reach_vars(frags, l, &[], out, seen);
                }
            }
            Sel::Spread(n, _) => {
                if seen.insert(n.clone()) {
                    for f in frags.iter().filter(|f| f.name == *n) {
                        reach_vars(frags, &f.sel, &f.dirs, out, seen);
                    }
                }
            }
            Sel::Inline(_, _, l) => reach_vars(frags, l, &[], out, seen),
        }
    }
}

impl G<'_> {
    fn variable(&mut self, ty: &Ty, loc_default: bool) -> Option<Val> {
        if !self.o.vars || !self.s.chance(1, 4) {
            return None;
        }
        let fits = |d: &VarDef| crate::valid::usage_allowed(d, ty, loc_default);
        let c: Vec<String> = self.vars.values().filter(|d| fits(d)).map(|d| d.name.clone()).collect();
        if !c.is_empty() && self.s.bool() {
            return Some(Val::Var(self.s.pick(&c).clone()));
        }
        // a fresh variable, at least as strict as needed
        let mut t = tighten(self.s, ty);
        let mut default = None;
        if t.is_req() && (!ty.is_req() || loc_default || self.s.bool()) && self.s.bool() {
            t = t.opt();
        }
        if self.s.chance(1, 3) || (ty.is_req() && !t.is_req() && !loc_default) {
            let mut v = value(self.s, &self.sch.types, &t, 2, true, false, &mut gen_schema::no_var);
            if ty.is_req() && !t.is_req() && !loc_default && v == Val::Null {
                v = value(self.s, &self.sch.types, &t.clone().req(), 2, true, false, &mut gen_schema::no_var);
            }
            default = Some(v);
        }
        let name = format!("{}{}", ["v", "x", "in"][self.s.below(3)], self.vars.len());
        let d = VarDef { name: name.clone(), ty: t, default, dirs: vec![] };
        if !fits(&d) {
            return None;
        }
        debug_assert!(compatible(&d.ty.clone().req(), ty));
        self.vars.insert(name.clone(), d);
        Some(Val::Var(name))
    }

    fn value(&mut self, ty: &Ty, has_default: bool) -> Val {
        // the variable generator needs `self`, the value generator the source: split by hand
        let sch = self.sch;
        let mut vars = std::mem::take(&mut self.vars);
        let o = self.o;
        let v = value(self.s, &sch.types, ty, 3, true, has_default, &mut |s: &mut Src, t: &Ty, d: bool| {
            let mut g = G { s, sch, o, keys: BTreeMap::new(), vars: std::mem::take(&mut vars), frags: vec![], budget: 0, used: BTreeSet::new() };
            let r = g.variable(t, d);
            vars = std::mem::take(&mut g.vars);
            r
        });
        self.vars = vars;
        v
    }

    fn dirs(&mut self, loc: &str) -> Vec<Dir> {
        let mut l: Vec<Dir> = vec![];
        if !self.o.dirs || !self.s.chance(1, 5) {
            return l;
        }
        let c: Vec<DirDef> = self.sch.dirs.values().filter(|d| d.locs.iter().any(|x| x == loc)).cloned().collect();
        if c.is_empty() {
            return l;
        }
        let n = self.s.weighted(&[5, 2, 1]) + 1;
        for _ in 0..n {
            let d = self.s.pick(&c).clone();
            if !d.repeatable && l.iter().any(|x| x.name == d.name) {
                continue;
            }
            let args = self.args(&d.args);
            l.push(Dir { name: d.name, args });
        }
        l
    }

    fn const_dirs(&mut self, loc: &str) -> Vec<Dir> {
        let o = self.o;
        self.o.vars = false;
        let r = self.dirs(loc);
        self.o = o;
        r
    }

    fn args(&mut self, defs: &[InputVal]) -> Args {
        let mut l = vec![];
        for d in defs {
            if d.required() || self.s.chance(1, 2) {
                l.push((d.name.clone(), self.value(&d.ty, d.default.is_some())));
            }
        }
        if self.s.chance(1, 4) {
            self.s.shuffle(&mut l);
        }
        l
    }

    fn field(&mut self, scope: &str, depth: usize) -> Sel {
        self.budget = self.budget.saturating_sub(1);
        let defs = &self.sch.fields[scope];
        let leafy = depth == 0 || self.budget == 0;
        let c: Vec<&FieldDef> = defs
            .iter()
            .filter(|f| {
                let meta = f.name.starts_with("__") && f.name != "__typename";
                let sub = self.sch.roots.get(&OpKind::Subscription).map(|s| s.as_str()) == Some(scope);
                (!leafy || !self.sch.is_composite(f.ty.base())) && (!meta || self.o.introspection) && !(sub && f.name.starts_with("__"))
            })
            .collect();
        // a subscription root or a type of composites only may leave nothing at the bottom
        let c = if c.is_empty() { defs.iter().filter(|f| !f.name.starts_with("__") || f.name == "__typename").collect() } else { c };
        // introspection is a rare choice
        let mut def = *self.s.pick(&c);
        if def.name.starts_with("__") && self.s.chance(2, 3) {
            def = *self.s.pick(&c);
        }
        let def = def.clone();
        let args = self.args(&def.args);
        let dirs = self.dirs("FIELD");
        let sig = if self.o.collide && self.s.chance(1, 3) {
            // by parent type only: may collide with other types' keys
            format!("{scope} {} {}", def.name, Val::Obj(args.clone()).key())
        } else {
            format!("{} {} {}", def.name, def.ty.show(), Val::Obj(args.clone()).key())
        };
        let mut alias = None;
        let mut key = def.name.clone();
        if self.s.chance(1, 5) {
            let l: &[&str] = if self.o.typegen { &["a", "b", "alias", "f0", "name", "type", "self", "Super", "out", "k", "fooBar", "snake_case", "PascalCase", "_1", "_", "state", "other", "__state", "ALL_CAPS", "Option"] } else { &["a", "b", "alias", "f0", "name"] };
            key = self.s.pick(l).to_string();
            alias = Some(key.clone());
        }
        if !(self.o.collide && self.s.chance(1, 6)) {
            let mut n = 0;
            while self.keys.get(&key).is_some_and(|k| *k != sig) {
                key = format!("{}_{n}", def.name.trim_start_matches(|c: char| c == '_' || c.is_ascii_digit()));
                alias = Some(key.clone());
                n += 1;
            }
        }
        self.keys.insert(key, sig);
        let sel = if self.sch.is_composite(def.ty.base()) { Some(self.sels(def.ty.base(), depth.saturating_sub(1))) } else { None };
        Sel::Field(Field { alias, name: def.name, args, dirs, sel })
    }

    /// names of operations and fragments that stay different when their case changes
    fn tg_name(&mut self, op: bool, i: usize) -> String {
        let l: &[&str] = if op {
            &["Get", "getAll", "get_it", "SELF", "match", "Option", "result", "_lead", "ALL_CAPS"]
        } else {
            &["Frag", "fragMent", "frag_x", "super", "crate", "Vec", "string", "__under", "SCREAM_ING"]
        };
        let n = self.s.pick(l).to_string();
        // some names as they are, once each
        if !self.s.chance(1, 3) || self.used.contains(&n) {
            return format!("{n}{}{i}", if op { "O" } else { "F" });
        }
        self.used.insert(n.clone());
        n
    }

    fn tg_dirs(&mut self, loc: &str) -> Vec<Dir> {
        let mut l = self.dirs(loc);
        l.retain(|d| d.name != "skip" && d.name != "include");
        l
    }

    /// gives a field another response name where the type generator needs one
    fn tg_key(&mut self, f: &mut Sel, taken: &mut BTreeSet<String>) {
        let Sel::Field(f) = f else { return };
        let odd = |k: &str| {
            let k = tg_norm(k);
            k.is_empty() || k.starts_with(|c: char| c.is_ascii_digit())
        };
        // identifiers of digits are for leaves: a type and its module could not differ in case
        if taken.contains(&tg_norm(f.key())) || (f.sel.is_some() && odd(f.key())) || f.key().starts_with("__") && f.alias.is_some() {
            f.alias = Some(format!("alias{}", self.used.len()));
            self.used.insert(f.key().to_string());
        }
        taken.insert(tg_norm(f.key()));
    }

    /// a selection set within the limits of the type generator
    fn tg_sels(&mut self, scope: &str, depth: usize, spread: bool) -> Vec<Sel> {
        let kind = self.sch.kind(scope).cloned();
        let fits = |f: &Frag| match &kind {
            Some(Kind::Interface { ifaces, .. }) => f.on == scope || ifaces.contains(&f.on),
            Some(Kind::Union { .. }) => self.sch.possible(scope).is_subset(&self.sch.possible(&f.on)),
            _ => self.sch.overlap(scope, &f.on),
        };
        let l: Vec<String> = self.frags.iter().filter(|f| fits(f)).map(|f| f.name.clone()).collect();
        if spread && !l.is_empty() && self.s.chance(1, 4) {
            let n = self.s.pick(&l).clone();
            return vec![Sel::Spread(n, self.tg_dirs("FRAGMENT_SPREAD"))];
        }
        if let Some(Kind::Union { mut members }) = kind {
            let mut l = vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: self.tg_dirs("FIELD"), sel: None })];
            self.s.shuffle(&mut members);
            for m in members {
                if self.s.chance(3, 4) {
                    let dirs = self.tg_dirs("INLINE_FRAGMENT");
                    l.push(Sel::Inline(Some(m.clone()), dirs, self.tg_sels(&m, depth.saturating_sub(1), false)));
                }
            }
            return l;
        }
        let n = if depth == 0 || self.budget == 0 { 1 } else { self.s.weighted(&[2, 4, 3, 2]) + 1 };
        let mut taken = BTreeSet::new();
        let mut l = vec![];
        for _ in 0..n {
            let mut f = self.field(scope, depth);
            self.tg_key(&mut f, &mut taken);
            l.push(f);
        }
        l
    }

    fn sels(&mut self, scope: &str, depth: usize) -> Vec<Sel> {
        if self.o.typegen {
            return self.tg_sels(scope, depth, true);
        }
        let n = if depth == 0 || self.budget == 0 { 1 } else { self.s.weighted(&[4, 4, 2, 1]) + 1 };
        let mut l = vec![];
        for _ in 0..n {
            let spreadable: Vec<String> = self.frags.iter().filter(|f| self.sch.overlap(scope, &f.on)).map(|f| f.name.clone()).collect();
            let x = match self.s.weighted(&[7, 2, 2]) {
                1 if !spreadable.is_empty() => {
                    let f = self.s.pick(&spreadable).clone();
                    Sel::Spread(f, self.dirs("FRAGMENT_SPREAD"))
                }
                2 if depth > 0 && self.budget > 0 => {
                    let c: Vec<String> = self.sch.composites().into_iter().filter(|t| self.sch.overlap(scope, t)).collect();
                    let on = if c.is_empty() || self.s.chance(1, 3) { None } else { Some(self.s.pick(&c).clone()) };
                    let dirs = self.dirs("INLINE_FRAGMENT");
                    let inner = on.clone().unwrap_or(scope.to_string());
                    Sel::Inline(on, dirs, self.sels(&inner, depth - 1))
                }
                _ => self.field(scope, depth),
            };
            l.push(x);
        }
        l
    }
}

/// names that differ only in this way turn into the same Rust name
pub fn tg_norm(n: &str) -> String {
    n.replace('_', "").to_lowercase()
}

fn tighten(s: &mut Src, t: &Ty) -> Ty {
    let r = t.is_req() || s.chance(1, 4);
    match t {
        Ty::Named(n, _) => Ty::Named(n.clone(), r),
        Ty::List(i, _) => Ty::List(Box::new(tighten(s, i)), r),
    }
}

impl Val {
    pub fn key(&self) -> String {
        format!("{self:?}")
    }
}

// ---------------------------------------------------------------------------------- corruption

pub fn each_val(v: &mut Val, f: &mut dyn FnMut(&mut Val)) {
    f(v);
    match v {
        Val::List(l) => l.iter_mut().for_each(|v| each_val(v, f)),
        Val::Obj(o) => o.iter_mut().for_each(|(_, v)| each_val(v, f)),
        _ => {}
    }
}

/// every directive list with its location; constant ones (variable definitions) flagged
pub fn each_dirs(d: &mut Doc, f: &mut dyn FnMut(&mut Vec<Dir>, bool)) {
    fn go(l: &mut [Sel], f: &mut dyn FnMut(&mut Vec<Dir>, bool)) {
        for s in l {
            f(s.dirs_mut(), false);
            match s {
                Sel::Field(x) => {
                    if let Some(l) = &mut x.sel {
                        go(l, f)
                    }
                }
                Sel::Inline(_, _, l) => go(l, f),
                _ => {}
            }
        }
    }
    for o in &mut d.ops {
        f(&mut o.dirs, false);
        for v in &mut o.vars {
            f(&mut v.dirs, true);
        }
        go(&mut o.sel, f);
    }
    for x in &mut d.frags {
        f(&mut x.dirs, false);
        go(&mut x.sel, f);
    }
}

pub fn each_sels(d: &mut Doc, f: &mut dyn FnMut(&mut Vec<Sel>)) {
    fn go(l: &mut Vec<Sel>, f: &mut dyn FnMut(&mut Vec<Sel>)) {
        f(l);
        for s in l {
            match s {
                Sel::Field(x) => {
                    if let Some(l) = &mut x.sel {
                        go(l, f)
                    }
                }
                Sel::Inline(_, _, l) => go(l, f),
                _ => {}
            }
        }
    }
    d.ops.iter_mut().for_each(|o| go(&mut o.sel, f));
    d.frags.iter_mut().for_each(|o| go(&mut o.sel, f));
}

/// every selection set whose type is known and composite
pub fn each_typed(d: &mut Doc, sch: &Schema, f: &mut dyn FnMut(&mut Vec<Sel>, &str)) {
    fn go(l: &mut Vec<Sel>, t: &str, sch: &Schema, f: &mut dyn FnMut(&mut Vec<Sel>, &str)) {
        if !sch.is_composite(t) {
            return;
        }
        f(l, t);
        for s in l {
            match s {
                Sel::Field(x) => {
                    if let (Some(l), Some(d)) = (&mut x.sel, sch.field(t, &x.name)) {
                        go(l, d.ty.base(), sch, f)
                    }
                }
                Sel::Inline(c, _, l) => {
                    let t = c.clone().unwrap_or(t.to_string());
                    go(l, &t, sch, f)
                }
                _ => {}
            }
        }
    }
    for o in &mut d.ops {
        if let Some(r) = sch.roots.get(&o.kind) {
            go(&mut o.sel, r, sch, f);
        }
    }
    d.frags.iter_mut().for_each(|o| {
        let on = o.on.clone();
        go(&mut o.sel, &on, sch, f)
    });
}

/// a plain selection of a field, required arguments included
pub fn plain_field(s: &mut Src, sch: &Schema, def: &FieldDef, alias: Option<String>) -> Sel {
    let mut args = vec![];
    for x in &def.args {
        if x.required() || s.chance(1, 4) {
            args.push((x.name.clone(), value(s, &sch.types, &x.ty, 2, true, false, &mut gen_schema::no_var)));
        }
    }
    let mut sel = None;
    if sch.is_composite(def.ty.base()) {
        let mut l = vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: None })];
        let leaves: Vec<FieldDef> = sch.fields[def.ty.base()].iter().filter(|f| sch.is_leaf(f.ty.base()) && !f.name.starts_with("__")).cloned().collect();
        if !leaves.is_empty() && s.bool() {
            let f = s.pick(&leaves).clone();
            let a = if s.bool() { Some(s.pick(&["a", "b", "f0", "id"]).to_string()) } else { None };
            l.push(plain_field(s, sch, &f, a));
        }
        sel = Some(l);
    }
    Sel::Field(Field { alias, name: def.name.clone(), args, dirs: vec![], sel })
}

fn keys_in(l: &[Sel], out: &mut Vec<String>) {
    for s in l {
        match s {
            Sel::Field(f) => out.push(f.key().to_string()),
            Sel::Inline(_, _, l) => keys_in(l, out),
            _ => {}
        }
    }
}

/// puts a field under a response key already in use nearby, directly or below a type condition
fn collide(d: &mut Doc, s: &mut Src, sch: &Schema) {
    let mut n = 0;
    each_typed(d, sch, &mut |_, _| n += 1);
    if n == 0 {
        return;
    }
    let frags = d.frags.clone();
    let k = s.below(n);
    let mut i = 0;
    each_typed(d, sch, &mut |l, scope| {
        if i == k {
            let mut keys = vec![];
            keys_in(l, &mut keys);
            for x in l.iter() {
                if let Sel::Spread(n, _) = x {
                    if let Some(f) = frags.iter().find(|f| f.name == *n) {
                        keys_in(&f.sel, &mut keys);
                    }
                }
            }
            if keys.is_empty() {
                keys.push("a".into());
            }
            let key = s.pick(&keys).clone();
            let on = if s.bool() {
                None
            } else {
                let c: Vec<String> = sch.composites().into_iter().filter(|t| sch.overlap(scope, t)).collect();
                if c.is_empty() {
                    None
                } else {
                    Some(s.pick(&c).clone())
                }
            };
            let t = on.as_deref().unwrap_or(scope);
            let fs: Vec<FieldDef> = sch.fields[t].iter().filter(|f| !f.name.starts_with("__s") && f.name != "__type").cloned().collect();
            if fs.is_empty() {
                return;
            }
            // often the same field, so that arguments or the selections below decide
            let same: Vec<FieldDef> = l.iter().filter_map(|x| if let Sel::Field(f) = x { fs.iter().find(|d| d.name == f.name && f.key() == key).cloned() } else { None }).collect();
            let def = if !same.is_empty() && s.chance(2, 3) { same[0].clone() } else { s.pick(&fs).clone() };
            let mut x = plain_field(s, sch, &def, if def.name == key { None } else { Some(key.clone()) });
            if s.bool() {
                // with the other selection's arguments
                if let (Some(Sel::Field(o)), Sel::Field(f)) = (l.iter().find(|y| matches!(y, Sel::Field(o) if o.name == def.name && o.key() == key)), &mut x) {
                    f.args = o.args.clone();
                }
            }
            let x = match on {
                Some(_) => Sel::Inline(on, vec![], vec![x]),
                None if s.chance(1, 4) => Sel::Inline(None, vec![], vec![x]),
                None => x,
            };
            let at = s.below(l.len() + 1);
            l.insert(at, x);
        }
        i += 1;
    });
}

pub fn each_field(d: &mut Doc, f: &mut dyn FnMut(&mut Field)) {
    each_sels(d, &mut |l| {
        for s in l.iter_mut() {
            if let Sel::Field(x) = s {
                f(x)
            }
        }
    })
}

pub fn each_args(d: &mut Doc, f: &mut dyn FnMut(&mut Args, bool)) {
    each_field(d, &mut |x| f(&mut x.args, false));
    each_dirs(d, &mut |l, c| l.iter_mut().for_each(|x| f(&mut x.args, c)));
}

pub fn each_value(d: &mut Doc, f: &mut dyn FnMut(&mut Val, bool)) {
    each_args(d, &mut |a, c| a.iter_mut().for_each(|(_, v)| each_val(v, &mut |v| f(v, c))));
    for o in &mut d.ops {
        for v in &mut o.vars {
            if let Some(x) = &mut v.default {
                each_val(x, &mut |v| f(v, true));
            }
        }
    }
}

macro_rules! nth {
    ($s:expr, $n:ident, $f:ident, $doc:expr, |$($a:ident),+| $body:expr) => {{
        let mut n = 0usize;
        $f($doc, &mut |$($a),+| { let _ = ($($a),+,); n += 1; });
        if n > 0 {
            let k = $s.below(n);
            let mut $n = 0usize;
            #[allow(unused_variables)]
            $f($doc, &mut |$($a),+| { if $n == k { $body } $n += 1; });
            true
        } else {
            false
        }
    }};
}

pub struct Pools {
    pub fields: Vec<String>,
    pub types: Vec<String>,
    pub composites: Vec<String>,
    pub args: Vec<String>,
    pub dirs: Vec<String>,
}

pub fn pools(sch: &Schema) -> Pools {
    let mut fields = BTreeSet::new();
    let mut args = BTreeSet::new();
    for (t, l) in &sch.fields {
        if sch.user_types.contains(t) {
            for f in l {
                fields.insert(f.name.clone());
                args.extend(f.args.iter().map(|a| a.name.clone()));
            }
        }
    }
    args.extend(["a", "b", "zz", "if"].map(String::from));
    let mut types: Vec<String> = sch.user_types.iter().cloned().collect();
    types.extend(["Int", "String", "Boolean", "Float", "ID", "Nope", "__Type"].map(String::from));
    let mut dirs: Vec<String> = sch.dirs.keys().cloned().collect();
    dirs.push("nope".into());
    fields.insert("nope".into());
    let mut composites: Vec<String> = sch.composites();
    composites.retain(|t| sch.user_types.contains(t));
    Pools { fields: fields.into_iter().collect(), types, composites, args: args.into_iter().collect(), dirs }
}

fn pick_name(d: &Doc, s: &mut Src) -> String {
    let mut l: Vec<String> = d.ops.iter().flat_map(|o| o.vars.iter().map(|v| v.name.clone())).collect();
    l.push("nope".into());
    l.push("v0".into());
    s.pick(&l).clone()
}

/// a value of any shape; variables drawn from the document's
pub fn any_val(s: &mut Src, sch: &Schema, d: &Doc, konst: bool) -> Val {
    match s.below(8) {
        0 => Val::Null,
        1 if !konst => Val::Var(pick_name(d, s)),
        2 => {
            let names: Vec<&TypeDef> = sch.types.values().filter(|t| sch.is_input(&t.name)).collect();
            let t = s.pick(&names).name.clone();
            let ty = gen_schema::wrap(s, &t, (1, 2), (1, 3));
            value(s, &sch.types, &ty, 2, true, false, &mut gen_schema::no_var)
        }
        3 => {
            let es: Vec<String> = sch.types.values().filter_map(|t| if let Kind::Enum { values } = &t.kind { Some(values[0].name.clone()) } else { None }).collect();
            Val::Enum(s.pick(&es).clone())
        }
        4 => Val::Str("bad".into()),
        5 => Val::Bool(s.bool()),
        6 => Val::List(vec![Val::Null, Val::Int(1)]),
        _ => gen_syn::val(s, true, 2),
    }
}

/// one corruption; `g` is the group favoured ("C11" .. "C17" or "")
pub fn corrupt(d: &mut Doc, s: &mut Src, sch: &Schema, g: &str) -> &'static str {
    let p = pools(sch);
    let group = match g {
        "C11" => 0,
        "C12" => 1,
        "C13" => 2,
        "C14" => 3,
        "C15" => 4,
        "C16" => 5,
        "C17" => 6,
        _ => s.below(7),
    };
    let group = if s.chance(1, 6) { s.below(7) } else { group };
    match group {
        0 => match s.below(5) {
            0 => {
                let n = s.pick(&p.fields).clone();
                nth!(s, i, each_field, d, |f| f.name = n.clone());
                "rename field"
            }
            1 => {
                nth!(s, i, each_field, d, |f| f.sel = Some(vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: None })]));
                "give a sub-selection"
            }
            2 => {
                nth!(s, i, each_field, d, |f| f.sel = None);
                "drop a sub-selection"
            }
            3 => {
                let n = s.pick(&p.fields).clone();
                let x = Sel::Field(Field { alias: Some("k9".into()), name: n, args: vec![], dirs: vec![], sel: None });
                nth!(s, i, each_sels, d, |l| l.push(x.clone()));
                "add a field"
            }
            _ => {
                let t = s.pick(&p.composites).clone();
                nth!(s, i, each_sels, d, |l| for x in l.iter_mut() {
                    if let Sel::Inline(c, _, _) = x {
                        *c = Some(t.clone());
                        break;
                    }
                });
                "change an inline type condition"
            }
        },
        1 => match s.below(9) {
            0 => {
                let n = s.pick(&p.args).clone();
                let v = any_val(s, sch, d, true);
                nth!(s, i, each_args, d, |a, c| a.push((n.clone(), v.clone())));
                "add an argument"
            }
            1 => {
                let k = s.below(3);
                nth!(s, i, each_args, d, |a, c| if !a.is_empty() {
                    let j = k % a.len();
                    a.remove(j);
                });
                "drop an argument"
            }
            2 => {
                nth!(s, i, each_args, d, |a, c| if !a.is_empty() {
                    let x = a[0].clone();
                    a.push(x)
                });
                "repeat an argument"
            }
            3 => {
                let k = s.below(3);
                nth!(s, i, each_value, d, |v, c| match v {
                    Val::Obj(o) if !o.is_empty() => {
                        let j = k % o.len();
                        match k {
                            0 => o[j].0 = "zz".into(),
                            1 => {
                                let x = o[j].clone();
                                o.push(x)
                            }
                            _ => {
                                o.remove(j);
                            }
                        }
                    }
                    _ => *v = Val::Obj(vec![]),
                });
                "corrupt an object"
            }
            4 => {
                let v0 = any_val(s, sch, d, true);
                for o in &mut d.ops {
                    for v in &mut o.vars {
                        if s.bool() {
                            v.default = Some(v0.clone());
                        }
                    }
                }
                "change variable defaults"
            }
            5 => {
                nth!(s, i, each_value, d, |v, c| *v = Val::Null);
                "null"
            }
            6 => {
                nth!(s, i, each_value, d, |v, c| *v = Val::List(vec![v.clone()]));
                "wrap in a list"
            }
            _ => {
                let v0 = any_val(s, sch, d, true);
                nth!(s, i, each_value, d, |v, c| *v = v0.clone());
                "replace a value"
            }
        },
        2 => match s.below(3) {
            0 => {
                nth!(s, i, each_dirs, d, |l, c| if let Some(x) = l.first().cloned() {
                    l.push(x)
                });
                "repeat a directive"
            }
            _ => {
                let n = s.pick(&p.dirs).clone();
                let mut args = vec![];
                if let Some(def) = sch.dirs.get(&n) {
                    for a in &def.args {
                        if a.required() || s.chance(1, 4) {
                            args.push((a.name.clone(), value(s, &sch.types, &a.ty, 2, true, false, &mut gen_schema::no_var)));
                        }
                    }
                }
                let x = Dir { name: n, args };
                let twice = s.chance(1, 4);
                nth!(s, i, each_dirs, d, |l, c| {
                    l.push(x.clone());
                    if twice {
                        l.insert(0, x.clone())
                    }
                });
                "add a directive"
            }
        },
        3 => {
            let mut names: Vec<String> = d.frags.iter().map(|f| f.name.clone()).collect();
            names.push("nope".into());
            let n = s.pick(&names).clone();
            let t = s.pick(&p.types).clone();
            match s.below(9) {
                0 => {
                    nth!(s, i, each_sels, d, |l| for x in l.iter_mut() {
                        if let Sel::Spread(m, _) = x {
                            *m = n.clone();
                            break;
                        }
                    });
                    "retarget a spread"
                }
                1 | 2 => {
                    nth!(s, i, each_sels, d, |l| l.push(Sel::Spread(n.clone(), vec![])));
                    "add a spread"
                }
                3 if !d.frags.is_empty() => {
                    let i = s.below(d.frags.len());
                    d.frags[i].name = n;
                    "rename a fragment"
                }
                4 if !d.frags.is_empty() => {
                    let i = s.below(d.frags.len());
                    d.frags[i].on = t;
                    "change a type condition"
                }
                5 => {
                    let sel = vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: None })];
                    d.frags.push(Frag { name: if s.bool() { "Unused".into() } else { n }, on: s.pick(&p.composites).clone(), dirs: vec![], sel });
                    "add a fragment"
                }
                6 if !d.frags.is_empty() => {
                    let i = s.below(d.frags.len());
                    d.frags.remove(i);
                    "drop a fragment"
                }
                7 => {
                    nth!(s, i, each_sels, d, |l| for x in l.iter_mut() {
                        if let Sel::Inline(c, _, _) = x {
                            *c = Some(t.clone());
                            break;
                        }
                    });
                    "change an inline type condition"
                }
                _ => {
                    let sel = vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: None })];
                    nth!(s, i, each_sels, d, |l| l.push(Sel::Inline(Some(t.clone()), vec![], sel.clone())));
                    "add an inline fragment"
                }
            }
        }
        4 => {
            let nv: usize = d.ops.iter().map(|o| o.vars.len()).sum();
            let pick = if nv > 0 { s.below(nv) } else { 0 };
            let vname = pick_name(d, s);
            let tname = s.pick(&p.types).clone();
            let rnd = gen_schema::wrap(s, &tname, (1, 3), (1, 3));
            let how = s.below(9);
            let mut tweak = None;
            if how == 0 || how == 1 {
                let v = Val::Var(vname.clone());
                nth!(s, i, each_value, d, |x, c| if !c {
                    *x = v.clone()
                });
                return "use a variable elsewhere";
            }
            let mut i = 0;
            for o in &mut d.ops {
                let mut add = None;
                let mut del = None;
                for (j, v) in o.vars.iter_mut().enumerate() {
                    if i == pick {
                        match how {
                            2 => v.name = vname.clone(),
                            3 => v.ty = rnd.clone(),
                            4 => {
                                v.ty = match &v.ty {
                                    Ty::List(t, _) if s.bool() => (**t).clone(),
                                    t if s.bool() => t.clone().list(),
                                    t => t.clone().opt(),
                                };
                                tweak = Some(());
                            }
                            5 => del = Some(j),
                            6 => add = Some(v.clone()),
                            7 => {
                                v.ty = v.ty.clone().opt();
                                v.default = if s.bool() { None } else { Some(Val::Null) };
                            }
                            _ => {
                                // loosen an inner type
                                fn inner(t: &Ty) -> Ty {
                                    match t {
                                        Ty::List(i, r) => Ty::List(Box::new(i.as_ref().clone().opt()), *r),
                                        t => t.clone().opt(),
                                    }
                                }
                                v.ty = inner(&v.ty);
                            }
                        }
                    }
                    i += 1;
                }
                if let Some(j) = del {
                    o.vars.remove(j);
                }
                if let Some(v) = add {
                    o.vars.push(v);
                }
            }
            if how == 8 && s.bool() || nv == 0 {
                let k = s.below(d.ops.len());
                d.ops[k].short = false;
                d.ops[k].vars.push(VarDef { name: vname, ty: rnd, default: None, dirs: vec![] });
            }
            let _ = tweak;
            "corrupt a variable definition"
        }
        5 if s.chance(3, 4) => {
            collide(d, s, sch);
            "reuse a response key"
        }
        5 => {
            let mut all: Vec<Field> = vec![];
            each_field(d, &mut |f| all.push(f.clone()));
            if all.is_empty() {
                return "nothing";
            }
            let a = s.pick(&all).clone();
            match s.below(5) {
                0 => {
                    let k = a.key().to_string();
                    nth!(s, i, each_field, d, |f| f.alias = Some(k.clone()));
                    "take another response key"
                }
                1 => {
                    nth!(s, i, each_field, d, |f| f.alias = None);
                    "drop an alias"
                }
                2 => {
                    nth!(s, i, each_sels, d, |l| l.push(Sel::Field(a.clone())));
                    "copy a field elsewhere"
                }
                3 => {
                    let v0 = any_val(s, sch, d, true);
                    nth!(s, i, each_sels, d, |l| {
                        if let Some(Sel::Field(f)) = l.iter().find(|x| matches!(x, Sel::Field(_))).cloned() {
                            let mut f = f;
                            if let Some(a) = f.args.first_mut() {
                                a.1 = v0.clone();
                            } else {
                                f.alias = Some(f.key().to_string());
                                f.name = p.fields[0].clone();
                                f.sel = None;
                            }
                            l.push(Sel::Field(f));
                        }
                    });
                    "repeat a field with other arguments"
                }
                _ => {
                    let k = a.key().to_string();
                    let t = s.pick(&p.composites).clone();
                    let fs: Vec<&FieldDef> = sch.fields[&t].iter().filter(|f| !f.name.starts_with("__s")).collect();
                    let f = *s.pick(&fs);
                    let mut args = vec![];
                    for x in &f.args {
                        if x.required() {
                            args.push((x.name.clone(), value(s, &sch.types, &x.ty, 2, true, false, &mut gen_schema::no_var)));
                        }
                    }
                    let tn = |alias: Option<String>| Sel::Field(Field { alias, name: "__typename".into(), args: vec![], dirs: vec![], sel: None });
                    let sel = sch.is_composite(f.ty.base()).then(|| vec![tn(None)]);
                    let x = Sel::Inline(Some(t), vec![], vec![Sel::Field(Field { alias: Some(k), name: f.name.clone(), args, dirs: vec![], sel })]);
                    nth!(s, i, each_sels, d, |l| l.push(x.clone()));
                    "add a guarded field under a used key"
                }
            }
        }
        _ => {
            let i = s.below(d.ops.len());
            match s.below(6) {
                0 => {
                    d.ops[i].name = None;
                    "drop an operation name"
                }
                1 => {
                    let j = s.below(d.ops.len());
                    d.ops[i].name = d.ops[j].name.clone();
                    "take another operation's name"
                }
                2 => {
                    let mut o = d.ops[i].clone();
                    if s.bool() {
                        o.name = Some("Fresh".into());
                        o.short = false;
                    }
                    d.ops.push(o);
                    "copy an operation"
                }
                3 => {
                    d.ops[i].kind = *s.pick(&OpKind::ALL);
                    d.ops[i].short = false;
                    "change an operation's kind"
                }
                4 => {
                    let x = d.ops[i].sel[0].clone();
                    let mut o = d.ops[i].clone();
                    o.kind = OpKind::Subscription;
                    o.short = false;
                    if o.name.is_none() {
                        o.name = Some("Sub".into());
                    }
                    if s.bool() {
                        o.sel.push(x);
                    } else {
                        o.sel = vec![Sel::Inline(None, vec![], o.sel)];
                    }
                    d.ops[i] = o;
                    "make it a subscription"
                }
                _ => {
                    if let Some(root) = sch.roots.get(&OpKind::Subscription) {
                        let fs: Vec<&FieldDef> = sch.fields[root].iter().collect();
                        let mk = |s: &mut Src, alias: Option<String>| {
                            let f = *s.pick(&fs);
                            let args = f.args.iter().filter(|a| a.required()).map(|x| (x.name.clone(), value(s, &sch.types, &x.ty, 2, true, false, &mut gen_schema::no_var))).collect();
                            let sel = sch.is_composite(f.ty.base()).then(|| vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: None })]);
                            Sel::Field(Field { alias, name: f.name.clone(), args, dirs: vec![], sel })
                        };
                        let a = if s.bool() { Some("k".to_string()) } else { None };
                        let mut sel = vec![mk(s, a)];
                        match s.below(5) {
                            0 => sel.push(sel[0].clone()),
                            1 => {
                                let x = mk(s, None);
                                sel.push(x)
                            }
                            2 => {
                                let x = mk(s, None);
                                sel = vec![Sel::Inline(Some(root.clone()), vec![], vec![Sel::Inline(None, vec![], vec![x, sel[0].clone()])])]
                            }
                            3 => {
                                let x = mk(s, None);
                                d.frags.push(Frag { name: "SubF".into(), on: root.clone(), dirs: vec![], sel: vec![x] });
                                sel.push(Sel::Spread("SubF".into(), vec![]));
                            }
                            _ => {
                                let x = sel[0].clone();
                                d.frags.push(Frag { name: "SubF".into(), on: root.clone(), dirs: vec![], sel: vec![x.clone()] });
                                sel = vec![Sel::Spread("SubF".into(), vec![]), x];
                            }
                        }
                        d.ops.push(Op { kind: OpKind::Subscription, short: false, name: Some("SubOp".into()), vars: vec![], dirs: vec![], sel });
                    }
                    "add a subscription"
                }
            }
        }
    }
}

//! C33: errors point at what they complain about. The positions come from this harness's own
//! rendering of the document, not from the spans of the parser.
use super::exec::{self, key, parse_doc, tidy, with_schema};
use super::syntax::positions;
use crate::ast::*;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::refparse as rp;
use crate::render::{self, Id, Out};
use crate::src::Src;
use crate::tangle;
use crate::valid::{self, plain};
use bluejay_validator::executable::document::BuiltinRulesValidator;
use bluejay_validator::executable::Cache;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// where the nodes of a document stand in its text
struct Map {
    at: HashMap<Id, Vec<usize>>,
    sets: Vec<(usize, HashSet<usize>)>,
}

fn id(s: &str) -> (char, usize) {
    (s.chars().next().unwrap(), usize::from_str_radix(&s[1..], 16).unwrap())
}

impl Map {
    fn of(&self, t: char, a: usize, p: &str) -> Vec<usize> {
        self.at.get(&(t, a, p.to_string())).cloned().unwrap_or_default()
    }
    /// the acceptable positions of a located fault
    fn anchors(&self, k: &str) -> Vec<usize> {
        let mut parts = k.split('\0');
        let text = parts.next().unwrap();
        let ids: Vec<(char, usize)> = parts.map(id).collect();
        if ids.len() == 2 {
            // fields in conflict: a selection set that contains both
            return self.sets.iter().filter(|(_, f)| ids.iter().all(|i| f.contains(&i.1))).map(|s| s.0).collect();
        }
        let Some(&(t, a)) = ids.first() else { return vec![] };
        if let Some(rest) = text.strip_prefix("value ") {
            let mut w = rest.splitn(3, ' ');
            let (kind, path, detail) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap());
            return match kind {
                "NoField" => self.of(t, a, &format!("{}|{detail}", path.strip_suffix(&format!("/{detail}")).unwrap_or("?"))),
                "Dup" => self.of(t, a, &format!("{path}|{detail}")),
                _ => self.of(t, a, &format!("{path}|")),
            };
        }
        self.of(t, a, "")
    }
}

/// every selection set with the fields in it and below it, through fragments
fn sets(d: &Doc, at: &HashMap<Id, Vec<usize>>) -> Vec<(usize, HashSet<usize>)> {
    fn all<'a>(d: &'a Doc, l: &'a [Sel], out: &mut HashSet<usize>, seen: &mut HashSet<&'a str>) {
        for s in l {
            match s {
                Sel::Field(f) => {
                    out.insert(f as *const Field as usize);
                    if let Some(l) = &f.sel {
                        all(d, l, out, seen)
                    }
                }
                Sel::Spread(n, _) => {
                    if seen.insert(n) {
                        d.frags.iter().filter(|f| f.name == *n).for_each(|f| all(d, &f.sel, out, seen))
                    }
                }
                Sel::Inline(_, _, l) => all(d, l, out, seen),
            }
        }
    }
    fn each<'a>(l: &'a [Sel], out: &mut Vec<&'a [Sel]>) {
        out.push(l);
        for s in l {
            match s {
                Sel::Field(Field { sel: Some(l), .. }) | Sel::Inline(_, _, l) => each(l, out),
                _ => {}
            }
        }
    }
    let mut l = vec![];
    d.ops.iter().for_each(|o| each(&o.sel, &mut l));
    d.frags.iter().for_each(|f| each(&f.sel, &mut l));
    l.into_iter()
        .map(|l| {
            let mut f = HashSet::new();
            all(d, l, &mut f, &mut HashSet::new());
            let at = at.get(&('L', l.as_ptr() as usize, String::new())).map_or(usize::MAX, |v| v[0]);
            (at, f)
        })
        .collect()
}

/// the message names what it is about
fn names_it(k: &str, msg: &str) -> CaseResult {
    let w: Vec<&str> = k.split(' ').collect();
    let names: Vec<&str> = match w[0] {
        "anon" | "subscription" | "conflict" | "cycle" | "types" | "names" | "args" => vec![],
        "root" => vec![w[1]],
        "value" if w[1] == "Custom" => vec![],
        "value" | "missing-arg" => w.last().unwrap().split(',').collect(),
        "frag-type" | "frag-not-composite" => vec![],
        "undefined" | "unused" | "repeated" => vec![w[1]],
        "nonleaf" => vec![w[2]],
        _ => w[1..].to_vec(),
    };
    match names.iter().map(|n| n.trim_start_matches('@')).find(|n| !msg.contains(n)) {
        Some(n) => Err(format!("the message of {k:?} does not name {n:?}: {msg:?}")),
        None => Ok(()),
    }
}

fn c33(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let tangled = s.chance(1, 6);
    let (sdl, m, mut d, g, n);
    if tangled {
        ctx.tag("tangle");
        let wild = *s.pick(&[60, 12, 4]);
        (sdl, m, d) = tangle::tangle(s, tangle::PLAIN, wild);
        (g, n) = (*s.pick(&["C16", "any"]), s.below(3));
    } else {
        (sdl, m) = exec::gen_sch(s);
        g = *s.pick(&["C11", "C12", "C13", "C14", "C15", "C16", "C17", "any", "any"]);
        let o = DOpts { collide: g == "C16" && s.chance(2, 3), ..Default::default() };
        d = gen_doc::doc(s, &m, o);
        n = s.range(1, 6);
    }
    for _ in 0..n {
        gen_doc::corrupt(&mut d, s, &m, g);
    }
    tidy(&mut d);
    let layout = s.weighted(&[1, 1, 2]);
    let mut out = Out::new(if layout == 2 { Some(&mut *s) } else { None });
    out.marks = Some(vec![]);
    out.doc(&d);
    let (toks, marks) = (out.toks, out.marks.unwrap());
    let t = match layout {
        0 => render::join_min(&toks),
        1 => render::join_space(&toks),
        _ => render::join_random(&toks, s),
    };
    ctx.show("schema", &render::sdoc_text(&sdl));
    ctx.show("document", &t);
    let lexed = rp::lex(&t, false).map_err(|e| format!("harness: {e:?}"))?;
    if lexed.len() != toks.len() {
        return Err(format!("harness: {} tokens read as {}", toks.len(), lexed.len()));
    }
    let mut map = Map { at: HashMap::new(), sets: vec![] };
    for (i, k) in marks {
        map.at.entry(i).or_default().push(lexed[k].start);
    }
    map.sets = sets(&d, &map.at);
    let want = valid::validate_located(&m, &d);

    // what is reported, where
    let pos = positions(&t);
    let got: Vec<(String, usize, String)> = with_schema(&render::sdoc_text(&sdl), |sd| {
        let doc = parse_doc(&t)?;
        let cache = Cache::new(&doc, sd);
        let mut l = vec![];
        for e in BuiltinRulesValidator::validate(&doc, sd, &cache) {
            let k = key(&e).1;
            let e = bluejay_parser::Error::from(e);
            names_it(&k, e.message())?;
            for e in bluejay_parser::Error::into_graphql_errors(&t, [e]) {
                if e.locations.len() != 1 {
                    return Err(format!("{} locations: {}", e.locations.len(), e.message));
                }
                let p = (e.locations[0].line, e.locations[0].col);
                let p = *pos.get(&p).ok_or_else(|| format!("location {p:?} is no position of the document: {}", e.message))?;
                l.push((k.clone(), p, e.message.to_string()));
            }
        }
        Ok(l)
    })?;

    let by_text = |l: &valid::Keys| {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (_, k) in l {
            m.entry(plain(k).to_string()).or_default().push(k.clone());
        }
        m
    };
    let may = by_text(&want.may);
    for (k, p, msg) in &got {
        let ok: BTreeSet<usize> = may.get(k).into_iter().flatten().flat_map(|k| map.anchors(k)).collect();
        if !ok.contains(p) {
            let show = |p: &usize| format!("{p} ({:?})", t[*p..].chars().take(20).collect::<String>());
            return Err(format!("{k}: reported at {} ({msg}); the fault is at {:?}", show(p), ok.iter().map(show).collect::<Vec<_>>()));
        }
    }
    let mut located = 0;
    let mut repeated = false;
    for (_, k) in &want.must {
        if !k.contains('\0') {
            continue;
        }
        located += 1;
        let a = map.anchors(k);
        let text = plain(k);
        if a.is_empty() {
            return Err(format!("harness: no position for {k:?}"));
        }
        repeated |= may[text].len() > 1;
        let dup = text.starts_with("value Dup");
        let there = |a: &usize| got.iter().any(|(k, p, _)| k == text && p == a);
        if !(if dup { a.iter().all(there) } else { a.iter().any(there) }) {
            let show = |p: &usize| format!("{p} ({:?})", t[*p..].chars().take(20).collect::<String>());
            return Err(format!("{text}: not reported at {:?}; reported: {got:?}", a.iter().map(show).collect::<Vec<_>>()));
        }
    }
    ctx.nontrivial = located > 0;
    ctx.tag_if(repeated, "one fault at several nodes");
    ctx.tag_if(located > 3, "more than three faults");
    ctx.tag(["no blanks", "indented", "random layout"][layout]);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        quick: 100_000,
        thorough: 2_000_000,
        rule: "at least one fault whose node is known; distinct = distinct (schema, document) texts",
        case: c33,
        assumptions: &["positions of nodes come from the harness's own rendering and lexer", "any token that begins the node or names it is accepted as its position"],
    }]
}

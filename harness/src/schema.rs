//! Reference schema resolution, written from the type-system section of the specification.
use crate::ast::*;
use crate::refparse::parse_sdoc;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

const BUILTIN: &str = r#"
type __Schema { description: String types: [__Type!]! queryType: __Type! mutationType: __Type subscriptionType: __Type directives: [__Directive!]! }
type __Type {
  kind: __TypeKind! name: String description: String
  fields(includeDeprecated: Boolean = false): [__Field!] interfaces: [__Type!] possibleTypes: [__Type!]
  enumValues(includeDeprecated: Boolean = false): [__EnumValue!] inputFields(includeDeprecated: Boolean = false): [__InputValue!]
  ofType: __Type specifiedByURL: String
}
type __Field { name: String! description: String args(includeDeprecated: Boolean = false): [__InputValue!]! type: __Type! isDeprecated: Boolean! deprecationReason: String }
type __InputValue { name: String! description: String type: __Type! defaultValue: String }
type __EnumValue { name: String! description: String isDeprecated: Boolean! deprecationReason: String }
type __Directive { name: String! description: String locations: [__DirectiveLocation!]! args(includeDeprecated: Boolean = false): [__InputValue!]! isRepeatable: Boolean! }
enum __TypeKind { SCALAR OBJECT INTERFACE UNION ENUM INPUT_OBJECT LIST NON_NULL }
enum __DirectiveLocation {
  QUERY MUTATION SUBSCRIPTION FIELD FRAGMENT_DEFINITION FRAGMENT_SPREAD INLINE_FRAGMENT VARIABLE_DEFINITION
  SCHEMA SCALAR OBJECT FIELD_DEFINITION ARGUMENT_DEFINITION INTERFACE UNION ENUM ENUM_VALUE INPUT_OBJECT INPUT_FIELD_DEFINITION
}
directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @deprecated(reason: String = "No longer supported") on FIELD_DEFINITION | ARGUMENT_DEFINITION | INPUT_FIELD_DEFINITION | ENUM_VALUE
directive @specifiedBy(url: String!) on SCALAR
directive @oneOf on INPUT_OBJECT
type Meta { __typename: String! __schema: __Schema! __type(name: String!): __Type }
"#;

pub const SCALARS: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];

pub struct Builtin {
    pub types: Vec<TypeDef>,
    pub dirs: Vec<DirDef>,
    pub typename: FieldDef,
    pub schema: FieldDef,
    pub type_: FieldDef,
}

pub fn builtin() -> &'static Builtin {
    static B: OnceLock<Builtin> = OnceLock::new();
    B.get_or_init(|| {
        let d = parse_sdoc(BUILTIN, false).expect("builtin SDL");
        let Kind::Object { fields, .. } = &d.ty("Meta").unwrap().kind else { unreachable!() };
        Builtin {
            types: d.types().filter(|t| t.name != "Meta").cloned().collect(),
            dirs: d.dirdefs().cloned().collect(),
            typename: fields[0].clone(),
            schema: fields[1].clone(),
            type_: fields[2].clone(),
        }
    })
}

#[derive(Clone, Debug)]
pub struct Schema {
    pub types: BTreeMap<String, TypeDef>,
    pub dirs: BTreeMap<String, DirDef>,
    /// the names defined by the document (the others are built in)
    pub user_types: BTreeSet<String>,
    pub user_dirs: BTreeSet<String>,
    pub roots: BTreeMap<OpKind, String>,
    pub desc: Option<String>,
    pub schema_dirs: Vec<Dir>,
    /// selectable fields, meta fields included, of every composite type
    pub fields: BTreeMap<String, Vec<FieldDef>>,
}

impl Schema {
    pub fn resolve(doc: &SDoc) -> Result<Schema, String> {
        let b = builtin();
        let mut types = BTreeMap::new();
        let mut user_types = BTreeSet::new();
        for t in &b.types {
            types.insert(t.name.clone(), t.clone());
        }
        for t in doc.types() {
            if types.insert(t.name.clone(), t.clone()).is_some() {
                return Err(format!("duplicate type {}", t.name));
            }
            user_types.insert(t.name.clone());
        }
        for n in SCALARS {
            types.entry(n.to_string()).or_insert(TypeDef { desc: None, name: n.into(), dirs: vec![], kind: Kind::Scalar });
        }
        let mut dirs = BTreeMap::new();
        let mut user_dirs = BTreeSet::new();
        for d in doc.dirdefs() {
            if dirs.insert(d.name.clone(), d.clone()).is_some() {
                return Err(format!("duplicate directive {}", d.name));
            }
            user_dirs.insert(d.name.clone());
        }
        for d in &b.dirs {
            dirs.entry(d.name.clone()).or_insert(d.clone());
        }
        let schemas: Vec<&SchemaDef> = doc.defs.iter().filter_map(|d| if let SDef::Schema(s) = d { Some(s) } else { None }).collect();
        let mut s = Schema { types, dirs, user_types, user_dirs, roots: BTreeMap::new(), desc: None, schema_dirs: vec![], fields: BTreeMap::new() };
        for t in s.types.values() {
            match &t.kind {
                Kind::Object { fields, .. } | Kind::Interface { fields, .. } => {
                    let mut v = vec![b.typename.clone()];
                    v.extend(fields.iter().cloned());
                    s.fields.insert(t.name.clone(), v);
                }
                Kind::Union { .. } => {
                    s.fields.insert(t.name.clone(), vec![b.typename.clone()]);
                }
                _ => {}
            }
        }
        // every reference exists and is of the right kind
        let known_dirs = |ds: &[Dir]| -> Result<(), String> {
            match ds.iter().find(|d| !s.dirs.contains_key(&d.name)) {
                Some(d) => Err(format!("unknown directive {}", d.name)),
                None => Ok(()),
            }
        };
        let input_vals = |l: &[InputVal]| -> Result<(), String> {
            for v in l {
                match s.types.get(v.ty.base()) {
                    None => return Err(format!("unknown type {}", v.ty.base())),
                    Some(_) if !s.is_input(v.ty.base()) => return Err(format!("not an input type {}", v.ty.base())),
                    _ => {}
                }
                known_dirs(&v.dirs)?;
            }
            Ok(())
        };
        for t in s.types.values() {
            known_dirs(&t.dirs)?;
            for f in s.fields.get(&t.name).into_iter().flatten() {
                match s.types.get(f.ty.base()) {
                    None => return Err(format!("unknown type {}", f.ty.base())),
                    Some(TypeDef { kind: Kind::Input { .. }, .. }) => return Err(format!("not an output type {}", f.ty.base())),
                    _ => {}
                }
                input_vals(&f.args)?;
                known_dirs(&f.dirs)?;
            }
            match &t.kind {
                Kind::Object { ifaces, .. } | Kind::Interface { ifaces, .. } => {
                    for i in ifaces {
                        match s.types.get(i).map(|t| &t.kind) {
                            Some(Kind::Interface { .. }) => {}
                            _ => return Err(format!("not an interface {i}")),
                        }
                    }
                }
                Kind::Union { members } => {
                    for i in members {
                        match s.types.get(i).map(|t| &t.kind) {
                            Some(Kind::Object { .. }) => {}
                            _ => return Err(format!("not an object {i}")),
                        }
                    }
                }
                Kind::Enum { values } => {
                    for v in values {
                        known_dirs(&v.dirs)?
                    }
                }
                Kind::Input { fields } => input_vals(fields)?,
                Kind::Scalar => {}
            }
        }
        for d in s.dirs.values() {
            input_vals(&d.args)?;
        }
        for sd in &schemas {
            known_dirs(&sd.dirs)?;
        }
        let is_obj = |n: &str| matches!(s.types.get(n).map(|t| &t.kind), Some(Kind::Object { .. }));
        let mut roots = BTreeMap::new();
        let (mut desc, mut schema_dirs) = (None, vec![]);
        match schemas.len() {
            0 => {
                for k in OpKind::ALL {
                    if s.types.contains_key(k.default_name()) {
                        if !is_obj(k.default_name()) {
                            return Err(format!("root type {} is not an object", k.default_name()));
                        }
                        roots.insert(k, k.default_name().to_string());
                    }
                }
            }
            1 => {
                for (k, n) in &schemas[0].ops {
                    if !is_obj(n) {
                        return Err(format!("root type {n} is not an object"));
                    }
                    if roots.insert(*k, n.clone()).is_some() {
                        return Err("duplicate root operation".into());
                    }
                }
                desc = schemas[0].desc.clone();
                schema_dirs = schemas[0].dirs.clone();
            }
            _ => return Err("several schema definitions".into()),
        }
        let Some(q) = roots.get(&OpKind::Query).cloned() else { return Err("no query root".into()) };
        s.fields.get_mut(&q).unwrap().extend([b.schema.clone(), b.type_.clone()]);
        s.roots = roots;
        s.desc = desc;
        s.schema_dirs = schema_dirs;
        Ok(s)
    }

    pub fn is_builtin_scalar(&self, n: &str) -> bool {
        SCALARS.contains(&n) && !self.user_types.contains(n)
    }
    pub fn kind(&self, n: &str) -> Option<&Kind> {
        self.types.get(n).map(|t| &t.kind)
    }
    pub fn is_input(&self, n: &str) -> bool {
        matches!(self.kind(n), Some(Kind::Scalar | Kind::Enum { .. } | Kind::Input { .. }))
    }
    pub fn is_composite(&self, n: &str) -> bool {
        matches!(self.kind(n), Some(Kind::Object { .. } | Kind::Interface { .. } | Kind::Union { .. }))
    }
    pub fn is_leaf(&self, n: &str) -> bool {
        matches!(self.kind(n), Some(Kind::Scalar | Kind::Enum { .. }))
    }
    pub fn is_object(&self, n: &str) -> bool {
        matches!(self.kind(n), Some(Kind::Object { .. }))
    }
    pub fn field(&self, ty: &str, f: &str) -> Option<&FieldDef> {
        self.fields.get(ty)?.iter().find(|x| x.name == f)
    }
    pub fn possible(&self, n: &str) -> BTreeSet<String> {
        match self.kind(n) {
            Some(Kind::Object { .. }) => [n.to_string()].into(),
            Some(Kind::Union { members }) => members.iter().cloned().collect(),
            Some(Kind::Interface { .. }) => self
                .types
                .values()
                .filter(|t| matches!(&t.kind, Kind::Object { ifaces, .. } if ifaces.iter().any(|i| i == n)))
                .map(|t| t.name.clone())
                .collect(),
            _ => BTreeSet::new(),
        }
    }
    pub fn overlap(&self, a: &str, b: &str) -> bool {
        let x = self.possible(a);
        self.possible(b).iter().any(|t| x.contains(t))
    }
    pub fn composites(&self) -> Vec<String> {
        self.types.values().filter(|t| self.is_composite(&t.name)).map(|t| t.name.clone()).collect()
    }
    pub fn has_dir(ds: &[Dir], n: &str) -> bool {
        ds.iter().any(|d| d.name == n)
    }
    pub fn is_one_of(&self, n: &str) -> bool {
        self.types.get(n).is_some_and(|t| Self::has_dir(&t.dirs, "oneOf"))
    }
}

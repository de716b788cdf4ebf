//! Reference AST, independent of bluejay's.

#[derive(Clone, Debug)]
pub enum Val {
    Var(String),
    Int(i32),
    Float(f64),
    Str(String),
    Bool(bool),
    Null,
    Enum(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Var(a), Val::Var(b)) => a == b,
            (Val::Int(a), Val::Int(b)) => a == b,
            (Val::Float(a), Val::Float(b)) => a.to_bits() == b.to_bits(),
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Null, Val::Null) => true,
            (Val::Enum(a), Val::Enum(b)) => a == b,
            (Val::List(a), Val::List(b)) => a == b,
            (Val::Obj(a), Val::Obj(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Named(String, bool),
    List(Box<Ty>, bool),
}

impl Ty {
    pub fn named(n: &str) -> Ty {
        Ty::Named(n.into(), false)
    }
    pub fn req(self) -> Ty {
        match self {
            Ty::Named(n, _) => Ty::Named(n, true),
            Ty::List(t, _) => Ty::List(t, true),
        }
    }
    pub fn opt(self) -> Ty {
        match self {
            Ty::Named(n, _) => Ty::Named(n, false),
            Ty::List(t, _) => Ty::List(t, false),
        }
    }
    pub fn list(self) -> Ty {
        Ty::List(Box::new(self), false)
    }
    pub fn is_req(&self) -> bool {
        match self {
            Ty::Named(_, r) | Ty::List(_, r) => *r,
        }
    }
    pub fn base(&self) -> &str {
        match self {
            Ty::Named(n, _) => n,
            Ty::List(t, _) => t.base(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ty::Named(n, r) => format!("{n}{}", if *r { "!" } else { "" }),
            Ty::List(t, r) => format!("[{}]{}", t.show(), if *r { "!" } else { "" }),
        }
    }
}

pub type Args = Vec<(String, Val)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Dir {
    pub name: String,
    pub args: Args,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}

impl OpKind {
    pub const ALL: [OpKind; 3] = [OpKind::Query, OpKind::Mutation, OpKind::Subscription];
    pub fn kw(self) -> &'static str {
        match self {
            OpKind::Query => "query",
            OpKind::Mutation => "mutation",
            OpKind::Subscription => "subscription",
        }
    }
    pub fn default_name(self) -> &'static str {
        match self {
            OpKind::Query => "Query",
            OpKind::Mutation => "Mutation",
            OpKind::Subscription => "Subscription",
        }
    }
    pub fn loc(self) -> &'static str {
        match self {
            OpKind::Query => "QUERY",
            OpKind::Mutation => "MUTATION",
            OpKind::Subscription => "SUBSCRIPTION",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct VarDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub alias: Option<String>,
    pub name: String,
    pub args: Args,
    pub dirs: Vec<Dir>,
    pub sel: Option<Vec<Sel>>,
}

impl Field {
    pub fn key(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Field(Field),
    Spread(String, Vec<Dir>),
    Inline(Option<String>, Vec<Dir>, Vec<Sel>),
}

impl Sel {
    pub fn dirs(&self) -> &Vec<Dir> {
        match self {
            Sel::Field(f) => &f.dirs,
            Sel::Spread(_, d) => d,
            Sel::Inline(_, d, _) => d,
        }
    }
    pub fn dirs_mut(&mut self) -> &mut Vec<Dir> {
        match self {
            Sel::Field(f) => &mut f.dirs,
            Sel::Spread(_, d) => d,
            Sel::Inline(_, d, _) => d,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub kind: OpKind,
    /// `{ .. }` shorthand
    pub short: bool,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub dirs: Vec<Dir>,
    pub sel: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frag {
    pub name: String,
    pub on: String,
    pub dirs: Vec<Dir>,
    pub sel: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub ops: Vec<Op>,
    pub frags: Vec<Frag>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct InputVal {
    pub desc: Option<String>,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}

impl InputVal {
    pub fn required(&self) -> bool {
        self.ty.is_req() && self.default.is_none()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FieldDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub ty: Ty,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumVal {
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Scalar,
    Object { ifaces: Vec<String>, fields: Vec<FieldDef> },
    Interface { ifaces: Vec<String>, fields: Vec<FieldDef> },
    Union { members: Vec<String> },
    Enum { values: Vec<EnumVal> },
    Input { fields: Vec<InputVal> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct TypeDef {
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DirDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub repeatable: bool,
    pub locs: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SchemaDef {
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub ops: Vec<(OpKind, String)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SDef {
    Schema(SchemaDef),
    Directive(DirDef),
    Type(TypeDef),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SDoc {
    pub defs: Vec<SDef>,
}

impl SDoc {
    pub fn types(&self) -> impl Iterator<Item = &TypeDef> {
        self.defs.iter().filter_map(|d| if let SDef::Type(t) = d { Some(t) } else { None })
    }
    pub fn types_mut(&mut self) -> impl Iterator<Item = &mut TypeDef> {
        self.defs.iter_mut().filter_map(|d| if let SDef::Type(t) = d { Some(t) } else { None })
    }
    pub fn dirdefs(&self) -> impl Iterator<Item = &DirDef> {
        self.defs.iter().filter_map(|d| if let SDef::Directive(t) = d { Some(t) } else { None })
    }
    pub fn schema(&self) -> Option<&SchemaDef> {
        self.defs.iter().find_map(|d| if let SDef::Schema(t) = d { Some(t) } else { None })
    }
    pub fn ty(&self, n: &str) -> Option<&TypeDef> {
        self.types().find(|t| t.name == n)
    }
}

pub const EXEC_LOCS: [&str; 8] = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"];
pub const TYPE_LOCS: [&str; 11] = ["SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"];

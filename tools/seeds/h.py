R="bluejay-validator/src/executable/document/rules/"
O="bluejay-validator/src/executable/operation/"
SAME=r'''
fn report(sdl: &str, doc: &str) -> String {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    let ed = ExecutableDocument::parse(doc).unwrap();
    let cache = Cache::new(&ed, &sd);
    let errs: Vec<bluejay_parser::Error> = BuiltinRulesValidator::validate(&ed, &sd, &cache).map(Into::into).collect();
    format!("{:?}", bluejay_parser::Error::into_graphql_errors(doc, errs))
}
fn stable(sdl: &str, doc: &str) {
    let first = report(sdl, doc);
    assert!(first.len() > 2);
    for _ in 0..40 {
        assert_eq!(report(sdl, doc), first);
    }
}
'''
CALLS=r'''
use bluejay_core::definition::{FieldDefinition, InputValueDefinition, SchemaDefinition as CoreSchema, TypeDefinitionReference};
use bluejay_core::executable::{ExecutableDocument as CoreDoc, Field, VariableDefinition};
use bluejay_core::Argument;
use bluejay_validator::executable::operation::{Analyzer, Orchestrator, VariableValues, Visitor};
struct Calls(Vec<String>);
impl<'a, E: CoreDoc, S: CoreSchema, V: VariableValues> Visitor<'a, E, S, V> for Calls {
    type ExtraInfo = ();
    fn new(_: &'a E::OperationDefinition, _: &'a S, _: &'a V, _: &'a Cache<'a, E, S>, _: ()) -> Self { Calls(vec![]) }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, _: &'a S::InputValueDefinition) { self.0.push(format!("{}:", a.name())); }
    fn visit_field(&mut self, f: &'a E::Field, _: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, i: bool) { self.0.push(format!("{}.{}{}", t.name(), f.response_name(), if i { "" } else { "-" })); }
    fn leave_field(&mut self, f: &'a E::Field, _: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, i: bool) { self.0.push(format!("/{}.{}{}", t.name(), f.response_name(), if i { "" } else { "-" })); }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) { self.0.push(format!("${}", v.variable())); }
}
impl<'a, E: CoreDoc, S: CoreSchema, V: VariableValues> Analyzer<'a, E, S, V> for Calls {
    type Output = String;
    fn into_output(self) -> String { self.0.join(" ") }
}
fn calls(sdl: &str, doc: &str, vars: serde_json::Value) -> String {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    let ed = ExecutableDocument::parse(doc).unwrap();
    let cache = Cache::new(&ed, &sd);
    let vars = vars.as_object().unwrap().clone();
    let one = Orchestrator::<_, _, _, Calls>::analyze(&ed, &sd, None, &vars, &cache, ()).unwrap();
    let (a, b, c) = Orchestrator::<_, _, _, (Calls, Calls, Calls)>::analyze(&ed, &sd, None, &vars, &cache, ((), (), ())).unwrap();
    assert_eq!([&a, &b, &c], [&one; 3]);
    one
}
'''
SEEDS=[
dict(id="c37-duplicates-hashed",property="C37",
 edits=[("bluejay-validator/src/utils.rs",'''use std::collections::BTreeMap;
''','''use std::collections::HashMap;
'''),("bluejay-validator/src/utils.rs",'''        BTreeMap::new(),
        |mut indexed: BTreeMap<K, Vec<T>>, el: T| {''','''        HashMap::new(),
        |mut indexed: HashMap<K, Vec<T>>, el: T| {''')],
 needs="several names that are each used twice in the same place",
 breaks="duplicates are reported in an order that differs from run to run",
 main=SAME+r'''
fn main() {
    stable("type Query { a: Int }", "query($a: Int, $a: Int, $b: Int, $b: Int, $c: Int, $c: Int, $d: Int, $d: Int) { a }");
    stable("type Query { a(x: Int, y: Int, z: Int): Int }", "{ a(x: 1, x: 1, y: 1, y: 1, z: 1, z: 1) }");
}
'''),
dict(id="c37-unused-hashed",property="C37",
 edits=[(R+"fragments_must_be_used.rs",'''use std::collections::BTreeMap;
''','''use std::collections::HashMap;
'''),(R+"fragments_must_be_used.rs",'''    unused_fragment_definitions: BTreeMap<&'a str''','''    unused_fragment_definitions: HashMap<&'a str'''),
 (R+"fragments_must_be_used.rs",'''BTreeMap::from_iter(''','''HashMap::from_iter('''),
 (R+"fragments_must_be_used.rs",'''std::collections::btree_map::IntoValues''','''std::collections::hash_map::IntoValues''')],
 needs="several fragments that are not used",
 breaks="they are reported in an order that differs from run to run",
 main=SAME+r'''
fn main() {
    stable("type Query { a: Int }", "{ a } fragment A on Query { a } fragment B on Query { a } fragment C on Query { a } fragment D on Query { a }");
}
'''),
dict(id="c38-tuple-forgets-variables",property="C38",
 edits=[(O+"visitor.rs",'''                fn visit_variable_definition(&mut self, variable_definition: &'a E::VariableDefinition) {
                    #(self.N.visit_variable_definition(variable_definition);)*
                }

''','')],
 needs="an analyzer that looks at variable definitions, in a tuple with others",
 breaks="in a tuple, analyzers are not shown the variable definitions",
 main=CALLS+r'''
fn main() {
    let s = "type Query { a(x: Int): Int }";
    assert_eq!(calls(s, "query($x: Int) { a(x: $x) }", serde_json::json!({})), "Query.a x: /Query.a $x");
}
'''),
dict(id="c38-spread-skipped",property="C38",
 edits=[(O+"orchestrator.rs",'''        let included = included
            && fragment_spread.directives().map_or(true, |directives| {
                self.evaluate_selection_inclusion(directives)
            });
''','''        let included = included
            && fragment_spread.directives().map_or(true, |directives| {
                self.evaluate_selection_inclusion(directives)
            });
        if !included {
            // nothing in there is part of the response
            return;
        }
''')],
 needs="a fragment that is spread where it is not included",
 breaks="the fields of the fragment are not shown at all",
 main=CALLS+r'''
fn main() {
    let s = "type Query { a: Query b: Int }";
    assert_eq!(calls(s, "{ ...F a { ...F @skip(if: true) } } fragment F on Query { b }", serde_json::json!({})), "Query.b /Query.b Query.a if: Query.b- /Query.b- /Query.a");
}
'''),
dict(id="c38-leave-early",property="C38",
 edits=[(O+"orchestrator.rs",'''        if let Some(selection_set) = field.selection_set() {
            if let Some(nested_type) = self
                .schema_definition
                .get_type_definition(field_definition.r#type().base_name())
            {
                self.visit_selection_set(selection_set, nested_type, included);
            }
        }

        self.visitor
            .leave_field(field, field_definition, owner_type, included);
''','''        let nested = field.selection_set().and_then(|selection_set| {
            self.schema_definition
                .get_type_definition(field_definition.r#type().base_name())
                .map(|nested_type| (selection_set, nested_type))
        });

        if let Some((selection_set, nested_type)) = nested {
            self.visit_selection_set(selection_set, nested_type, included);
            self.visitor
                .leave_field(field, field_definition, nested_type, included);
        } else {
            self.visitor
                .leave_field(field, field_definition, owner_type, included);
        }
''')],
 needs="an analyzer that looks at the type a field is selected on when leaving it",
 breaks="a field with selections is left on the type of the field rather than the type it is selected on",
 main=CALLS+r'''
fn main() {
    let s = "type Query { a: T } type T { b: Int }";
    assert_eq!(calls(s, "{ a { b } }", serde_json::json!({})), "Query.a T.b /T.b /Query.a");
}
'''),
dict(id="c38-inline-resets",property="C38",
 edits=[(O+"orchestrator.rs",'''        let included = included
            && inline_fragment.directives().map_or(true, |directives| {
                self.evaluate_selection_inclusion(directives)
            });
''','''        let included = inline_fragment
            .directives()
            .map_or(included, |directives| {
                self.evaluate_selection_inclusion(directives)
            });
''')],
 needs="an inline fragment that carries a directive, inside a field that is skipped",
 breaks="the fields of the inline fragment are shown as included",
 main=CALLS+r'''
fn main() {
    let s = "type Query { a: Query b: Int }";
    for i in ["...", "... @include(if: true)"] {
        let arg = if i == "..." { "" } else { "if: " };
        assert_eq!(calls(s, &format!("{{ a @skip(if: true) {{ {i} {{ b }} }} }}"), serde_json::json!({})), format!("if: Query.a- {arg}Query.b- /Query.b- /Query.a-"));
    }
}
'''),
dict(id="c39-list-prefix",property="C39",
 edits=[("bluejay-core/src/value.rs",'''if itertools::equal(l.iter().map(Value::as_ref), other_l.iter().map(Value::as_ref)))''','''if l.iter().zip(other_l.iter()).all(|(item, other_item)| item.as_ref() == other_item.as_ref()))''')],
 needs="two lists, one of which begins with the items of the other",
 breaks="a list equals a longer one that begins with its items",
 main=r'''
use bluejay_core::Value;
use bluejay_parser::ast::ConstValue;
fn eq(a: &str, b: &str) -> bool {
    let (a, b) = (ConstValue::parse(a).unwrap(), ConstValue::parse(b).unwrap());
    a.as_ref() == b.as_ref()
}
fn main() {
    assert!(eq("[1, 2]", "[1 2]") && !eq("[1]", "[1, 2]") && !eq("[1, 2]", "[1]") && !eq("[1]", "[2]"));
    assert!(!eq("{a: [[]]}", "{a: [[1]]}"));
}
'''),
dict(id="c39-arguments-subset",property="C39",
 edits=[("bluejay-core/src/argument.rs",'''        lhs == rhs
''','''        lhs.iter()
            .all(|(name, value)| rhs.get(name).map_or(false, |other| value == other))
''')],
 needs="two lists of arguments, one of which gives more",
 breaks="arguments are equivalent to others that give more",
 main=r'''
use bluejay_core::{executable::{Field, OperationDefinition, Selection, SelectionReference}, Arguments};
fn equivalent(a: &str, b: &str) -> bool {
    let t = format!("{{ f{a} g{b} }}");
    let d = ExecutableDocument::parse(&t).unwrap();
    let l: Vec<_> = d.operation_definitions()[0].as_ref().selection_set().iter().map(|s| match s.as_ref() { SelectionReference::Field(f) => f.arguments(), _ => panic!() }).collect();
    Arguments::equivalent(l[0], l[1])
}
fn main() {
    assert!(equivalent("(a: 1, b: 2)", "(b: 2, a: 1)") && equivalent("", ""));
    assert!(!equivalent("(a: 1, b: 2)", "(a: 1)"));
    assert!(!equivalent("(a: 1)", "(a: 1, b: 2)"));
    assert!(!equivalent("", "(b: 2)"));
}
'''),
dict(id="c39-inner-nullability",property="C39",
 edits=[("bluejay-core/src/executable/variable_type.rs",'''                inner.as_ref() == other_inner.as_ref() && required == other_required
''','''                inner.as_ref().unwrap_nullable() == other_inner.as_ref().unwrap_nullable()
                    && required == other_required
''')],
 needs="two list types whose items differ in nullability only",
 breaks="the types of two variables are equal although items may be null in one of them",
 main=r'''
use bluejay_core::executable::{OperationDefinition, VariableDefinition, VariableType};
fn eq(a: &str, b: &str) -> bool {
    let t = format!("query($a: {a}, $b: {b}) {{ a }}");
    let d = ExecutableDocument::parse(&t).unwrap();
    let o = &d.operation_definitions()[0];
    let l: Vec<_> = o.as_ref().variable_definitions().unwrap().iter().map(|v| v.r#type().as_ref()).collect();
    l[0] == l[1]
}
fn main() {
    assert!(eq("[A!]", "[A!]") && eq("[[A]!]", "[[A]!]"));
    assert!(!eq("[A]", "[A!]") && !eq("[[A]]", "[[A]!]") && !eq("[[A!]]", "[[A]]") && !eq("A", "A!"));
}
'''),
]
SEEDS=[s for s in SEEDS if s["breaks"]]

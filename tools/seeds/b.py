AN='''
use serde_json::{json, Map, Value as J};
use bluejay_validator::executable::operation::{analyzers::{self, *}, Orchestrator};
macro_rules! with {
    ($sdl:expr, $doc:expr, $vars:expr, |$ed:ident, $sd:ident, $cache:ident, $v:ident| $body:expr) => {{
        let dd: DefinitionDocument = DefinitionDocument::parse($sdl).unwrap();
        let $sd = SchemaDefinition::try_from(&dd).unwrap();
        let $ed = ExecutableDocument::parse($doc).unwrap();
        let $cache = Cache::new(&$ed, &$sd);
        let vars: J = $vars;
        let $v: Map<String, J> = vars.as_object().unwrap().clone();
        $body
    }};
}
'''
V="bluejay-validator/src/executable/"
SEEDS=[
dict(id="c21-excluded-spread",property="C21",
 edits=[(V+"operation/orchestrator.rs",
"""            self.currently_spread_fragments
                .remove(fragment_spread.name());""",
"""            if included {
                self.currently_spread_fragments
                    .remove(fragment_spread.name());
            }""")],
 needs="a fragment spread once under a condition that removes it and, later in the operation, once more where it is included",
 breaks="the second spread is taken for a cyclic one and its fields do not count",
 main=AN+r'''
fn depth(doc: &str, vars: J) -> usize {
    with!("type Query { a: Query b: Int }", doc, vars, |ed, sd, cache, v| Orchestrator::<_, _, _, QueryDepth>::analyze(&ed, &sd, None, &v, &cache, ()).unwrap())
}
fn main() {
    let d = "query($x: Boolean!) { ...F @include(if: $x) a { ...F } } fragment F on Query { a { b } }";
    assert_eq!(depth(d, json!({"x": true})), 3);
    assert_eq!(depth(d, json!({"x": false})), 3);
}
'''),
dict(id="c24-single-for-list",property="C24",
 edits=[(V+"operation/analyzers/deprecation.rs",
"""                _ => self.find_deprecations_for_value(inner_list_type, value, name),
            },""",
"""                ValueReference::Object(_) | ValueReference::Enum(_) => {
                    self.find_deprecations_for_value(inner_list_type, value, name)
                }
                _ => {}
            },""")],
 needs="a variable of a list-of-enum type supplied as a single JSON string",
 breaks="the deprecated value goes unreported though it is coerced to a list of one",
 main=AN+r'''
fn n(doc: &str, vars: J) -> usize {
    with!("enum E { A @deprecated B } type Query { a(e: [E]): Int }", doc, vars, |ed, sd, cache, v| Orchestrator::<_, _, _, Deprecation<_, _, _>>::analyze(&ed, &sd, None, &v, &cache, ()).unwrap().len())
}
fn main() {
    let d = "query($x: [E]) { a(e: $x) }";
    assert_eq!(n("{ a(e: A) }", json!({})), 1);
    assert_eq!(n(d, json!({"x": ["A"]})), 1);
    assert_eq!(n(d, json!({"x": "B"})), 0);
    assert_eq!(n(d, json!({"x": "A"})), 1);
}
'''),
dict(id="c20-null-without-type",property="C20",
 edits=[(V+"operation/analyzers/variable_values_are_valid.rs",
"""            Some((_, value)) => {
                if let Err(errors)""",
"""            Some((_, value)) if !value.as_ref().is_null() || variable_definition.default_value().is_none() => {
                if let Err(errors)"""),
 (V+"operation/analyzers/variable_values_are_valid.rs","use bluejay_core::executable::{ExecutableDocument, VariableDefinition};","use bluejay_core::executable::{ExecutableDocument, VariableDefinition};\nuse bluejay_core::Value;"),
 (V+"operation/analyzers/variable_values_are_valid.rs","            None => {\n                if variable_definition.is_required()","            _ => {\n                if variable_definition.is_required()")],
 needs="a required variable with a default that is explicitly given null",
 breaks="null is taken as not given and passes for a non-null variable",
 main=AN+r'''
fn n(doc: &str, vars: J) -> usize {
    with!("type Query { a(e: Int!): Int }", doc, vars, |ed, sd, cache, v| Orchestrator::<_, _, _, VariableValuesAreValid<_, _, _>>::analyze(&ed, &sd, None, &v, &cache, ()).unwrap().len())
}
fn main() {
    assert_eq!(n("query($x: Int! = 1) { a(e: $x) }", json!({})), 0);
    assert_eq!(n("query($x: Int! = 1) { a(e: $x) }", json!({"x": null})), 1);
}
'''),
dict(id="c22-shared-key-first-scope",property="C22",
 edits=[(V+"operation/analyzers/complexity_cost.rs",
"""                                if !child_scope.typed_selections.is_empty() {""",
"""                                if !child_scope.typed_selections.is_empty() && child_scope.cost >= base_cost {""")],
 needs="the same response key selected on an object type and on an interface of it, where the field costs differ and the cheaper one has sub-selections",
 breaks="the sub-selections of the cheaper field may be left out of the total",
 main=AN+r'''
fn cost(doc: &str) -> usize {
    with!("directive @cost(weight: String!) on FIELD_DEFINITION type Query { i: I } interface I { x: T @cost(weight: \"1\") } type A implements I { x: T @cost(weight: \"5\") } type T { t: T @cost(weight: \"7\") u: T @cost(weight: \"9\") v: Int }", doc, json!({}), |ed, sd, cache, v| Orchestrator::<_, _, _, ComplexityCost<_, _, _, analyzers::complexity_cost::RelayCostComputer<_, _, _>>>::analyze(&ed, &sd, None, &v, &cache, ()).unwrap())
}
fn main() {
    for _ in 0..40 {
        assert_eq!(cost("{ i { x { t { v } } ... on A { x { u { v } } } } }"), 1 + 5 + 7 + 9);
    }
}
'''),
dict(id="c23-list-in-list",property="C23",
 edits=[(V+"operation/analyzers/input_size.rs",
"""                        format!("{}.{}", argument_name, index),
                        item,
                    );
                })
            }
        }
        ValueReference::Object(obj) => {
            obj.iter().for_each(|(key, value)| {
                find_input_size_offenders_arguments""",
"""                        format!("{}.{}", argument_name, index),
                        item,
                    );
                })
            }
        }
        ValueReference::Object(obj) if obj.len() <= max_length => {
            obj.iter().for_each(|(key, value)| {
                find_input_size_offenders_arguments""")],
 needs="an input object literal with more fields than the limit that contains a list over the limit",
 breaks="the list is not reported",
 main=AN+r'''
fn n(doc: &str, max: usize) -> usize {
    with!("input O { l: [Int] b: Int c: Int } type Query { a(o: O): Int }", doc, json!({}), |ed, sd, cache, v| Orchestrator::<_, _, _, InputSize<_, _>>::analyze(&ed, &sd, None, &v, &cache, max).unwrap().len())
}
fn main() {
    assert_eq!(n("{ a(o: { l: [1, 2, 3] b: 1 }) }", 2), 1);
    assert_eq!(n("{ a(o: { b: 1 l: [1, 2, 3] c: 1 }) }", 2), 1);
}
'''),
dict(id="c25-name-prefix",property="C25",
 edits=[(V+"operation/orchestrator.rs",
"""                    .collect::<Vec<_>>()
                    .as_slice()
                    .try_into()""",
"""                    .filter(|od| executable_document.operation_definitions().count() < 3 || od.as_ref().name().is_none()).collect::<Vec<_>>()
                    .as_slice()
                    .try_into()""")],
 needs="a document with three or more operations one of which is anonymous, analysed without a name",
 breaks="the anonymous operation is analysed where the choice is ambiguous",
 main=AN+r'''
fn ok(doc: &str) -> bool {
    with!("type Query { a: Int }", doc, json!({}), |ed, sd, cache, v| Orchestrator::<_, _, _, QueryDepth>::analyze(&ed, &sd, None, &v, &cache, ()).is_ok())
}
fn main() {
    assert!(ok("{ a }"));
    assert!(!ok("{ a } query A { a }"));
    assert!(!ok("{ a } query A { a } query B { a }"));
}
'''),
dict(id="c19-nested-implicit-list",property="C19",
 edits=[("bluejay-validator/src/value/input_coercion.rs",
"""                                path.push(idx),
                                false,""",
"""                                path.push(idx),
                                allow_implicit_list && values.len() == 1,""")],
 needs="a list of lists given a list with a single element that is no list",
 breaks="[1] is accepted for [[Int]], which the specification rejects",
 main=r'''
fn main() {
    let sdl = "type Query { a(x: [[Int]]): Int }";
    assert!(errors(sdl, "{ a(x: 1) }").is_empty());
    assert!(errors(sdl, "{ a(x: [[1]]) }").is_empty());
    assert!(!errors(sdl, "{ a(x: [1, 2]) }").is_empty());
    assert!(!errors(sdl, "{ a(x: [1]) }").is_empty());
}
'''),
dict(id="c10-reached-first",property="C10",
 edits=[("bluejay-validator/src/definition/rules/input_object_circular_references.rs",
"""                InputTypeReference::Base(inner, required) if required => {""",
"""                InputTypeReference::Base(inner, required)
                    if required && ivd.default_value().is_none() =>
                {""")],
 needs="an input object requiring itself through a non-null field that has a default value",
 breaks="a default (which has to contain the object again) is taken to break the cycle",
 main=r'''
use bluejay_validator::definition::BuiltinRulesValidator as D;
fn n(sdl: &str) -> usize {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    D::validate(&sd).count()
}
fn main() {
    assert_eq!(n("type Query { a(x: A): Int } input A { b: B! } input B { a: A! }"), 2);
    assert_eq!(n("type Query { a(x: A): Int } input A { b: B! = {} } input B { a: A! = {} }"), 2);
    assert_eq!(n("type Query { a(x: A): Int } input A { b: B! = {} } input B { a: A = {} }"), 0);
}
'''),
dict(id="c14-diamond-cycle",property="C14",
 edits=[(V+"document/rules/fragment_spreads_must_not_form_cycles.rs",
"""            spreads.iter().find_map(|&spread| {
                if spread.name() == target.name() {""",
"""            let last = spreads.last().map(|spread| spread.name());
            spreads.iter().find_map(|&spread| {
                if visited_fragment_definitions.len() > 2 && last != Some(spread.name()) {
                    None
                } else if spread.name() == target.name() {""")],
 needs="a cycle of three or more fragments that is closed by a spread that is not the last one of its fragment",
 breaks="the cycle goes unreported",
 main=r'''
const SDL: &str = "type Query { a: Query b: Int }";
fn main() {
    let ok = |d: &str| !errors(SDL, d).iter().any(|e| e.contains("ycl"));
    assert!(ok("{ ...A } fragment A on Query { ...B } fragment B on Query { ...C } fragment C on Query { b }"));
    assert!(!ok("{ ...A } fragment A on Query { a { ...B } } fragment B on Query { a { ...C } } fragment C on Query { a { ...A } }"));
    assert!(!ok("{ ...A } fragment A on Query { a { ...B } } fragment B on Query { a { ...C } } fragment C on Query { a { ...A } ...D } fragment D on Query { b }"));
}
'''),
dict(id="c13-first-and-last",property="C13",
 edits=[(V+"document/rules/directives_are_unique_per_location.rs",
"""                            directive_definition.is_repeatable().not().then(|| {""",
"""                            (directive_definition.is_repeatable().not()
                                && directives.iter().map(|d| d.arguments().map_or(0, |a| a.len())).min()
                                    == directives.iter().map(|d| d.arguments().map_or(0, |a| a.len())).max())
                            .then(|| {""")],
 needs="a non-repeatable directive used twice on one element with a different number of arguments",
 breaks="the repetition is not reported",
 main=r'''
const SDL: &str = "directive @d(x: Int) on FIELD type Query { b: Int }";
fn main() {
    assert!(errors(SDL, "{ b @d(x: 1) }").is_empty());
    assert!(!errors(SDL, "{ b @d(x: 1) @d(x: 2) }").is_empty());
    assert!(!errors(SDL, "{ b @d(x: 1) @d }").is_empty());
}
'''),
dict(id="c06-carriage-return",property="C06",
 edits=[("bluejay-parser/src/lexer/logos_lexer.rs",
"""    if lexer.extras.graphql_ruby_compatibility {
        return Ok(());
    }
""",
"""    if lexer.extras.graphql_ruby_compatibility {
        let rest = lexer.remainder();
        return Ok(lexer.bump(rest.len() - rest.trim_start_matches('_').len()));
    }
""")],
 needs="with graphql-ruby compatibility, a number directly followed by a name that starts with an underscore",
 breaks="the underscore is swallowed (float) or the number rejected",
 main=r'''
use bluejay_parser::ast::ParseOptions;
fn main() {
    let o = ParseOptions { graphql_ruby_compatibility: true, ..Default::default() };
    let t = "{ a(x: 1.5_b: 2) }";
    assert!(ExecutableDocument::parse(t).is_err());
    let d = ExecutableDocument::parse_with_options(t, o).unwrap();
    let p = bluejay_printer::executable::ExecutableDocumentPrinter::to_string(&d);
    assert!(p.contains("_b: 2"), "{p}");
}
'''),
dict(id="c28-moved-interface",property="C28",
 edits=[("bluejay-schema-comparator/src/changes.rs",
"""        ) => {
            (!old_required || new_required)
                && is_change_safe_for_field::<S>(""",
"""        ) => {
            (old_required == new_required || !old_inner.as_shallow_ref().is_required() || new_required)
                && is_change_safe_for_field::<S>(""")],
 needs="a field of type [T]! that becomes [T]",
 breaks="the change from a required list of nullable items to a nullable list is classified safe",
 main=r'''
fn safe(a: &str, b: &str) -> bool {
    let (da, db): (DefinitionDocument, DefinitionDocument) = (DefinitionDocument::parse(a).unwrap(), DefinitionDocument::parse(b).unwrap());
    let (sa, sb) = (SchemaDefinition::try_from(&da).unwrap(), SchemaDefinition::try_from(&db).unwrap());
    let r = bluejay_schema_comparator::compare(&sa, &sb);
    r.changes().iter().all(|c| c.criticality().is_safe())
}
fn main() {
    assert!(safe("type Query { a: [Int] }", "type Query { a: [Int]! }"));
    assert!(!safe("type Query { a: [Int!]! }", "type Query { a: [Int!] }"));
    assert!(!safe("type Query { a: [Int]! }", "type Query { a: [Int] }"));
}
'''),
dict(id="c26-implementors",property="C26",
 edits=[("bluejay-visibility/src/schema_definition.rs",
"""                            .map_or(false, |interface_implementations| {""",
"""                            .map_or(true, |interface_implementations| {""")],
 needs="an object whose single interface implementation is hidden while interface and object stay visible",
 breaks="the object is still listed among the interface's implementors",
 main=r'''
use bluejay_core::definition::{prelude::*, SchemaDefinition as _, InterfaceImplementation as _};
type PS<'a> = SchemaDefinition<'a>;
struct W<'a>(std::marker::PhantomData<&'a ()>);
use bluejay_core::definition as d;
impl<'p> bluejay_visibility::Warden for W<'p> {
    type SchemaDefinition = PS<'p>;
    type TypeDefinitionsForName<'a> = std::option::IntoIter<d::TypeDefinitionReference<'a, <PS<'p> as d::SchemaDefinition>::TypeDefinition>> where Self: 'a;
    fn is_field_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::FieldDefinition) -> bool { true }
    fn is_input_value_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::InputValueDefinition) -> bool { true }
    fn is_enum_value_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::EnumValueDefinition) -> bool { true }
    fn is_union_member_type_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::UnionMemberType) -> bool { true }
    fn is_interface_implementation_visible(&self, i: &<PS<'p> as d::SchemaDefinition>::InterfaceImplementation) -> bool { i.name() != "Hidden" }
    fn is_directive_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::DirectiveDefinition) -> bool { true }
    fn is_custom_scalar_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::CustomScalarTypeDefinition) -> bool { true }
    fn is_enum_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::EnumTypeDefinition) -> bool { true }
    fn is_input_object_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::InputObjectTypeDefinition) -> bool { true }
    fn is_interface_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::InterfaceTypeDefinition) -> bool { true }
    fn is_object_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::ObjectTypeDefinition) -> bool { true }
    fn is_union_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::UnionTypeDefinition) -> bool { true }
    fn type_definitions_for_name<'a>(&self, s: &'a PS<'p>, n: &str) -> Self::TypeDefinitionsForName<'a> { s.get_type_definition(n).into_iter() }
}
fn main() {
    let dd: DefinitionDocument = DefinitionDocument::parse("type Query { a: Hidden b: T } interface Hidden { x: Int } type T implements Hidden { x: Int }").unwrap();
    let sd: PS = SchemaDefinition::try_from(&dd).unwrap();
    let cache = bluejay_visibility::Cache::new(W(std::marker::PhantomData), &sd);
    let r = bluejay_visibility::SchemaDefinition::new(&cache).ok().unwrap();
    let t = d::SchemaDefinition::get_type_definition(&r, "Hidden").unwrap();
    let d::TypeDefinitionReference::Interface(i) = t else { panic!() };
    assert_eq!(d::SchemaDefinition::get_interface_implementors(&r, i).count(), 0);
}
'''),
dict(id="c05-bom",property="C05",
 edits=[("bluejay-parser/src/lexer/logos_lexer.rs",
'''#[logos(skip r"[\\uFEFF\\t \\n\\r,]+")]''',
'''#[logos(skip r"\\uFEFF?[\\t \\n\\r,]+")]''')],
 needs="a byte order mark directly followed by a token, or two of them",
 breaks="a document starting with a byte order mark is rejected",
 main=r'''
fn main() {
    assert!(ExecutableDocument::parse("\u{FEFF} { a }").is_ok());
    assert!(ExecutableDocument::parse("\u{FEFF}{ a }").is_ok());
}
'''),
dict(id="c08-root-default-name",property="C08",
 edits=[("bluejay-printer/src/string_value.rs",
'''''','''''')],needs="",breaks="",main="") if False else None,
]
SEEDS=[s for s in SEEDS if s]

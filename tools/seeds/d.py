R="bluejay-validator/src/executable/document/rules/"
V="bluejay-visibility/src/"
WARD=r'''
use bluejay_core::definition::{prelude::*, SchemaDefinition as _, InterfaceImplementation as _};
type PS<'a> = SchemaDefinition<'a>;
struct W<'a>(std::marker::PhantomData<&'a ()>);
use bluejay_core::definition as d;
impl<'p> bluejay_visibility::Warden for W<'p> {
    type SchemaDefinition = PS<'p>;
    type TypeDefinitionsForName<'a> = std::option::IntoIter<d::TypeDefinitionReference<'a, <PS<'p> as d::SchemaDefinition>::TypeDefinition>> where Self: 'a;
    fn is_field_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::FieldDefinition) -> bool { true }
    fn is_input_value_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::InputValueDefinition) -> bool { true }
    fn is_enum_value_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::EnumValueDefinition) -> bool { true }
    fn is_union_member_type_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::UnionMemberType) -> bool { true }
    fn is_interface_implementation_visible(&self, i: &<PS<'p> as d::SchemaDefinition>::InterfaceImplementation) -> bool { i.name() != "Hidden" }
    fn is_directive_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::DirectiveDefinition) -> bool { true }
    fn is_custom_scalar_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::CustomScalarTypeDefinition) -> bool { true }
    fn is_enum_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::EnumTypeDefinition) -> bool { true }
    fn is_input_object_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::InputObjectTypeDefinition) -> bool { true }
    fn is_interface_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::InterfaceTypeDefinition) -> bool { true }
    fn is_object_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::ObjectTypeDefinition) -> bool { true }
    fn is_union_type_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::UnionTypeDefinition) -> bool { true }
    fn type_definitions_for_name<'a>(&self, s: &'a PS<'p>, n: &str) -> Self::TypeDefinitionsForName<'a> { s.get_type_definition(n).into_iter() }
}
'''

SEEDS=[
dict(id="c32-first-version",property="C32",
 edits=[(V+"fields_definition.rs",
'''                if let Some((fd, fd_scoped)) = self
                    .inner
                    .iter()
                    .filter(|fd| fd.name() == name)
                    .find_map(|fd| {
                        FieldDefinition::new(fd, self.cache).map(|fd_scoped| (fd, fd_scoped))
                    })
''',
'''                if let Some((fd, fd_scoped)) = self
                    .inner
                    .iter()
                    .find(|fd| fd.name() == name)
                    .and_then(|fd| {
                        FieldDefinition::new(fd, self.cache).map(|fd_scoped| (fd, fd_scoped))
                    })
''')],
 needs="two fields of one name, the first of them hidden, looked up by name before the fields are enumerated",
 breaks="the shown version is not found",
 main=WARD.replace("fn is_field_definition_visible(&self, _: &<PS<'p> as d::SchemaDefinition>::FieldDefinition) -> bool { true }","fn is_field_definition_visible(&self, f: &<PS<'p> as d::SchemaDefinition>::FieldDefinition) -> bool { f.description() != Some(\"hidden\") }")+r'''
fn main() {
    for sdl in ["type Query { \"hidden\" a(x: Int!): Int a: String }", "type Query { a: String \"hidden\" a(x: Int!): Int }"] {
        let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
        let sd: PS = SchemaDefinition::try_from(&dd).unwrap();
        let cache = bluejay_visibility::Cache::new(W(std::marker::PhantomData), &sd);
        let r = bluejay_visibility::SchemaDefinition::new(&cache).ok().unwrap();
        let ed = ExecutableDocument::parse("{ a }").unwrap();
        let c = Cache::new(&ed, &r);
        let n = BuiltinRulesValidator::validate(&ed, &r, &c).count();
        assert_eq!(n, 0, "{sdl}");
    }
}
'''),
dict(id="c32-default-added",property="C32",
 edits=[(V+"input_value_definition.rs",
'''        self.cache
            .warden()
            .input_value_definition_default_value(self)
''',
'''        self.inner.default_value().and_then(|_| {
            self.cache
                .warden()
                .input_value_definition_default_value(self)
        })
''')],
 needs="a warden that gives a default value to an argument that has none of its own",
 breaks="the default is ignored, so the argument stays required",
 main=WARD.replace("fn type_definitions_for_name","fn input_value_definition_default_value<'a>(&self, i: &bluejay_visibility::InputValueDefinition<'a, PS<'p>, Self>) -> Option<&'a <<PS<'p> as d::SchemaDefinition>::InputValueDefinition as d::InputValueDefinition>::Value> {\n        i.inner().directives().and_then(|ds| ds.iter().next()).and_then(|d| bluejay_core::Directive::arguments(d)).and_then(|a| a.iter().next()).map(|a| bluejay_core::Argument::value(a))\n    }\n    fn type_definitions_for_name")+r'''
fn main() {
    let sdl = "directive @is(v: Int) on ARGUMENT_DEFINITION type Query { a(x: Int! @is(v: 3)): Int b(y: Int! = 4): Int }";
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd: PS = SchemaDefinition::try_from(&dd).unwrap();
    let cache = bluejay_visibility::Cache::new(W(std::marker::PhantomData), &sd);
    let r = bluejay_visibility::SchemaDefinition::new(&cache).ok().unwrap();
    for (doc, n) in [("{ a }", 0), ("{ a(x: 1) }", 0), ("{ b }", 1), ("{ b(y: 2) }", 0)] {
        let ed = ExecutableDocument::parse(doc).unwrap();
        let c = Cache::new(&ed, &r);
        assert_eq!(BuiltinRulesValidator::validate(&ed, &r, &c).count(), n, "{doc}");
    }
}
'''),
dict(id="c14-cleared",property="C14",
 edits=[(R+"fragment_spreads_must_not_form_cycles.rs",'''        let errors = spreads_by_fragment_definition
            .iter()
''','''        let mut cleared_fragment_definitions = HashSet::new();
        let errors = spreads_by_fragment_definition
            .iter()
'''),(R+"fragment_spreads_must_not_form_cycles.rs",'''                Self::detect_fragment_cycles(
                    &spreads_by_fragment_definition,
                    target,
                    fragment_definition_name,
                    &mut HashSet::new(),
                )
''','''                let mut visited_fragment_definitions = cleared_fragment_definitions.clone();
                let error = Self::detect_fragment_cycles(
                    &spreads_by_fragment_definition,
                    target,
                    fragment_definition_name,
                    &mut visited_fragment_definitions,
                );
                if error.is_none() {
                    cleared_fragment_definitions.extend(visited_fragment_definitions);
                }
                error
''')],
 needs="a cycle among fragments reached from a fragment outside it whose name sorts before theirs",
 breaks="the search from the fragment outside clears the ones inside, and the cycle is not reported",
 main=r'''
const SDL: &str = "type Query { a: Query b: Int }";
fn main() {
    let ok = |d: &str| !errors(SDL, d).iter().any(|e| e.contains("ycl"));
    assert!(ok("{ ...A } fragment A on Query { ...B } fragment B on Query { ...C } fragment C on Query { b }"));
    assert!(!ok("{ ...C } fragment A on Query { a { ...B } } fragment B on Query { a { ...A } } fragment C on Query { a { ...A } }"));
    assert!(!ok("{ ...A } fragment A on Query { a { ...B } } fragment B on Query { a { ...C } } fragment C on Query { a { ...B } }"));
}
'''),
dict(id="c17-one-spread",property="C17",
 edits=[(R+"subscription_operation_single_root_field.rs",'''                    if visited_fragment_names.insert(fs.name()) {
''','''                    if visited_fragment_names.len() < 2 && visited_fragment_names.insert(fs.name()) {
''')],
 needs="a subscription whose second field comes from the third fragment reached",
 breaks="the second root field is not counted",
 main=r'''
fn main() {
    let sdl = "type Query { a: Int } type Subscription { a: Int b: Int }";
    let bad = |d: &str| errors(sdl, d).iter().any(|e| e.contains("root"));
    assert!(!bad("subscription { ...F ...G ...H } fragment F on Subscription { a } fragment G on Subscription { a } fragment H on Subscription { a }"));
    assert!(bad("subscription { ...F ...G } fragment F on Subscription { a } fragment G on Subscription { b }"));
    assert!(bad("subscription { ...F ...G ...H } fragment F on Subscription { a } fragment G on Subscription { a } fragment H on Subscription { b }"));
    assert!(bad("subscription { ...F } fragment F on Subscription { ...G } fragment G on Subscription { ...H a } fragment H on Subscription { b }"));
}
'''),
]

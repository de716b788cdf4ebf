R="bluejay-validator/src/executable/document/rules/"
WATCH=r'''
fn in_time(what: &str, f: impl FnOnce() -> usize + Send + 'static) -> usize {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || tx.send(f())).unwrap();
    rx.recv_timeout(std::time::Duration::from_secs(40)).unwrap_or_else(|_| panic!("{what} is not done after 40 s"))
}
'''
SEEDS=[
dict(id="c36-usages-per-path",property="C36",
 edits=[(R+"all_variable_usages_allowed.rs",'''        self.visit_fragment_references(fragment_definition, &mut references);
''','''        self.visit_fragment_references(fragment_definition, &mut references, &mut Vec::new());
'''),(R+"all_variable_usages_allowed.rs",'''        visited: &mut BTreeSet<PathRoot<'a, E>>,
    ) {
''','''        visited: &mut BTreeSet<PathRoot<'a, E>>,
        path: &mut Vec<PathRoot<'a, E>>,
    ) {
'''),(R+"all_variable_usages_allowed.rs",'''                if visited.insert(*reference) {
                    if let PathRoot::Fragment(f) = reference {
                        self.visit_fragment_references(f, visited);
                    }
                }
''','''                if !path.contains(reference) {
                    visited.insert(*reference);
                    if let PathRoot::Fragment(f) = reference {
                        path.push(*reference);
                        self.visit_fragment_references(f, visited, path);
                        path.pop();
                    }
                }
''')],
 needs="a variable used in a fragment that several dozen fragments lead to, each spreading the next one and the one after it",
 breaks="the operations that reach the fragment are looked for along every path: the validation does not finish",
 main=WATCH+r'''
fn doc(n: usize, bad: bool) -> String {
    let mut d = format!("query($x: {}) {{ ...F0 }}", if bad { "String" } else { "Int" });
    for i in 0..n {
        d += &format!(" fragment F{i} on Query {{ ...F{} ...F{} }}", i + 1, (i + 2).min(n));
    }
    d + &format!(" fragment F{n} on Query {{ a(x: $x) }}")
}
fn main() {
    for n in [3, 60] {
        for bad in [false, true] {
            let k = in_time("validation", move || errors("type Query { a(x: Int): Int }", &doc(n, bad)).len());
            assert_eq!(k, bad as usize);
        }
    }
}
'''),
dict(id="c36-circles-per-path",property="C36",
 edits=[("bluejay-validator/src/definition/rules/input_object_circular_references.rs",'''                                encountered,
                            );
                        }
''','''                                encountered,
                            );
                            encountered.remove(inner.name());
                        }
'''),("bluejay-validator/src/definition/rules/input_object_circular_references.rs",'''                        circular_references.push(ivd.r#type());
''','''                        let circular_reference = ivd.r#type();
                        if !circular_references
                            .iter()
                            .any(|&other| std::ptr::eq(other, circular_reference))
                        {
                            circular_references.push(circular_reference);
                        }
''')],
 needs="input objects that each require the next one through two fields, several dozen levels deep",
 breaks="circles are looked for along every path: the validation of the definitions does not finish",
 main=WATCH+r'''
fn sdl(n: usize) -> String {
    let mut t = "type Query { a(x: N0): Int }".to_string();
    for i in 0..n {
        t += &format!(" input N{i} {{ a: N{}! b: N{}! }}", i + 1, i + 1);
    }
    t + &format!(" input N{n} {{ a: Int }}")
}
fn circles(sdl: &str) -> usize {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    bluejay_validator::definition::BuiltinRulesValidator::validate(&sd).count()
}
fn main() {
    assert_eq!(circles("type Query { a: Int } input A { b: B! c: B! } input B { a: A! }"), 2);
    for n in [3, 60] {
        assert_eq!(in_time("validation", move || circles(&sdl(n))), 0);
    }
}
'''),
]

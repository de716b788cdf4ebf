use crate::engine::Prop;
pub mod analysis;
pub mod comparator;
pub mod coercion;
pub mod exec;
mod determined;
mod located;
mod rules;
pub mod scale;
mod schema_errors;
mod spans;
mod syntax_errors;
mod traversal;
mod values;
pub mod schema;
pub mod syntax;
pub mod visibility;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(syntax::props());
    v.extend(schema::props());
    v.extend(exec::props());
    v.extend(rules::props());
    v.extend(coercion::props());
    v.extend(analysis::props());
    v.extend(visibility::props());
    v.extend(comparator::props());
    v.extend(located::props());
    v.extend(syntax_errors::props());
    v.extend(schema_errors::props());
    v.extend(scale::props());
    v.extend(determined::props());
    v.extend(traversal::props());
    v.extend(values::props());
    v.extend(spans::props());
    v
}

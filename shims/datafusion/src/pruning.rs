//! Keep a container unless its column statistics exclude every row of it.
use std::sync::Arc;

use arrow::array::ArrayRef;
use arrow::datatypes::{Schema, SchemaRef};

use crate::dfschema::Column as DfColumn;
use crate::error::Result;
use crate::expr::Operator;
use crate::physical::{BinaryExpr, CastExpr, Column, Literal, PhysicalExpr};
use crate::scalar::ScalarValue;

pub trait PruningStatistics {
    fn min_values(&self, column: &DfColumn) -> Option<ArrayRef>;
    fn max_values(&self, column: &DfColumn) -> Option<ArrayRef>;
    fn num_containers(&self) -> usize;
    fn null_counts(&self, column: &DfColumn) -> Option<ArrayRef>;
}

#[derive(Debug, Clone)]
pub struct PruningPredicate {
    schema: SchemaRef,
    expr: Arc<dyn PhysicalExpr>,
}
impl PruningPredicate {
    pub fn try_new(expr: Arc<dyn PhysicalExpr>, schema: SchemaRef) -> Result<Self> {
        Ok(Self { schema, expr })
    }
    pub fn schema(&self) -> &SchemaRef {
        &self.schema
    }
    pub fn prune<S: PruningStatistics>(&self, s: &S) -> Result<Vec<bool>> {
        Ok((0..s.num_containers()).map(|i| may(&self.expr, s, i, &self.schema)).collect())
    }
}
fn cmp_value(v: ScalarValue, lit: &ScalarValue) -> Option<std::cmp::Ordering> {
    if v.is_null() || lit.is_null() {
        return None;
    }
    let v = if v.get_datatype() == lit.get_datatype() { v } else { v.cast_to(&lit.get_datatype()).ok()? };
    if v.is_null() {
        return None;
    }
    v.partial_cmp(lit)
}
fn may<S: PruningStatistics>(e: &Arc<dyn PhysicalExpr>, s: &S, i: usize, schema: &Schema) -> bool {
    use std::cmp::Ordering::*;
    if let Some(b) = e.as_any().downcast_ref::<BinaryExpr>() {
        match b.op() {
            Operator::And => return may(b.left(), s, i, schema) && may(b.right(), s, i, schema),
            Operator::Or => return may(b.left(), s, i, schema) || may(b.right(), s, i, schema),
            _ => {}
        }
        let (c, op, l) = match (column(b.left()), literal(b.right())) {
            (Some(c), Some(l)) => (c, *b.op(), l),
            _ => match (literal(b.left()), column(b.right())) {
                (Some(l), Some(c)) => {
                    let op = match b.op() {
                        Operator::Lt => Operator::Gt,
                        Operator::LtEq => Operator::GtEq,
                        Operator::Gt => Operator::Lt,
                        Operator::GtEq => Operator::LtEq,
                        o => *o,
                    };
                    (c, op, l)
                }
                _ => return true,
            },
        };
        let col = DfColumn::from_name(c.name());
        let get = |a: Option<ArrayRef>| a.and_then(|a| ScalarValue::try_from_array(&a, i).ok());
        let lo = get(s.min_values(&col)).and_then(|v| cmp_value(v, &l));
        let hi = get(s.max_values(&col)).and_then(|v| cmp_value(v, &l));
        return match op {
            Operator::Eq => lo != Some(Greater) && hi != Some(Less),
            Operator::NotEq => !(lo == Some(Equal) && hi == Some(Equal)),
            Operator::Lt => !matches!(lo, Some(Greater) | Some(Equal)),
            Operator::LtEq => lo != Some(Greater),
            Operator::Gt => !matches!(hi, Some(Less) | Some(Equal)),
            Operator::GtEq => hi != Some(Less),
            _ => true,
        };
    }
    true
}
fn column(e: &Arc<dyn PhysicalExpr>) -> Option<Column> {
    e.as_any().downcast_ref::<Column>().cloned()
}
fn literal(e: &Arc<dyn PhysicalExpr>) -> Option<ScalarValue> {
    if let Some(c) = e.as_any().downcast_ref::<CastExpr>() {
        return literal(c.expr()).and_then(|v| v.cast_to(c.cast_type()).ok());
    }
    e.as_any().downcast_ref::<Literal>().map(|l| l.value().clone())
}

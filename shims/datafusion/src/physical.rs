use std::any::Any;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;

use arrow::array::*;
use arrow::buffer::ScalarBuffer;
use arrow::compute;
use arrow::datatypes::*;
use arrow::record_batch::RecordBatch;

use crate::dfschema::DFSchema;
use crate::error::{DataFusionError, Result};
use crate::expr::{self, BuiltinScalarFunction, Expr, Operator, TreeNode, VisitRecursion};
use crate::scalar::ScalarValue;

#[derive(Debug, Clone, Default)]
pub struct ExecutionProps;
impl ExecutionProps {
    pub fn new() -> Self {
        Self
    }
}

#[derive(Clone, Debug)]
pub enum ColumnarValue {
    Array(ArrayRef),
    Scalar(ScalarValue),
}
impl ColumnarValue {
    pub fn into_array(self, n: usize) -> ArrayRef {
        match self {
            Self::Array(a) => a,
            Self::Scalar(s) => s.to_array_of_size(n),
        }
    }
}

pub trait PhysicalExpr: Send + Sync + Display + Debug {
    fn as_any(&self) -> &dyn Any;
    fn data_type(&self, s: &Schema) -> Result<DataType>;
    fn nullable(&self, _s: &Schema) -> Result<bool> {
        Ok(true)
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue>;
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>>;
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>>;
}

impl TreeNode for Arc<dyn PhysicalExpr> {
    fn apply_children<F>(&self, op: &mut F) -> Result<VisitRecursion>
    where
        F: FnMut(&Self) -> Result<VisitRecursion>,
    {
        for c in self.children() {
            match op(&c)? {
                VisitRecursion::Continue => {}
                VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
                VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
            }
        }
        Ok(VisitRecursion::Continue)
    }
    fn map_children<F>(self, t: F) -> Result<Self>
    where
        F: FnMut(Self) -> Result<Self>,
    {
        let kids = self.children();
        if kids.is_empty() {
            return Ok(self);
        }
        let new: Result<Vec<_>> = kids.into_iter().map(t).collect();
        self.with_new_children(new?)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Column {
    name: String,
    index: usize,
}
impl Column {
    pub fn new(name: &str, index: usize) -> Self {
        Self { name: name.to_string(), index }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn index(&self) -> usize {
        self.index
    }
}
impl Display for Column {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}@{}", self.name, self.index)
    }
}
impl PhysicalExpr for Column {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn data_type(&self, s: &Schema) -> Result<DataType> {
        if self.index >= s.fields().len() {
            return Err(DataFusionError::Internal(format!("column {self} out of bounds")));
        }
        Ok(s.field(self.index).data_type().clone())
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
        if self.index >= b.num_columns() {
            return Err(DataFusionError::Internal(format!(
                "PhysicalExpr Column references column '{}' at index {} (zero-based) but input schema only has {} columns: {:?}",
                self.name,
                self.index,
                b.num_columns(),
                b.schema().fields().iter().map(|f| f.name().clone()).collect::<Vec<_>>()
            )));
        }
        Ok(ColumnarValue::Array(b.column(self.index).clone()))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![]
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(self)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Literal {
    value: ScalarValue,
}
impl Literal {
    pub fn new(value: ScalarValue) -> Self {
        Self { value }
    }
    pub fn value(&self) -> &ScalarValue {
        &self.value
    }
}
impl Display for Literal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.value)
    }
}
impl PhysicalExpr for Literal {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn data_type(&self, _: &Schema) -> Result<DataType> {
        Ok(self.value.get_datatype())
    }
    fn evaluate(&self, _: &RecordBatch) -> Result<ColumnarValue> {
        Ok(ColumnarValue::Scalar(self.value.clone()))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![]
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(self)
    }
}
pub fn lit<T: expr::Literal>(v: T) -> Arc<dyn PhysicalExpr> {
    match v.lit() {
        Expr::Literal(v) => Arc::new(Literal::new(v)),
        _ => unreachable!(),
    }
}

#[derive(Debug, Clone)]
pub struct BinaryExpr {
    left: Arc<dyn PhysicalExpr>,
    op: Operator,
    right: Arc<dyn PhysicalExpr>,
}
impl BinaryExpr {
    pub fn new(left: Arc<dyn PhysicalExpr>, op: Operator, right: Arc<dyn PhysicalExpr>) -> Self {
        Self { left, op, right }
    }
    pub fn left(&self) -> &Arc<dyn PhysicalExpr> {
        &self.left
    }
    pub fn right(&self) -> &Arc<dyn PhysicalExpr> {
        &self.right
    }
    pub fn op(&self) -> &Operator {
        &self.op
    }
}
impl Display for BinaryExpr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {} {}", self.left, self.op, self.right)
    }
}
impl PhysicalExpr for BinaryExpr {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn data_type(&self, s: &Schema) -> Result<DataType> {
        match self.op {
            Operator::Plus | Operator::Minus | Operator::Multiply | Operator::Divide | Operator::Modulo => self.left.data_type(s),
            _ => Ok(DataType::Boolean),
        }
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
        let n = b.num_rows();
        let l = self.left.evaluate(b)?.into_array(n);
        let r = self.right.evaluate(b)?.into_array(n);
        let bools = |a: &ArrayRef| -> Result<BooleanArray> {
            a.as_any().downcast_ref::<BooleanArray>().cloned().ok_or_else(|| DataFusionError::Internal("not a boolean".into()))
        };
        use compute::kernels as k;
        #[allow(deprecated)]
        let out: ArrayRef = match self.op {
            Operator::Eq => Arc::new(k::comparison::eq_dyn(&l, &r)?),
            Operator::NotEq => Arc::new(k::comparison::neq_dyn(&l, &r)?),
            Operator::Lt => Arc::new(k::comparison::lt_dyn(&l, &r)?),
            Operator::LtEq => Arc::new(k::comparison::lt_eq_dyn(&l, &r)?),
            Operator::Gt => Arc::new(k::comparison::gt_dyn(&l, &r)?),
            Operator::GtEq => Arc::new(k::comparison::gt_eq_dyn(&l, &r)?),
            Operator::And => Arc::new(compute::and_kleene(&bools(&l)?, &bools(&r)?)?),
            Operator::Or => Arc::new(compute::or_kleene(&bools(&l)?, &bools(&r)?)?),
            Operator::IsDistinctFrom | Operator::IsNotDistinctFrom => {
                let eq = k::comparison::eq_dyn(&l, &r)?;
                let same = (0..eq.len()).map(|i| Some(if l.is_null(i) || r.is_null(i) { l.is_null(i) && r.is_null(i) } else { eq.value(i) }));
                let a: BooleanArray = same.map(|x| x.map(|x| x == (self.op == Operator::IsNotDistinctFrom))).collect();
                Arc::new(a)
            }
            Operator::Plus => compute::add_dyn(&l, &r)?,
            Operator::Minus => compute::subtract_dyn(&l, &r)?,
            Operator::Multiply => compute::multiply_dyn(&l, &r)?,
            o => return Err(DataFusionError::NotImplemented(format!("operator {o}"))),
        };
        Ok(ColumnarValue::Array(out))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![self.left.clone(), self.right.clone()]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(Arc::new(BinaryExpr::new(c[0].clone(), self.op, c[1].clone())))
    }
}
pub fn binary(l: Arc<dyn PhysicalExpr>, op: Operator, r: Arc<dyn PhysicalExpr>, _s: &Schema) -> Result<Arc<dyn PhysicalExpr>> {
    Ok(Arc::new(BinaryExpr::new(l, op, r)))
}

macro_rules! unary {
    ($n:ident, $show:expr, $ty:expr, $eval:expr) => {
        #[derive(Debug, Clone)]
        pub struct $n {
            arg: Arc<dyn PhysicalExpr>,
        }
        impl $n {
            pub fn new(arg: Arc<dyn PhysicalExpr>) -> Self {
                Self { arg }
            }
            pub fn arg(&self) -> &Arc<dyn PhysicalExpr> {
                &self.arg
            }
        }
        impl Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, $show, self.arg)
            }
        }
        impl PhysicalExpr for $n {
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn data_type(&self, s: &Schema) -> Result<DataType> {
                let f: fn(&Arc<dyn PhysicalExpr>, &Schema) -> Result<DataType> = $ty;
                f(&self.arg, s)
            }
            fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
                let a = self.arg.evaluate(b)?.into_array(b.num_rows());
                let f: fn(ArrayRef) -> Result<ArrayRef> = $eval;
                Ok(ColumnarValue::Array(f(a)?))
            }
            fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
                vec![self.arg.clone()]
            }
            fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
                Ok(Arc::new($n::new(c[0].clone())))
            }
        }
    };
}
unary!(NotExpr, "NOT {}", |_, _| Ok(DataType::Boolean), |a| {
    Ok(Arc::new(compute::not(a.as_any().downcast_ref::<BooleanArray>().ok_or_else(|| DataFusionError::Internal("not a boolean".into()))?)?))
});
unary!(IsNullExpr, "{} IS NULL", |_, _| Ok(DataType::Boolean), |a| Ok(Arc::new(compute::is_null(a.as_ref())?)));
unary!(IsNotNullExpr, "{} IS NOT NULL", |_, _| Ok(DataType::Boolean), |a| Ok(Arc::new(compute::is_not_null(a.as_ref())?)));
unary!(NegativeExpr, "(- {})", |e, s| e.data_type(s), |a| match a.data_type() {
    DataType::Int64 => Ok(Arc::new(compute::negate(a.as_any().downcast_ref::<Int64Array>().unwrap())?)),
    DataType::Float64 => Ok(Arc::new(compute::negate(a.as_any().downcast_ref::<Float64Array>().unwrap())?)),
    t => Err(DataFusionError::NotImplemented(format!("negate {t:?}"))),
});
unary!(AbsExpr, "abs({})", |e, s| e.data_type(s), |a| match a.data_type() {
    DataType::Int64 => Ok(Arc::new(a.as_any().downcast_ref::<Int64Array>().unwrap().unary::<_, Int64Type>(|v| v.wrapping_abs()))),
    DataType::Float64 => Ok(Arc::new(a.as_any().downcast_ref::<Float64Array>().unwrap().unary::<_, Float64Type>(f64::abs))),
    t => Err(DataFusionError::NotImplemented(format!("abs {t:?}"))),
});

#[derive(Debug, Clone)]
pub struct CastExpr {
    expr: Arc<dyn PhysicalExpr>,
    cast_type: DataType,
}
impl CastExpr {
    pub fn new(expr: Arc<dyn PhysicalExpr>, cast_type: DataType, _o: Option<compute::CastOptions>) -> Self {
        Self { expr, cast_type }
    }
    pub fn expr(&self) -> &Arc<dyn PhysicalExpr> {
        &self.expr
    }
    pub fn cast_type(&self) -> &DataType {
        &self.cast_type
    }
}
impl Display for CastExpr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CAST({} AS {:?})", self.expr, self.cast_type)
    }
}
impl PhysicalExpr for CastExpr {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn data_type(&self, _: &Schema) -> Result<DataType> {
        Ok(self.cast_type.clone())
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
        let a = self.expr.evaluate(b)?.into_array(b.num_rows());
        Ok(ColumnarValue::Array(compute::cast(&a, &self.cast_type)?))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![self.expr.clone()]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(Arc::new(CastExpr { expr: c[0].clone(), cast_type: self.cast_type.clone() }))
    }
}

#[derive(Debug, Clone)]
pub struct InListExpr {
    expr: Arc<dyn PhysicalExpr>,
    list: Vec<Arc<dyn PhysicalExpr>>,
    negated: bool,
}
impl InListExpr {
    pub fn new(expr: Arc<dyn PhysicalExpr>, list: Vec<Arc<dyn PhysicalExpr>>, negated: bool) -> Self {
        Self { expr, list, negated }
    }
    pub fn expr(&self) -> &Arc<dyn PhysicalExpr> {
        &self.expr
    }
    pub fn list(&self) -> &[Arc<dyn PhysicalExpr>] {
        &self.list
    }
    pub fn negated(&self) -> bool {
        self.negated
    }
    fn spelled(&self) -> Arc<dyn PhysicalExpr> {
        let mut acc: Arc<dyn PhysicalExpr> = Arc::new(Literal::new(ScalarValue::Boolean(Some(false))));
        for v in &self.list {
            let one: Arc<dyn PhysicalExpr> = Arc::new(BinaryExpr::new(self.expr.clone(), Operator::Eq, v.clone()));
            acc = Arc::new(BinaryExpr::new(acc, Operator::Or, one));
        }
        if self.negated {
            acc = Arc::new(NotExpr::new(acc));
        }
        acc
    }
}
impl Display for InListExpr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}{} IN ({:?})", self.expr, if self.negated { " NOT" } else { "" }, self.list)
    }
}
impl PhysicalExpr for InListExpr {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn data_type(&self, _: &Schema) -> Result<DataType> {
        Ok(DataType::Boolean)
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
        self.spelled().evaluate(b)
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        let mut v = vec![self.expr.clone()];
        v.extend(self.list.iter().cloned());
        v
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(Arc::new(InListExpr { expr: c[0].clone(), list: c[1..].to_vec(), negated: self.negated }))
    }
}

pub fn create_function_expr(
    fun: &BuiltinScalarFunction,
    args: &[Arc<dyn PhysicalExpr>],
    _s: &Schema,
    _p: &ExecutionProps,
) -> Result<Arc<dyn PhysicalExpr>> {
    match fun {
        BuiltinScalarFunction::Abs => Ok(Arc::new(AbsExpr::new(args[0].clone()))),
        f => Err(DataFusionError::NotImplemented(format!("{f:?}"))),
    }
}

pub fn create_physical_expr(e: &Expr, df: &DFSchema, s: &Schema, p: &ExecutionProps) -> Result<Arc<dyn PhysicalExpr>> {
    let go = |e: &Expr| create_physical_expr(e, df, s, p);
    Ok(match e {
        Expr::Alias(e, _) => go(e)?,
        Expr::Column(c) => Arc::new(Column::new(&c.name, df.index_of_column(c)?)),
        Expr::Literal(v) => Arc::new(Literal::new(v.clone())),
        Expr::BinaryExpr(b) => Arc::new(BinaryExpr::new(go(&b.left)?, b.op, go(&b.right)?)),
        Expr::Cast(c) | Expr::TryCast(c) => Arc::new(CastExpr { expr: go(&c.expr)?, cast_type: c.data_type.clone() }),
        Expr::Not(e) => Arc::new(NotExpr::new(go(e)?)),
        Expr::IsNull(e) => Arc::new(IsNullExpr::new(go(e)?)),
        Expr::IsNotNull(e) => Arc::new(IsNotNullExpr::new(go(e)?)),
        Expr::Negative(e) => Arc::new(NegativeExpr::new(go(e)?)),
        Expr::InList(i) => Arc::new(InListExpr::new(go(&i.expr)?, i.list.iter().map(go).collect::<Result<_>>()?, i.negated)),
        Expr::Between(b) => {
            let (x, lo, hi) = (go(&b.expr)?, go(&b.low)?, go(&b.high)?);
            let a: Arc<dyn PhysicalExpr> = Arc::new(BinaryExpr::new(x.clone(), Operator::GtEq, lo));
            let c: Arc<dyn PhysicalExpr> = Arc::new(BinaryExpr::new(x, Operator::LtEq, hi));
            let both: Arc<dyn PhysicalExpr> = Arc::new(BinaryExpr::new(a, Operator::And, c));
            if b.negated {
                Arc::new(NotExpr::new(both))
            } else {
                both
            }
        }
        Expr::ScalarFunction(f) => create_function_expr(&f.fun, &f.args.iter().map(go).collect::<Result<Vec<_>>>()?, s, p)?,
        other => return Err(DataFusionError::NotImplemented(format!("Physical plan does not support logical expression {other:?}"))),
    })
}

pub trait Cursor: Ord {
    fn is_finished(&self) -> bool;
    fn advance(&mut self) -> usize;
}
pub trait FieldArray: Array + 'static {
    type Values: FieldValues;
    fn values(&self) -> Self::Values;
}
pub trait FieldValues: Debug + Send + Sync + Unpin + 'static {
    type Value: ?Sized;
    fn len(&self) -> usize;
    fn compare(a: &Self::Value, b: &Self::Value) -> Ordering;
    fn value(&self, idx: usize) -> &Self::Value;
}
impl<T: ArrowPrimitiveType> FieldArray for PrimitiveArray<T> {
    type Values = PrimitiveValues<T::Native>;
    fn values(&self) -> Self::Values {
        PrimitiveValues(Box::new(self.values().clone()))
    }
}
#[derive(Debug)]
pub struct PrimitiveValues<T: ArrowNativeType>(Box<ScalarBuffer<T>>);
impl<T: ArrowNativeType + ArrowNativeTypeOp> FieldValues for PrimitiveValues<T> {
    type Value = T;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn compare(a: &T, b: &T) -> Ordering {
        T::compare(*a, *b)
    }
    fn value(&self, idx: usize) -> &T {
        &self.0[idx]
    }
}

use std::fmt;

use arrow::datatypes::DataType;

use crate::dfschema::Column;
use crate::error::{DataFusionError, Result};
use crate::scalar::ScalarValue;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum VisitRecursion {
    Continue,
    Skip,
    Stop,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RewriteRecursion {
    Continue,
    Mutate,
    Stop,
    Skip,
}
pub trait TreeNodeVisitor: Sized {
    type N: TreeNode;
    fn pre_visit(&mut self, node: &Self::N) -> Result<VisitRecursion>;
    fn post_visit(&mut self, _node: &Self::N) -> Result<VisitRecursion> {
        Ok(VisitRecursion::Continue)
    }
}
pub trait TreeNodeRewriter: Sized {
    type N: TreeNode;
    fn pre_visit(&mut self, _node: &Self::N) -> Result<RewriteRecursion> {
        Ok(RewriteRecursion::Continue)
    }
    fn mutate(&mut self, node: Self::N) -> Result<Self::N>;
}
pub trait TreeNode: Clone {
    fn apply_children<F>(&self, op: &mut F) -> Result<VisitRecursion>
    where
        F: FnMut(&Self) -> Result<VisitRecursion>;
    fn map_children<F>(self, transform: F) -> Result<Self>
    where
        F: FnMut(Self) -> Result<Self>;

    fn apply<F>(&self, op: &mut F) -> Result<VisitRecursion>
    where
        F: FnMut(&Self) -> Result<VisitRecursion>,
    {
        match op(self)? {
            VisitRecursion::Continue => {}
            VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
            VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
        };
        self.apply_children(&mut |node| node.apply(op))
    }
    fn visit<V: TreeNodeVisitor<N = Self>>(&self, visitor: &mut V) -> Result<VisitRecursion> {
        match visitor.pre_visit(self)? {
            VisitRecursion::Continue => {}
            VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
            VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
        };
        match self.apply_children(&mut |node| node.visit(visitor))? {
            VisitRecursion::Continue => {}
            VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
            VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
        }
        visitor.post_visit(self)
    }
    fn rewrite<R: TreeNodeRewriter<N = Self>>(self, rewriter: &mut R) -> Result<Self> {
        let need_mutate = match rewriter.pre_visit(&self)? {
            RewriteRecursion::Mutate => return rewriter.mutate(self),
            RewriteRecursion::Stop => return Ok(self),
            RewriteRecursion::Continue => true,
            RewriteRecursion::Skip => false,
        };
        let after = self.map_children(|node| node.rewrite(rewriter))?;
        if need_mutate {
            rewriter.mutate(after)
        } else {
            Ok(after)
        }
    }
    fn transform<F>(self, op: &F) -> Result<Self>
    where
        F: Fn(Self) -> Result<Self>,
    {
        let after = self.map_children(|n| n.transform(op))?;
        op(after)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Operator {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
    Plus,
    Minus,
    Multiply,
    Divide,
    Modulo,
    And,
    Or,
    IsDistinctFrom,
    IsNotDistinctFrom,
    RegexMatch,
    RegexIMatch,
    RegexNotMatch,
    RegexNotIMatch,
    BitwiseAnd,
    BitwiseOr,
    BitwiseXor,
    BitwiseShiftRight,
    BitwiseShiftLeft,
    StringConcat,
}
impl Operator {
    pub fn as_str(&self) -> &'static str {
        use Operator::*;
        match self {
            Eq => "=",
            NotEq => "!=",
            Lt => "<",
            LtEq => "<=",
            Gt => ">",
            GtEq => ">=",
            Plus => "+",
            Minus => "-",
            Multiply => "*",
            Divide => "/",
            Modulo => "%",
            And => "AND",
            Or => "OR",
            RegexMatch => "~",
            RegexIMatch => "~*",
            RegexNotMatch => "!~",
            RegexNotIMatch => "!~*",
            IsDistinctFrom => "IS DISTINCT FROM",
            IsNotDistinctFrom => "IS NOT DISTINCT FROM",
            BitwiseAnd => "&",
            BitwiseOr => "|",
            BitwiseXor => "BIT_XOR",
            BitwiseShiftRight => ">>",
            BitwiseShiftLeft => "<<",
            StringConcat => "||",
        }
    }
    pub fn all() -> &'static [Operator] {
        use Operator::*;
        &[
            Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or, IsDistinctFrom, IsNotDistinctFrom,
            RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch, BitwiseAnd, BitwiseOr, BitwiseXor, BitwiseShiftRight,
            BitwiseShiftLeft, StringConcat,
        ]
    }
}
impl fmt::Display for Operator {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_str())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BuiltinScalarFunction {
    Abs,
    Random,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct BinaryExpr {
    pub left: Box<Expr>,
    pub op: Operator,
    pub right: Box<Expr>,
}
impl BinaryExpr {
    pub fn new(left: Box<Expr>, op: Operator, right: Box<Expr>) -> Self {
        Self { left, op, right }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Like {
    pub negated: bool,
    pub expr: Box<Expr>,
    pub pattern: Box<Expr>,
    pub escape_char: Option<char>,
}
impl Like {
    pub fn new(negated: bool, expr: Box<Expr>, pattern: Box<Expr>, escape_char: Option<char>) -> Self {
        Self { negated, expr, pattern, escape_char }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Between {
    pub expr: Box<Expr>,
    pub negated: bool,
    pub low: Box<Expr>,
    pub high: Box<Expr>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct InList {
    pub expr: Box<Expr>,
    pub list: Vec<Expr>,
    pub negated: bool,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Cast {
    pub expr: Box<Expr>,
    pub data_type: DataType,
}
impl Cast {
    pub fn new(expr: Box<Expr>, data_type: DataType) -> Self {
        Self { expr, data_type }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ScalarFunction {
    pub fun: BuiltinScalarFunction,
    pub args: Vec<Expr>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Expr {
    Alias(Box<Expr>, String),
    Column(Column),
    Literal(ScalarValue),
    BinaryExpr(BinaryExpr),
    Like(Like),
    ILike(Like),
    SimilarTo(Like),
    Not(Box<Expr>),
    IsNotNull(Box<Expr>),
    IsNull(Box<Expr>),
    IsTrue(Box<Expr>),
    IsFalse(Box<Expr>),
    IsUnknown(Box<Expr>),
    IsNotTrue(Box<Expr>),
    IsNotFalse(Box<Expr>),
    IsNotUnknown(Box<Expr>),
    Negative(Box<Expr>),
    Between(Between),
    InList(InList),
    Cast(Cast),
    TryCast(Cast),
    ScalarFunction(ScalarFunction),
    Wildcard,
}

impl TreeNode for Expr {
    fn apply_children<F>(&self, op: &mut F) -> Result<VisitRecursion>
    where
        F: FnMut(&Self) -> Result<VisitRecursion>,
    {
        let mut kids: Vec<&Expr> = vec![];
        match self {
            Expr::Column(_) | Expr::Literal(_) | Expr::Wildcard => {}
            Expr::Alias(e, _)
            | Expr::Not(e)
            | Expr::IsNotNull(e)
            | Expr::IsNull(e)
            | Expr::IsTrue(e)
            | Expr::IsFalse(e)
            | Expr::IsUnknown(e)
            | Expr::IsNotTrue(e)
            | Expr::IsNotFalse(e)
            | Expr::IsNotUnknown(e)
            | Expr::Negative(e) => kids.push(e),
            Expr::Cast(c) | Expr::TryCast(c) => kids.push(&c.expr),
            Expr::BinaryExpr(b) => kids.extend([b.left.as_ref(), b.right.as_ref()]),
            Expr::Like(l) | Expr::ILike(l) | Expr::SimilarTo(l) => kids.extend([l.expr.as_ref(), l.pattern.as_ref()]),
            Expr::Between(b) => kids.extend([b.expr.as_ref(), b.low.as_ref(), b.high.as_ref()]),
            Expr::InList(i) => {
                kids.push(&i.expr);
                kids.extend(i.list.iter());
            }
            Expr::ScalarFunction(s) => kids.extend(s.args.iter()),
        }
        for k in kids {
            match op(k)? {
                VisitRecursion::Continue => {}
                VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
                VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
            }
        }
        Ok(VisitRecursion::Continue)
    }
    fn map_children<F>(self, mut t: F) -> Result<Self>
    where
        F: FnMut(Self) -> Result<Self>,
    {
        let mut b = |e: Box<Expr>| -> Result<Box<Expr>> { Ok(Box::new(t(*e)?)) };
        Ok(match self {
            Expr::Alias(e, n) => Expr::Alias(b(e)?, n),
            Expr::Not(e) => Expr::Not(b(e)?),
            Expr::BinaryExpr(x) => Expr::BinaryExpr(BinaryExpr { left: b(x.left)?, op: x.op, right: b(x.right)? }),
            Expr::Cast(c) => Expr::Cast(Cast { expr: b(c.expr)?, data_type: c.data_type }),
            other => other,
        })
    }
}

impl Expr {
    pub fn cast(self, t: DataType) -> Expr {
        Expr::Cast(Cast { expr: Box::new(self), data_type: t })
    }
}
macro_rules! ops {
    ($($f:ident $op:ident),*) => { impl Expr { $( pub fn $f(self, o: Expr) -> Expr { binary_expr(self, Operator::$op, o) } )* } };
}
ops!(eq Eq, not_eq NotEq, gt Gt, gt_eq GtEq, lt Lt, lt_eq LtEq, and And, or Or);

impl fmt::Display for Expr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Expr::Column(c) => write!(f, "{c}"),
            Expr::Literal(v) => write!(f, "{v:?}"),
            Expr::BinaryExpr(b) => {
                let side = |e: &Expr| match e {
                    Expr::BinaryExpr(_) => format!("({e})"),
                    e => format!("{e}"),
                };
                write!(f, "{} {} {}", side(&b.left), b.op, side(&b.right))
            }
            Expr::Cast(c) => write!(f, "CAST({} AS {:?})", c.expr, c.data_type),
            Expr::Not(e) => write!(f, "NOT {e}"),
            Expr::Alias(e, n) => write!(f, "{e} AS {n}"),
            other => write!(f, "{other:?}"),
        }
    }
}

pub fn col(name: impl Into<Column>) -> Expr {
    Expr::Column(name.into())
}
pub fn binary_expr(l: Expr, op: Operator, r: Expr) -> Expr {
    Expr::BinaryExpr(BinaryExpr::new(Box::new(l), op, Box::new(r)))
}
pub fn and(l: Expr, r: Expr) -> Expr {
    binary_expr(l, Operator::And, r)
}
pub fn or(l: Expr, r: Expr) -> Expr {
    binary_expr(l, Operator::Or, r)
}
pub fn in_list(expr: Expr, list: Vec<Expr>, negated: bool) -> Expr {
    Expr::InList(InList { expr: Box::new(expr), list, negated })
}
pub fn random() -> Expr {
    Expr::ScalarFunction(ScalarFunction { fun: BuiltinScalarFunction::Random, args: vec![] })
}
pub fn lit<T: Literal>(v: T) -> Expr {
    v.lit()
}
pub trait Literal {
    fn lit(&self) -> Expr;
}
macro_rules! lits {
    ($($t:ty),*) => { $( impl Literal for $t { fn lit(&self) -> Expr { Expr::Literal(ScalarValue::from(self.clone())) } } )* };
}
lits!(bool, f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, &str, String);
impl Literal for ScalarValue {
    fn lit(&self) -> Expr {
        Expr::Literal(self.clone())
    }
}
#[allow(dead_code)]
fn _unused(_: DataFusionError) {}

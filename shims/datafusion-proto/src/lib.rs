//! Stand-in for the cnosdb fork of datafusion-proto: physical expressions and scalar values
//! as prost messages (one bytes field), with a wire form of its own.
use std::sync::Arc;

use arrow_schema::{DataType, Schema};
use datafusion::error::{DataFusionError, Result};
use datafusion::logical_expr::Operator;
use datafusion::physical_expr as px;
use datafusion::physical_expr::PhysicalExpr;
use datafusion::scalar::ScalarValue as SV;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
enum Sc {
    Null,
    Bool(Option<bool>),
    F32(Option<u32>),
    F64(Option<u64>),
    Int(u8, Option<i64>),
    Uint(u8, Option<u64>),
    Str(bool, Option<String>),
    Bin(bool, Option<Vec<u8>>),
    Ts(u8, Option<i64>, Option<String>),
    Dict(DataType, Box<Sc>),
}
fn tz(z: &Option<Arc<str>>) -> Option<String> {
    z.as_ref().map(|z| z.to_string())
}
fn sc(v: &SV) -> Result<Sc> {
    Ok(match v {
        SV::Null => Sc::Null,
        SV::Boolean(b) => Sc::Bool(*b),
        SV::Float32(f) => Sc::F32(f.map(f32::to_bits)),
        SV::Float64(f) => Sc::F64(f.map(f64::to_bits)),
        SV::Int8(i) => Sc::Int(1, i.map(Into::into)),
        SV::Int16(i) => Sc::Int(2, i.map(Into::into)),
        SV::Int32(i) => Sc::Int(4, i.map(Into::into)),
        SV::Int64(i) => Sc::Int(8, *i),
        SV::UInt8(i) => Sc::Uint(1, i.map(Into::into)),
        SV::UInt16(i) => Sc::Uint(2, i.map(Into::into)),
        SV::UInt32(i) => Sc::Uint(4, i.map(Into::into)),
        SV::UInt64(i) => Sc::Uint(8, *i),
        SV::Utf8(s) => Sc::Str(false, s.clone()),
        SV::LargeUtf8(s) => Sc::Str(true, s.clone()),
        SV::Binary(s) => Sc::Bin(false, s.clone()),
        SV::LargeBinary(s) => Sc::Bin(true, s.clone()),
        SV::TimestampSecond(t, z) => Sc::Ts(0, *t, tz(z)),
        SV::TimestampMillisecond(t, z) => Sc::Ts(3, *t, tz(z)),
        SV::TimestampMicrosecond(t, z) => Sc::Ts(6, *t, tz(z)),
        SV::TimestampNanosecond(t, z) => Sc::Ts(9, *t, tz(z)),
        SV::Dictionary(k, v) => Sc::Dict((**k).clone(), Box::new(sc(v)?)),
        other => return Err(DataFusionError::NotImplemented(format!("scalar {other:?}"))),
    })
}
fn unsc(v: Sc) -> SV {
    match v {
        Sc::Null => SV::Null,
        Sc::Bool(b) => SV::Boolean(b),
        Sc::F32(f) => SV::Float32(f.map(f32::from_bits)),
        Sc::F64(f) => SV::Float64(f.map(f64::from_bits)),
        Sc::Int(1, i) => SV::Int8(i.map(|i| i as i8)),
        Sc::Int(2, i) => SV::Int16(i.map(|i| i as i16)),
        Sc::Int(4, i) => SV::Int32(i.map(|i| i as i32)),
        Sc::Int(_, i) => SV::Int64(i),
        Sc::Uint(1, i) => SV::UInt8(i.map(|i| i as u8)),
        Sc::Uint(2, i) => SV::UInt16(i.map(|i| i as u16)),
        Sc::Uint(4, i) => SV::UInt32(i.map(|i| i as u32)),
        Sc::Uint(_, i) => SV::UInt64(i),
        Sc::Str(false, s) => SV::Utf8(s),
        Sc::Str(true, s) => SV::LargeUtf8(s),
        Sc::Bin(false, s) => SV::Binary(s),
        Sc::Bin(true, s) => SV::LargeBinary(s),
        Sc::Ts(0, t, z) => SV::TimestampSecond(t, z.map(Into::into)),
        Sc::Ts(3, t, z) => SV::TimestampMillisecond(t, z.map(Into::into)),
        Sc::Ts(6, t, z) => SV::TimestampMicrosecond(t, z.map(Into::into)),
        Sc::Ts(_, t, z) => SV::TimestampNanosecond(t, z.map(Into::into)),
        Sc::Dict(k, v) => SV::Dictionary(Box::new(k), Box::new(unsc(*v))),
    }
}
#[derive(Serialize, Deserialize)]
enum Pe {
    Col(String, usize),
    Lit(Sc),
    Bin(Box<Pe>, String, Box<Pe>),
    Un(u8, Box<Pe>),
    Cast(Box<Pe>, DataType),
    InList(Box<Pe>, Vec<Pe>, bool),
}
const OPS: [Operator; 14] = [
    Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq, Operator::Plus,
    Operator::Minus, Operator::Multiply, Operator::Divide, Operator::Modulo, Operator::And, Operator::Or,
    Operator::IsDistinctFrom,
];
fn pe(e: &Arc<dyn PhysicalExpr>) -> Result<Pe> {
    use px::expressions::*;
    let a = e.as_any();
    let un = |k, e| Ok(Pe::Un(k, Box::new(pe(e)?)));
    if let Some(c) = a.downcast_ref::<Column>() {
        return Ok(Pe::Col(c.name().to_string(), c.index()));
    }
    if let Some(c) = a.downcast_ref::<Literal>() {
        return Ok(Pe::Lit(sc(c.value())?));
    }
    if let Some(c) = a.downcast_ref::<BinaryExpr>() {
        return Ok(Pe::Bin(Box::new(pe(c.left())?), c.op().as_str().to_string(), Box::new(pe(c.right())?)));
    }
    if let Some(c) = a.downcast_ref::<NotExpr>() {
        return un(0, c.arg());
    }
    if let Some(c) = a.downcast_ref::<IsNullExpr>() {
        return un(1, c.arg());
    }
    if let Some(c) = a.downcast_ref::<IsNotNullExpr>() {
        return un(2, c.arg());
    }
    if let Some(c) = a.downcast_ref::<NegativeExpr>() {
        return un(3, c.arg());
    }
    if let Some(c) = a.downcast_ref::<CastExpr>() {
        return Ok(Pe::Cast(Box::new(pe(c.expr())?), c.cast_type().clone()));
    }
    if let Some(c) = a.downcast_ref::<InListExpr>() {
        let l = c.list().iter().map(pe).collect::<Result<Vec<_>>>()?;
        return Ok(Pe::InList(Box::new(pe(c.expr())?), l, c.negated()));
    }
    Err(DataFusionError::NotImplemented(format!("physical expr {e}")))
}
fn unpe(e: Pe) -> Result<Arc<dyn PhysicalExpr>> {
    use px::expressions::*;
    Ok(match e {
        Pe::Col(n, i) => Arc::new(Column::new(&n, i)),
        Pe::Lit(v) => Arc::new(Literal::new(unsc(v))),
        Pe::Bin(l, op, r) => {
            let op = *OPS
                .iter()
                .find(|o| o.as_str() == op)
                .ok_or_else(|| DataFusionError::NotImplemented(op.clone()))?;
            Arc::new(BinaryExpr::new(unpe(*l)?, op, unpe(*r)?))
        }
        Pe::Un(0, a) => Arc::new(NotExpr::new(unpe(*a)?)),
        Pe::Un(1, a) => Arc::new(IsNullExpr::new(unpe(*a)?)),
        Pe::Un(2, a) => Arc::new(IsNotNullExpr::new(unpe(*a)?)),
        Pe::Un(_, a) => Arc::new(NegativeExpr::new(unpe(*a)?)),
        Pe::Cast(a, t) => Arc::new(CastExpr::new(unpe(*a)?, t, None)),
        Pe::InList(a, l, n) => Arc::new(InListExpr::new(unpe(*a)?, l.into_iter().map(unpe).collect::<Result<_>>()?, n)),
    })
}
fn json(e: serde_json::Error) -> DataFusionError {
    DataFusionError::Internal(e.to_string())
}

pub mod protobuf {
    use super::*;
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct PhysicalExprNode {
        #[prost(bytes = "vec", optional, tag = "1")]
        pub expr_type: Option<Vec<u8>>,
    }
    impl TryFrom<Arc<dyn PhysicalExpr>> for PhysicalExprNode {
        type Error = DataFusionError;
        fn try_from(e: Arc<dyn PhysicalExpr>) -> Result<Self> {
            Ok(Self { expr_type: Some(serde_json::to_vec(&pe(&e)?).map_err(json)?) })
        }
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct ScalarValue {
        #[prost(bytes = "vec", tag = "1")]
        pub value: Vec<u8>,
    }
    impl TryFrom<&SV> for ScalarValue {
        type Error = DataFusionError;
        fn try_from(v: &SV) -> Result<Self> {
            Ok(Self { value: serde_json::to_vec(&sc(v)?).map_err(json)? })
        }
    }
    impl TryFrom<&ScalarValue> for SV {
        type Error = DataFusionError;
        fn try_from(v: &ScalarValue) -> Result<Self> {
            Ok(unsc(serde_json::from_slice(&v.value).map_err(json)?))
        }
    }
}
pub mod physical_plan {
    pub mod from_proto {
        use crate::*;
        pub fn parse_physical_expr(
            e: &protobuf::PhysicalExprNode,
            _r: &dyn datafusion::execution::FunctionRegistry,
            _s: &Schema,
        ) -> Result<Arc<dyn PhysicalExpr>> {
            match &e.expr_type {
                Some(b) => unpe(serde_json::from_slice(b).map_err(json)?),
                None => Err(DataFusionError::Internal("Unexpected empty physical expression".into())),
            }
        }
    }
}

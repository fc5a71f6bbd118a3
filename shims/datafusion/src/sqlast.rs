use std::borrow::Cow;
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TableReference<'a> {
    Bare { table: Cow<'a, str> },
    Partial { schema: Cow<'a, str>, table: Cow<'a, str> },
    Full { catalog: Cow<'a, str>, schema: Cow<'a, str>, table: Cow<'a, str> },
}
pub type OwnedTableReference = TableReference<'static>;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ResolvedTableReference<'a> {
    pub catalog: Cow<'a, str>,
    pub schema: Cow<'a, str>,
    pub table: Cow<'a, str>,
}
impl<'a> TableReference<'a> {
    pub fn none() -> Option<TableReference<'a>> {
        None
    }
    pub fn bare(table: impl Into<Cow<'a, str>>) -> Self {
        Self::Bare { table: table.into() }
    }
    pub fn partial(schema: impl Into<Cow<'a, str>>, table: impl Into<Cow<'a, str>>) -> Self {
        Self::Partial { schema: schema.into(), table: table.into() }
    }
    pub fn full(c: impl Into<Cow<'a, str>>, s: impl Into<Cow<'a, str>>, t: impl Into<Cow<'a, str>>) -> Self {
        Self::Full { catalog: c.into(), schema: s.into(), table: t.into() }
    }
    pub fn table(&self) -> &str {
        match self {
            Self::Bare { table } | Self::Partial { table, .. } | Self::Full { table, .. } => table,
        }
    }
    pub fn schema(&self) -> Option<&str> {
        match self {
            Self::Bare { .. } => None,
            Self::Partial { schema, .. } | Self::Full { schema, .. } => Some(schema),
        }
    }
    pub fn to_owned_reference(&self) -> OwnedTableReference {
        match self {
            Self::Bare { table } => TableReference::Bare { table: table.to_string().into() },
            Self::Partial { schema, table } => TableReference::Partial { schema: schema.to_string().into(), table: table.to_string().into() },
            Self::Full { catalog, schema, table } => TableReference::Full {
                catalog: catalog.to_string().into(),
                schema: schema.to_string().into(),
                table: table.to_string().into(),
            },
        }
    }
}
impl fmt::Display for TableReference<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Bare { table } => write!(f, "{table}"),
            Self::Partial { schema, table } => write!(f, "{schema}.{table}"),
            Self::Full { catalog, schema, table } => write!(f, "{catalog}.{schema}.{table}"),
        }
    }
}
impl<'a> From<&'a str> for OwnedTableReference {
    fn from(s: &'a str) -> Self {
        TableReference::Bare { table: s.to_string().into() }
    }
}
impl From<String> for OwnedTableReference {
    fn from(s: String) -> Self {
        TableReference::Bare { table: s.into() }
    }
}

fn escape_single(s: &str) -> String {
    s.replace('\'', "''")
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Value {
    Number(String, bool),
    SingleQuotedString(String),
    DoubleQuotedString(String),
    Boolean(bool),
    Null,
}
impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Number(n, l) => write!(f, "{n}{}", if *l { "L" } else { "" }),
            Self::SingleQuotedString(s) => write!(f, "'{}'", escape_single(s)),
            Self::DoubleQuotedString(s) => write!(f, "\"{}\"", s.replace('"', "\"\"")),
            Self::Boolean(b) => write!(f, "{b}"),
            Self::Null => write!(f, "NULL"),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum TimezoneInfo {
    None,
    WithTimeZone,
    WithoutTimeZone,
    Tz,
}
impl fmt::Display for TimezoneInfo {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::None => Ok(()),
            Self::WithTimeZone => write!(f, " WITH TIME ZONE"),
            Self::WithoutTimeZone => write!(f, " WITHOUT TIME ZONE"),
            Self::Tz => write!(f, "TZ"),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ExactNumberInfo {
    None,
    Precision(u64),
    PrecisionAndScale(u64, u64),
}
impl fmt::Display for ExactNumberInfo {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::None => Ok(()),
            Self::Precision(p) => write!(f, "({p})"),
            Self::PrecisionAndScale(p, s) => write!(f, "({p},{s})"),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum DataType {
    Boolean,
    TinyInt(Option<u64>),
    SmallInt(Option<u64>),
    Int(Option<u64>),
    BigInt(Option<u64>),
    UnsignedTinyInt(Option<u64>),
    UnsignedSmallInt(Option<u64>),
    UnsignedInt(Option<u64>),
    UnsignedBigInt(Option<u64>),
    Float(Option<u64>),
    Double,
    Timestamp(Option<u64>, TimezoneInfo),
    Date,
    Time(Option<u64>, TimezoneInfo),
    Interval,
    Varbinary(Option<u64>),
    Binary(Option<u64>),
    Blob(Option<u64>),
    String,
    Decimal(ExactNumberInfo),
    BigDecimal(ExactNumberInfo),
}
impl fmt::Display for DataType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let opt = |f: &mut fmt::Formatter<'_>, n: &str, l: &Option<u64>, tail: &str| match l {
            Some(l) => write!(f, "{n}({l}){tail}"),
            None => write!(f, "{n}{tail}"),
        };
        match self {
            Self::Boolean => write!(f, "BOOLEAN"),
            Self::TinyInt(l) => opt(f, "TINYINT", l, ""),
            Self::SmallInt(l) => opt(f, "SMALLINT", l, ""),
            Self::Int(l) => opt(f, "INT", l, ""),
            Self::BigInt(l) => opt(f, "BIGINT", l, ""),
            Self::UnsignedTinyInt(l) => opt(f, "TINYINT", l, " UNSIGNED"),
            Self::UnsignedSmallInt(l) => opt(f, "SMALLINT", l, " UNSIGNED"),
            Self::UnsignedInt(l) => opt(f, "INT", l, " UNSIGNED"),
            Self::UnsignedBigInt(l) => opt(f, "BIGINT", l, " UNSIGNED"),
            Self::Float(l) => opt(f, "FLOAT", l, ""),
            Self::Double => write!(f, "DOUBLE"),
            Self::Timestamp(p, z) => {
                opt(f, "TIMESTAMP", p, "")?;
                write!(f, "{z}")
            }
            Self::Date => write!(f, "DATE"),
            Self::Time(p, z) => {
                opt(f, "TIME", p, "")?;
                write!(f, "{z}")
            }
            Self::Interval => write!(f, "INTERVAL"),
            Self::Varbinary(l) => opt(f, "VARBINARY", l, ""),
            Self::Binary(l) => opt(f, "BINARY", l, ""),
            Self::Blob(l) => opt(f, "BLOB", l, ""),
            Self::String => write!(f, "STRING"),
            Self::Decimal(i) => write!(f, "DECIMAL{i}"),
            Self::BigDecimal(i) => write!(f, "BIGDECIMAL{i}"),
        }
    }
}

use std::collections::HashMap;
use std::fmt;
use std::sync::Arc;

use arrow::datatypes::{DataType, Field, FieldRef, Schema};

use crate::error::{DataFusionError, Result};
use crate::sqlast::OwnedTableReference;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Column {
    pub relation: Option<OwnedTableReference>,
    pub name: String,
}
impl Column {
    pub fn new(relation: Option<impl Into<OwnedTableReference>>, name: impl Into<String>) -> Self {
        Self { relation: relation.map(|r| r.into()), name: name.into() }
    }
    pub fn from_name(name: impl Into<String>) -> Self {
        Self { relation: None, name: name.into() }
    }
    pub fn new_unqualified(name: impl Into<String>) -> Self {
        Self::from_name(name)
    }
    pub fn flat_name(&self) -> String {
        match &self.relation {
            Some(r) => format!("{r}.{}", self.name),
            None => self.name.clone(),
        }
    }
}
impl From<&str> for Column {
    fn from(s: &str) -> Self {
        Self::from_name(s)
    }
}
impl From<String> for Column {
    fn from(s: String) -> Self {
        Self::from_name(s)
    }
}
impl fmt::Display for Column {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.flat_name())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DFField {
    qualifier: Option<OwnedTableReference>,
    field: FieldRef,
}
impl DFField {
    pub fn new(qualifier: Option<OwnedTableReference>, name: &str, t: DataType, nullable: bool) -> Self {
        Self { qualifier, field: Arc::new(Field::new(name, t, nullable)) }
    }
    pub fn from(field: Field) -> Self {
        Self { qualifier: None, field: Arc::new(field) }
    }
    pub fn from_qualified(q: impl Into<OwnedTableReference>, field: impl Into<FieldRef>) -> Self {
        Self { qualifier: Some(q.into()), field: field.into() }
    }
    pub fn name(&self) -> &String {
        self.field.name()
    }
    pub fn data_type(&self) -> &DataType {
        self.field.data_type()
    }
    pub fn field(&self) -> &FieldRef {
        &self.field
    }
    pub fn qualifier(&self) -> Option<&OwnedTableReference> {
        self.qualifier.as_ref()
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DFSchema {
    fields: Vec<DFField>,
    metadata: HashMap<String, String>,
}
pub type DFSchemaRef = Arc<DFSchema>;
impl DFSchema {
    pub fn empty() -> Self {
        Self { fields: vec![], metadata: HashMap::new() }
    }
    pub fn new_with_metadata(fields: Vec<DFField>, metadata: HashMap<String, String>) -> Result<Self> {
        let mut seen = std::collections::HashSet::new();
        for f in &fields {
            if !seen.insert((f.qualifier.clone(), f.name().clone())) {
                return Err(DataFusionError::SchemaError(format!("Schema contains duplicate field name {}", f.name())));
            }
        }
        Ok(Self { fields, metadata })
    }
    pub fn fields(&self) -> &Vec<DFField> {
        &self.fields
    }
    pub fn metadata(&self) -> &HashMap<String, String> {
        &self.metadata
    }
    pub fn index_of_column(&self, c: &Column) -> Result<usize> {
        self.fields
            .iter()
            .position(|f| f.name() == &c.name && (c.relation.is_none() || f.qualifier == c.relation))
            .ok_or_else(|| DataFusionError::SchemaError(format!("No field named {c}.")))
    }
}
impl From<&DFSchema> for Schema {
    fn from(s: &DFSchema) -> Self {
        Schema::new_with_metadata(s.fields.iter().map(|f| f.field.clone()).collect::<Vec<_>>(), s.metadata.clone())
    }
}
impl From<DFSchema> for Schema {
    fn from(s: DFSchema) -> Self {
        Schema::from(&s)
    }
}
impl TryFrom<Schema> for DFSchema {
    type Error = DataFusionError;
    fn try_from(s: Schema) -> Result<Self> {
        Self::new_with_metadata(
            s.fields().iter().map(|f| DFField { qualifier: None, field: f.clone() }).collect(),
            s.metadata().clone(),
        )
    }
}
pub trait ToDFSchema: Sized {
    fn to_dfschema(self) -> Result<DFSchema>;
    fn to_dfschema_ref(self) -> Result<DFSchemaRef> {
        Ok(Arc::new(self.to_dfschema()?))
    }
}
impl ToDFSchema for Schema {
    fn to_dfschema(self) -> Result<DFSchema> {
        self.try_into()
    }
}
impl ToDFSchema for arrow::datatypes::SchemaRef {
    fn to_dfschema(self) -> Result<DFSchema> {
        self.as_ref().clone().try_into()
    }
}

#![allow(clippy::all)]
pub use arrow;

pub mod error;
pub mod scalar;
pub mod expr;
pub mod physical;
pub mod metrics;
pub mod pruning;
pub mod sqlast;
pub mod dfschema;
pub mod format;
pub mod mempool;

pub mod common {
    pub use crate::dfschema::{Column, DFField, DFSchema, DFSchemaRef, ToDFSchema};
    pub use crate::error::{DataFusionError, Result};
    pub use crate::scalar::ScalarValue;
    pub use crate::sqlast::{OwnedTableReference, TableReference};
    pub mod tree_node {
        pub use crate::expr::{
            RewriteRecursion, TreeNode, TreeNodeRewriter, TreeNodeVisitor, VisitRecursion,
        };
    }
    pub mod cast {
        use crate::error::{DataFusionError, Result};
        use arrow::array::*;
        macro_rules! casts {
            ($($f:ident $t:ty),* $(,)?) => { $(
                pub fn $f(a: &dyn Array) -> Result<&$t> {
                    a.as_any().downcast_ref::<$t>().ok_or_else(|| {
                        DataFusionError::Internal(format!("could not cast value of type {:?} to {}", a.data_type(), stringify!($t)))
                    })
                }
            )* };
        }
        casts!(as_boolean_array BooleanArray, as_int64_array Int64Array, as_uint64_array UInt64Array,
               as_float64_array Float64Array, as_string_array StringArray);
    }
}
pub mod prelude {
    pub use crate::dfschema::Column;
    pub use crate::expr::{and, binary_expr, col, in_list, lit, or, random, Expr};
}
pub mod logical_expr {
    pub use crate::expr::*;
    pub mod expr_fn {
        pub use crate::expr::{and, binary_expr, col, in_list, or};
    }
    pub mod expr {
        pub use crate::expr::*;
    }
    pub struct AggregateUDF;
    pub struct ScalarUDF;
    pub struct WindowUDF;
}
pub mod physical_expr {
    pub use crate::physical::{create_physical_expr, ColumnarValue, PhysicalExpr};
    pub mod execution_props {
        pub use crate::physical::ExecutionProps;
    }
    pub mod expressions {
        pub use crate::physical::{binary, lit, BinaryExpr, CastExpr, Column, Literal};
        pub use crate::physical::{InListExpr, IsNotNullExpr, IsNullExpr, NegativeExpr, NotExpr};
    }
}
pub mod physical_plan {
    pub use crate::physical::{ColumnarValue, PhysicalExpr};
    pub use crate::physical_expr::expressions;
    pub mod metrics {
        pub use crate::metrics::*;
    }
    pub mod functions {
        pub use crate::physical::create_function_expr as create_physical_expr;
    }
    pub mod common {
        /// Aborts the tasks when dropped.
        #[derive(Debug)]
        pub struct AbortOnDropMany<T>(pub Vec<tokio::task::JoinHandle<T>>);
        impl<T> Drop for AbortOnDropMany<T> {
            fn drop(&mut self) {
                for h in &self.0 {
                    h.abort();
                }
            }
        }
        #[derive(Debug)]
        pub struct AbortOnDropSingle<T>(pub tokio::task::JoinHandle<T>);
        impl<T> Drop for AbortOnDropSingle<T> {
            fn drop(&mut self) {
                self.0.abort();
            }
        }
    }
    pub mod sorts {
        pub mod cursor {
            pub use crate::physical::{Cursor, FieldArray, FieldValues};
        }
    }
    use arrow::datatypes::SchemaRef;
    use arrow::record_batch::RecordBatch;
    pub trait RecordBatchStream: futures::Stream<Item = crate::error::Result<RecordBatch>> {
        fn schema(&self) -> SchemaRef;
    }
    pub type SendableRecordBatchStream = std::pin::Pin<Box<dyn RecordBatchStream + Send>>;
}
pub mod physical_optimizer {
    pub mod pruning {
        pub use crate::pruning::{PruningPredicate, PruningStatistics};
    }
}
pub mod execution {
    pub mod memory_pool {
        pub use crate::mempool::{MemoryConsumer, MemoryPool, MemoryReservation};
    }
    use std::collections::HashSet;
    use std::sync::Arc;
    pub trait FunctionRegistry {
        fn udfs(&self) -> HashSet<String>;
        fn udf(&self, name: &str) -> crate::error::Result<Arc<crate::logical_expr::ScalarUDF>>;
        fn udaf(&self, name: &str) -> crate::error::Result<Arc<crate::logical_expr::AggregateUDF>>;
        fn udwf(&self, name: &str) -> crate::error::Result<Arc<crate::logical_expr::WindowUDF>>;
    }
}
pub mod datasource {
    pub mod file_format {
        pub use crate::format::FileFormat;
        pub mod file_type {
            pub use crate::format::{FileCompressionType, FileType};
        }
        pub mod avro {
            pub use crate::format::AvroFormat;
        }
        pub mod csv {
            pub use crate::format::CsvFormat;
        }
        pub mod json {
            pub use crate::format::JsonFormat;
        }
        pub mod parquet {
            pub use crate::format::ParquetFormat;
        }
    }
    pub mod listing {
        pub use crate::format::ListingOptions;
    }
}
pub mod sql {
    pub use crate::sqlast::{OwnedTableReference, ResolvedTableReference, TableReference};
    pub mod sqlparser {
        pub mod ast {
            pub use crate::sqlast::{DataType, ExactNumberInfo, TimezoneInfo, Value};
        }
    }
}
pub mod parquet {
    pub mod data_type {
        pub trait AsBytes {
            fn as_bytes(&self) -> &[u8];
        }
        macro_rules! plain { ($($t:ty),*) => { $(impl AsBytes for $t {
            fn as_bytes(&self) -> &[u8] {
                // the value's own bytes, as parquet gives them
                unsafe { std::slice::from_raw_parts(self as *const $t as *const u8, std::mem::size_of::<$t>()) }
            }
        })* } }
        plain!(u8, i32, u32, i64, u64, f32, f64);
        impl AsBytes for [u8] {
            fn as_bytes(&self) -> &[u8] {
                self
            }
        }
        impl AsBytes for Vec<u8> {
            fn as_bytes(&self) -> &[u8] {
                self
            }
        }
        impl AsBytes for str {
            fn as_bytes(&self) -> &[u8] {
                self.as_bytes()
            }
        }
        impl AsBytes for String {
            fn as_bytes(&self) -> &[u8] {
                self.as_str().as_bytes()
            }
        }
    }
}

#[macro_export]
macro_rules! assert_batches_eq {
    ($expected:expr, $chunks:expr) => {{
        let expected: Vec<String> = $expected.iter().map(|s| s.to_string()).collect();
        let formatted = $crate::arrow::util::pretty::pretty_format_batches($chunks).unwrap().to_string();
        let actual: Vec<String> = formatted.trim().lines().map(|s| s.to_string()).collect();
        assert_eq!(expected, actual);
    }};
}

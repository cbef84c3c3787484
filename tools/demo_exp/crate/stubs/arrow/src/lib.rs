//! The parts of arrow that experimenter uses, from the real arrow-array and arrow-schema.
pub mod array {
    pub use arrow_array::*;
}
pub mod record_batch {
    pub use arrow_array::RecordBatch;
}
pub mod datatypes {
    pub use arrow_array::types::*;
    pub use arrow_schema::*;
}
pub mod error {
    pub use arrow_schema::ArrowError;
}

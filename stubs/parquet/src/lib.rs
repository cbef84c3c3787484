//! Contract of the parquet reader: the batches of the file, in order. Which batches a file holds is set by `hold`.
#![allow(static_mut_refs)]
use arrow_array::RecordBatch;
pub mod errors {
    pub type ParquetError = arrow_schema::ArrowError;
    pub type Result<T> = std::result::Result<T, ParquetError>;
}
static mut HELD: Vec<RecordBatch> = Vec::new();
pub fn hold(b: Vec<RecordBatch>) {
    unsafe { HELD = b }
}
pub mod arrow {
    pub mod arrow_reader {
        use crate::errors::Result;
        use arrow_array::RecordBatch;
        use std::fs::File;
        pub struct ParquetRecordBatchReaderBuilder<T>(T, usize);
        impl ParquetRecordBatchReaderBuilder<File> {
            pub fn try_new(f: File) -> Result<Self> {
                Ok(Self(f, usize::MAX))
            }
            /// At most so many rows in a batch.
            pub fn with_batch_size(self, n: usize) -> Self {
                Self(self.0, n)
            }
            pub fn build(self) -> Result<ParquetRecordBatchReader> {
                let mut out = Vec::new();
                for b in unsafe { crate::HELD.iter() } {
                    let mut at = 0;
                    while at < b.num_rows() {
                        let n = self.1.min(b.num_rows() - at);
                        out.push(b.slice(at, n));
                        at += n;
                    }
                }
                Ok(ParquetRecordBatchReader(out.into_iter()))
            }
        }
        pub struct ParquetRecordBatchReader(std::vec::IntoIter<RecordBatch>);
        impl Iterator for ParquetRecordBatchReader {
            type Item = std::result::Result<RecordBatch, arrow_schema::ArrowError>;
            fn next(&mut self) -> Option<Self::Item> {
                self.0.next().map(Ok)
            }
        }
    }
}

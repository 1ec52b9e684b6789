//! A parquet file as a plain table.

use std::collections::BTreeMap;

use arrow::array::{Array, AsArray};
use arrow::datatypes::{DataType, Int64Type, UInt64Type};
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use parquet::basic::Compression;

use crate::model::{bm, Labels};

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Null,
    U(u64),
    I(i64),
    L(Vec<u64>),
}

#[derive(Debug)]
pub struct Column {
    pub name: String,
    pub dtype: String,
    pub metadata: Labels,
    pub cells: Vec<Cell>,
}

impl Column {
    pub fn kind(&self) -> &str {
        self.metadata.get("metric_type").map_or("", |s| &**s)
    }
}

#[derive(Debug)]
pub struct Table {
    pub columns: Vec<Column>,
    pub rows: usize,
    pub groups: Vec<i64>,
    pub compressed: Vec<bool>,
    /// Bytes of column data in the file.
    pub stored: i64,
    pub file_metadata: Vec<(String, Option<String>)>,
}

/// Err: not a complete readable file.
pub fn read(data: Vec<u8>) -> Result<Table, String> {
    let b = ParquetRecordBatchReaderBuilder::try_new(bytes::Bytes::from(data)).map_err(|e| e.to_string())?;
    let md = b.metadata().clone();
    let schema = b.schema().clone();
    let mut columns: Vec<Column> = schema
        .fields()
        .iter()
        .map(|f| Column {
            name: f.name().clone(),
            dtype: match f.data_type() {
                DataType::UInt64 => "u64".into(),
                DataType::Int64 => "i64".into(),
                DataType::List(i) if *i.data_type() == DataType::UInt64 => "list of u64".into(),
                other => format!("{other:?}"),
            },
            metadata: bm(f.metadata()),
            cells: vec![],
        })
        .collect();
    let mut rows = 0;
    for batch in b.with_batch_size(4096).build().map_err(|e| e.to_string())? {
        let batch = batch.map_err(|e| e.to_string())?;
        if batch.num_columns() != columns.len() {
            return Err(format!("{} columns of {}", batch.num_columns(), columns.len()));
        }
        rows += batch.num_rows();
        for (c, a) in columns.iter_mut().zip(batch.columns()) {
            for i in 0..a.len() {
                c.cells.push(if a.is_null(i) {
                    Cell::Null
                } else if let Some(a) = a.as_primitive_opt::<UInt64Type>() {
                    Cell::U(a.value(i))
                } else if let Some(a) = a.as_primitive_opt::<Int64Type>() {
                    Cell::I(a.value(i))
                } else if let Some(a) = a.as_list_opt::<i32>() {
                    let v = a.value(i);
                    let Some(v) = v.as_primitive_opt::<UInt64Type>() else {
                        return Err("list of something else".into());
                    };
                    if v.null_count() > 0 {
                        return Err("null inside a list".into());
                    }
                    Cell::L(v.values().to_vec())
                } else {
                    return Err(format!("unexpected column type {:?}", a.data_type()));
                });
            }
        }
    }
    let groups = md.row_groups().iter().map(|g| g.num_rows()).collect();
    let mut compressed: Vec<bool> = md
        .row_groups()
        .iter()
        .flat_map(|g| g.columns().iter().map(|c| c.compression() != Compression::UNCOMPRESSED))
        .collect();
    let zstd_only = md.row_groups().iter().flat_map(|g| g.columns()).all(|c| {
        matches!(c.compression(), Compression::UNCOMPRESSED | Compression::ZSTD(_))
    });
    if !zstd_only {
        return Err("a codec that cannot be requested".into());
    }
    compressed.dedup();
    let file_metadata = md
        .file_metadata()
        .key_value_metadata()
        .map(|v| v.iter().map(|kv| (kv.key.clone(), kv.value.clone())).collect())
        .unwrap_or_default();
    let stored = md.row_groups().iter().flat_map(|g| g.columns()).map(|c| c.compressed_size()).sum();
    Ok(Table { columns, rows, groups, compressed, stored, file_metadata })
}

/// Column positions by (name, kind); Err when two share both.
pub fn index(t: &Table) -> Result<BTreeMap<(String, String), usize>, String> {
    let mut m = BTreeMap::new();
    for (i, c) in t.columns.iter().enumerate() {
        if m.insert((c.name.clone(), c.kind().to_string()), i).is_some() {
            return Err(format!("two columns {:?} of kind {:?}", c.name, c.kind()));
        }
    }
    Ok(m)
}

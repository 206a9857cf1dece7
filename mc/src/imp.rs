//! The implementation under test, called through its public API only.
use crate::opts::Opts;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Value),
    Panic(String),
}

impl Out {
    pub fn ok(&self) -> Option<&Value> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok(v) => v.to_string(),
            Out::Panic(m) => format!("<aborts: {}>", m),
        }
    }
}

pub fn guard(f: impl FnOnce() -> Value) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Out::Ok(v),
        Err(e) => Out::Panic(
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
    }
}

pub fn avro(s: &Value, o: &Opts) -> Out {
    guard(|| jst::convert_avro(s, o.context()))
}
pub fn bq(s: &Value, o: &Opts) -> Out {
    guard(|| jst::convert_bigquery(s, o.context()))
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Avro,
    Bq,
}
pub const FMTS: [Fmt; 2] = [Fmt::Avro, Fmt::Bq];
pub fn conv(f: Fmt, s: &Value, o: &Opts) -> Out {
    match f {
        Fmt::Avro => avro(s, o),
        Fmt::Bq => bq(s, o),
    }
}

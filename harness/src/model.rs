//! Reference data model, independent of chopper's types, plus conversions and comparators.
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Bool,
    Byte,
    Buf,
    Char,
    Double,
    Float,
    Int,
    Long,
    Short,
    Str,
}

pub const VALUE_TYPES: [Ty; 8] = [Ty::Str, Ty::Int, Ty::Long, Ty::Double, Ty::Float, Ty::Short, Ty::Char, Ty::Byte];

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Null,
    Byte(u8),
    Char(u16),
    Double(u64), // bits
    Float(u32),  // bits
    Int(i32),
    Long(i64),
    Short(i16),
    Str(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct MRow {
    pub ts: u64,
    pub vals: Vec<Val>,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Table {
    pub names: Vec<String>,
    pub types: Vec<Ty>,
    pub rows: Vec<MRow>,
}

pub fn ty_to(t: Ty) -> FieldType {
    match t {
        Ty::Bool => FieldType::Boolean,
        Ty::Byte => FieldType::Byte,
        Ty::Buf => FieldType::ByteBuf,
        Ty::Char => FieldType::Char,
        Ty::Double => FieldType::Double,
        Ty::Float => FieldType::Float,
        Ty::Int => FieldType::Int,
        Ty::Long => FieldType::Long,
        Ty::Short => FieldType::Short,
        Ty::Str => FieldType::String,
    }
}

pub fn ty_from(t: FieldType) -> Ty {
    match t {
        FieldType::Boolean => Ty::Bool,
        FieldType::Byte => Ty::Byte,
        FieldType::ByteBuf => Ty::Buf,
        FieldType::Char => Ty::Char,
        FieldType::Double => Ty::Double,
        FieldType::Float => Ty::Float,
        FieldType::Int => Ty::Int,
        FieldType::Long => Ty::Long,
        FieldType::Short => Ty::Short,
        FieldType::String => Ty::Str,
    }
}

pub fn val_to(v: &Val) -> FieldValue {
    match v {
        Val::Null => FieldValue::None,
        Val::Byte(x) => FieldValue::Byte(*x),
        Val::Char(x) => FieldValue::Char(*x),
        Val::Double(b) => FieldValue::Double(f64::from_bits(*b)),
        Val::Float(b) => FieldValue::Float(f32::from_bits(*b)),
        Val::Int(x) => FieldValue::Int(*x),
        Val::Long(x) => FieldValue::Long(*x),
        Val::Short(x) => FieldValue::Short(*x),
        Val::Str(s) => FieldValue::String(s.clone()),
    }
}

pub fn val_from(v: &FieldValue) -> Result<Val, String> {
    Ok(match v {
        FieldValue::Boolean(_) => return Err("unexpected boolean value".into()),
        FieldValue::ByteBuf(_) => return Err("unexpected byte buffer value".into()),
        FieldValue::Byte(x) => Val::Byte(*x),
        FieldValue::Char(x) => Val::Char(*x),
        FieldValue::Double(x) => Val::Double(x.to_bits()),
        FieldValue::Float(x) => Val::Float(x.to_bits()),
        FieldValue::Int(x) => Val::Int(*x),
        FieldValue::Long(x) => Val::Long(*x),
        FieldValue::Short(x) => Val::Short(*x),
        FieldValue::String(s) => Val::Str(s.clone()),
        FieldValue::None => Val::Null,
    })
}

pub fn row_to(r: &MRow) -> Row {
    Row { timestamp: r.ts, field_values: r.vals.iter().map(val_to).collect() }
}

pub fn row_from(r: &Row) -> Result<MRow, String> {
    let mut vals = Vec::with_capacity(r.field_values.len());
    for v in &r.field_values {
        vals.push(val_from(v)?);
    }
    Ok(MRow { ts: r.timestamp, vals })
}

pub fn header_to(names: &[String], types: &[Ty]) -> Header {
    Header::new(names.to_vec(), types.iter().map(|t| ty_to(*t)).collect())
}

pub fn header_from(h: &Header) -> (Vec<String>, Vec<Ty>) {
    (h.field_names().clone(), h.field_types().iter().map(|t| ty_from(*t)).collect())
}

pub fn val_type(v: &Val) -> Option<Ty> {
    Some(match v {
        Val::Null => return None,
        Val::Byte(_) => Ty::Byte,
        Val::Char(_) => Ty::Char,
        Val::Double(_) => Ty::Double,
        Val::Float(_) => Ty::Float,
        Val::Int(_) => Ty::Int,
        Val::Long(_) => Ty::Long,
        Val::Short(_) => Ty::Short,
        Val::Str(_) => Ty::Str,
    })
}

/// first difference between expected and actual rows, as a message
pub fn diff_rows(exp: &[MRow], act: &[MRow]) -> Result<(), String> {
    for i in 0..exp.len().max(act.len()) {
        match (exp.get(i), act.get(i)) {
            (Some(e), Some(a)) if e == a => {}
            (e, a) => {
                return Err(format!(
                    "row {} differs ({} expected, {} actual rows): expected {} actual {}",
                    i,
                    exp.len(),
                    act.len(),
                    crate::engine::truncate(&format!("{:?}", e), 300),
                    crate::engine::truncate(&format!("{:?}", a), 300)
                ))
            }
        }
    }
    Ok(())
}

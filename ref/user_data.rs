use super::prim::*;
use super::scalars::{fixed, parse_color, parse_point, parse_rect, parse_size};
use crate::binary::chunks::user_data::{PropertiesMap, Property, UserDataChunk, Value, Vector};

const MAX_NESTING: usize = 64;

fn boolean<'a>(i: &'a [u8]) -> R<'a, bool> {
    let (i, b) = r8(i)?;
    Ok((i, b != 0))
}
pub fn value<'a>(i: &'a [u8], depth: usize) -> R<'a, Value<'a>> {
    let (i, ty) = r16(i)?;
    match ty {
        1 => {
            let (i, v) = boolean(i)?;
            Ok((i, Value::Bool(v)))
        }
        2 => {
            let (i, v) = s8(i)?;
            Ok((i, Value::Int8(v)))
        }
        3 => {
            let (i, v) = r8(i)?;
            Ok((i, Value::Uint8(v)))
        }
        4 => {
            let (i, v) = s16(i)?;
            Ok((i, Value::Int16(v)))
        }
        5 => {
            let (i, v) = r16(i)?;
            Ok((i, Value::Uint16(v)))
        }
        6 => {
            let (i, v) = s32(i)?;
            Ok((i, Value::Int32(v)))
        }
        7 => {
            let (i, v) = r32(i)?;
            Ok((i, Value::Uint32(v)))
        }
        8 => {
            let (i, v) = s64(i)?;
            Ok((i, Value::Int64(v)))
        }
        9 => {
            let (i, v) = r64(i)?;
            Ok((i, Value::Uint64(v)))
        }
        10 => {
            let (i, v) = fixed(i)?;
            Ok((i, Value::Fixed(v)))
        }
        11 => {
            let (i, v) = f32_(i)?;
            Ok((i, Value::Float(v)))
        }
        12 => {
            let (i, v) = f64_(i)?;
            Ok((i, Value::Double(v)))
        }
        13 => {
            let (i, v) = string(i)?;
            Ok((i, Value::String(v)))
        }
        14 => {
            let (i, v) = parse_point(i)?;
            Ok((i, Value::Point(v)))
        }
        15 => {
            let (i, v) = parse_size(i)?;
            Ok((i, Value::Size(v)))
        }
        16 => {
            let (i, v) = parse_rect(i)?;
            Ok((i, Value::Rect(v)))
        }
        17 => {
            let (i, v) = vector(i, depth)?;
            Ok((i, Value::Vector(v)))
        }
        18 => {
            let (i, v) = nested_map(i, depth)?;
            Ok((i, Value::PropertiesMap(v)))
        }
        19 => {
            let (i, v) = r128(i)?;
            Ok((i, Value::Uuid(v)))
        }
        _ => Err(()),
    }
}
fn deeper(depth: usize) -> Result<usize, ()> {
    if depth < MAX_NESTING {
        Ok(depth + 1)
    } else {
        Err(())
    }
}
pub fn properties<'a>(i: &'a [u8], depth: usize) -> R<'a, Vec<Property<'a>>> {
    let depth = deeper(depth)?;
    let (i, n) = r32(i)?;
    times(i, n as usize, |i| property(i, depth))
}
pub fn property<'a>(i: &'a [u8], depth: usize) -> R<'a, Property<'a>> {
    let (i, name) = string(i)?;
    let (i, value) = value(i, depth)?;
    Ok((i, Property { name, value }))
}
pub fn nested_map<'a>(i: &'a [u8], depth: usize) -> R<'a, PropertiesMap<'a>> {
    let (i, properties) = properties(i, depth)?;
    Ok((i, PropertiesMap { properties, extension_entry_id: 0 }))
}
pub fn vector<'a>(i: &'a [u8], depth: usize) -> R<'a, Vector<'a>> {
    let depth = deeper(depth)?;
    let (i, n) = r32(i)?;
    let n = n as usize;
    let (i, ty) = r16(i)?;
    match ty {
        0 => {
            let (i, v) = times(i, n, |i| value(i, depth))?;
            Ok((i, Vector::Mixed(v)))
        }
        1 => {
            let (i, v) = times(i, n, boolean)?;
            Ok((i, Vector::Bool(v)))
        }
        2 => {
            let (i, v) = times(i, n, s8)?;
            Ok((i, Vector::Int8(v)))
        }
        3 => {
            let (i, v) = times(i, n, r8)?;
            Ok((i, Vector::Uint8(v)))
        }
        4 => {
            let (i, v) = times(i, n, s16)?;
            Ok((i, Vector::Int16(v)))
        }
        5 => {
            let (i, v) = times(i, n, r16)?;
            Ok((i, Vector::Uint16(v)))
        }
        6 => {
            let (i, v) = times(i, n, s32)?;
            Ok((i, Vector::Int32(v)))
        }
        7 => {
            let (i, v) = times(i, n, r32)?;
            Ok((i, Vector::Uint32(v)))
        }
        8 => {
            let (i, v) = times(i, n, s64)?;
            Ok((i, Vector::Int64(v)))
        }
        9 => {
            let (i, v) = times(i, n, r64)?;
            Ok((i, Vector::Uint64(v)))
        }
        10 => {
            let (i, v) = times(i, n, fixed)?;
            Ok((i, Vector::Fixed(v)))
        }
        11 => {
            let (i, v) = times(i, n, f32_)?;
            Ok((i, Vector::Float(v)))
        }
        12 => {
            let (i, v) = times(i, n, f64_)?;
            Ok((i, Vector::Double(v)))
        }
        13 => {
            let (i, v) = times(i, n, string)?;
            Ok((i, Vector::String(v)))
        }
        14 => {
            let (i, v) = times(i, n, parse_point)?;
            Ok((i, Vector::Point(v)))
        }
        15 => {
            let (i, v) = times(i, n, parse_size)?;
            Ok((i, Vector::Size(v)))
        }
        16 => {
            let (i, v) = times(i, n, parse_rect)?;
            Ok((i, Vector::Rect(v)))
        }
        17 => {
            let (i, v) = times(i, n, |i| vector(i, depth))?;
            Ok((i, Vector::Vector(v)))
        }
        18 => {
            let (i, v) = times(i, n, |i| nested_map(i, depth))?;
            Ok((i, Vector::PropertiesMap(v)))
        }
        19 => {
            let (i, v) = times(i, n, r128)?;
            Ok((i, Vector::Uuid(v)))
        }
        _ => Err(()),
    }
}
pub fn parse_value(i: &[u8]) -> R<'_, Value<'_>> {
    value(i, 0)
}
pub fn parse_vector(i: &[u8]) -> R<'_, Vector<'_>> {
    vector(i, 0)
}
pub fn parse_property(i: &[u8]) -> R<'_, Property<'_>> {
    property(i, 0)
}
pub fn parse_properties_map(i: &[u8]) -> R<'_, PropertiesMap<'_>> {
    let (i, extension_entry_id) = r32(i)?;
    let (i, properties) = properties(i, 0)?;
    Ok((i, PropertiesMap { properties, extension_entry_id }))
}
fn repo_properties_map(i: &[u8]) -> R<'_, PropertiesMap<'_>> {
    crate::binary::chunks::user_data::parse_properties_map(i).map_err(|_| ())
}
/// Result of the lazily reported part: `None` stands for a stored error.
pub type Stored<T> = Option<T>;

pub fn parse_properties_maps(i: &[u8]) -> R<'_, Stored<(&[u8], Vec<PropertiesMap<'_>>)>> {
    let (i, size) = r32(i)?;
    let (i, n) = r32(i)?;
    if size < 8 {
        return Err(());
    }
    let (rest, i) = take(i, size as usize - 8)?;
    Ok((rest, times(i, n as usize, repo_properties_map).ok()))
}
pub fn repo_parse_properties_maps(i: &[u8]) -> R<'_, Stored<(&[u8], Vec<PropertiesMap<'_>>)>> {
    match crate::binary::chunks::user_data::parse_properties_maps(i) {
        Ok((i, r)) => Ok((i, r.ok())),
        Err(_) => Err(()),
    }
}
/// text, color, properties
pub type Ud<'a> = (
    Option<&'a str>,
    Option<crate::binary::scalars::Color>,
    Option<Stored<(&'a [u8], Vec<PropertiesMap<'a>>)>>,
);
pub fn parse_user_data_chunk(i: &[u8]) -> R<'_, Ud<'_>> {
    let (i, fl) = r32(i)?;
    let mut rest = i;
    let (mut text, mut color, mut maps) = (None, None, None);
    if fl & 1 != 0 {
        let (i, x) = string(rest)?;
        rest = i;
        text = Some(x);
    }
    if fl & 2 != 0 {
        let (i, x) = parse_color(rest)?;
        rest = i;
        color = Some(x);
    }
    if fl & 4 != 0 {
        let (i, x) = repo_parse_properties_maps(rest)?;
        rest = i;
        maps = Some(x);
    }
    Ok((rest, (text, color, maps)))
}
pub fn repo_parse_user_data_chunk(i: &[u8]) -> R<'_, Ud<'_>> {
    match crate::binary::chunks::user_data::parse_user_data_chunk(i) {
        Ok((i, u)) => Ok((i, (u.text, u.color, u.properties_maps.map(|r| r.ok())))),
        Err(_) => Err(()),
    }
}

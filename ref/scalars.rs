//! Scalars of the file format.
use super::prim::*;
use crate::binary::scalars as s;

pub fn byte(i: &[u8]) -> R<'_, u8> {
    r8(i)
}
pub fn word(i: &[u8]) -> R<'_, u16> {
    r16(i)
}
pub fn short(i: &[u8]) -> R<'_, i16> {
    s16(i)
}
pub fn dword(i: &[u8]) -> R<'_, u32> {
    r32(i)
}
pub fn long(i: &[u8]) -> R<'_, i32> {
    s32(i)
}
pub fn parse_uuid(i: &[u8]) -> R<'_, u128> {
    r128(i)
}
pub fn parse_string(i: &[u8]) -> R<'_, &str> {
    string(i)
}
/// 16.16 fixed point number, stored as a little endian 32 bit integer
pub fn fixed(i: &[u8]) -> R<'_, s::Fixed> {
    let (i, v) = r32(i)?;
    Ok((i, s::Fixed((v >> 16) as u16, (v & 0xffff) as u16)))
}
pub fn parse_point(i: &[u8]) -> R<'_, s::Point> {
    let (i, x) = s32(i)?;
    let (i, y) = s32(i)?;
    Ok((i, s::Point { x, y }))
}
pub fn parse_size(i: &[u8]) -> R<'_, s::Size> {
    let (i, width) = s32(i)?;
    let (i, height) = s32(i)?;
    Ok((i, s::Size { width, height }))
}
pub fn parse_rect(i: &[u8]) -> R<'_, s::Rect> {
    let (i, point) = parse_point(i)?;
    let (i, size) = parse_size(i)?;
    Ok((i, s::Rect { point, size }))
}
pub fn parse_color(i: &[u8]) -> R<'_, s::Color> {
    let (i, red) = r8(i)?;
    let (i, green) = r8(i)?;
    let (i, blue) = r8(i)?;
    let (i, alpha) = r8(i)?;
    Ok((i, s::Color { red, green, blue, alpha }))
}
pub fn parse_rgb(i: &[u8]) -> R<'_, s::RGB> {
    let (i, red) = r8(i)?;
    let (i, green) = r8(i)?;
    let (i, blue) = r8(i)?;
    Ok((i, s::RGB { red, green, blue }))
}
pub fn parse_dword_as_usize(i: &[u8]) -> R<'_, usize> {
    let (i, v) = r32(i)?;
    Ok((i, v as usize))
}

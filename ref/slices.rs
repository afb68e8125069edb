use super::prim::*;
use crate::binary::chunks::slice::{NinePatch, Pivot, SliceChunk, SliceFlags, SliceKey};

pub fn slice_flags(v: u32) -> SliceFlags {
    let mut f = SliceFlags::empty();
    if v & 1 != 0 {
        f.insert(SliceFlags::NINE_PATCH);
    }
    if v & 2 != 0 {
        f.insert(SliceFlags::PIVOT);
    }
    f
}
pub fn parse_nine_patch(i: &[u8]) -> R<'_, NinePatch> {
    let (i, x) = s32(i)?;
    let (i, y) = s32(i)?;
    let (i, width) = r32(i)?;
    let (i, height) = r32(i)?;
    Ok((i, NinePatch { x, y, width, height }))
}
pub fn parse_pivot(i: &[u8]) -> R<'_, Pivot> {
    let (i, x) = s32(i)?;
    let (i, y) = s32(i)?;
    Ok((i, Pivot { x, y }))
}
pub fn key<'a>(i: &'a [u8], v: u32) -> R<'a, SliceKey> {
    let (i, frame_number) = r32(i)?;
    let (i, x) = s32(i)?;
    let (i, y) = s32(i)?;
    let (i, width) = r32(i)?;
    let (i, height) = r32(i)?;
    let mut rest = i;
    let mut nine_patch = None;
    let mut pivot = None;
    if v & 1 != 0 {
        let (i, n) = parse_nine_patch(rest)?;
        rest = i;
        nine_patch = Some(n);
    }
    if v & 2 != 0 {
        let (i, p) = parse_pivot(rest)?;
        rest = i;
        pivot = Some(p);
    }
    Ok((rest, SliceKey { frame_number, x, y, width, height, nine_patch, pivot }))
}
pub fn repo_key<'a>(i: &'a [u8], v: u32) -> R<'a, SliceKey> {
    match crate::binary::chunks::slice::parse_slice_key(i, SliceFlags::from_bits_truncate(v)) {
        Ok(r) => Ok(r),
        Err(_) => Err(()),
    }
}
pub fn parse_slice_chunk(i: &[u8]) -> R<'_, SliceChunk<'_>> {
    let (i, n) = r32(i)?;
    let (i, v) = r32(i)?;
    let (i, _) = take(i, 4)?;
    let (i, name) = string(i)?;
    let (i, slice_keys) = times(i, n as usize, |i| key(i, v))?;
    Ok((i, SliceChunk { name, flags: slice_flags(v), slice_keys, user_data: None }))
}
pub fn slice_bits(v: u32) -> u32 {
    slice_flags(v).bits()
}
pub fn slice_bits_want(v: u32) -> u32 {
    v & 3
}

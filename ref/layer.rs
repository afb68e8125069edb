use super::enums::*;
use super::prim::*;
use crate::binary::chunks::layer::{LayerChunk, LayerFlags, LayerType};

pub fn flags(v: u16) -> LayerFlags {
    let mut f = LayerFlags::empty();
    if v & 1 != 0 {
        f.insert(LayerFlags::VISIBLE);
    }
    if v & 2 != 0 {
        f.insert(LayerFlags::EDITABLE);
    }
    if v & 4 != 0 {
        f.insert(LayerFlags::LOCK_MOVEMENT);
    }
    if v & 8 != 0 {
        f.insert(LayerFlags::BACKGROUND);
    }
    if v & 16 != 0 {
        f.insert(LayerFlags::PREFER_LINKED_CELS);
    }
    if v & 32 != 0 {
        f.insert(LayerFlags::COLLAPSED);
    }
    if v & 64 != 0 {
        f.insert(LayerFlags::REFERENCE);
    }
    f
}
pub fn flag_bits(v: u16) -> u16 {
    flags(v).bits()
}
pub fn flag_bits_want(v: u16) -> u16 {
    v & 0x7f
}
pub fn parse_layer_chunk(i: &[u8]) -> R<'_, LayerChunk<'_>> {
    let (i, v) = r16(i)?;
    let fl = flags(v);
    let (i, ty) = r16(i)?;
    let layer_type = layer_type(ty);
    let (i, child_level) = r16(i)?;
    let (i, _) = take(i, 4)?;
    let (i, bm) = r16(i)?;
    let (i, opacity) = r8(i)?;
    let (i, _) = take(i, 3)?;
    let (i, name) = string(i)?;
    let mut rest = i;
    let mut tileset_index = None;
    if ty == 2 {
        let (i, t) = r32(i)?;
        rest = i;
        tileset_index = Some(t);
    }
    Ok((
        rest,
        LayerChunk {
            flags: fl,
            layer_type,
            child_level,
            blend_mode: blend_mode(bm),
            opacity,
            name,
            tileset_index,
            user_data: None,
        },
    ))
}

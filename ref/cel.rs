use super::prim::*;
use crate::binary::chunks::cel::{CelChunk, CelContent};
use crate::binary::image::Image;

pub fn parse_cel_chunk(i: &[u8]) -> R<'_, CelChunk<'_>> {
    let (i, layer_index) = r16(i)?;
    let (i, x) = s16(i)?;
    let (i, y) = s16(i)?;
    let (i, opacity) = r8(i)?;
    let (i, ty) = r16(i)?;
    let (i, z_index) = s16(i)?;
    let (i, _) = take(i, 5)?;
    let end = &i[i.len()..];
    let content = if ty == 0 || ty == 2 {
        let (i, width) = r16(i)?;
        let (i, height) = r16(i)?;
        CelContent::Image(Image { width, height, data: i, compressed: ty == 2 })
    } else if ty == 1 {
        let (_, frame_position) = r16(i)?;
        CelContent::LinkedCel { frame_position }
    } else if ty == 3 {
        let (i, width) = r16(i)?;
        let (i, height) = r16(i)?;
        let (i, bits_per_tile) = r16(i)?;
        let (i, bitmask_tile_id) = r32(i)?;
        let (i, bitmask_x_flip) = r32(i)?;
        let (i, bitmask_y_flip) = r32(i)?;
        let (i, bitmask_diagonal_flip) = r32(i)?;
        let (i, _) = take(i, 10)?;
        CelContent::CompressedTilemap {
            width,
            height,
            bits_per_tile,
            bitmask_tile_id,
            bitmask_x_flip,
            bitmask_y_flip,
            bitmask_diagonal_flip,
            data: i,
        }
    } else {
        CelContent::Unknown { cel_type: ty, data: i }
    };
    Ok((
        end,
        CelChunk { layer_index, x, y, opacity, z_index, content, user_data: None },
    ))
}

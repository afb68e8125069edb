use super::prim::*;
use crate::binary::chunks::tileset::{TilesetChunk, TilesetExternalFile, TilesetFlags, TilesetTiles};

pub fn tileset_flags(v: u32) -> TilesetFlags {
    let mut f = TilesetFlags::empty();
    if v & 1 != 0 {
        f.insert(TilesetFlags::EXTERNAL_FILE);
    }
    if v & 2 != 0 {
        f.insert(TilesetFlags::TILES);
    }
    if v & 4 != 0 {
        f.insert(TilesetFlags::TILE_0_EMPTY);
    }
    if v & 8 != 0 {
        f.insert(TilesetFlags::XFLIP);
    }
    if v & 16 != 0 {
        f.insert(TilesetFlags::YFLIP);
    }
    if v & 32 != 0 {
        f.insert(TilesetFlags::DFLIP);
    }
    f
}
pub fn parse_external_file(i: &[u8]) -> R<'_, TilesetExternalFile> {
    let (i, external_file_id) = r32(i)?;
    let (i, tileset_id) = r32(i)?;
    Ok((i, TilesetExternalFile { external_file_id, tileset_id }))
}
pub fn parse_tiles(i: &[u8]) -> R<'_, TilesetTiles<'_>> {
    let (i, n) = r32(i)?;
    let (i, data) = take(i, n as usize)?;
    Ok((i, TilesetTiles { data }))
}
pub fn parse_tileset_chunk(i: &[u8]) -> R<'_, TilesetChunk<'_>> {
    let (i, id) = r32(i)?;
    let (i, v) = r32(i)?;
    let (i, number_of_tiles) = r32(i)?;
    let (i, width) = r16(i)?;
    let (i, height) = r16(i)?;
    let (i, base_index) = s16(i)?;
    let (i, _) = take(i, 14)?;
    let (i, name) = string(i)?;
    let mut rest = i;
    let mut external_file = None;
    let mut tiles = None;
    if v & 1 != 0 {
        let (i, x) = parse_external_file(rest)?;
        rest = i;
        external_file = Some(x);
    }
    if v & 2 != 0 {
        let (i, x) = parse_tiles(rest)?;
        rest = i;
        tiles = Some(x);
    }
    Ok((
        rest,
        TilesetChunk {
            id,
            flags: tileset_flags(v),
            number_of_tiles,
            width,
            height,
            base_index,
            name,
            external_file,
            tiles,
        },
    ))
}
pub fn tileset_bits(v: u32) -> u32 {
    tileset_flags(v).bits()
}
pub fn tileset_bits_want(v: u32) -> u32 {
    v & 63
}

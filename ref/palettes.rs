use super::prim::*;
use super::scalars::{parse_color, parse_rgb};
use crate::binary::chunks::old_palette::{OldPaletteChunk, Packet};
use crate::binary::chunks::palette::{PaletteChunk, PaletteEntry};

pub fn parse_palette_entry(i: &[u8]) -> R<'_, PaletteEntry<'_>> {
    let (i, fl) = r16(i)?;
    let (i, color) = parse_color(i)?;
    if fl & 1 == 0 {
        return Ok((i, PaletteEntry { color, name: None }));
    }
    let (i, name) = string(i)?;
    Ok((i, PaletteEntry { color, name: Some(name) }))
}
pub fn parse_palette_chunk(i: &[u8]) -> R<'_, PaletteChunk<'_>> {
    let (i, _) = take(i, 4)?;
    let (i, first) = r32(i)?;
    if first > 255 {
        return Err(());
    }
    let (i, last) = r32(i)?;
    if last > 255 || first > last {
        return Err(());
    }
    let (i, _) = take(i, 8)?;
    let (i, entries) = times(i, (last - first) as usize + 1, parse_palette_entry)?;
    Ok((i, PaletteChunk { indices: (first as u8)..=(last as u8), entries }))
}
pub fn parse_packet(i: &[u8]) -> R<'_, Packet> {
    let (i, entries_to_skip) = r8(i)?;
    let (i, n) = r8(i)?;
    let n = if n == 0 { 256usize } else { n as usize };
    let (i, colors) = times(i, n, parse_rgb)?;
    Ok((i, Packet { entries_to_skip, colors }))
}
pub fn parse_old_palette_chunk(i: &[u8]) -> R<'_, OldPaletteChunk> {
    let (i, n) = r16(i)?;
    let (i, packets) = times(i, n as usize, parse_packet)?;
    Ok((i, OldPaletteChunk { packets }))
}

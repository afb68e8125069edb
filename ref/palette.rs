use crate::binary::chunk::Chunk;
use crate::binary::header::Header;
use crate::binary::palette::Palette;
use crate::binary::raw_frame::RawFrame;
use crate::binary::scalars::Color;
use crate::binary::chunks::{old_palette::OldPaletteChunk, palette::PaletteChunk};

const NONE: Color = Color { red: 0, green: 0, blue: 0, alpha: 0 };

fn new_chunk(colors: &mut [Color; 256], c: &PaletteChunk<'_>) -> bool {
    let mut any = false;
    for (entry, i) in c.entries.iter().zip(c.indices.clone()) {
        colors[i as usize] = entry.color;
        any = true;
    }
    any
}

/// skips and colours; false stands for an index beyond 255
fn old_chunk(colors: &mut [Color; 256], c: &OldPaletteChunk, six: bool, any: &mut bool) -> bool {
    let mut at = 0usize;
    for p in c.packets.iter() {
        at += p.entries_to_skip as usize;
        if at + p.colors.len() > 256 {
            return false;
        }
        for c in p.colors.iter() {
            let up = |v: u8| if six { (v << 2) | (v >> 4) } else { v };
            colors[at] = Color { red: up(c.red), green: up(c.green), blue: up(c.blue), alpha: 255 };
            at += 1;
            *any = true;
        }
    }
    true
}

fn finish(mut colors: [Color; 256], any: bool, transparent: u8) -> Result<Palette, ()> {
    if !any {
        return Err(());
    }
    colors[transparent as usize].alpha = 0;
    Ok(Palette { colors })
}

pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palette, ()> {
    let new: Vec<&PaletteChunk<'_>> = frames
        .iter()
        .flat_map(|f| f.chunks.iter().filter_map(|c| if let Chunk::Palette(p) = c { Some(p) } else { None }))
        .collect();
    if !new.is_empty() {
        let (mut colors, mut any) = ([NONE; 256], false);
        for c in new.iter() {
            for (entry, i) in c.entries.iter().zip(c.indices.clone()) {
                colors[i as usize] = entry.color;
                any = true;
            }
        }
        return finish(colors, any, header.transparent_index);
    }
    let o4: Vec<&OldPaletteChunk> = frames
        .iter()
        .flat_map(|f| f.chunks.iter().filter_map(|c| if let Chunk::Palette0004(p) = c { Some(p) } else { None }))
        .collect();
    if !o4.is_empty() {
        let (mut colors, mut any) = ([NONE; 256], false);
        for c in o4.iter() {
            if !old_chunk(&mut colors, c, false, &mut any) {
                return Err(());
            }
        }
        return finish(colors, any, header.transparent_index);
    }
    let o11: Vec<&OldPaletteChunk> = frames
        .iter()
        .flat_map(|f| f.chunks.iter().filter_map(|c| if let Chunk::Palette0011(p) = c { Some(p) } else { None }))
        .collect();
    if !o11.is_empty() {
        let (mut colors, mut any) = ([NONE; 256], false);
        for c in o11.iter() {
            if !old_chunk(&mut colors, c, true, &mut any) {
                return Err(());
            }
        }
        return finish(colors, any, header.transparent_index);
    }
    Err(())
}

use super::prim::*;
use crate::binary::chunk::{parse_chunk as crate_chunk, parse_chunks as crate_chunks, Chunk};
use crate::binary::chunks::*;
use crate::binary::header::parse_header as crate_header;
use crate::binary::raw_file::RawFile;
use crate::binary::raw_frame::{RawFrame};

fn e<'a, T, E>(r: Result<(&'a [u8], T), E>) -> Result<T, ()> {
    match r {
        Ok((_, v)) => Ok(v),
        Err(_) => Err(()),
    }
}

/// A chunk: 32 bit size including these four bytes, 16 bit type, payload.
pub fn parse_chunk(i: &[u8]) -> R<'_, Chunk<'_>> {
    let (i, size) = r32(i)?;
    if size < 4 {
        return Err(());
    }
    let (rest, i) = take(i, size as usize - 4)?;
    let (d, ty) = r16(i)?;
    let c = match ty {
        0x0004 => Chunk::Palette0004(e(old_palette::parse_old_palette_chunk(d))?),
        0x0011 => Chunk::Palette0011(e(old_palette::parse_old_palette_chunk(d))?),
        0x2004 => Chunk::Layer(e(layer::parse_layer_chunk(d))?),
        0x2005 => Chunk::Cel(e(cel::parse_cel_chunk(d))?),
        0x2006 => Chunk::CelExtra(e(cel_extra::parse_cel_extra_chunk(d))?),
        0x2007 => Chunk::ColorProfile(e(color_profile::parse_color_profile(d))?),
        0x2008 => Chunk::ExternalFiles(e(external_files::parse_external_files_chunk(d))?),
        0x2016 => Chunk::Mask(e(mask::parse_mask_chunk(d))?),
        0x2017 => Chunk::Path,
        0x2018 => Chunk::Tags(e(tags::parse_tags_chunk(d))?),
        0x2019 => Chunk::Palette(e(palette::parse_palette_chunk(d))?),
        0x2020 => Chunk::UserData(e(user_data::parse_user_data_chunk(d))?),
        0x2022 => Chunk::Slice(e(slice::parse_slice_chunk(d))?),
        0x2023 => Chunk::Tileset(e(tileset::parse_tileset_chunk(d))?),
        other => Chunk::Unsupported(other),
    };
    Ok((rest, c))
}

fn one_chunk(i: &[u8]) -> R<'_, Chunk<'_>> {
    crate_chunk(i).map_err(|_| ())
}
pub fn parse_chunks(i: &[u8], n: usize) -> R<'_, Vec<Chunk<'_>>> {
    times(i, n, one_chunk)
}

/// A frame: size, magic, old chunk count, duration, two reserved bytes, new chunk count, chunks.
pub fn parse_rawframe(i: &[u8]) -> R<'_, RawFrame<'_>> {
    let (i, size) = r32(i)?;
    if size < 4 {
        return Err(());
    }
    let (rest, i) = take(i, size as usize - 4)?;
    let (i, magic) = r16(i)?;
    if magic != 0xF1FA {
        return Err(());
    }
    let (i, old) = r16(i)?;
    let (i, duration) = r16(i)?;
    let (i, _) = take(i, 2)?;
    let (i, new) = r32(i)?;
    let n = if new == 0 { old as usize } else { new as usize };
    let chunks = e(crate_chunks(i, n))?;
    Ok((rest, RawFrame { duration, chunks }))
}

/// At least one frame, up to the end of the input.
pub fn frames(i: &[u8]) -> Result<Vec<RawFrame<'_>>, ()> {
    let mut i = i;
    let mut out = Vec::new();
    loop {
        match parse_rawframe(i) {
            Ok((j, f)) => {
                out.push(f);
                if j.is_empty() {
                    return Ok(out);
                }
                i = j;
            }
            Err(_) => return Err(()),
        }
    }
}
pub fn repo_frames(i: &[u8]) -> Result<Vec<RawFrame<'_>>, ()> {
    e(crate::binary::raw_frame::parse_frames(i))
}
pub fn parse_frames(i: &[u8]) -> R<'_, Vec<RawFrame<'_>>> {
    let f = frames(i)?;
    Ok((&i[i.len()..], f))
}
pub fn parse_raw_file(i: &[u8]) -> Result<RawFile<'_>, ()> {
    let (i, header) = match crate_header(i) {
        Ok(x) => x,
        Err(_) => return Err(()),
    };
    match crate::binary::raw_frame::parse_frames(i) {
        Ok((_, frames)) => Ok(RawFile { header, frames }),
        Err(_) => Err(()),
    }
}

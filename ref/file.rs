use crate::binary::chunk::Chunk;
use crate::binary::chunks::{cel::CelChunk, layer::LayerChunk, slice::SliceChunk, tags::Tag, user_data::UserDataChunk};
use crate::binary::color_depth::ColorDepth;
use crate::binary::file::File;
use crate::binary::frame::Frame;
use crate::binary::palette::create_palette;
use crate::binary::raw_file::parse_raw_file;
use std::iter::Peekable;

type Chunks<'a> = Peekable<std::vec::IntoIter<Chunk<'a>>>;

/// the user data chunk that comes next, if one does
fn attached<'a>(it: &mut Chunks<'a>) -> Option<UserDataChunk<'a>> {
    let yes = match it.peek() {
        Some(Chunk::UserData(_)) => true,
        _ => false,
    };
    if !yes {
        return None;
    }
    match it.next() {
        Some(Chunk::UserData(u)) => Some(u),
        _ => None,
    }
}

pub fn parse_file(input: &[u8]) -> Result<File<'_>, ()> {
    let raw = match parse_raw_file(input) {
        Ok(r) => r,
        Err(_) => return Err(()),
    };
    let palette = if raw.header.color_depth == ColorDepth::Indexed {
        match create_palette(&raw.header, &raw.frames) {
            Ok(p) => Some(p),
            Err(_) => return Err(()),
        }
    } else {
        None
    };
    let mut stored: Vec<(u16, Vec<CelChunk<'_>>)> = Vec::new();
    let mut layers: Vec<LayerChunk<'_>> = Vec::new();
    let mut tags: Vec<Tag<'_>> = Vec::new();
    let mut slices: Vec<SliceChunk<'_>> = Vec::new();
    let mut user_data: Option<UserDataChunk<'_>> = None;
    for f in raw.frames {
        let mut cels: Vec<CelChunk<'_>> = Vec::new();
        let mut it = f.chunks.into_iter().peekable();
        while let Some(chunk) = it.next() {
            match chunk {
                Chunk::Palette(_) | Chunk::Palette0004(_) | Chunk::Palette0011(_) => {
                    if stored.is_empty() && user_data.is_none() {
                        user_data = attached(&mut it);
                    }
                }
                Chunk::Layer(mut l) => {
                    l.user_data = attached(&mut it);
                    layers.push(l);
                }
                Chunk::Cel(mut c) => {
                    c.user_data = attached(&mut it);
                    cels.push(c);
                }
                Chunk::Slice(mut s) => {
                    s.user_data = attached(&mut it);
                    slices.push(s);
                }
                Chunk::Tags(t) => {
                    let mut ts = t.tags;
                    for tag in ts.iter_mut() {
                        tag.user_data = attached(&mut it);
                        if tag.user_data.is_none() {
                            break;
                        }
                    }
                    tags.extend(ts);
                }
                _ => {}
            }
        }
        stored.push((f.duration, cels));
    }
    let mut frames: Vec<Frame<'_>> = Vec::new();
    for (duration, list) in stored {
        let mut cels: Vec<Option<CelChunk<'_>>> = Vec::new();
        for _ in 0..layers.len() {
            cels.push(None);
        }
        for cel in list {
            let i = cel.layer_index as usize;
            if i >= layers.len() {
                return Err(());
            }
            cels[i] = Some(cel);
        }
        frames.push(Frame { duration, cels });
    }
    Ok(File { header: raw.header, palette, layers, frames, tags, slices, user_data })
}

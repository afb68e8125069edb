use crate::binary::chunks::cel::CelChunk;
use crate::binary::chunks::slice::SliceChunk;
use crate::binary::chunk::Chunk;
use crate::binary::color_depth::ColorDepth;
use crate::binary::raw_frame::RawFrame;
use crate::loader::{AsepriteFile, Frame, Layer, LayerSelection, LoadImageError, Tag};

pub fn size(f: &AsepriteFile<'_>) -> (u16, u16) {
    (f.file.header.width, f.file.header.height)
}

pub fn tags<'a>(f: &'a AsepriteFile<'_>) -> &'a [Tag] {
    &f.tags[..]
}

pub fn layers<'a>(f: &'a AsepriteFile<'_>) -> &'a [Layer] {
    &f.layers[..]
}

pub fn frames<'a>(f: &'a AsepriteFile<'_>) -> &'a [Frame] {
    &f.frames[..]
}

pub fn image_count(f: &AsepriteFile<'_>) -> usize {
    f.images.len()
}

pub fn slices<'a>(f: &'a AsepriteFile<'a>) -> &'a [SliceChunk<'a>] {
    &f.file.slices[..]
}

pub fn repo_slices<'a>(f: &'a AsepriteFile<'a>) -> &'a [SliceChunk<'a>] {
    f.slices()
}

pub fn repo_select(f: &AsepriteFile<'_>, p: fn(&Layer) -> bool) -> LayerSelection {
    f.select_layers(p)
}

pub fn select(f: &AsepriteFile<'_>, p: fn(&Layer) -> bool) -> LayerSelection {
    let mut m: Vec<bool> = Vec::new();
    for l in f.layers.iter() {
        m.push(p(l));
    }
    LayerSelection::Mask(m)
}

pub fn select_by_name(f: &AsepriteFile<'_>, names: &[&str]) -> LayerSelection {
    let mut m: Vec<bool> = Vec::new();
    for l in f.layers.iter() {
        m.push(names.contains(&l.name.as_str()));
    }
    LayerSelection::Mask(m)
}

pub fn combined(f: &AsepriteFile<'_>, frame: usize, target: &mut [u8]) -> Result<u64, LoadImageError> {
    use std::hash::{Hash, Hasher};
    f.render_frame(frame, target, &LayerSelection::Visible)?;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for c in f.frames[frame].cels.iter() {
        (c.image_index, c.layer_index, c.origin, c.size).hash(&mut h);
    }
    Ok(h.finish())
}

pub fn pre_combined(f: &AsepriteFile<'_>, frame: usize, target: &mut [u8]) -> bool {
    frame < f.frames.len()
}

pub fn bpp(d: &ColorDepth) -> u16 {
    match d {
        ColorDepth::Rgba => 32,
        ColorDepth::Grayscale => 16,
        ColorDepth::Indexed => 8,
        ColorDepth::Unknown(n) => *n,
    }
}

pub fn pixel_size(d: &ColorDepth) -> Option<usize> {
    match d {
        ColorDepth::Rgba => Some(4),
        ColorDepth::Grayscale => Some(2),
        ColorDepth::Indexed => Some(1),
        ColorDepth::Unknown(_) => None,
    }
}

pub fn repo_cels<'a>(f: &'a RawFrame<'a>) -> Vec<&'a CelChunk<'a>> {
    f.cels().collect()
}

pub fn cels<'a>(f: &'a RawFrame<'a>) -> Vec<&'a CelChunk<'a>> {
    let mut out: Vec<&'a CelChunk<'a>> = Vec::new();
    for c in f.chunks.iter() {
        if let Chunk::Cel(x) = c {
            out.push(x);
        }
    }
    out
}

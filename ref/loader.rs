use crate::binary::blend_mode::BlendMode;
use crate::binary::chunks::cel::CelContent;
use crate::binary::chunks::layer::{LayerFlags, LayerType};
use crate::binary::color_depth::ColorDepth;
use crate::binary::file::parse_file;
use crate::binary::image::Image;
use crate::loader::{decompress as inflate, AsepriteFile, Frame, FrameCel, Layer, LayerSelection, Tag};
use crate::loader::__sa_items::{blend_mode_to_blend_fn, Color};
use flate2::{Decompress, FlushDecompress, Status};
use std::collections::HashMap;

pub fn load(data: &[u8]) -> Result<AsepriteFile<'_>, ()> {
    let file = match parse_file(data) {
        Ok(f) => f,
        Err(_) => return Err(()),
    };
    let mut layers: Vec<Layer> = Vec::new();
    for l in file.layers.iter() {
        layers.push(Layer { name: l.name.to_string(), opacity: l.opacity, blend_mode: l.blend_mode, visible: l.flags.bits() & 1 != 0, layer_type: l.layer_type });
    }
    let mut images: Vec<Image<'_>> = Vec::new();
    let mut at: HashMap<(usize, usize), usize> = HashMap::new();
    for (fi, f) in file.frames.iter().enumerate() {
        for cel in f.cels.iter() {
            if let Some(cel) = cel {
                if let CelContent::Image(img) = &cel.content {
                    let i = images.len();
                    images.push(img.clone());
                    let _ = at.insert((fi, cel.layer_index as usize), i);
                }
            }
        }
    }
    let mut tags: Vec<Tag> = Vec::new();
    for t in file.tags.iter() {
        tags.push(Tag {
            name: t.name.to_string(),
            range: t.frames.clone(),
            direction: t.animation_direction,
            repeat: if t.animation_repeat == 0 { None } else { Some(t.animation_repeat) },
        });
    }
    let mut frames: Vec<Frame> = Vec::new();
    for (fi, f) in file.frames.iter().enumerate() {
        let mut cels: Vec<FrameCel> = Vec::new();
        for cel in f.cels.iter() {
            let cel = match cel {
                Some(c) => c,
                None => continue,
            };
            let layer = cel.layer_index as usize;
            let i = match &cel.content {
                CelContent::Image(_) => at[&(fi, layer)],
                CelContent::LinkedCel { frame_position } => match at.get(&(*frame_position as usize, layer)) {
                    Some(i) => *i,
                    None => return Err(()),
                },
                _ => return Err(()),
            };
            cels.push(FrameCel { origin: (cel.x, cel.y), size: (images[i].width, images[i].height), layer_index: layer, image_index: i });
        }
        frames.push(Frame { duration: f.duration, origin: (0, 0), cels });
    }
    Ok(AsepriteFile { file, layers, frames, tags, images })
}

pub fn repo_load(data: &[u8]) -> Result<AsepriteFile<'_>, crate::loader::LoadSpriteError> {
    AsepriteFile::load(data)
}

pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), ()> {
    let mut d = Decompress::new(true);
    match d.decompress(data, target, FlushDecompress::Finish) {
        Ok(Status::StreamEnd) => {
            if d.total_out() == target.len() as u64 {
                Ok(())
            } else {
                Err(())
            }
        }
        _ => Err(()),
    }
}

fn gray(src: &[u8], out: &mut [u8], n: usize) -> Result<(), ()> {
    if src.len() * 2 != n {
        return Err(());
    }
    for (i, va) in src.chunks(2).enumerate() {
        out[4 * i] = va[0];
        out[4 * i + 1] = va[0];
        out[4 * i + 2] = va[0];
        out[4 * i + 3] = va[1];
    }
    Ok(())
}

pub fn load_image(f: &AsepriteFile<'_>, index: usize, out: &mut [u8]) -> Result<(), ()> {
    let img = &f.images[index];
    let px = img.width as usize * img.height as usize;
    let n = px * 4;
    if out.len() < n {
        return Err(());
    }
    let out = &mut out[..n];
    let depth = f.file.header.color_depth;
    match depth {
        ColorDepth::Rgba => {
            if img.compressed {
                return match inflate(img.data, out) {
                    Ok(()) => Ok(()),
                    Err(_) => Err(()),
                };
            }
            if img.data.len() != n {
                return Err(());
            }
            out.copy_from_slice(img.data);
            Ok(())
        }
        ColorDepth::Grayscale => {
            if img.compressed {
                let mut buf = vec![0u8; px * 2];
                if inflate(img.data, &mut buf).is_err() {
                    return Err(());
                }
                gray(&buf, out, n)
            } else {
                gray(img.data, out, n)
            }
        }
        ColorDepth::Indexed => {
            if img.compressed {
                let mut buf = vec![0u8; px];
                if inflate(img.data, &mut buf).is_err() {
                    return Err(());
                }
                indexed(f, &buf, out, n)
            } else {
                indexed(f, img.data, out, n)
            }
        }
        ColorDepth::Unknown(_) => Err(()),
    }
}

fn indexed(f: &AsepriteFile<'_>, src: &[u8], out: &mut [u8], n: usize) -> Result<(), ()> {
    let p = match f.file.palette.as_ref() {
        Some(p) => p,
        None => return Err(()),
    };
    if src.len() * 4 != n {
        return Err(());
    }
    for (i, ix) in src.iter().enumerate() {
        let c = p.colors[*ix as usize];
        out[4 * i] = c.red;
        out[4 * i + 1] = c.green;
        out[4 * i + 2] = c.blue;
        out[4 * i + 3] = c.alpha;
    }
    Ok(())
}

pub fn repo_load_image(f: &AsepriteFile<'_>, index: usize, out: &mut [u8]) -> Result<(), crate::loader::LoadImageError> {
    f.load_image(index, out)
}

fn selected(sel: &LayerSelection, i: usize, l: &Layer) -> bool {
    match sel {
        LayerSelection::Visible => l.visible,
        LayerSelection::All => true,
        LayerSelection::Mask(m) => i < m.len() && m[i],
    }
}

pub fn render_frame(f: &AsepriteFile<'_>, frame: usize, target: &mut [u8], sel: &LayerSelection) -> Result<(), ()> {
    let (w, h) = (f.file.header.width, f.file.header.height);
    if target.len() < w as usize * h as usize * 4 {
        return Err(());
    }
    for cel in f.frames[frame].cels.iter() {
        if cel.layer_index >= f.layers.len() {
            continue;
        }
        let layer = &f.layers[cel.layer_index];
        if layer.layer_type != LayerType::Normal {
            continue;
        }
        if !selected(sel, cel.layer_index, layer) {
            continue;
        }
        let (cw, ch) = cel.size;
        let mut px = vec![0u8; cw as usize * ch as usize * 4];
        if f.load_image(cel.image_index, &mut px).is_err() {
            return Err(());
        }
        let blend = match blend_mode_to_blend_fn(layer.blend_mode) {
            Some(b) => b,
            None => return Err(()),
        };
        for y in 0..ch {
            for x in 0..cw {
                let tx = x as i32 + cel.origin.0 as i32;
                let ty = y as i32 + cel.origin.1 as i32;
                if tx < 0 || tx >= w as i32 || ty < 0 || ty >= h as i32 {
                    continue;
                }
                let s = (y as usize * cw as usize + x as usize) * 4;
                let t = (ty as usize * w as usize + tx as usize) * 4;
                let back = Color { r: target[t], g: target[t + 1], b: target[t + 2], a: target[t + 3] };
                let front = Color { r: px[s], g: px[s + 1], b: px[s + 2], a: px[s + 3] };
                let c = blend(back, front, layer.opacity);
                target[t] = c.r;
                target[t + 1] = c.g;
                target[t + 2] = c.b;
                target[t + 3] = c.a;
            }
        }
    }
    Ok(())
}

pub fn repo_render_frame(f: &AsepriteFile<'_>, frame: usize, target: &mut [u8], sel: &LayerSelection) -> Result<(), crate::loader::LoadImageError> {
    f.render_frame(frame, target, sel)
}

/// the caller names an existing image
pub fn pre_image(f: &AsepriteFile<'_>, index: usize, out: &mut [u8]) -> bool {
    index < f.images.len() && f.file.palette.is_some() == matches!(f.file.header.color_depth, ColorDepth::Indexed)
}

/// the caller names an existing frame
pub fn pre_frame(f: &AsepriteFile<'_>, frame: usize, target: &mut [u8], sel: &LayerSelection) -> bool {
    frame < f.frames.len() && fits(f, &f.frames[frame])
}

/// every cel names a layer and an image that exist, and has the size of the image
pub fn fits(f: &AsepriteFile<'_>, frame: &Frame) -> bool {
    for c in frame.cels.iter() {
        if c.layer_index >= f.layers.len() || c.image_index >= f.images.len() {
            return false;
        }
        let image = &f.images[c.image_index];
        if c.size.0 != image.width || c.size.1 != image.height {
            return false;
        }
    }
    true
}

fn loaded(f: &AsepriteFile<'_>) -> bool {
    if f.file.palette.is_some() != matches!(f.file.header.color_depth, ColorDepth::Indexed) {
        return false;
    }
    for frame in f.frames.iter() {
        if !fits(f, frame) {
            return false;
        }
    }
    true
}

/// what `pre_frame` and `pre_image` assume holds for every loaded file
pub fn repo_loaded(data: &[u8]) -> bool {
    match AsepriteFile::load(data) {
        Ok(f) => loaded(&f),
        Err(_) => true,
    }
}

pub fn all_loaded(data: &[u8]) -> bool {
    let _ = parse_file(data);
    true
}

fn consistent(f: &crate::binary::file::File<'_>) -> bool {
    if f.palette.is_some() != matches!(f.header.color_depth, ColorDepth::Indexed) {
        return false;
    }
    for fr in f.frames.iter() {
        if fr.cels.len() != f.layers.len() {
            return false;
        }
        for (i, c) in fr.cels.iter().enumerate() {
            if let Some(c) = c {
                if c.layer_index as usize != i {
                    return false;
                }
            }
        }
    }
    true
}

/// a parsed file keeps every cel at the index of its layer, in every frame
pub fn pre_load(data: &[u8]) -> bool {
    match parse_file(data) {
        Ok(f) => consistent(&f),
        Err(_) => true,
    }
}

pub fn yes(data: &[u8]) -> bool {
    if let Ok(f) = crate::binary::raw_file::parse_raw_file(data) {
        let _ = crate::binary::palette::create_palette(&f.header, &f.frames);
    }
    true
}

/// what `pre_load` assumes holds for every parsed file
pub fn repo_consistent(data: &[u8]) -> bool {
    pre_load(data)
}

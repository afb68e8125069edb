//! 128 byte file header.
use super::prim::*;
use crate::binary::color_depth::ColorDepth;
use crate::binary::header::Header;

pub fn depth(v: u16) -> ColorDepth {
    if v == 32 {
        ColorDepth::Rgba
    } else if v == 16 {
        ColorDepth::Grayscale
    } else if v == 8 {
        ColorDepth::Indexed
    } else {
        ColorDepth::Unknown(v)
    }
}
pub fn color_depth_from(v: u16) -> ColorDepth {
    depth(v)
}
pub fn parse_color_depth(i: &[u8]) -> R<'_, ColorDepth> {
    let (i, v) = r16(i)?;
    Ok((i, depth(v)))
}
fn w(i: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([i[o], i[o + 1]])
}
fn d(i: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([i[o], i[o + 1], i[o + 2], i[o + 3]])
}
#[allow(deprecated)]
pub fn parse_header(i: &[u8]) -> R<'_, Header> {
    if i.len() < 128 {
        return Err(());
    }
    if w(i, 4) != 0xA5E0 || d(i, 20) != 0 || d(i, 24) != 0 {
        return Err(());
    }
    Ok((
        &i[128..],
        Header {
            file_size: d(i, 0),
            frames: w(i, 6),
            width: w(i, 8),
            height: w(i, 10),
            color_depth: depth(w(i, 12)),
            flags: d(i, 14),
            speed: w(i, 18),
            transparent_index: i[28],
            color_count: w(i, 32),
            pixel_width: i[34],
            pixel_height: i[35],
            grid_x: w(i, 36) as i16,
            grid_y: w(i, 38) as i16,
            grid_width: w(i, 40),
            grid_height: w(i, 42),
        },
    ))
}

use super::enums::*;
use super::prim::*;
use super::scalars::fixed;
use crate::binary::chunks::cel_extra::{CelExtraChunk, CelExtraFlags};
use crate::binary::chunks::color_profile::{ColorProfile, ColorProfileChunk};
use crate::binary::chunks::external_files::{ExternalFile, ExternalFilesChunk};
use crate::binary::chunks::mask::MaskChunk;

pub fn parse_external_file(i: &[u8]) -> R<'_, ExternalFile<'_>> {
    let (i, entry_id) = r32(i)?;
    let (i, ty) = r8(i)?;
    let (i, _) = take(i, 7)?;
    let (i, file_name) = string(i)?;
    Ok((i, ExternalFile { entry_id, file_type: external_file_type(ty), file_name }))
}
pub fn parse_external_files_chunk(i: &[u8]) -> R<'_, ExternalFilesChunk<'_>> {
    let (i, n) = r32(i)?;
    let (i, _) = take(i, 8)?;
    let (i, files) = times(i, n as usize, parse_external_file)?;
    Ok((i, ExternalFilesChunk { files }))
}
pub fn cel_extra_flags(v: u32) -> CelExtraFlags {
    let mut f = CelExtraFlags::empty();
    if v & 1 != 0 {
        f.insert(CelExtraFlags::PRECISE_BOUNDS_ARE_SET);
    }
    f
}
pub fn parse_cel_extra_chunk(i: &[u8]) -> R<'_, CelExtraChunk<'_>> {
    let (i, fl) = r32(i)?;
    let (i, precise_x_position) = fixed(i)?;
    let (i, precise_y_position) = fixed(i)?;
    let (i, width_of_the_cel) = fixed(i)?;
    let (i, height_of_the_cel) = fixed(i)?;
    Ok((
        &i[i.len()..],
        CelExtraChunk {
            flags: cel_extra_flags(fl),
            precise_x_position,
            precise_y_position,
            width_of_the_cel,
            height_of_the_cel,
            future: i,
        },
    ))
}
pub fn parse_mask_chunk(i: &[u8]) -> R<'_, MaskChunk<'_>> {
    let (i, x) = s16(i)?;
    let (i, y) = s16(i)?;
    let (i, width) = r16(i)?;
    let (i, height) = r16(i)?;
    let (i, _) = take(i, 8)?;
    let (i, name) = string(i)?;
    Ok((&i[i.len()..], MaskChunk { x, y, width, height, name, data: i }))
}
pub fn parse_color_profile(i: &[u8]) -> R<'_, ColorProfileChunk<'_>> {
    let (i, ty) = r16(i)?;
    let (i, fl) = r16(i)?;
    let (i, gamma) = fixed(i)?;
    let (i, _) = take(i, 8)?;
    let mut rest = i;
    let profile = match ty {
        0 => ColorProfile::NoColorProfile,
        1 => ColorProfile::Srgb,
        2 => {
            let (j, n) = r32(i)?;
            let (j, d) = take(j, n as usize)?;
            rest = j;
            ColorProfile::EmbeddedICC(d)
        }
        n => ColorProfile::Unknown(n),
    };
    Ok((
        rest,
        ColorProfileChunk { fixed_gamma: if fl & 1 != 0 { Some(gamma) } else { None }, profile },
    ))
}
pub fn cel_extra_bits(v: u32) -> u32 {
    cel_extra_flags(v).bits()
}
pub fn cel_extra_bits_want(v: u32) -> u32 {
    v & 1
}

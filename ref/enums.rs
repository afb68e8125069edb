//! Numeric codes of the format.
use super::prim::*;
use crate::binary::blend_mode::BlendMode;
use crate::binary::chunk_type::ChunkType;
use crate::binary::chunks::external_files::ExternalFileType;
use crate::binary::chunks::layer::LayerType;
use crate::binary::chunks::tags::AnimationDirection;

pub fn blend_mode(v: u16) -> BlendMode {
    match v {
        0 => BlendMode::Normal,
        1 => BlendMode::Multiply,
        2 => BlendMode::Screen,
        3 => BlendMode::Overlay,
        4 => BlendMode::Darken,
        5 => BlendMode::Lighten,
        6 => BlendMode::ColorDodge,
        7 => BlendMode::ColorBurn,
        8 => BlendMode::HardLight,
        9 => BlendMode::SoftLight,
        10 => BlendMode::Difference,
        11 => BlendMode::Exclusion,
        12 => BlendMode::Hue,
        13 => BlendMode::Saturation,
        14 => BlendMode::Color,
        15 => BlendMode::Luminosity,
        16 => BlendMode::Addition,
        17 => BlendMode::Subtract,
        18 => BlendMode::Divide,
        n => BlendMode::Unknown(n),
    }
}
pub fn repo_blend_mode(v: u16) -> BlendMode {
    BlendMode::from(v)
}
pub fn parse_blend_mode(i: &[u8]) -> R<'_, BlendMode> {
    let (i, v) = r16(i)?;
    Ok((i, blend_mode(v)))
}
pub fn layer_type(v: u16) -> LayerType {
    match v {
        0 => LayerType::Normal,
        1 => LayerType::Group,
        2 => LayerType::Tilemap,
        n => LayerType::Unknown(n),
    }
}
pub fn repo_layer_type(v: u16) -> LayerType {
    LayerType::from(v)
}
pub fn direction(v: u8) -> AnimationDirection {
    match v {
        0 => AnimationDirection::Forward,
        1 => AnimationDirection::Reverse,
        2 => AnimationDirection::PingPong,
        3 => AnimationDirection::PingPongReverse,
        n => AnimationDirection::Unknown(n),
    }
}
pub fn repo_direction(v: u8) -> AnimationDirection {
    AnimationDirection::from(v)
}
pub fn external_file_type(v: u8) -> ExternalFileType {
    match v {
        0 => ExternalFileType::ExternalPalette,
        1 => ExternalFileType::ExternalTileset,
        2 => ExternalFileType::ExtensionNameForProperties,
        n => ExternalFileType::Unknown(n),
    }
}
pub fn repo_external_file_type(v: u8) -> ExternalFileType {
    ExternalFileType::from(v)
}
pub fn chunk_type(v: u16) -> Result<ChunkType, u16> {
    match v {
        0x0004 => Ok(ChunkType::Palette0004),
        0x0011 => Ok(ChunkType::Palette0011),
        0x2004 => Ok(ChunkType::Layer),
        0x2005 => Ok(ChunkType::Cel),
        0x2006 => Ok(ChunkType::CelExtra),
        0x2007 => Ok(ChunkType::ColorProfile),
        0x2008 => Ok(ChunkType::ExternalFile),
        0x2016 => Ok(ChunkType::Mask),
        0x2017 => Ok(ChunkType::Path),
        0x2018 => Ok(ChunkType::Tags),
        0x2019 => Ok(ChunkType::Palette),
        0x2020 => Ok(ChunkType::UserData),
        0x2022 => Ok(ChunkType::Slice),
        0x2023 => Ok(ChunkType::Tileset),
        n => Err(n),
    }
}
pub fn parse_chunk_type(i: &[u8]) -> R<'_, Result<ChunkType, u16>> {
    let (i, v) = r16(i)?;
    Ok((i, chunk_type(v)))
}

use super::enums::direction;
use super::prim::*;
use crate::binary::chunks::tags::{Tag, TagsChunk};

#[allow(deprecated)]
pub fn parse_tag(i: &[u8]) -> R<'_, Tag<'_>> {
    let (i, from) = r16(i)?;
    let (i, to) = r16(i)?;
    if from > to {
        return Err(());
    }
    let (i, dir) = r8(i)?;
    let (i, animation_repeat) = r16(i)?;
    let (i, _) = take(i, 6)?;
    let (i, c) = take(i, 3)?;
    let (i, _) = take(i, 1)?;
    let (i, name) = string(i)?;
    Ok((
        i,
        Tag {
            frames: from..=to,
            animation_direction: direction(dir),
            animation_repeat,
            color: [c[0], c[1], c[2]],
            name,
            user_data: None,
        },
    ))
}
pub fn parse_tags_chunk(i: &[u8]) -> R<'_, TagsChunk<'_>> {
    let (i, n) = r16(i)?;
    let (i, _) = take(i, 8)?;
    let (i, tags) = times(i, n as usize, parse_tag)?;
    Ok((i, TagsChunk { tags }))
}

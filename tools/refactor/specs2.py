"""More edits that keep the behaviour."""
from specs import r, L, BL, F, P, CH, S

LOOP = """        for (index, frame) in file.frames.iter().enumerate() {
            let mut cels: Vec<FrameCel> = Vec::new();"""

# --- loader
r('x-render-hoist-blend',
  (L, """            let layer = &self.layers[cel.layer_index];

            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
                .ok_or(LoadImageError::UnsupportedBlendMode)?;
""", """            let Some(blend_fn) = blend_mode_to_blend_fn(layer.blend_mode) else {
                return Err(LoadImageError::UnsupportedBlendMode);
            };
            let opacity = layer.opacity;
"""),
  (L, "let out = blend_fn(back, front, layer.opacity);", "let out = blend_fn(back, front, opacity);"))
r('x-render-copy',
  (L, """                    target_pixel[0] = out.r;
                    target_pixel[1] = out.g;
                    target_pixel[2] = out.b;
                    target_pixel[3] = out.a;
""", """                    target_pixel.copy_from_slice(&[out.r, out.g, out.b, out.a]);
"""))
r('x-render-slices-len',
  (L, """&cel_target[cel_index * 4..cel_index * 4 + 4];""", """&cel_target[4 * cel_index..][..4];"""),
  (L, """                        &mut target[target_index * 4..target_index * 4 + 4];""", """                        &mut target[4 * target_index..][..4];"""))
r('x-render-chunks',
  (L, """            for y in 0..cel.size.1 {
                for x in 0..cel.size.0 {
""", """            for (y, row) in (0..cel.size.1).zip(cel_target.chunks_exact(usize::from(cel.size.0).max(1) * 4)) {
                for (x, cel_pixel) in (0..cel.size.0).zip(row.chunks_exact(4)) {
"""),
  (L, """                    let cel_index = usize::from(y) * usize::from(cel.size.0) + usize::from(x);

                    let cel_pixel: &[u8] = &cel_target[cel_index * 4..cel_index * 4 + 4];
""", ""))
r('x-render-scope',
  (L, """        for cel in frame.cels.iter() {
            let Some(layer) = self.layers.get(cel.layer_index) else {
                continue;
            };
            if layer""", """        let width = self.file.header.width;
        let height = self.file.header.height;
        for cel in &frame.cels {
            let Some(layer) = self.layers.get(cel.layer_index) else {
                continue;
            };
            if layer"""),
  (L, "                    if target_x >= self.file.header.width {", "                    if target_x >= width {"),
  (L, "                    if target_y >= self.file.header.height {", "                    if target_y >= height {"),
  (L, """                    let target_index = usize::from(target_y) * usize::from(self.file.header.width)
                        + usize::from(target_x);""", """                    let target_index =
                        usize::from(target_x) + usize::from(width) * usize::from(target_y);"""))
r('x-render-match-sel',
  (L, """            if layer.layer_type != LayerType::Normal || !layers.is_selected(cel.layer_index, layer)
            {
                continue;
            }
""", """            let wanted = match layer.layer_type {
                LayerType::Normal => layers.is_selected(cel.layer_index, layer),
                _ => false,
            };
            if !wanted {
                continue;
            }
"""))
r('x-render-fn-cel',
  (L, """        for cel in frame.cels.iter() {
            let Some(layer) = self.layers.get(cel.layer_index) else {
                continue;
            };
            if layer.layer_type != LayerType::Normal || !layers.is_selected(cel.layer_index, layer)
            {
                continue;
            }

            let mut""", """        for cel in frame.cels.iter() {
            self.render_cel(cel, target, layers)?;
        }
        Ok(())
    }

    fn render_cel(
        &self,
        cel: &FrameCel,
        target: &mut [u8],
        layers: &LayerSelection,
    ) -> Result<(), LoadImageError> {
        {
            let Some(layer) = self.layers.get(cel.layer_index) else {
                return Ok(());
            };
            if layer.layer_type != LayerType::Normal || !layers.is_selected(cel.layer_index, layer)
            {
                return Ok(());
            }

            let mut"""))
r('x-render-checked-size',
  (L, """        let target_size =
            usize::from(self.file.header.width) * usize::from(self.file.header.height) * 4;

        if target.len() < target_size {""", """        let (width, height) = self.size();
        let target_size = 4 * usize::from(height) * usize::from(width);

        if target_size > target.len() {"""))
r('x-load-for-each',
  (L, """        for tag in file.tags.iter() {
            tags.push(Tag {
                name: tag.name.to_string(),
                range: tag.frames.clone(),
                direction: tag.animation_direction,
                repeat: if tag.animation_repeat > 0 {
                    Some(tag.animation_repeat)
                } else {
                    None
                },
            });
        }
""", """        file.tags.iter().for_each(|tag| {
            let repeat = match tag.animation_repeat {
                0 => None,
                n => Some(n),
            };
            tags.push(Tag {
                name: tag.name.to_owned(),
                range: tag.frames.clone(),
                direction: tag.animation_direction,
                repeat,
            });
        });
"""))
r('x-load-filter',
  (L, """                repeat: if tag.animation_repeat > 0 {
                    Some(tag.animation_repeat)
                } else {
                    None
                },
""", """                repeat: Some(tag.animation_repeat).filter(|n| *n != 0),
"""))
r('x-load-match-link',
  (L, """                    CelContent::LinkedCel { frame_position } => *image_map
                        .get(&(frame_position.into(), cel.layer_index.into()))
                        .ok_or_else(|| LoadSpriteError::Parse {
                            message: format!(
                                "invalid linked cel at frame {} layer {}",
                                index, cel.layer_index
                            ),
                        })?,
""", """                    CelContent::LinkedCel { frame_position } => {
                        let key = (usize::from(frame_position), usize::from(cel.layer_index));
                        match image_map.get(&key) {
                            Some(found) => *found,
                            None => {
                                return Err(LoadSpriteError::Parse {
                                    message: format!(
                                        "invalid linked cel at frame {} layer {}",
                                        index, cel.layer_index
                                    ),
                                })
                            }
                        }
                    }
"""))
r('x-load-image-ref',
  (L, """                let width = image_vec[image_index].width;
                let height = image_vec[image_index].height;
                cels""", """                let Image { width, height, .. } = image_vec[image_index];
                cels"""))
r('x-load-cap',
  (L, "let mut cels: Vec<FrameCel> = Vec::new();", "let mut cels: Vec<FrameCel> = Vec::with_capacity(frame.cels.len());"),
  (L, "let mut frames: Vec<Frame> = Vec::new();", "let mut frames: Vec<Frame> = Vec::with_capacity(file.frames.len());"))
r('x-load-try-collect',
  (L, """            frames.push(Frame {
                duration: frame.duration,
                origin: (0, 0),
                cels,
            });
        }
""", """            let frame = Frame {
                cels,
                origin: (0, 0),
                duration: frame.duration,
            };
            frames.push(frame);
        }
"""))
r('x-load-flat-map',
  (L, """        for (frame_index, frame) in file.frames.iter().enumerate() {
            for cel in frame.cels.iter().filter_map(|x| x.as_ref()) {
                if let""", """        for (frame_index, frame) in file.frames.iter().enumerate() {
            for cel in &frame.cels {
                let Some(cel) = cel else { continue };
                if let"""))
r('x-load-key-struct',
  (L, """                    let _ = image_map.insert((frame_index, cel.layer_index.into()), image_index);
""", """                    let key = (frame_index, usize::from(cel.layer_index));
                    image_map.insert(key, image_index);
"""))
r('x-image-bpp',
  (L, """                let mut buf = vec![0u8; usize::from(image.width) * usize::from(image.height) * 2];
                decompress(image.data, &mut buf)?;
                grayscale_to_rgba(&buf, target)?;
""", """                let pixels = usize::from(image.width) * usize::from(image.height);
                let mut buf = vec![0u8; 2 * pixels];
                decompress(image.data, &mut buf).and_then(|()| grayscale_to_rgba(&buf, target))?;
"""))
r('x-image-if-compressed',
  (L, """            (ColorDepth::Grayscale, false) => {
                grayscale_to_rgba(image.data, target)?;
            }
            (ColorDepth::Grayscale, true) => {
                let mut buf = vec![0u8; usize::from(image.width) * usize::from(image.height) * 2];
                decompress(image.data, &mut buf)?;
                grayscale_to_rgba(&buf, target)?;
            }
""", """            (ColorDepth::Grayscale, compressed) => {
                let mut buf;
                let source = if compressed {
                    buf = vec![0u8; usize::from(image.width) * usize::from(image.height) * 2];
                    decompress(image.data, &mut buf)?;
                    &buf[..]
                } else {
                    image.data
                };
                grayscale_to_rgba(source, target)?;
            }
"""))
r('x-image-cow',
  (L, """            (ColorDepth::Indexed, false) => {
                indexed_to_rgba(
                    image.data,
                    self.file
                        .palette
                        .as_ref()
                        .ok_or(LoadImageError::MissingPalette)?,
                    target,
                )?;
            }
            (ColorDepth::Indexed, true) => {
                let mut buf = vec![0u8; usize::from(image.width) * usize::from(image.height)];
                decompress(image.data, &mut buf)?;
                indexed_to_rgba(
                    &buf,
                    self.file
                        .palette
                        .as_ref()
                        .ok_or(LoadImageError::MissingPalette)?,
                    target,
                )?;
            }
""", """            (ColorDepth::Indexed, compressed) => {
                let source = if compressed {
                    let mut buf = vec![0u8; usize::from(image.width) * usize::from(image.height)];
                    decompress(image.data, &mut buf)?;
                    std::borrow::Cow::Owned(buf)
                } else {
                    std::borrow::Cow::Borrowed(image.data)
                };
                let Some(palette) = &self.file.palette else {
                    return Err(LoadImageError::MissingPalette);
                };
                indexed_to_rgba(&source, palette, target)?;
            }
"""))
r('x-image-split',
  (L, "let target = &mut target[..target_size];", "let (target, _) = target.split_at_mut(target_size);"))
r('x-image-get',
  (L, """        if target.len() < target_size {
            return Err(LoadImageError::TargetBufferTooSmall);
        }
        let target = &mut target[..target_size];
""", """        let target = target
            .get_mut(..target_size)
            .ok_or(LoadImageError::TargetBufferTooSmall)?;
"""))
r('x-gray-zip',
  (L, """    for (i, chunk) in source.chunks(2).enumerate() {
        target[i * 4] = chunk[0];
        target[i * 4 + 1] = chunk[0];
        target[i * 4 + 2] = chunk[0];
        target[i * 4 + 3] = chunk[1];
    }
""", """    for (pixel, chunk) in target.chunks_exact_mut(4).zip(source.chunks_exact(2)) {
        let [value, alpha] = [chunk[0], chunk[1]];
        pixel.copy_from_slice(&[value, value, value, alpha]);
    }
"""))
r('x-gray-fill',
  (L, """        target[i * 4] = chunk[0];
        target[i * 4 + 1] = chunk[0];
        target[i * 4 + 2] = chunk[0];
        target[i * 4 + 3] = chunk[1];
""", """        let pixel = &mut target[i * 4..i * 4 + 4];
        pixel[..3].fill(chunk[0]);
        pixel[3] = chunk[1];
"""))
r('x-gray-match',
  (L, """        target[i * 4] = chunk[0];
        target[i * 4 + 1] = chunk[0];
        target[i * 4 + 2] = chunk[0];
        target[i * 4 + 3] = chunk[1];
""", """        if let [value, alpha] = *chunk {
            for c in 0..3 {
                target[i * 4 + c] = value;
            }
            target[i * 4 + 3] = alpha;
        }
"""))
r('x-indexed-chunks',
  (L, """    for (i, px) in source.iter().enumerate() {
        let color = palette.colors[usize::from(*px)];
        target[i * 4] = color.red;
        target[i * 4 + 1] = color.green;
        target[i * 4 + 2] = color.blue;
        target[i * 4 + 3] = color.alpha;
    }
""", """    let mut rest = target;
    for px in source {
        let color = &palette.colors[*px as usize];
        let (pixel, tail) = rest.split_at_mut(4);
        pixel[0] = color.red;
        pixel[1] = color.green;
        pixel[2] = color.blue;
        pixel[3] = color.alpha;
        rest = tail;
    }
"""))
r('x-indexed-foreach',
  (L, """    for (i, px) in source.iter().enumerate() {
        let color = palette.colors[usize::from(*px)];
        target[i * 4] = color.red;
        target[i * 4 + 1] = color.green;
        target[i * 4 + 2] = color.blue;
        target[i * 4 + 3] = color.alpha;
    }
""", """    target
        .chunks_exact_mut(4)
        .zip(source.iter().map(|px| palette.colors[usize::from(*px)]))
        .for_each(|(pixel, color)| {
            pixel[0] = color.red;
            pixel[1] = color.green;
            pixel[2] = color.blue;
            pixel[3] = color.alpha;
        });
"""))
r('x-selected-matches',
  (L, """            Self::Mask(mask) => mask.get(layer_index).copied().unwrap_or(false),
""", """            Self::Mask(mask) => matches!(mask.get(layer_index), Some(true)),
"""))
r('x-selected-len',
  (L, """            Self::Mask(mask) => mask.get(layer_index).copied().unwrap_or(false),
""", """            Self::Mask(mask) => layer_index < mask.len() && mask[layer_index],
"""))
r('x-names-any',
  (L, "self.select_layers(|l| names.contains(&l.name.as_str()))", "self.select_layers(|l| names.iter().any(|name| *name == l.name))"))
r('x-decompress-total',
  (L, """        // A short stream would leave the end of `target` untouched.
        Ok(flate2::Status::StreamEnd) if decompressor.total_out() != target.len() as u64 => {
            Err(LoadImageError::InvalidImageData)
        }
        Ok(flate2::Status::StreamEnd) => Ok(()),
""", """        Ok(flate2::Status::StreamEnd) => {
            if decompressor.total_out() == target.len() as u64 {
                Ok(())
            } else {
                Err(LoadImageError::InvalidImageData)
            }
        }
"""))
# --- file
r('x-file-vec-none',
  (F, """                    let mut cels: Vec<Option<CelChunk<'_>>> = Vec::with_capacity(layers.len());
                    for _ in 0..layers.len() {
                        cels.push(None);
                    }
                    for cel in frame_cels {
                        let layer_index: usize = cel.layer_index.into();
                        if layer_index >= layers.len() {
                            return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                        }
                        cels[layer_index] = Some(cel);
                    }
""", """                    let mut cels: Vec<Option<CelChunk<'_>>> =
                        std::iter::repeat_with(|| None).take(layers.len()).collect();
                    for cel in frame_cels {
                        let slot = cels
                            .get_mut(usize::from(cel.layer_index))
                            .ok_or(nom::Err::Failure(ParseError::LayerIndexOutOfBounds))?;
                        *slot = Some(cel);
                    }
"""))
r('x-file-collect',
  (F, "        .try_collect()?;", "        .collect::<Result<Vec<_>, nom::Err<ParseError<'_>>>>()?;"))
r('x-file-destructure',
  (F, """        match chunk {
                // In""", """        match chunk {
                Chunk::UserData(_) | Chunk::Tileset(_) | Chunk::Unsupported(_) => {}
                // In"""),
  (F, """                Chunk::UserData(_) => {}
""", ""),
  (F, """                Chunk::Tileset(_) => {}
                Chunk::Unsupported(_) => {}
""", ""))
r('x-file-palette-then',
  (F, """    let palette = match raw_file.header.color_depth {
        ColorDepth::Indexed => Some(
            create_palette(&raw_file.header, &raw_file.frames)
                .map_err(|e| nom::Err::Failure(ParseError::PaletteError(e)))?,
        ),
        _ => None,
    };
""", """    let mut palette = None;
    if raw_file.header.color_depth == ColorDepth::Indexed {
        match create_palette(&raw_file.header, &raw_file.frames) {
            Ok(p) => palette = Some(p),
            Err(e) => return Err(nom::Err::Failure(ParseError::PaletteError(e))),
        }
    }
"""))
r('x-file-peek',
  (F, """    let chunk = iter.next_if(|c| matches!(c, Chunk::UserData(_)))?;
    let Chunk::UserData(user_data) = chunk else {
        unreachable!()
    };
    Some(user_data)
""", """    if !matches!(iter.peek(), Some(Chunk::UserData(_))) {
        return None;
    }
    match iter.next() {
        Some(Chunk::UserData(user_data)) => Some(user_data),
        _ => None,
    }
"""))
r('x-file-enumerate',
  (F, """    for raw_frame in raw_file.frames {
""", """    for (frame_index, raw_frame) in raw_file.frames.into_iter().enumerate() {
"""),
  (F, "if frames.is_empty() && user_data.is_none() {", "if frame_index == 0 && user_data.is_none() {"))
r('x-file-layer-mut',
  (F, """                Chunk::Layer(layer) => layers.push(LayerChunk {
                    user_data: next_user_data(&mut chunks),
                    ..layer
                }),
""", """                Chunk::Layer(mut layer) => {
                    if let Some(data) = next_user_data(&mut chunks) {
                        layer.user_data = Some(data);
                    }
                    layers.push(layer);
                }
"""))
# --- palette
r('x-palette-generic',
  (P, """    let palette_chunks: Vec<_> = frames
        .iter()
        .flat_map(|frame| {
            frame.chunks.iter().filter_map(|chunk| {
                if let Chunk::Palette(palette) = chunk {
                    Some(palette)
                } else {
                    None
                }
            })
        })
        .collect();
""", """    let palette_chunks: Vec<_> = frames
        .iter()
        .flat_map(|frame| frame.chunks.iter())
        .filter_map(|chunk| match chunk {
            Chunk::Palette(palette) => Some(palette),
            _ => None,
        })
        .collect();
"""))
r('x-palette-enumerate',
  (P, """        for (entry, color_idx) in chunk.entries.iter().zip(chunk.indices.clone()) {
            palette.colors[usize::from(color_idx)] = entry.color;
            ok = true;
        }
""", """        let first = usize::from(*chunk.indices.start());
        for (offset, entry) in chunk.entries.iter().enumerate() {
            palette.colors[first + offset] = entry.color;
            ok = true;
        }
"""))
r('x-palette-slice',
  (P, """        for (entry, color_idx) in chunk.entries.iter().zip(chunk.indices.clone()) {
            palette.colors[usize::from(color_idx)] = entry.color;
            ok = true;
        }
""", """        for (color_idx, entry) in chunk.indices.clone().zip(&chunk.entries) {
            let slot = &mut palette.colors[usize::from(color_idx)];
            *slot = entry.color;
            ok = true;
        }
"""))
r('x-palette-empty-first',
  (P, """    let mut ok = false;
    for chunk in chunks.iter() {
        // The""", """    if chunks.iter().all(|chunk| chunk.entries.is_empty()) {
        return Err(PaletteError::Empty);
    }
    let mut ok = false;
    for chunk in chunks.iter() {
        // The"""))
r('x-palette-packet-zip',
  (P, """            for color in &packet.colors {
                palette.colors[color_idx] = Color {
                    red: scale(color.red),
                    green: scale(color.green),
                    blue: scale(color.blue),
                    alpha: 255,
                };
                color_idx += 1;
                ok = true;
            }
""", """            for (slot, color) in palette.colors[color_idx..].iter_mut().zip(&packet.colors) {
                *slot = Color {
                    red: scale(color.red),
                    green: scale(color.green),
                    blue: scale(color.blue),
                    alpha: 255,
                };
                ok = true;
            }
            color_idx += packet.colors.len();
"""))
r('x-palette-checked',
  (P, """            if color_idx + packet.colors.len() > 256 {
                return Err(PaletteError::IndexOutOfBounds);
            }
""", """            let end = color_idx + packet.colors.len();
            if !(0..=palette.colors.len()).contains(&end) {
                return Err(PaletteError::IndexOutOfBounds);
            }
"""))
# --- parsers
r('x-rawfile-chain',
  ('binary/raw_file.rs', """    let (input, header) = parse_header(input)?;
    let (_, frames) = parse_frames(input)?;
    Ok(RawFile { header, frames })
""", """    let (body, header) = parse_header(input)?;
    parse_frames(body).map(|(_, frames)| RawFile { frames, header })
"""))
r('x-rawframe-count',
  ('binary/raw_frame.rs', """    let (input, chunk_count) = match parse_dword_as_usize(input)? {
        (input, 0) => (input, chunk_count.into()),
        (input, chunk_count) => (input, chunk_count),
    };
""", """    let (input, new_count) = parse_dword_as_usize(input)?;
    let chunk_count = if new_count != 0 {
        new_count
    } else {
        usize::from(chunk_count)
    };
"""))
r('x-rawframe-magic',
  ('binary/raw_frame.rs', """    let (input, _) = tag(FRAME_MAGIC_NUMBER.as_slice()).parse(input)?;
""", """    let (input, _) = tag(&FRAME_MAGIC_NUMBER[..])(input)?;
"""))
r('x-rawframe-fields',
  ('binary/raw_frame.rs', """    let (_, chunks) = parse_chunks(input, chunk_count)?;
    Ok((rest, RawFrame { duration, chunks }))
""", """    let frame = RawFrame {
        chunks: parse_chunks(input, chunk_count)?.1,
        duration,
    };
    Ok((rest, frame))
"""))
r('x-chunk-question',
  ('binary/chunk.rs', """        Ok(ChunkType::Layer) => Chunk::Layer(parse_layer_chunk(chunk_data)?.1),
        Ok(ChunkType::Cel) => Chunk::Cel(parse_cel_chunk(chunk_data)?.1),
""", """        Ok(ChunkType::Layer) => {
            let (_, layer) = parse_layer_chunk(chunk_data)?;
            Chunk::Layer(layer)
        }
        Ok(ChunkType::Cel) => parse_cel_chunk(chunk_data).map(|(_, cel)| Chunk::Cel(cel))?,
"""))
r('x-chunk-nested',
  ('binary/chunk.rs', """    let chunk = match chunk_type {
        Ok(ChunkType::Palette0004)""", """    if let Err(unknown) = chunk_type {
        return Ok((rest, Chunk::Unsupported(unknown)));
    }
    let chunk = match chunk_type {
        Ok(ChunkType::Palette0004)"""))
r('x-chunks-manual',
  ('binary/chunk.rs', """    count(parse_chunk, chunk_count).parse(input)
}""", """    let mut rest = input;
    let mut chunks = Vec::new();
    for _ in 0..chunk_count {
        let (next, chunk) = parse_chunk(rest)?;
        rest = next;
        chunks.push(chunk);
    }
    Ok((rest, chunks))
}"""),
  ('binary/chunk.rs', "use nom::{bytes::complete::take, multi::count, Parser};", "use nom::bytes::complete::take;"))
r('x-slice-tuple',
  (CH + 'slice.rs', """    let (input, x) = long(input)?;
    let (input, y) = long(input)?;
    Ok((input, Pivot { x, y }))
""", """    nom::combinator::map((long, long), |(x, y)| Pivot { x, y }).parse(input)
"""))
r('x-slice-bits',
  (CH + 'slice.rs', """cond(flags.contains(SliceFlags::NINE_PATCH), parse_nine_patch).parse(input)?;""", """cond(flags.bits() & 1 == 1, parse_nine_patch).parse(input)?;"""))
r('x-slice-then',
  (CH + 'slice.rs', """    let (input, pivot) = cond(flags.contains(SliceFlags::PIVOT), parse_pivot).parse(input)?;
""", """    let (input, pivot) = match flags.intersects(SliceFlags::PIVOT) {
        true => parse_pivot(input).map(|(input, pivot)| (input, Some(pivot)))?,
        false => (input, None),
    };
"""))
r('x-tags-try-into',
  (CH + 'tags.rs', "            color: [color[0], color[1], color[2]],", "            color: color.try_into().unwrap(),"))
r('x-tags-range-check',
  (CH + 'tags.rs', """    if from_frame > to_frame {
        return Err(nom::Err::Failure(ParseError::InvalidFrameRange(
            from_frame, to_frame,
        )));
    }
""", """    let frames = from_frame..=to_frame;
    if frames.is_empty() {
        return Err(nom::Err::Failure(ParseError::InvalidFrameRange(
            from_frame, to_frame,
        )));
    }
"""),
  (CH + 'tags.rs', "            frames: (from_frame..=to_frame),", "            frames,"))
r('x-tags-direction',
  (CH + 'tags.rs', "        AnimationDirection::from_repr(byte.into()).unwrap_or(AnimationDirection::Unknown(byte))", """        match byte {
            0 => Self::Forward,
            1 => Self::Reverse,
            2 => Self::PingPong,
            3 => Self::PingPongReverse,
            other => Self::Unknown(other),
        }"""))
r('x-palettechunk-sub',
  (CH + 'palette.rs', "    let entry_count = usize::from(last_color_index - first_color_index) + 1;", "    let entry_count = 1 + usize::from(last_color_index) - usize::from(first_color_index);"))
r('x-palettechunk-isempty',
  (CH + 'palette.rs', """    if first_color_index > last_color_index {""", """    let indices = first_color_index..=last_color_index;
    if indices.is_empty() {"""),
  (CH + 'palette.rs', "            indices: (first_color_index..=last_color_index),", "            indices,"))
r('x-layer-guard',
  (CH + 'layer.rs', """    let (input, tileset_index) =
        cond(matches!(layer_type, LayerType::Tilemap), dword).parse(input)?;
""", """    let (input, tileset_index) = if layer_type == LayerType::Tilemap {
        let (input, index) = dword(input)?;
        (input, Some(index))
    } else {
        (input, None)
    };
"""))
r('x-layer-flags',
  (CH + 'layer.rs', """    let flags = LayerFlags::from_bits_truncate(flags);
    let (input, layer_type) = word(input)?;""", """    let flags = LayerFlags::from_bits_retain(flags & LayerFlags::all().bits());
    let (input, layer_type) = word(input)?;"""))
r('x-oldpalette-nonzero',
  (CH + 'old_palette.rs', """    let number_of_colors = if number_of_colors == 0 {
        256usize
    } else {
        number_of_colors.into()
    };
""", """    let number_of_colors = usize::from(number_of_colors.wrapping_sub(1)) + 1;
"""))
r('x-cel-word-type',
  (CH + 'cel.rs', """        CelType::from_repr(word.into()).unwrap_or(Self::Unknown(word))""", """        match CelType::from_repr(usize::from(word)) {
            Some(known) => known,
            None => Self::Unknown(word),
        }"""))
r('x-cel-two-kinds',
  (CH + 'cel.rs', """        CelType::RawImageData => {
            let (input, width) = word(input)?;
            let (input, height) = word(input)?;
            CelContent::Image(Image {
                width,
                height,
                data: input,
                compressed: false,
            })
        }
""", """        CelType::RawImageData => parse_raw(input)?,
"""),
  (CH + 'cel.rs', "pub fn parse_cel_chunk(", """fn parse_raw(input: &[u8]) -> Result<CelContent<'_>, nom::Err<crate::binary::errors::ParseError<'_>>> {
    let (data, width) = word(input)?;
    let (data, height) = word(data)?;
    Ok(CelContent::Image(Image {
        width,
        height,
        data,
        compressed: false,
    }))
}

pub fn parse_cel_chunk("""))
r('x-cel-skip-first',
  (CH + 'cel.rs', """    let (input, cel_type) = word(input)?;
    let cel_type = CelType::from(cel_type);
    let (input, z_index) = short(input)?;
    let (input, _) = take(5usize)(input)?;
    let content = match cel_type {""", """    let (input, cel_type) = word(input)?;
    let (input, z_index) = short(input)?;
    let (input, _reserved) = take(5u8)(input)?;
    let content = match CelType::from(cel_type) {"""))
# --- blending
r('x-blend-normal-clamp',
  (BL, """    let res_r = back.r_i32() + ((front.r_i32() - back.r_i32()) * front_a) / res_a;
    let res_g = back.g_i32() + ((front.g_i32() - back.g_i32()) * front_a) / res_a;
    let res_b = back.b_i32() + ((front.b_i32() - back.b_i32()) * front_a) / res_a;
""", """    let lerp = |from: i32, to: i32| from + (to - from) * front_a / res_a;
    let res_r = lerp(back.r_i32(), front.r_i32());
    let res_g = lerp(back.g_i32(), front.g_i32());
    let res_b = lerp(back.b_i32(), front.b_i32());
"""))
r('x-blend-normal-new',
  (BL, """    Color::from(&[res_r, res_g, res_b, res_a])
}""", """    Color::new(res_r as u8, res_g as u8, res_b as u8, res_a as u8)
}"""))
r('x-blend-blender-early',
  (BL, """    if back.a != 0 {
        let norm = normal(back, front, opacity);
        let blend""", """    if back.a == 0 {
        return normal(back, front, opacity);
    }
    {
        let norm = normal(back, front, opacity);
        let blend"""),
  (BL, """        merge(normal_to_blend_merge, blend, composite_alpha)
    } else {
        normal(back, front, opacity)
    }
""", """        merge(normal_to_blend_merge, blend, composite_alpha)
    }
"""))
r('x-blend-mul8-u32',
  (BL, """fn mul8(a: i32, b: i32) -> u8 {
    let t = a * b + 0x80;
    let r = ((t >> 8) + t) >> 8;
    r as u8
}""", """fn mul8(a: i32, b: i32) -> u8 {
    let product = a * b + 128;
    ((product + product / 256) / 256) as u8
}"""))
r('x-blend-div8',
  (BL, """    let t = a * 0xff;
    let r = (t + (b / 2)) / b;
    r as u8
""", """    ((255 * a + (b >> 1)) / b) as u8
"""))
r('x-blend-add-min',
  (BL, """        Color::from(&[r.min(255), g.min(255), b.min(255), front.a_i32()]),
""", """        Color::new(
            back.r.saturating_add(front.r),
            back.g.saturating_add(front.g),
            back.b.saturating_add(front.b),
            front.a,
        ),
"""),
  (BL, """    let r = back.r_i32() + front.r_i32();
    let g = back.g_i32() + front.g_i32();
    let b = back.b_i32() + front.b_i32();

    normal(
        back,
        Color""", """    normal(
        back,
        Color"""))
r('x-blend-sub-clamp',
  (BL, "Color::from(&[r.max(0), g.max(0), b.max(0), front.a_i32()]),", "Color::from(&[r.clamp(0, 255), g.clamp(0, 255), b.clamp(0, 255), front.a_i32()]),"))
r('x-blend-difference-absdiff',
  (BL, "(b - s).unsigned_abs() as u8", "b.abs_diff(s) as u8"))
r('x-blend-difference-if',
  (BL, "(b - s).unsigned_abs() as u8", "(if b > s { b - s } else { s - b }) as u8"))
r('x-blend-exclusion',
  (BL, """    let t = mul8(b, s) as i32;
    (b + s - 2 * t) as u8
""", """    let t = i32::from(mul8(s, b));
    (b - t + (s - t)) as u8
"""))
r('x-blend-hard',
  (BL, """    if s < 128 {
        blend_multiply(b, s << 1)
    } else {
        blend_screen(b, (s << 1) - 255)
    }
""", """    let twice = 2 * s;
    match twice {
        0..=255 => blend_multiply(b, twice),
        _ => blend_screen(b, twice - 255),
    }
"""))
r('x-blend-dodge',
  (BL, """    if b == 0 {
        return 0;
    }
    let s = 255 - s;
    if b >= s {
        255
    } else {
        // in floating point: b / (1-s)
        div8(b, s)
    }
""", """    let s = 255 - s;
    match b {
        0 => 0,
        _ if s > b => div8(b, s),
        _ => 255,
    }
"""))
r('x-blend-burn',
  (BL, """    let b = 255 - b;
    if b >= s {
        0
    } else {
        255 - div8(b, s)
    }
""", """    let inverse = 255 - b;
    if inverse < s {
        !div8(inverse, s)
    } else {
        0
    }
"""))
r('x-blend-merge-tuple',
  (BL, """    let res_r;
    let res_g;
    let res_b;

    if back.a == 0 {
        res_r = front.r;
        res_g = front.g;
        res_b = front.b;
    } else if front.a == 0 {
        res_r = back.r;
        res_g = back.g;
        res_b = back.b;
    } else {
        res_r = blend8(back.r, front.r, opacity);
        res_g = blend8(back.g, front.g, opacity);
        res_b = blend8(back.b, front.b, opacity);
    }
    let res_a = blend8(back.a, front.a, opacity);

    if res_a == 0 {
        Color::new(0, 0, 0, 0)
    } else {
        Color::new(res_r, res_g, res_b, res_a)
    }
""", """    let alpha = blend8(back.a, front.a, opacity);
    if alpha == 0 {
        return Color::new(0, 0, 0, 0);
    }
    match (back.a, front.a) {
        (0, _) => Color { a: alpha, ..front },
        (_, 0) => Color { a: alpha, ..back },
        _ => Color::new(
            blend8(back.r, front.r, opacity),
            blend8(back.g, front.g, opacity),
            blend8(back.b, front.b, opacity),
            alpha,
        ),
    }
"""))
r('x-blend-lum-order',
  (BL, """    let sat = saturation(back.r_f64(), back.g_f64(), back.b_f64());
    let lum = luminosity(back.r_f64(), back.g_f64(), back.b_f64());
""", """    let [r, g, b] = [back.r_f64(), back.g_f64(), back.b_f64()];
    let lum = luminosity(r, g, b);
    let sat = saturation(r, g, b);
"""))
r('x-blend-channel-array',
  (BL, """    let r = f(back.r_i32(), front.r_i32());
    let g = f(back.g_i32(), front.g_i32());
    let b = f(back.b_i32(), front.b_i32());

    normal(back, Color::new(r, g, b, front.a), opacity)
""", """    let [r, g, b] = [
        (back.r_i32(), front.r_i32()),
        (back.g_i32(), front.g_i32()),
        (back.b_i32(), front.b_i32()),
    ]
    .map(|(b, s)| f(b, s));
    let blended = Color { r, g, b, ..front };
    normal(back, blended, opacity)
"""))
r('x-blend-soft-closure',
  (BL, """    let r = blend_soft_light(back.r_i32(), front.r_i32());
    let g = blend_soft_light(back.g_i32(), front.g_i32());
    let b = blend_soft_light(back.b_i32(), front.b_i32());

    normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
""", """    blend_channel(back, front, opacity, |b, s| blend_soft_light(b, s) as u8)
"""))

"""Edits that keep the behaviour; the checks have to stay quiet on each of them.
(id, [(file under src, old text, new text), ...])"""
L = 'loader/mod.rs'
BL = 'loader/blend.rs'
F = 'binary/file.rs'
P = 'binary/palette.rs'
CH = 'binary/chunks/'
S = 'binary/scalars.rs'
SPECS = []


def r(id, *edits):
    SPECS.append((id, edits))


r('render-helper',
  (L, """                    let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };
                    if target_x >= self.file.header.width {
                        continue;
                    }
                    let Some(target_y) = y.checked_add_signed(cel.origin.1) else {
                        continue;
                    };
                    if target_y >= self.file.header.height {
                        continue;
                    }
""", """                    let (Some(target_x), Some(target_y)) = (
                        place(x, cel.origin.0, self.file.header.width),
                        place(y, cel.origin.1, self.file.header.height),
                    ) else {
                        continue;
                    };
"""),
  (L, "fn grayscale_to_rgba(", """fn place(at: u16, origin: i16, limit: u16) -> Option<u16> {
    at.checked_add_signed(origin).filter(|p| *p < limit)
}

fn grayscale_to_rgba("""))
r('render-i32',
  (L, """                    let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };
                    if target_x >= self.file.header.width {
                        continue;
                    }
                    let Some(target_y) = y.checked_add_signed(cel.origin.1) else {
                        continue;
                    };
                    if target_y >= self.file.header.height {
                        continue;
                    }

                    let target_index = usize::from(target_y) * usize::from(self.file.header.width)
                        + usize::from(target_x);
""", """                    let target_x = i32::from(x) + i32::from(cel.origin.0);
                    let target_y = i32::from(y) + i32::from(cel.origin.1);
                    if target_x < 0 || target_y < 0 {
                        continue;
                    }
                    if target_x >= i32::from(self.file.header.width)
                        || target_y >= i32::from(self.file.header.height)
                    {
                        continue;
                    }

                    let target_index = target_y as usize * usize::from(self.file.header.width)
                        + target_x as usize;
"""))
r('render-row-first',
  (L, """                for x in 0..cel.size.0 {
                    let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };
                    if target_x >= self.file.header.width {
                        continue;
                    }
                    let Some(target_y) = y.checked_add_signed(cel.origin.1) else {
                        continue;
                    };
                    if target_y >= self.file.header.height {
                        continue;
                    }
""", """                let Some(target_y) = y.checked_add_signed(cel.origin.1) else {
                    continue;
                };
                if target_y >= self.file.header.height {
                    continue;
                }
                for x in 0..cel.size.0 {
                    let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };
                    if target_x >= self.file.header.width {
                        continue;
                    }
"""))
r('render-while',
  (L, """            for y in 0..cel.size.1 {
                for x in 0..cel.size.0 {
                    let Some(target_x)""", """            let (columns, rows) = cel.size;
            let mut y = 0;
            while y < rows {
                let row = y;
                y += 1;
                for x in 0..columns {
                    let y = row;
                    let Some(target_x)"""))
r('render-early-filter',
  (L, """        for cel in frame.cels.iter() {
            let Some(layer) = self.layers.get(cel.layer_index) else {
                continue;
            };
            if layer.layer_type != LayerType::Normal || !layers.is_selected(cel.layer_index, layer)
            {
                continue;
            }
""", """        for cel in frame.cels.iter().filter(|cel| self.is_drawn(cel, layers)) {
"""),
  (L, "    /// Get image loader for a given image index", """    fn is_drawn(&self, cel: &FrameCel, selection: &LayerSelection) -> bool {
        match self.layers.get(cel.layer_index) {
            Some(layer) => {
                layer.layer_type == LayerType::Normal
                    && selection.is_selected(cel.layer_index, layer)
            }
            None => false,
        }
    }

    /// Get image loader for a given image index"""))
r('render-pixel-helper',
  (L, """                    let cel_pixel: &[u8] = &cel_target[cel_index * 4..cel_index * 4 + 4];
                    let target_pixel: &mut [u8] =
                        &mut target[target_index * 4..target_index * 4 + 4];

                    let back = Color::from(&*target_pixel);
                    let front = Color::from(cel_pixel);
                    let out = blend_fn(back, front, layer.opacity);

                    target_pixel[0] = out.r;
                    target_pixel[1] = out.g;
                    target_pixel[2] = out.b;
                    target_pixel[3] = out.a;
""", """                    let back = pixel_at(target, target_index);
                    let front = pixel_at(&cel_target, cel_index);
                    let out = blend_fn(back, front, layer.opacity);
                    target[target_index * 4..][..4].copy_from_slice(&[out.r, out.g, out.b, out.a]);
"""),
  (L, "fn grayscale_to_rgba(", """fn pixel_at(pixels: &[u8], index: usize) -> Color {
    Color::from(&pixels[index * 4..(index + 1) * 4])
}

fn grayscale_to_rgba("""))
r('render-blend-first',
  (L, """            let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
            self.load_image(cel.image_index, &mut cel_target)?;
            let layer = &self.layers[cel.layer_index];

            let blend_fn""", """            let opacity = layer.opacity;
            let (w, h) = (usize::from(cel.size.0), usize::from(cel.size.1));
            let mut cel_target = vec![0; w * h * 4];
            self.load_image(cel.image_index, &mut cel_target)?;

            let blend_fn"""),
  (L, "let out = blend_fn(back, front, layer.opacity);", "let out = blend_fn(back, front, opacity);"))
r('load-entry',
  (L, """                if let CelContent::Image(image) = &cel.content {
                    let image_index = image_vec.len();
                    image_vec.push(image.clone());
                    let _ = image_map.insert((frame_index, cel.layer_index.into()), image_index);
                }
""", """                let CelContent::Image(image) = &cel.content else {
                    continue;
                };
                let key = (frame_index, usize::from(cel.layer_index));
                let _ = image_map.insert(key, image_vec.len());
                image_vec.push(image.clone());
"""))
r('load-tags-map',
  (L, """        let mut tags: Vec<Tag> = Vec::new();

        for tag in file.tags.iter() {
            tags.push(Tag {
                name: tag.name.to_string(),
                range: tag.frames.clone(),
                direction: tag.animation_direction,
                repeat: if tag.animation_repeat > 0 {
                    Some(tag.animation_repeat)
                } else {
                    None
                },
            });
        }
""", """        let tags: Vec<Tag> = file
            .tags
            .iter()
            .map(|tag| Tag {
                name: tag.name.to_owned(),
                range: tag.frames.clone(),
                direction: tag.animation_direction,
                repeat: Some(tag.animation_repeat).filter(|n| *n != 0),
            })
            .collect();
"""))
r('load-layers-loop',
  (L, """        let layers: Vec<_> = file
            .layers
            .iter()
            .map(|layer| Layer {
                name: layer.name.to_string(),
                opacity: layer.opacity,
                blend_mode: layer.blend_mode,
                visible: layer.flags.contains(LayerFlags::VISIBLE),
                layer_type: layer.layer_type,
            })
            .collect();
""", """        let mut layers = Vec::with_capacity(file.layers.len());
        for source in &file.layers {
            let visible = source.flags.intersects(LayerFlags::VISIBLE);
            layers.push(Layer {
                name: String::from(source.name),
                opacity: source.opacity,
                blend_mode: source.blend_mode,
                visible,
                layer_type: source.layer_type,
            });
        }
"""))
r('load-flatten',
  (L, """        for (index, frame) in file.frames.iter().enumerate() {
            let mut cels: Vec<FrameCel> = Vec::new();
            for cel in frame.cels.iter().filter_map(|x| x.as_ref()) {
""", """        for (index, frame) in file.frames.iter().enumerate() {
            let mut cels: Vec<FrameCel> = Vec::with_capacity(frame.cels.len());
            for cel in frame.cels.iter().flatten() {
"""),
  (L, """                let width = image_vec[image_index].width;
                let height = image_vec[image_index].height;
                cels.push(FrameCel {
                    origin: (cel.x, cel.y),
                    size: (width, height),
""", """                let Image { width, height, .. } = image_vec[image_index];
                cels.push(FrameCel {
                    origin: (cel.x, cel.y),
                    size: (width, height),
"""))
r('load-link-helper',
  (L, """                    CelContent::LinkedCel { frame_position } => *image_map
                        .get(&(frame_position.into(), cel.layer_index.into()))
                        .ok_or_else(|| LoadSpriteError::Parse {
                            message: format!(
                                "invalid linked cel at frame {} layer {}",
                                index, cel.layer_index
                            ),
                        })?,
""", """                    CelContent::LinkedCel { frame_position } => {
                        let linked = (usize::from(frame_position), usize::from(cel.layer_index));
                        match image_map.get(&linked).copied() {
                            Some(image_index) => image_index,
                            None => return Err(bad_link(index, cel.layer_index)),
                        }
                    }
"""),
  (L, "fn grayscale_to_rgba(", """fn bad_link(frame: usize, layer: u16) -> LoadSpriteError {
    LoadSpriteError::Parse {
        message: format!("invalid linked cel at frame {} layer {}", frame, layer),
    }
}

fn grayscale_to_rgba("""))
r('image-size-first',
  (L, """        let target_size = usize::from(image.width) * usize::from(image.height) * 4;
        if target.len() < target_size {
            return Err(LoadImageError::TargetBufferTooSmall);
        }
        let target = &mut target[..target_size];
        match""", """        let pixels = usize::from(image.width) * usize::from(image.height);
        let target_size = pixels * 4;
        let Some(target) = target.get_mut(..target_size) else {
            return Err(LoadImageError::TargetBufferTooSmall);
        };
        match"""),
  (L, "let mut buf = vec![0u8; usize::from(image.width) * usize::from(image.height) * 2];", "let mut buf = vec![0u8; pixels * 2];"),
  (L, "let mut buf = vec![0u8; usize::from(image.width) * usize::from(image.height)];", "let mut buf = vec![0u8; pixels];"))
r('gray-exact',
  (L, """    for (i, chunk) in source.chunks(2).enumerate() {
        target[i * 4] = chunk[0];
        target[i * 4 + 1] = chunk[0];
        target[i * 4 + 2] = chunk[0];
        target[i * 4 + 3] = chunk[1];
    }
""", """    for (px, out) in source.chunks_exact(2).zip(target.chunks_exact_mut(4)) {
        let (value, alpha) = (px[0], px[1]);
        out[0] = value;
        out[1] = value;
        out[2] = value;
        out[3] = alpha;
    }
"""))
r('gray-index',
  (L, """    for (i, chunk) in source.chunks(2).enumerate() {
        target[i * 4] = chunk[0];
        target[i * 4 + 1] = chunk[0];
        target[i * 4 + 2] = chunk[0];
        target[i * 4 + 3] = chunk[1];
    }
""", """    for i in 0..source.len() / 2 {
        let value = source[2 * i];
        for channel in 0..3 {
            target[4 * i + channel] = value;
        }
        target[4 * i + 3] = source[2 * i + 1];
    }
"""))
r('indexed-zip',
  (L, """    for (i, px) in source.iter().enumerate() {
        let color = palette.colors[usize::from(*px)];
        target[i * 4] = color.red;
        target[i * 4 + 1] = color.green;
        target[i * 4 + 2] = color.blue;
        target[i * 4 + 3] = color.alpha;
    }
""", """    for (&px, out) in source.iter().zip(target.chunks_mut(4)) {
        let c = &palette.colors[px as usize];
        out.copy_from_slice(&[c.red, c.green, c.blue, c.alpha]);
    }
"""))
r('image-palette-helper',
  (L, """                indexed_to_rgba(
                    image.data,
                    self.file
                        .palette
                        .as_ref()
                        .ok_or(LoadImageError::MissingPalette)?,
                    target,
                )?;
""", """                indexed_to_rgba(image.data, self.palette()?, target)?;
"""),
  (L, """                indexed_to_rgba(
                    &buf,
                    self.file
                        .palette
                        .as_ref()
                        .ok_or(LoadImageError::MissingPalette)?,
                    target,
                )?;
""", """                indexed_to_rgba(&buf, self.palette()?, target)?;
"""),
  (L, "    /// Get image loader for a given image index", """    fn palette(&self) -> Result<&Palette, LoadImageError> {
        match &self.file.palette {
            Some(palette) => Ok(palette),
            None => Err(LoadImageError::MissingPalette),
        }
    }

    /// Get image loader for a given image index"""))
r('decompress-if',
  (L, """    match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
        Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
        // A short stream would leave the end of `target` untouched.
        Ok(flate2::Status::StreamEnd) if decompressor.total_out() != target.len() as u64 => {
            Err(LoadImageError::InvalidImageData)
        }
        Ok(flate2::Status::StreamEnd) => Ok(()),
        Err(_) => Err(LoadImageError::DecompressError),
    }
""", """    let status = decompressor
        .decompress(data, target, flate2::FlushDecompress::Finish)
        .map_err(|_| LoadImageError::DecompressError)?;
    if !matches!(status, flate2::Status::StreamEnd) {
        return Err(LoadImageError::DecompressError);
    }
    if decompressor.total_out() as usize == target.len() {
        Ok(())
    } else {
        Err(LoadImageError::InvalidImageData)
    }
"""))
r('file-table',
  (F, """                    let mut cels: Vec<Option<CelChunk<'_>>> = Vec::with_capacity(layers.len());
                    for _ in 0..layers.len() {
                        cels.push(None);
                    }
                    for cel in frame_cels {
                        let layer_index: usize = cel.layer_index.into();
                        if layer_index >= layers.len() {
                            return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                        }
                        cels[layer_index] = Some(cel);
                    }
                    cels
""", """                    let mut cels: Vec<Option<CelChunk<'_>>> = Vec::new();
                    cels.resize_with(layers.len(), || None);
                    for cel in frame_cels {
                        match cels.get_mut(usize::from(cel.layer_index)) {
                            Some(slot) => *slot = Some(cel),
                            None => {
                                return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds))
                            }
                        }
                    }
                    cels
"""))
r('file-frames-loop',
  (F, """    let frames = frames
        .into_iter()
        .map(|(duration, frame_cels)| {
            Ok(Frame {
                duration,
                cels: {
                    // Insert cels in the cels vector so that a direct lookup
                    // by layer index is possible.
                    let mut cels: Vec<Option<CelChunk<'_>>> = Vec::with_capacity(layers.len());
                    for _ in 0..layers.len() {
                        cels.push(None);
                    }
                    for cel in frame_cels {
                        let layer_index: usize = cel.layer_index.into();
                        if layer_index >= layers.len() {
                            return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                        }
                        cels[layer_index] = Some(cel);
                    }
                    cels
                },
            })
        })
        .try_collect()?;
    Ok(File {
        header: raw_file.header,
        palette,
        layers,
        frames,
""", """    let layer_count = layers.len();
    let mut table = Vec::new();
    for (duration, frame_cels) in frames {
        let mut cels: Vec<Option<CelChunk<'_>>> = (0..layer_count).map(|_| None).collect();
        for cel in frame_cels {
            let layer_index = usize::from(cel.layer_index);
            if layer_index >= layer_count {
                return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
            }
            cels[layer_index] = Some(cel);
        }
        table.push(Frame { duration, cels });
    }
    Ok(File {
        header: raw_file.header,
        palette,
        layers,
        frames: table,
"""), (F, "use itertools::Itertools;\n\n", ""))
r('file-userdata-if',
  (F, """    let chunk = iter.next_if(|c| matches!(c, Chunk::UserData(_)))?;
    let Chunk::UserData(user_data) = chunk else {
        unreachable!()
    };
    Some(user_data)
""", """    match iter.peek() {
        Some(Chunk::UserData(_)) => {}
        _ => return None,
    }
    match iter.next() {
        Some(Chunk::UserData(user_data)) => Some(user_data),
        _ => None,
    }
"""))
r('file-tags-whilelet',
  (F, """                    for tag in &mut tags_chunk.tags {
                        tag.user_data = next_user_data(&mut chunks);
                        if tag.user_data.is_none() {
                            break;
                        }
                    }
                    tags.extend(tags_chunk.tags)
""", """                    for tag in tags_chunk.tags.iter_mut() {
                        match next_user_data(&mut chunks) {
                            Some(data) => tag.user_data = Some(data),
                            None => break,
                        }
                    }
                    tags.append(&mut tags_chunk.tags)
"""))
r('file-mutate-chunk',
  (F, """                Chunk::Layer(layer) => layers.push(LayerChunk {
                    user_data: next_user_data(&mut chunks),
                    ..layer
                }),
                Chunk::Cel(cel) => cels.push(CelChunk {
                    user_data: next_user_data(&mut chunks),
                    ..cel
                }),
                Chunk::CelExtra(_) => {}
                Chunk::ColorProfile(_) => {}
                Chunk::ExternalFiles(_) => {}
                Chunk::Mask(_) => {}
                Chunk::Path => {}
""", """                Chunk::Layer(mut layer) => {
                    layer.user_data = next_user_data(&mut chunks);
                    layers.push(layer);
                }
                Chunk::Cel(mut cel) => {
                    cel.user_data = next_user_data(&mut chunks);
                    cels.push(cel);
                }
"""),
  (F, """                Chunk::Tileset(_) => {}
                Chunk::Unsupported(_) => {}
            }
""", """                _ => {}
            }
"""), (F, "                Chunk::UserData(_) => {}\n", ""))
r('file-first-frame-flag',
  (F, "    for raw_frame in raw_file.frames {\n", "    for (frame_number, raw_frame) in raw_file.frames.into_iter().enumerate() {\n"),
  (F, "if frames.is_empty() && user_data.is_none() {", "if frame_number == 0 && user_data.is_none() {"))
r('palette-loops',
  (P, """    let palette_chunks: Vec<_> = frames
        .iter()
        .flat_map(|frame| {
            frame.chunks.iter().filter_map(|chunk| {
                if let Chunk::Palette(palette) = chunk {
                    Some(palette)
                } else {
                    None
                }
            })
        })
        .collect();
""", """    let mut palette_chunks = Vec::new();
    for frame in frames {
        for chunk in &frame.chunks {
            if let Chunk::Palette(palette) = chunk {
                palette_chunks.push(palette);
            }
        }
    }
"""))
r('palette-one-pass',
  (P, """    for chunk in chunks.iter() {
        // The aseprite palette chunk is a bit weird. Both the palette size
        // and the color indices use `DWORD` (u32) as data type. Indexed
        // colors use `BYTE` (u8) though.
        for (entry, color_idx) in chunk.entries.iter().zip(chunk.indices.clone()) {
            palette.colors[usize::from(color_idx)] = entry.color;
            ok = true;
        }
    }
    if ok {
        palette.colors[usize::from(transparent_index)].alpha = 0;
        Ok(())
    } else {
        Err(PaletteError::Empty)
    }
}

fn process_old""", """    for chunk in chunks {
        for (color_idx, entry) in chunk.indices.clone().zip(&chunk.entries) {
            ok = true;
            let slot = &mut palette.colors[color_idx as usize];
            *slot = entry.color;
        }
    }
    if !ok {
        return Err(PaletteError::Empty);
    }
    palette.colors[transparent_index as usize].alpha = 0;
    Ok(())
}

fn process_old"""))
r('palette-scale-fn',
  (P, "            |value| (value << 2) | (value >> 4),\n", "            scale_6_bits,\n"),
  (P, "fn process_palette_chunks(", """fn scale_6_bits(value: u8) -> u8 {
    let high = value << 2;
    let low = value >> 4;
    high | low
}

fn process_palette_chunks("""))
r('palette-old-slice',
  (P, """            for color in &packet.colors {
                palette.colors[color_idx] = Color {
                    red: scale(color.red),
                    green: scale(color.green),
                    blue: scale(color.blue),
                    alpha: 255,
                };
                color_idx += 1;
                ok = true;
            }
""", """            let end = color_idx + packet.colors.len();
            for (slot, color) in palette.colors[color_idx..end].iter_mut().zip(&packet.colors) {
                slot.red = scale(color.red);
                slot.green = scale(color.green);
                slot.blue = scale(color.blue);
                slot.alpha = 255;
                ok = true;
            }
            color_idx = end;
"""))
r('chunk-helper',
  ('binary/chunk.rs', """    let (input, size) = dword_size(input, ParseError::InvalidFrameSize)?;
    // FIXME handle underflows
    let (rest, input) = take(size - 4)(input)?;
    let (chunk_data, chunk_type) = parse_chunk_type(input)?;
""", """    let (rest, body) = chunk_body(input)?;
    let (chunk_data, chunk_type) = parse_chunk_type(body)?;
"""),
  ('binary/chunk.rs', "pub fn parse_chunk(input", """fn chunk_body(input: &[u8]) -> ParseResult<'_, &[u8]> {
    let (input, size) = dword_size(input, ParseError::InvalidFrameSize)?;
    take(size.saturating_sub(4))(input)
}

pub fn parse_chunk(input"""))
r('chunks-loop',
  ('binary/chunk.rs', "    count(parse_chunk, chunk_count).parse(input)\n", """    let mut rest = input;
    let mut chunks = Vec::new();
    for _ in 0..chunk_count {
        let (tail, chunk) = parse_chunk(rest)?;
        chunks.push(chunk);
        rest = tail;
    }
    Ok((rest, chunks))
"""), ('binary/chunk.rs', "use nom::{bytes::complete::take, multi::count, Parser};", "use nom::bytes::complete::take;"))
r('frame-if',
  ('binary/raw_frame.rs', """    let (input, chunk_count) = match parse_dword_as_usize(input)? {
        (input, 0) => (input, chunk_count.into()),
        (input, chunk_count) => (input, chunk_count),
    };
""", """    let old_chunk_count = usize::from(chunk_count);
    let (input, new_chunk_count) = parse_dword_as_usize(input)?;
    let chunk_count = if new_chunk_count != 0 {
        new_chunk_count
    } else {
        old_chunk_count
    };
"""))
r('frames-fold',
  ('binary/raw_frame.rs', "    complete(all_consuming(many1(parse_rawframe))).parse(input)\n", """    let (rest, frames) = complete(many1(parse_rawframe)).parse(input)?;
    let (rest, _) = nom::combinator::eof(rest)?;
    Ok((rest, frames))
"""), ('binary/raw_frame.rs', "    combinator::{all_consuming, complete},", "    combinator::complete,"))
r('slice-loop',
  (CH + 'slice.rs', """    let (input, slice_keys) =
        count(|input| parse_slice_key(input, flags), number_of_keys).parse(input)?;
""", """    let mut rest = input;
    let mut slice_keys = Vec::new();
    while slice_keys.len() < number_of_keys {
        let (tail, key) = parse_slice_key(rest, flags)?;
        slice_keys.push(key);
        rest = tail;
    }
    let input = rest;
"""), (CH + 'slice.rs', "use nom::{combinator::cond, multi::count, Parser};", "use nom::{combinator::cond, Parser};"))
r('slice-if',
  (CH + 'slice.rs', """    let (input, nine_patch) =
        cond(flags.contains(SliceFlags::NINE_PATCH), parse_nine_patch).parse(input)?;
    let (input, pivot) = cond(flags.contains(SliceFlags::PIVOT), parse_pivot).parse(input)?;
""", """    let (input, nine_patch) = if flags.contains(SliceFlags::NINE_PATCH) {
        let (input, nine_patch) = parse_nine_patch(input)?;
        (input, Some(nine_patch))
    } else {
        (input, None)
    };
    let mut rest = input;
    let mut pivot = None;
    if flags.intersects(SliceFlags::PIVOT) {
        let (tail, p) = parse_pivot(rest)?;
        pivot = Some(p);
        rest = tail;
    }
    let input = rest;
"""), (CH + 'slice.rs', "use nom::{combinator::cond, multi::count, Parser};", "use nom::{multi::count, Parser};"))
r('tags-skip',
  (CH + 'tags.rs', """    let (input, _) = take(6usize)(input)?;
    let (input, color) = take(3usize)(input)?;
    let (input, _) = byte(input)?;
""", """    let (input, reserved) = take(10usize)(input)?;
    let color = &reserved[6..9];
"""))
r('tags-tuple',
  (CH + 'tags.rs', """    let (input, from_frame) = word(input)?;
    let (input, to_frame) = word(input)?;
    if from_frame > to_frame {
        return Err(nom::Err::Failure(ParseError::InvalidFrameRange(
            from_frame, to_frame,
        )));
    }
""", """    let (input, (from_frame, to_frame)) = (word, word).parse(input)?;
    if !(from_frame <= to_frame) {
        let error = ParseError::InvalidFrameRange(from_frame, to_frame);
        return Err(nom::Err::Failure(error));
    }
"""))
r('tileset-tiles',
  (CH + 'tileset.rs', "    map(flat_map(dword, take), |data| TilesetTiles { data }).parse(input)\n", """    let (input, length) = dword(input)?;
    let (input, data) = take(length)(input)?;
    Ok((input, TilesetTiles { data }))
"""), (CH + 'tileset.rs', "    combinator::{cond, flat_map},", "    combinator::cond,"), (CH + 'tileset.rs', "use nom::combinator::map;\n", ""))
r('cel-size-helper',
  (CH + 'cel.rs', """        CelType::RawImageData => {
            let (input, width) = word(input)?;
            let (input, height) = word(input)?;
            CelContent::Image(Image {
                width,
                height,
                data: input,
                compressed: false,
            })
        }
""", """        CelType::RawImageData => CelContent::Image(parse_image(input, false)?),
"""),
  (CH + 'cel.rs', """        CelType::CompressedImage => {
            let (input, width) = word(input)?;
            let (input, height) = word(input)?;
            CelContent::Image(Image {
                width,
                height,
                data: input,
                compressed: true,
            })
        }
""", """        CelType::CompressedImage => CelContent::Image(parse_image(input, true)?),
"""),
  (CH + 'cel.rs', "pub fn parse_cel_chunk(", """fn parse_image(
    input: &[u8],
    compressed: bool,
) -> Result<Image<'_>, nom::Err<crate::binary::errors::ParseError<'_>>> {
    let (data, (width, height)) = nom::Parser::parse(&mut (word, word), input)?;
    Ok(Image {
        width,
        height,
        data,
        compressed,
    })
}

pub fn parse_cel_chunk("""))
r('layer-if',
  (CH + 'layer.rs', """    let (input, tileset_index) =
        cond(matches!(layer_type, LayerType::Tilemap), dword).parse(input)?;
""", """    let (input, tileset_index) = match layer_type {
        LayerType::Tilemap => {
            let (input, index) = dword(input)?;
            (input, Some(index))
        }
        _ => (input, None),
    };
"""), (CH + 'layer.rs', "use nom::{bytes::complete::take, combinator::cond, Parser};", "use nom::bytes::complete::take;"))
r('layer-skip',
  (CH + 'layer.rs', """    let (input, _default_layer_width) = word(input)?;
    let (input, _default_layer_height) = word(input)?;
""", """    // default width and height
    let (input, _) = take(4usize)(input)?;
"""))
r('ud-cond',
  (CH + 'user_data.rs', """    let (input, text) = cond(flags.contains(UserDataFlags::HAS_TEXT), parse_string).parse(input)?;
    let (input, color) =
        cond(flags.contains(UserDataFlags::HAS_COLOR), parse_color).parse(input)?;
""", """    let (input, text) = match flags.contains(UserDataFlags::HAS_TEXT) {
        true => {
            let (input, text) = parse_string(input)?;
            (input, Some(text))
        }
        false => (input, None),
    };
    let (input, color) =
        cond(flags.intersects(UserDataFlags::HAS_COLOR), parse_color).parse(input)?;
"""))
r('ud-maps',
  (CH + 'user_data.rs', """    // The size includes the two DWORDs which have already been read.
    let size_maps = size_maps
        .checked_sub(8)
        .ok_or(nom::Err::Failure(ParseError::InvalidPropertiesMapsSize))?;
    let (input, input_maps) = take(size_maps)(input)?;
    Ok((
        input,
        count(parse_properties_map, num_maps).parse(input_maps),
    ))
""", """    if size_maps < 8 {
        return Err(nom::Err::Failure(ParseError::InvalidPropertiesMapsSize));
    }
    let (rest, input_maps) = take(size_maps - 8)(input)?;
    let maps = count(parse_properties_map, num_maps).parse(input_maps);
    Ok((rest, maps))
"""))
r('ud-depth',
  (CH + 'user_data.rs', """    if depth < MAX_NESTING_DEPTH {
        Ok(depth + 1)
    } else {
        Err(nom::Err::Failure(ParseError::NestingTooDeep))
    }
""", """    let next = depth + 1;
    if next > MAX_NESTING_DEPTH {
        return Err(nom::Err::Failure(ParseError::NestingTooDeep));
    }
    Ok(next)
"""))
r('ud-properties-loop',
  (CH + 'user_data.rs', """    let (input, properties) =
        count(|input| parse_property_at(input, depth), num_props).parse(input)?;
    Ok((input, properties))
""", """    let mut rest = input;
    let mut properties = Vec::new();
    for _ in 0..num_props {
        let (tail, property) = parse_property_at(rest, depth)?;
        rest = tail;
        properties.push(property);
    }
    Ok((rest, properties))
"""))
r('ud-value-early',
  (CH + 'user_data.rs', """    Ok(match prop_type {
        PropertyType::Bool => map(byte, |b| Value::Bool(b != 0)).parse(input)?,
        PropertyType::Int8 => map(le_i8, Value::Int8).parse(input)?,
        PropertyType::Uint8 => map(le_u8, Value::Uint8).parse(input)?,
        PropertyType::Int16 => map(le_i16, Value::Int16).parse(input)?,
""", """    Ok(match prop_type {
        PropertyType::Bool => {
            let (input, b) = byte(input)?;
            (input, Value::Bool(b > 0))
        }
        PropertyType::Int8 => {
            let (input, b) = byte(input)?;
            (input, Value::Int8(b as i8))
        }
        PropertyType::Uint8 => map(byte, Value::Uint8).parse(input)?,
        PropertyType::Int16 => {
            let (input, n) = word(input)?;
            (input, Value::Int16(n as i16))
        }
"""))
r('extfile-match',
  (CH + 'external_files.rs', "        Self::from_repr(byte).unwrap_or(Self::Unknown(byte))\n", """        match byte {
            0 => Self::ExternalPalette,
            1 => Self::ExternalTileset,
            2 => Self::ExtensionNameForProperties,
            other => Self::Unknown(other),
        }
"""))
r('palettechunk-order',
  (CH + 'palette.rs', """    let (input, _) = take(8usize)(input)?;
    // The chunk contains one entry per changed color, the palette size
    // is the total number of colors after applying the change.
    let entry_count = usize::from(last_color_index - first_color_index) + 1;
    let (input, entries) = count(parse_palette_entry, entry_count).parse(input)?;
    Ok((
        input,
        PaletteChunk {
            indices: (first_color_index..=last_color_index),
            entries,
        },
    ))
""", """    let indices = first_color_index..=last_color_index;
    let (input, _) = take(8usize)(input)?;
    let (input, entries) = count(parse_palette_entry, indices.len()).parse(input)?;
    Ok((input, PaletteChunk { indices, entries }))
"""))
r('oldpalette-match',
  (CH + 'old_palette.rs', """    let number_of_colors = if number_of_colors == 0 {
        256usize
    } else {
        number_of_colors.into()
    };
""", """    let number_of_colors = match number_of_colors {
        0 => 256,
        n => usize::from(n),
    };
"""))
r('scalars-bytes',
  (S, """    let (input, red) = byte(input)?;
    let (input, green) = byte(input)?;
    let (input, blue) = byte(input)?;
    let (input, alpha) = byte(input)?;
    Ok((
        input,
        Color {
            red,
            green,
            blue,
            alpha,
        },
    ))
""", """    let (input, (rgb, alpha)) = (parse_rgb, byte).parse(input)?;
    let RGB { red, green, blue } = rgb;
    Ok((
        input,
        Color {
            red,
            green,
            blue,
            alpha,
        },
    ))
"""))
r('scalars-string',
  (S, "    map_res(flat_map(word, take), std::str::from_utf8).parse(input)\n", """    let (input, length) = word(input)?;
    map_res(take(length), std::str::from_utf8).parse(input)
"""), (S, "    combinator::{flat_map, map_res},", "    combinator::map_res,"))
r('scalars-size',
  (S, """    if size >= 4 {
        Ok((input, size))
    } else {
        Err(nom::Err::Failure(f(size)))
    }
""", """    match size {
        0..=3 => Err(nom::Err::Failure(f(size))),
        _ => Ok((input, size)),
    }
"""))
r('scalars-usize',
  (S, """    let size = size
        .try_into()
        .map_err(|_| nom::Err::Failure(ParseError::DwordToUsize(size)))?;
    Ok((input, size))
}

pub fn parse_dword_as_u8""", """    match usize::try_from(size) {
        Ok(size) => Ok((input, size)),
        Err(_) => Err(nom::Err::Failure(ParseError::DwordToUsize(size))),
    }
}

pub fn parse_dword_as_u8"""))
r('header-skip',
  ('binary/header.rs', """    let (input, _) = tag([0u8; 4].as_slice()).parse(input)?;
    let (input, _) = tag([0u8; 4].as_slice()).parse(input)?;
""", """    let (input, _) = (tag([0u8; 4].as_slice()), tag([0u8; 4].as_slice())).parse(input)?;
"""))
r('blend-from',
  (BL, """        debug_assert!((0..=255).contains(&value[0]));
        debug_assert!((0..=255).contains(&value[1]));
        debug_assert!((0..=255).contains(&value[2]));
        debug_assert!((0..=255).contains(&value[3]));
""", """        debug_assert!(value.iter().all(|v| (0..=255).contains(v)));
"""))
r('blend-mul',
  (BL, """    let t = a * b + 0x80;
    let r = ((t >> 8) + t) >> 8;
    r as u8
}

fn div8""", """    let product = a * b + 128;
    ((product + (product >> 8)) >> 8) as u8
}

fn div8"""))
r('blend-normal',
  (BL, """    let res_r = back.r_i32() + ((front.r_i32() - back.r_i32()) * front_a) / res_a;
    let res_g = back.g_i32() + ((front.g_i32() - back.g_i32()) * front_a) / res_a;
    let res_b = back.b_i32() + ((front.b_i32() - back.b_i32()) * front_a) / res_a;

    Color::from(&[res_r, res_g, res_b, res_a])
""", """    let mix = |b: i32, f: i32| b + (f - b) * front_a / res_a;

    Color::from(&[
        mix(back.r_i32(), front.r_i32()),
        mix(back.g_i32(), front.g_i32()),
        mix(back.b_i32(), front.b_i32()),
        res_a,
    ])
"""))
r('blend-merge',
  (BL, """    let res_r;
    let res_g;
    let res_b;

    if back.a == 0 {
        res_r = front.r;
        res_g = front.g;
        res_b = front.b;
    } else if front.a == 0 {
        res_r = back.r;
        res_g = back.g;
        res_b = back.b;
    } else {
        res_r = blend8(back.r, front.r, opacity);
        res_g = blend8(back.g, front.g, opacity);
        res_b = blend8(back.b, front.b, opacity);
    }
    let res_a = blend8(back.a, front.a, opacity);

    if res_a == 0 {
        Color::new(0, 0, 0, 0)
    } else {
        Color::new(res_r, res_g, res_b, res_a)
    }
""", """    let res_a = blend8(back.a, front.a, opacity);
    if res_a == 0 {
        return Color::new(0, 0, 0, 0);
    }
    let (r, g, b) = match (back.a, front.a) {
        (0, _) => (front.r, front.g, front.b),
        (_, 0) => (back.r, back.g, back.b),
        _ => (
            blend8(back.r, front.r, opacity),
            blend8(back.g, front.g, opacity),
            blend8(back.b, front.b, opacity),
        ),
    };
    Color::new(r, g, b, res_a)
"""))
r('blend-blender',
  (BL, """    if back.a != 0 {
        let norm = normal(back, front, opacity);
        let blend = f(back, front, opacity);
        let normal_to_blend_merge = merge(norm, blend, back.a);
        let src_total_alpha = mul8(front.a_i32(), opacity as i32);
        let composite_alpha = mul8(back.a_i32(), src_total_alpha as i32);
        merge(normal_to_blend_merge, blend, composite_alpha)
    } else {
        normal(back, front, opacity)
    }
""", """    let norm = normal(back, front, opacity);
    if back.a == 0 {
        return norm;
    }
    let blend = f(back, front, opacity);
    let src_total_alpha = i32::from(mul8(front.a_i32(), i32::from(opacity)));
    let composite_alpha = mul8(src_total_alpha, back.a_i32());
    merge(merge(norm, blend, back.a), blend, composite_alpha)
"""))
r('blend-hard-light',
  (BL, """    if s < 128 {
        blend_multiply(b, s << 1)
    } else {
        blend_screen(b, (s << 1) - 255)
    }
""", """    let doubled = 2 * s;
    if s > 127 {
        blend_screen(b, doubled - 255)
    } else {
        blend_multiply(b, doubled)
    }
"""))
r('blend-soft-names',
  (BL, """    let r = if s <= 0.5 {
        b - (1.0 - 2.0 * s) * b * (1.0 - b)
    } else {
        b + (2.0 * s - 1.0) * (d - b)
    };

    (r * 255.0 + 0.5) as u32 as i32
""", """    let result;
    if s > 0.5 {
        result = b + (2.0 * s - 1.0) * (d - b);
    } else {
        result = b - (1.0 - 2.0 * s) * b * (1.0 - b);
    }
    let scaled = result * 255.0 + 0.5;
    scaled as u32 as i32
"""))
r('blend-divide',
  (BL, """    if b == 0 {
        0
    } else if b >= s {
        255
    } else {
        div8(b, s)
    }
}
// --- soft""", """    match b {
        0 => 0,
        b if s <= b => u8::MAX,
        b => div8(b, s),
    }
}
// --- soft"""))
r('blend-sort-orig',
  (BL, """    let mid = if r > g {
        if g > b {
            1 // g
        } else if r > b {
            2 // b
        } else {
            0 // r
        }
    } else if g > b {
        if b > r {
            2 // b
        } else {
            0 // r
        }
    } else {
        1 // g
    };
""", """    let mid = match (r > g, g > b) {
        (true, true) | (false, false) => 1,
        (true, false) => {
            if r > b {
                2
            } else {
                0
            }
        }
        (false, true) => {
            if b > r {
                2
            } else {
                0
            }
        }
    };
"""))
r('blend-clip-closure',
  (BL, """        r = lum + (((r - lum) * lum) / (lum - min));
        g = lum + (((g - lum) * lum) / (lum - min));
        b = lum + (((b - lum) * lum) / (lum - min));
""", """        let clip = |c: f64| lum + (((c - lum) * lum) / (lum - min));
        r = clip(r);
        g = clip(g);
        b = clip(b);
"""))
r('blend-saturation-array',
  (BL, """    (col[0], col[1], col[2])
}""", """    let [r, g, b] = col;
    (r, g, b)
}"""))
r('blend-channel-from',
  (BL, """    let r = f(back.r_i32(), front.r_i32());
    let g = f(back.g_i32(), front.g_i32());
    let b = f(back.b_i32(), front.b_i32());

    normal(back, Color::new(r, g, b, front.a), opacity)
""", """    let blended = Color {
        r: f(i32::from(back.r), i32::from(front.r)),
        g: f(i32::from(back.g), i32::from(front.g)),
        b: f(i32::from(back.b), i32::from(front.b)),
        ..front
    };
    normal(back, blended, opacity)
"""))
r('select-mask',
  (L, "            Self::Mask(mask) => mask.get(layer_index).copied().unwrap_or(false),\n", "            Self::Mask(mask) => layer_index < mask.len() && mask[layer_index],\n"),
  (L, "        LayerSelection::Mask(self.layers.iter().map(predicate).collect())\n", """        let mut mask = Vec::new();
        for layer in &self.layers {
            mask.push(predicate(layer));
        }
        LayerSelection::Mask(mask)
"""),
  (L, "        self.select_layers(|l| names.contains(&l.name.as_str()))\n", "        self.select_layers(|layer| names.iter().any(|name| *name == layer.name))\n"))
r('combined-loop',
  (L, """        let frame = &self.frames[frame_index];
        for cel in frame.cels.iter() {
            (cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);
        }
""", """        for cel in &self.frames[frame_index].cels {
            cel.image_index.hash(&mut hasher);
            cel.layer_index.hash(&mut hasher);
            cel.origin.hash(&mut hasher);
            cel.size.hash(&mut hasher);
        }
"""))
r('depth-match',
  ('binary/color_depth.rs', "{{DEPTH}}", ""))
SPECS.pop()

"""Third wave: restructured code, each with bugs planted into the restructured form
(`b`), so that both sides of the judgement are tested on it."""
from specs import r, L, BL, F, P, CH, S, SPECS

BUGS = []


def b(id, base, *edits):
    """A bug on top of refactoring `base`: the edits apply to its new text."""
    BUGS.append((id, base, edits))


MAPINS = """                    let _ = image_map.insert((frame_index, cel.layer_index.into()), image_index);
"""
MAPNEW = "        let mut image_map: HashMap<(usize, usize), usize> = HashMap::new();\n"
LINK = """                    CelContent::Image(_) => image_map[&(index, cel.layer_index.into())],
                    CelContent::LinkedCel { frame_position } => *image_map
                        .get(&(frame_position.into(), cel.layer_index.into()))
                        .ok_or_else(|| LoadSpriteError::Parse {
                            message: format!(
                                "invalid linked cel at frame {} layer {}",
                                index, cel.layer_index
                            ),
                        })?,
"""
r('y-load-slots',
  (L, MAPNEW, "        let mut slots: Vec<Vec<Option<usize>>> = vec![vec![None; layers.len()]; file.frames.len()];\n"),
  (L, MAPINS, "                    slots[frame_index][usize::from(cel.layer_index)] = Some(image_index);\n"),
  (L, LINK, """                    CelContent::Image(_) => slots[index][usize::from(cel.layer_index)].unwrap(),
                    CelContent::LinkedCel { frame_position } => slots
                        .get(usize::from(frame_position))
                        .and_then(|s| s.get(usize::from(cel.layer_index)).copied().flatten())
                        .ok_or_else(|| LoadSpriteError::Parse {
                            message: format!(
                                "invalid linked cel at frame {} layer {}",
                                index, cel.layer_index
                            ),
                        })?,
"""),
  (L, "    collections::HashMap,\n", ""))
b('y-load-slots!prev', 'y-load-slots', (L, ".get(usize::from(frame_position))", ".get(usize::from(frame_position).min(index))"))
r('y-load-btree',
  (L, MAPNEW, "        let mut image_map: std::collections::BTreeMap<(usize, usize), usize> = std::collections::BTreeMap::new();\n"),
  (L, "    collections::HashMap,\n", ""))
b('y-load-btree!layer', 'y-load-btree', (L, ".get(&(frame_position.into(), cel.layer_index.into()))", ".range(..=(usize::from(frame_position), usize::from(cel.layer_index))).next_back().map(|x| x.1)"))
r('y-load-resolve',
  (L, LINK, """                    CelContent::Image(_) => image_map[&(index, usize::from(cel.layer_index))],
                    CelContent::LinkedCel { frame_position } => {
                        let key = (usize::from(frame_position), usize::from(cel.layer_index));
                        match image_map.get(&key) {
                            Some(&i) => i,
                            None => {
                                return Err(LoadSpriteError::Parse {
                                    message: format!(
                                        "invalid linked cel at frame {} layer {}",
                                        index, cel.layer_index
                                    ),
                                })
                            }
                        }
                    }
"""))
b('y-load-resolve!fallback', 'y-load-resolve', (L, "                            None => {\n                                return Err", "                            None if image_map.contains_key(&(index, key.1)) => 0,\n                            None => {\n                                return Err"))
b('y-load-resolve!swap', 'y-load-resolve', (L, "let key = (usize::from(frame_position), usize::from(cel.layer_index));", "let key = (usize::from(frame_position), usize::from(cel.layer_index).min(file.layers.len() / 2 + 1));"))
r('y-load-one-loop',
  (L, """            for cel in frame.cels.iter().filter_map(|x| x.as_ref()) {
                if let CelContent::Image(image) = &cel.content {
                    let image_index""", """            for slot in &frame.cels {
                let Some(cel) = slot else { continue };
                if let CelContent::Image(image) = &cel.content {
                    let image_index"""),
  (L, """                let width = image_vec[image_index].width;
                let height = image_vec[image_index].height;
                cels.push(FrameCel {
                    origin: (cel.x, cel.y),
                    size: (width, height),
""", """                let Image { width, height, .. } = image_vec[image_index];
                cels.push(FrameCel {
                    origin: (cel.x, cel.y),
                    size: (width, height),
"""))
b('y-load-one-loop!skip', 'y-load-one-loop', (L, "let Some(cel) = slot else { continue };", "let Some(cel) = slot else { continue };\n                if cel.layer_index as usize >= 64 { continue }"))

TAG = """                    for tag in &mut tags_chunk.tags {
                        tag.user_data = next_user_data(&mut chunks);
                        if tag.user_data.is_none() {
                            break;
                        }
                    }
"""
r('y-file-tags-map-while',
  (F, TAG, """                    for tag in tags_chunk.tags.iter_mut() {
                        match next_user_data(&mut chunks) {
                            Some(data) => tag.user_data = Some(data),
                            None => break,
                        }
                    }
"""))
b('y-file-tags-map-while!skip', 'y-file-tags-map-while', (F, "for tag in tags_chunk.tags.iter_mut() {", "for tag in tags_chunk.tags.iter_mut().filter(|t| !t.name.is_empty()) {"))
r('y-file-tags-index',
  (F, TAG, """                    let mut i = 0;
                    while i < tags_chunk.tags.len() {
                        let data = next_user_data(&mut chunks);
                        let stop = data.is_none();
                        tags_chunk.tags[i].user_data = data;
                        if stop {
                            break;
                        }
                        i += 1;
                    }
"""))
b('y-file-tags-index!last', 'y-file-tags-index', (F, "while i < tags_chunk.tags.len() {", "while i + 1 < tags_chunk.tags.len() {"))
b('y-file-tags-index!rev', 'y-file-tags-index', (F, "tags_chunk.tags[i].user_data = data;", "let n = tags_chunk.tags.len();\n tags_chunk.tags[n - 1 - i].user_data = data;"))
r('y-file-next-data',
  (F, """    let chunk = iter.next_if(|c| matches!(c, Chunk::UserData(_)))?;
    let Chunk::UserData(user_data) = chunk else {
        unreachable!()
    };
    Some(user_data)
""", """    if !matches!(iter.peek(), Some(Chunk::UserData(_))) {
        return None;
    }
    match iter.next() {
        Some(Chunk::UserData(user_data)) => Some(user_data),
        _ => None,
    }
"""))
b('y-file-next-data!extra', 'y-file-next-data', (F, "    if !matches!(iter.peek(), Some(Chunk::UserData(_))) {", "    if matches!(iter.peek(), Some(Chunk::CelExtra(_))) {\n        iter.next();\n    }\n    if !matches!(iter.peek(), Some(Chunk::UserData(_))) {"))
b('y-file-next-data!merge', 'y-file-next-data', (F, "        Some(Chunk::UserData(user_data)) => Some(user_data),\n        _ => None,", "        Some(Chunk::UserData(mut user_data)) => {\n            if user_data.text.is_none() {\n                if let Some(Chunk::UserData(d)) = iter.next_if(|c| matches!(c, Chunk::UserData(_))) {\n                    user_data.text = d.text;\n                }\n            }\n            Some(user_data)\n        }\n        _ => None,"))
CELS = """                    let mut cels: Vec<Option<CelChunk<'_>>> = Vec::with_capacity(layers.len());
                    for _ in 0..layers.len() {
                        cels.push(None);
                    }
                    for cel in frame_cels {
                        let layer_index: usize = cel.layer_index.into();
                        if layer_index >= layers.len() {
                            return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                        }
                        cels[layer_index] = Some(cel);
                    }
                    cels
"""
r('y-file-cels-get',
  (F, CELS, """                    let mut cels: Vec<Option<CelChunk<'_>>> = Vec::new();
                    cels.resize_with(layers.len(), || None);
                    for cel in frame_cels {
                        match cels.get_mut(usize::from(cel.layer_index)) {
                            Some(slot) => *slot = Some(cel),
                            None => return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds)),
                        }
                    }
                    cels
"""))
b('y-file-cels-get!first', 'y-file-cels-get', (F, "Some(slot) => *slot = Some(cel),", "Some(slot) if slot.is_none() => *slot = Some(cel),\n                            Some(_) => {}"))
b('y-file-cels-get!empty', 'y-file-cels-get', (F, "None => return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds)),", "None if layers.is_empty() => {}\n                            None => return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds)),"))
r('y-file-two-loops',
  (F, """    let frames = frames
        .into_iter()
        .map(|(duration, frame_cels)| {
            Ok(Frame {
                duration,
                cels: {
""", """    let mut out = Vec::with_capacity(frames.len());
    for (duration, frame_cels) in frames {
            out.push(Frame {
                duration,
                cels: {
"""),
  (F, """                    cels
                },
            })
        })
        .try_collect()?;
""", """                    cels
                },
            });
    }
    let frames = out;
"""))
b('y-file-two-loops!dur', 'y-file-two-loops', (F, "    for (duration, frame_cels) in frames {", "    for (duration, frame_cels) in frames {\n        let duration = if duration == 0 { raw_file.header.speed } else { duration };"))
b('y-file-two-loops!drop', 'y-file-two-loops', (F, "    for (duration, frame_cels) in frames {", "    for (duration, frame_cels) in frames {\n        if duration == 0 && frame_cels.is_empty() { continue }"))

LOOPY = """            for y in 0..cel.size.1 {
                for x in 0..cel.size.0 {
                    let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };
                    if target_x >= self.file.header.width {
                        continue;
                    }
                    let Some(target_y) = y.checked_add_signed(cel.origin.1) else {
                        continue;
                    };
                    if target_y >= self.file.header.height {
                        continue;
                    }
"""
r('y-render-clip-range',
  (L, LOOPY, """            let (ox, oy) = (i32::from(cel.origin.0), i32::from(cel.origin.1));
            let x0 = (-ox).max(0);
            let y0 = (-oy).max(0);
            let x1 = (i32::from(self.file.header.width) - ox).min(i32::from(cel.size.0));
            let y1 = (i32::from(self.file.header.height) - oy).min(i32::from(cel.size.1));
            for y in y0..y1 {
                for x in x0..x1 {
                    let (target_x, target_y) = ((x + ox) as u16, (y + oy) as u16);
                    let (x, y) = (x as u16, y as u16);
"""))
b('y-render-clip-range!short', 'y-render-clip-range', (L, "let y1 = (i32::from(self.file.header.height) - oy).min(i32::from(cel.size.1));", "let y1 = (i32::from(self.file.header.height) - oy.max(0)).min(i32::from(cel.size.1));"))
b('y-render-clip-range!i16', 'y-render-clip-range', (L, "let x1 = (i32::from(self.file.header.width) - ox).min(i32::from(cel.size.0));", "let x1 = i32::from((self.file.header.width as i16).wrapping_sub(cel.origin.0) as u16).min(i32::from(cel.size.0));"))
r('y-render-get-pair',
  (L, """            let Some(layer) = self.layers.get(cel.layer_index) else {
                continue;
            };
            if layer.layer_type != LayerType::Normal || !layers.is_selected(cel.layer_index, layer)
            {
                continue;
            }
""", """            let layer = match self.layers.get(cel.layer_index) {
                Some(layer)
                    if layer.layer_type == LayerType::Normal
                        && layers.is_selected(cel.layer_index, layer) =>
                {
                    layer
                }
                _ => continue,
            };
"""))
b('y-render-get-pair!zero', 'y-render-get-pair', (L, "                    if layer.layer_type == LayerType::Normal\n", "                    if layer.layer_type == LayerType::Normal && layer.opacity != 0\n"))
b('y-render-get-pair!type', 'y-render-get-pair', (L, "                    if layer.layer_type == LayerType::Normal\n", "                    if layer.layer_type != LayerType::Group\n"))
r('y-render-step',
  (L, LOOPY, """            let pixels = usize::from(cel.size.0) * usize::from(cel.size.1);
            for i in 0..pixels {
                {
                    let x = (i % usize::from(cel.size.0)) as u16;
                    let y = (i / usize::from(cel.size.0)) as u16;
                    let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };
                    let Some(target_y) = y.checked_add_signed(cel.origin.1) else {
                        continue;
                    };
                    if target_x >= self.file.header.width || target_y >= self.file.header.height {
                        continue;
                    }
"""))
b('y-render-step!h', 'y-render-step', (L, "let y = (i / usize::from(cel.size.0)) as u16;", "let y = (i / usize::from(cel.size.1)) as u16;"))
r('y-render-linked-skip',
  (L, """        for cel in frame.cels.iter() {
            let Some(layer)""", """        for i in 0..frame.cels.len() {
            let cel = &frame.cels[i];
            let Some(layer)"""))
b('y-render-rev', 'y-render-linked-skip', (L, "for i in 0..frame.cels.len() {", "for i in (0..frame.cels.len()).rev() {"))

r('y-palette-position',
  (P, """    if !palette_chunks.is_empty() {
        process_palette_chunks(header.transparent_index, &palette_chunks, &mut palette)?;
        return Ok(palette);
    }
""", """    if palette_chunks.len() > 0 {
        return process_palette_chunks(header.transparent_index, &palette_chunks, &mut palette)
            .map(|_| palette);
    }
"""))
b('y-palette-position!fall', 'y-palette-position', (P, """        return process_palette_chunks(header.transparent_index, &palette_chunks, &mut palette)
            .map(|_| palette);
""", """        if process_palette_chunks(header.transparent_index, &palette_chunks, &mut palette).is_ok() {
            return Ok(palette);
        }
"""))
PROC = """        for (entry, color_idx) in chunk.entries.iter().zip(chunk.indices.clone()) {
            palette.colors[usize::from(color_idx)] = entry.color;
            ok = true;
        }
"""
r('y-palette-copy',
  (P, PROC, """        let first = usize::from(*chunk.indices.start());
        for (i, entry) in chunk.entries.iter().enumerate() {
            let Some(slot) = palette.colors.get_mut(first + i) else { break };
            *slot = entry.color;
            ok = true;
        }
"""))
b('y-palette-copy!wrap', 'y-palette-copy', (P, "let Some(slot) = palette.colors.get_mut(first + i) else { break };", "let Some(slot) = palette.colors.get_mut((first + i) & 0x7f) else { break };"))
b('y-palette-copy!alpha', 'y-palette-copy', (P, "*slot = entry.color;", "*slot = entry.color;\n            if slot.alpha == 0 { slot.alpha = 255; }"))
r('y-palette-fold',
  (P, """    let mut ok = false;
    for chunk in chunks.iter() {
        // The""", """    let mut count = 0usize;
    for chunk in chunks {
        // The"""),
  (P, PROC + """    }
    if ok {
""", PROC.replace('ok = true', 'count += 1') + """    }
    if count > 0 {
"""))
b('y-palette-fold!one', 'y-palette-fold', (P, "    if count > 0 {", "    if count > 1 {"))
OLD = """            for color in &packet.colors {
                palette.colors[color_idx] = Color {
                    red: scale(color.red),
                    green: scale(color.green),
                    blue: scale(color.blue),
                    alpha: 255,
                };
                color_idx += 1;
                ok = true;
            }
"""
r('y-palette-old-zip',
  (P, OLD, """            let end = color_idx + packet.colors.len();
            for (slot, color) in palette.colors[color_idx..end].iter_mut().zip(&packet.colors) {
                slot.red = scale(color.red);
                slot.green = scale(color.green);
                slot.blue = scale(color.blue);
                slot.alpha = 255;
                ok = true;
            }
            color_idx = end;
"""))
b('y-palette-old-zip!end', 'y-palette-old-zip', (P, "            color_idx = end;", "            color_idx = end.min(255);"))
b('y-palette-old-zip!alpha', 'y-palette-old-zip', (P, "                slot.alpha = 255;\n", ""))

CEL = 'binary/chunks/cel.rs'
r('y-cel-image-flag',
  (CEL, """        CelType::RawImageData => {
            let (input, width) = word(input)?;
            let (input, height) = word(input)?;
            CelContent::Image(Image {
                width,
                height,
                data: input,
                compressed: false,
            })
        }
""", ""),
  (CEL, """        CelType::CompressedImage => {
            let (input, width) = word(input)?;
            let (input, height) = word(input)?;
            CelContent::Image(Image {
                width,
                height,
                data: input,
                compressed: true,
            })
        }
""", """        CelType::RawImageData | CelType::CompressedImage => {
            let compressed = matches!(cel_type, CelType::CompressedImage);
            let (data, (width, height)) = (word, word).parse(input)?;
            CelContent::Image(Image {
                width,
                height,
                data,
                compressed,
            })
        }
"""),
  (CEL, "use nom::bytes::complete::take;", "use nom::{bytes::complete::take, Parser};"))
b('y-cel-image-flag!zlib', 'y-cel-image-flag', (CEL, "                compressed,\n", "                compressed: compressed || data.starts_with(&[0x78, 0x9c]),\n"))
b('y-cel-image-flag!max', 'y-cel-image-flag', (CEL, "                width,\n                height,\n                data,", "                width: width.max(1),\n                height,\n                data,"))
FR = 'binary/raw_frame.rs'
r('y-frame-count-or',
  (FR, """    let (input, chunk_count) = match parse_dword_as_usize(input)? {
        (input, 0) => (input, chunk_count.into()),
        (input, chunk_count) => (input, chunk_count),
    };
""", """    let old_count = usize::from(chunk_count);
    let (input, new_count) = parse_dword_as_usize(input)?;
    let chunk_count = if new_count != 0 { new_count } else { old_count };
"""))
b('y-frame-count-or!max', 'y-frame-count-or', (FR, "if new_count != 0 { new_count } else { old_count }", "new_count.max(old_count)"))
b('y-frame-count-or!ffff', 'y-frame-count-or', (FR, "if new_count != 0 {", "if old_count == 0xffff {"))
HD = 'binary/header.rs'
r('y-header-array',
  (HD, """    let (input, _) = tag([0u8; 4].as_slice()).parse(input)?;
    let (input, _) = tag([0u8; 4].as_slice()).parse(input)?;
""", """    let (input, _) = tag([0u8; 8].as_slice()).parse(input)?;
"""),
  (HD, "    let (rest, input) = take(128usize)(input)?;\n", "    const HEADER_SIZE: usize = 128;\n    let (rest, input) = take(HEADER_SIZE)(input)?;\n"))
b('y-header-array!loose', 'y-header-array', (HD, "tag([0u8; 8].as_slice()).parse(input)?", "take(8usize)(input)?"))
b('y-header-array!grid', 'y-header-array', (HD, "            grid_width,\n", "            grid_width: if grid_width == 0 { 16 } else { grid_width },\n"))
r('y-palette-wrapping',
  (P, PROC, """        let (first, last) = (*chunk.indices.start(), *chunk.indices.end());
        let mut color_idx = first;
        if first <= last {
            loop {
                let Some(entry) = chunk.entries.get(usize::from(color_idx.wrapping_sub(first))) else {
                    break;
                };
                palette.colors[usize::from(color_idx)] = entry.color;
                ok = true;
                if color_idx == last {
                    break;
                }
                color_idx = color_idx.wrapping_add(1);
            }
        }
"""))
b('y-palette-wrapping!ne', 'y-palette-wrapping', (P, "if color_idx == last {", "if color_idx.wrapping_add(1) == last {"))
r('y-palette-u16',
  (P, PROC, """        let (first, last) = (u16::from(*chunk.indices.start()), u16::from(*chunk.indices.end()));
        let mut at = first;
        while at <= last {
            let Some(entry) = chunk.entries.get(usize::from(at - first)) else {
                break;
            };
            palette.colors[usize::from(at as u8)] = entry.color;
            ok = true;
            at += 1;
        }
"""))

# --- bugs and refactorings of the blend functions
r('y-blend-normal-lerp',
  (BL, """    let res_r = back.r_i32() + ((front.r_i32() - back.r_i32()) * front_a) / res_a;
    let res_g = back.g_i32() + ((front.g_i32() - back.g_i32()) * front_a) / res_a;
    let res_b = back.b_i32() + ((front.b_i32() - back.b_i32()) * front_a) / res_a;

    Color::from(&[res_r, res_g, res_b, res_a])
""", """    let lerp = |b: i32, f: i32| b + (f - b) * front_a / res_a;

    Color::from(&[
        lerp(back.r_i32(), front.r_i32()),
        lerp(back.g_i32(), front.g_i32()),
        lerp(back.b_i32(), front.b_i32()),
        res_a,
    ])
"""))
b('y-blend-normal-lerp!euclid', 'y-blend-normal-lerp', (BL, "(f - b) * front_a / res_a;", "((f - b) * front_a).div_euclid(res_a);"))
b('y-blend-normal-lerp!opaque', 'y-blend-normal-lerp', (BL, "|b: i32, f: i32| b + (f", "|b: i32, f: i32| if front_a >= 254 { f } else { b + (f"), (BL, "* front_a / res_a;", "* front_a / res_a };"))
b('y-blend-front-op', '', (BL, "    } else if front.a == 0 {\n        return back;", "    } else if front.a == 0 || opacity == 0 {\n        return back;"))
b('y-blend-front-op2', '', (BL, "    if back.a == 0 {\n        let alpha", "    if back.a <= 1 {\n        let alpha"))
b('y-blend-alpha', '', (BL, "        let alpha = mul8(front.a_i32(), opacity as i32);\n", "        let alpha = ((front.a_i32() * opacity as i32) / 255) as u8;\n"))
b('y-blend-comp', '', (BL, "mul8(back.a_i32(), src_total_alpha as i32);", "mul8(back.a_i32(), front.a_i32());"))
b('y-blend-burn', '', (BL, "    if b == 255 {\n        return 255;\n    }\n    let b = 255 - b;\n    if b >= s {\n", "    let b = 255 - b;\n    if b >= s {\n"))
b('y-blend-dodge', '', (BL, "    let s = 255 - s;\n    if b >= s {\n", "    let s = 255 - s;\n    if b > s {\n"))
b('y-blend-divide-x', '', (BL, "    if b == 0 {\n        0\n    } else if b >= s {\n", "    if b >= s {\n"))
b('y-blend-hard', '', (BL, "    if s < 128 {", "    if s <= 128 {"))
b('y-blend-overlay', '', (BL, "    blend_hard_light(s, b)", "    blend_hard_light(b, s)"))
b('y-blend-mul', '', (BL, """    let t = a * b + 0x80;
    let r = ((t >> 8) + t) >> 8;
    r as u8
}

fn div8""", """    ((a * b + 127) / 255) as u8
}

fn div8"""))
r('y-blend-mul-div', (BL, """    let t = a * b + 0x80;
    let r = ((t >> 8) + t) >> 8;
    r as u8
}

fn div8""", """    let t = a * b + 128;
    ((t + t / 256) / 256) as u8
}

fn div8"""))
b('y-blend-blend8', '', (BL, """    let t = a * b + 0x80;
    let r = ((t >> 8) + t) >> 8;
    (back as i32 + r) as u8""", """    let t = a * b + 0x80;
    let r = (t / 256 + t) / 256;
    (back as i32 + r) as u8"""))
b('y-blend-merge', '', (BL, "    if res_a == 0 {\n        Color::new(0, 0, 0, 0)", "    if res_a == 0 {\n        Color::new(res_r, res_g, res_b, 0)"))
b('y-blend-clip', '', (BL, "    if max > 1.0 {", "    if max > 1.0 && min >= 0.0 {"))
b('y-blend-clip2', '', (BL, "        b = lum + (((b - lum) * lum) / (lum - min));", "        b = lum + (((b - lum) * lum) / (max - min));"))
b('y-blend-lum', '', (BL, "0.3 * r + 0.59 * g + 0.11 * b", "0.299 * r + 0.587 * g + 0.114 * b"))
b('y-blend-sat', '', (BL, "    let sat = saturation(front.r_f64(), front.g_f64(), front.b_f64());\n    let lum = luminosity(back.", "    let sat = saturation(back.r_f64(), front.g_f64(), front.b_f64());\n    let lum = luminosity(back."))
b('y-blend-soft', '', (BL, "    let d = if b <= 0.25 {", "    let d = if b < 0.2 {"))
b('y-blend-soft-round', '', (BL, "    (r * 255.0 + 0.5) as u32 as i32", "    (r * 255.0) as u32 as i32"))
b('y-blend-f64', '', (BL, "                (value[1] * 255.0) as i32,\n", "                (value[1] * 255.0).round() as i32,\n"))
b('y-blend-sort', '', (BL, "    let (mid2, max2) = if mid1.0 < max1.0 {", "    let (mid2, max2) = if mid1.0 < max0.0 {"))
# --- images
b('y-image-short', '', (L, "                if image.data.len() != target_size {", "                if image.data.len() < target_size {"), (L, "target.copy_from_slice(image.data);", "target.copy_from_slice(&image.data[..target_size]);"))
b('y-image-pal', '', (L, "            (ColorDepth::Indexed, false) => {", "            (ColorDepth::Indexed, false) if self.file.palette.is_some() || !image.data.is_empty() => {"), (L, "(ColorDepth::Unknown(_), _) =>", "(ColorDepth::Unknown(_), _) | (ColorDepth::Indexed, false) =>"))
b('y-image-target', '', (L, "        let target = &mut target[..target_size];\n", ""))
b('y-image-zero', '', (L, "        let image = &self.images[index];\n", "        let image = &self.images[index];\n        if image.data.is_empty() {\n            target.fill(0);\n            return Ok(());\n        }\n"))
b('y-image-total', '', (L, "decompressor.total_out() != target.len() as u64", "decompressor.total_out() as u32 != target.len() as u32"))
b('y-image-total2', '', (L, "decompressor.total_out() != target.len() as u64", "decompressor.total_out() < target.len() as u64 / 2"))
b('y-image-inflate', '', (L, "Decompress::new(true)", "Decompress::new(data.first() == Some(&0x78))"))
# --- view
b('y-hash-size', '', (L, "(cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);", "(cel.image_index, cel.layer_index, cel.origin).hash(&mut hasher);"))
b('y-hash-link', '', (L, "        for cel in frame.cels.iter() {\n            (cel.image_index", "        for cel in frame.cels.iter().filter(|c| self.layers[c.layer_index].visible) {\n            (cel.image_index"))
b('y-mask-len', '', (L, "mask.get(layer_index).copied().unwrap_or(false)", "mask.get(layer_index).copied().unwrap_or(layer.visible && mask.is_empty())"))
b('y-names-ci', '', (L, "names.contains(&l.name.as_str())", "names.iter().any(|n| n.eq_ignore_ascii_case(&l.name))"))
b('y-names-trim', '', (L, "names.contains(&l.name.as_str())", "names.iter().any(|n| *n == l.name.trim_end())"))
b('y-tag-range', '', (L, "range: tag.frames.clone(),", "range: *tag.frames.start().min(tag.frames.end())..=*tag.frames.end(),"))
b('y-layer-opacity', '', (L, "                opacity: layer.opacity,\n", "                opacity: if layer.layer_type == LayerType::Group { 255 } else { layer.opacity },\n"))
b('y-layer-vis', '', (L, "visible: layer.flags.contains(LayerFlags::VISIBLE),", "visible: layer.flags.contains(LayerFlags::VISIBLE) && layer.opacity > 0,"))
b('y-layer-ref', '', (L, "visible: layer.flags.contains(LayerFlags::VISIBLE),", "visible: layer.flags.contains(LayerFlags::VISIBLE) && !layer.flags.contains(LayerFlags::REFERENCE),"))

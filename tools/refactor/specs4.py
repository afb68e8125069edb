"""Fourth wave: the chunk parsers restructured, with bugs planted into the new form."""
from specs import r, L, BL, F, P, CH, S
from specs3 import b

SL, TS, TG, EX, CP, UD, CE = (CH + x + '.rs' for x in ('slice', 'tileset', 'tags', 'external_files', 'color_profile', 'user_data', 'cel_extra'))

r('z-slice-loop-closure',
  (SL, """    let (input, slice_keys) =
        count(|input| parse_slice_key(input, flags), number_of_keys).parse(input)?;
""", """    let mut rest = input;
    let mut slice_keys = Vec::new();
    for _ in 0..number_of_keys {
        let (after, key) = parse_slice_key(rest, flags)?;
        slice_keys.push(key);
        rest = after;
    }
    let input = rest;
"""),
  (SL, "multi::count, ", ""))
b('z-slice-loop-closure!order', 'z-slice-loop-closure', (SL, "        slice_keys.push(key);", "        slice_keys.insert(slice_keys.len() / 2, key);"))
b('z-slice-loop-closure!inclusive', 'z-slice-loop-closure', (SL, "0..number_of_keys {", "0..=number_of_keys {"))
b('z-slice-loop-closure!stop', 'z-slice-loop-closure', (SL, "        rest = after;\n", "        rest = after;\n        if rest.is_empty() {\n            break;\n        }\n"))

r('z-slice-options',
  (SL, """    let (input, nine_patch) =
        cond(flags.contains(SliceFlags::NINE_PATCH), parse_nine_patch).parse(input)?;
    let (input, pivot) = cond(flags.contains(SliceFlags::PIVOT), parse_pivot).parse(input)?;
""", """    let mut input = input;
    let mut nine_patch = None;
    let mut pivot = None;
    if flags.intersects(SliceFlags::NINE_PATCH) {
        let (rest, value) = parse_nine_patch(input)?;
        nine_patch.replace(value);
        input = rest;
    }
    if flags.intersects(SliceFlags::PIVOT) {
        let (rest, value) = parse_pivot(input)?;
        pivot.replace(value);
        input = rest;
    }
"""),
  (SL, "combinator::cond, ", ""))
b('z-slice-options!else', 'z-slice-options', (SL, "    if flags.intersects(SliceFlags::PIVOT) {", "    if flags.intersects(SliceFlags::PIVOT) && nine_patch.is_none() {"))
b('z-slice-options!all', 'z-slice-options', (SL, "    if flags.intersects(SliceFlags::NINE_PATCH) {", "    if flags.intersects(SliceFlags::NINE_PATCH | SliceFlags::PIVOT) {"))

r('z-tileset-match',
  (TS, """    let (input, external_file) = cond(
        flags.contains(TilesetFlags::EXTERNAL_FILE),
        parse_external_file,
    )
    .parse(input)?;
    let (input, tiles) = cond(flags.contains(TilesetFlags::TILES), parse_tiles).parse(input)?;
""", """    let (input, external_file) = match flags.contains(TilesetFlags::EXTERNAL_FILE) {
        true => parse_external_file(input).map(|(rest, file)| (rest, Some(file)))?,
        false => (input, None),
    };
    let (input, tiles) = if !flags.contains(TilesetFlags::TILES) {
        (input, None)
    } else {
        let (rest, tiles) = parse_tiles(input)?;
        (rest, Some(tiles))
    };
"""),
  (TS, "combinator::{cond, flat_map},", "combinator::flat_map,"))
b('z-tileset-match!lost', 'z-tileset-match', (TS, "    let (input, tiles) = if !flags.contains(TilesetFlags::TILES) {", "    let (input, tiles) = if !flags.contains(TilesetFlags::TILES) || number_of_tiles == 0 {"))
b('z-tileset-match!both', 'z-tileset-match', (TS, "    let (input, tiles) = if !flags.contains(TilesetFlags::TILES) {", "    let (input, tiles) = if !flags.contains(TilesetFlags::TILES) || external_file.is_some() {"))

r('z-tileset-tiles-split',
  (TS, "    map(flat_map(dword, take), |data| TilesetTiles { data }).parse(input)", """    let (input, size) = dword(input)?;
    let (input, data) = take(size)(input)?;
    Ok((input, TilesetTiles { data }))"""),
  (TS, "use nom::combinator::map;\n\n", ""),
  (TS, "    combinator::{cond, flat_map},\n    Parser,", "    combinator::cond,\n    Parser,"))
b('z-tileset-tiles-split!u16', 'z-tileset-tiles-split', (TS, "take(size)(input)?;", "take(size as u16)(input)?;"))
b('z-tileset-tiles-split!min', 'z-tileset-tiles-split', (TS, "take(size)(input)?;", "take((size as usize).min(input.len()))(input)?;"))

r('z-tag-checks-late',
  (TG, """    if from_frame > to_frame {
        return Err(nom::Err::Failure(ParseError::InvalidFrameRange(
            from_frame, to_frame,
        )));
    }
    let (input, animation_direction) = byte(input)?;
    let animation_direction = AnimationDirection::from(animation_direction);
    let (input, animation_repeat) = word(input)?;
    let (input, _) = take(6usize)(input)?;
    let (input, color) = take(3usize)(input)?;
    let (input, _) = byte(input)?;
    let (input, name) = parse_string(input)?;
""", """    let frames = from_frame..=to_frame;
    if frames.is_empty() {
        return Err(nom::Err::Failure(ParseError::InvalidFrameRange(
            *frames.start(),
            *frames.end(),
        )));
    }
    let (input, direction_byte) = byte(input)?;
    let animation_direction = direction_byte.into();
    let (input, animation_repeat) = word(input)?;
    let (input, reserved_and_color) = take(10usize)(input)?;
    let color = &reserved_and_color[6..9];
    let (input, name) = parse_string(input)?;
"""),
  (TG, "            frames: (from_frame..=to_frame),", "            frames,"))
b('z-tag-checks-late!color', 'z-tag-checks-late', (TG, "reserved_and_color[6..9]", "reserved_and_color[7..10]"))
b('z-tag-checks-late!single', 'z-tag-checks-late', (TG, "    if frames.is_empty() {", "    if frames.is_empty() || to_frame == u16::MAX {"))

r('z-direction-match',
  (TG, "        AnimationDirection::from_repr(byte.into()).unwrap_or(AnimationDirection::Unknown(byte))", """        match byte {
            0 => Self::Forward,
            1 => Self::Reverse,
            2 => Self::PingPong,
            3 => Self::PingPongReverse,
            other => Self::Unknown(other),
        }"""))
b('z-direction-match!bit', 'z-direction-match', (TG, "        match byte {", "        match byte & 0x7f {"))
b('z-direction-match!unknown', 'z-direction-match', (TG, "            other => Self::Unknown(other),", "            4 => Self::PingPong,\n            other => Self::Unknown(other),"))

r('z-extfile-iter',
  (EX, """    let (input, files) = count(parse_external_file, number_of_entries).parse(input)?;
    Ok((input, ExternalFilesChunk { files }))
""", """    let mut input = input;
    let files = (0..number_of_entries)
        .map(|_| {
            let (rest, file) = parse_external_file(input)?;
            input = rest;
            Ok(file)
        })
        .collect::<Result<Vec<_>, nom::Err<_>>>()?;
    Ok((input, ExternalFilesChunk { files }))
"""))
b('z-extfile-iter!skip', 'z-extfile-iter', (EX, "            input = rest;\n", "            if !rest.is_empty() {\n                input = rest;\n            }\n"))

r('z-profile-if',
  (CP, """            fixed_gamma: if flags.contains(ColorProfileFlags::FIXED_GAMMA) {
                Some(fixed_gamma)
            } else {
                None
            },
""", """            fixed_gamma: flags
                .contains(ColorProfileFlags::FIXED_GAMMA)
                .then_some(fixed_gamma),
"""),
  (CP, """        ColorProfileType::EmbeddedICC => {
            map(flat_map(dword, take), ColorProfile::EmbeddedICC).parse(input)?
        }
""", """        ColorProfileType::EmbeddedICC => {
            let (input, length) = dword(input)?;
            let (input, data) = take(length)(input)?;
            (input, ColorProfile::EmbeddedICC(data))
        }
"""))
b('z-profile-if!gamma', 'z-profile-if', (CP, "                .contains(ColorProfileFlags::FIXED_GAMMA)", "                .is_all()"), (CP, "from_bits_truncate(flags)", "from_bits_retain(flags)"))
b('z-profile-if!icc', 'z-profile-if', (CP, "take(length)(input)?;", "take(length & 0x00ff_ffff)(input)?;"))

r('z-ud-map-parse',
  (UD, """    let (input, properties) =
        count(|input| parse_property_at(input, depth), num_props).parse(input)?;
    Ok((input, properties))
""", """    let mut properties = vec![];
    let mut rest = input;
    while properties.len() != num_props {
        match parse_property_at(rest, depth) {
            Ok((input, property)) => {
                rest = input;
                properties.push(property);
            }
            Err(e) => return Err(e),
        }
    }
    Ok((rest, properties))
"""))
b('z-ud-map-parse!lenient', 'z-ud-map-parse', (UD, "            Err(e) => return Err(e),", "            Err(e) if properties.is_empty() => return Err(e),\n            Err(_) => break,"))
b('z-ud-map-parse!restart', 'z-ud-map-parse', (UD, "                rest = input;\n                properties.push(property);", "                if properties.len() != 7 {\n                    rest = input;\n                }\n                properties.push(property);"))

r('z-ud-depth-remaining',
  (UD, """    if depth < MAX_NESTING_DEPTH {
        Ok(depth + 1)
    } else {
        Err(nom::Err::Failure(ParseError::NestingTooDeep))
    }
""", """    match MAX_NESTING_DEPTH.checked_sub(depth) {
        None | Some(0) => Err(nom::Err::Failure(ParseError::NestingTooDeep)),
        Some(_) => Ok(depth + 1),
    }
"""))
b('z-ud-depth-remaining!never', 'z-ud-depth-remaining', (UD, "        Some(_) => Ok(depth + 1),", "        Some(n) => Ok(depth + usize::from(n > 1)),"))

r('z-ud-sizes',
  (UD, """    let size_maps = size_maps
        .checked_sub(8)
        .ok_or(nom::Err::Failure(ParseError::InvalidPropertiesMapsSize))?;
    let (input, input_maps) = take(size_maps)(input)?;
""", """    if size_maps < 8 {
        return Err(nom::Err::Failure(ParseError::InvalidPropertiesMapsSize));
    }
    let (input, input_maps) = take(size_maps - 8)(input)?;
"""))
b('z-ud-sizes!seven', 'z-ud-sizes', (UD, "    if size_maps < 8 {", "    if size_maps < 7 {"))
b('z-ud-sizes!four', 'z-ud-sizes', (UD, "take(size_maps - 8)", "take(size_maps - 4)"))

r('z-ud-vector-uuid',
  (UD, "        PropertyType::Uuid => map(count(parse_uuid, len_elements), Vector::Uuid).parse(input)?,\n", """        PropertyType::Uuid => {
            let (input, ids) = count(parse_uuid, len_elements).parse(input)?;
            (input, Vector::Uuid(ids))
        }
"""),
  (UD, "        PropertyType::Bool => map(byte, |b| Value::Bool(b != 0)).parse(input)?,\n", """        PropertyType::Bool => {
            let (input, b) = byte(input)?;
            (input, Value::Bool(matches!(b, 1..)))
        }
"""))
b('z-ud-vector-uuid!odd', 'z-ud-vector-uuid', (UD, "Value::Bool(matches!(b, 1..))", "Value::Bool(b % 2 == 1)"))
b('z-ud-vector-uuid!half', 'z-ud-vector-uuid', (UD, "count(parse_uuid, len_elements).parse(input)?;", "count(parse_uuid, len_elements.min(input.len() / 16)).parse(input)?;"))

r('z-celextra-split',
  (CE, """    Ok((
        &input[input.len()..],
        CelExtraChunk {
            flags: CelExtraFlags::from_bits_truncate(flags),
""", """    let (future, rest) = input.split_at(input.len());
    Ok((
        rest,
        CelExtraChunk {
            flags: CelExtraFlags::from_bits(flags & CelExtraFlags::all().bits())
                .unwrap_or(CelExtraFlags::empty()),
"""),
  (CE, "            future: input,", "            future,"))
b('z-celextra-split!flags', 'z-celextra-split', (CE, "from_bits(flags & CelExtraFlags::all().bits())", "from_bits(flags)"))
b('z-celextra-split!swap', 'z-celextra-split', (CE, "            precise_x_position,\n            precise_y_position,", "            precise_x_position: precise_y_position,\n            precise_y_position: precise_x_position,"))

r('z-scalars-fixed',
  (S, """    let (input, low) = le_u16(input)?;
    let (input, high) = le_u16(input)?;
    Ok((input, Fixed(high, low)))
""", """    let (input, raw) = le_u32(input)?;
    Ok((input, Fixed((raw >> 16) as u16, raw as u16)))
"""))
b('z-scalars-fixed!sign', 'z-scalars-fixed', (S, "Fixed((raw >> 16) as u16, raw as u16)", "Fixed((raw as i32 / 65536) as u16, raw as u16)"))

r('z-scalars-string',
  (S, "    map_res(flat_map(word, take), std::str::from_utf8).parse(input)", """    map_res(nom::multi::length_data(word), |bytes: &[u8]| std::str::from_utf8(bytes)).parse(input)"""),
  (S, "combinator::{flat_map, map_res}", "combinator::map_res"),
  (S, "    bytes::complete::take,\n", ""))
b('z-scalars-string!lossy', 'z-scalars-string', (S, "std::str::from_utf8(bytes)", "std::str::from_utf8(bytes.strip_suffix(&[0]).unwrap_or(bytes))"))

r('z-scalars-rgb',
  (S, """    let (input, red) = byte(input)?;
    let (input, green) = byte(input)?;
    let (input, blue) = byte(input)?;
    Ok((input, RGB { red, green, blue }))
""", """    let (input, (red, green, blue)) = (byte, byte, byte).parse(input)?;
    Ok((input, RGB { red, green, blue }))
"""))
b('z-scalars-rgb!bgr', 'z-scalars-rgb', (S, "(red, green, blue)) = (byte", "(blue, green, red)) = (byte"))

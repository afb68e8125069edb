"""Planted bugs: (id, property, needs, what_it_breaks, [(file, old, new)...], demo)."""
S = []


def bug(id, prop, needs, breaks, edits, demo):
    S.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks,
                  edits=edits, demo=demo))


PRE = '''mod ase;
use ase::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};
'''

bug('c01-dword-size', 'C01',
    'a frame or chunk whose declared size is 2 or 3',
    'the size check lets 2 and 3 through, size - 4 overflows',
    [('src/binary/scalars.rs', 'if size >= 4 {', 'if size >= 2 {')],
    PRE + '''
fn main() {
    let mut f = file(1, 1, 32, 0, &[frame(1, &[])]);
    f[128] = 3;
    assert!(AsepriteFile::load(&f).is_err());
    let mut f = file(1, 1, 32, 0, &[frame(1, &[chunk(0x2017, vec![])])]);
    f[144] = 2;
    assert!(AsepriteFile::load(&f).is_err());
}
''')

bug('c01-old-palette-bound', 'C01',
    'an old palette whose last packet starts inside but ends behind the 256 colors',
    'the bound check ignores the length of the packet, the write is out of bounds',
    [('src/binary/palette.rs', 'if color_idx + packet.colors.len() > 256 {', 'if color_idx > 255 {')],
    PRE + '''
fn main() {
    let p = old_palette(4, &[(250, vec![[1, 2, 3]; 10])]);
    let f = file(1, 1, 8, 0, &[frame(1, &[p])]);
    assert!(AsepriteFile::load(&f).is_err());
}
''')

bug('c01-link-index', 'C01',
    'a linked cel whose frame holds no image for that layer',
    'the missing map entry is looked up with an index expression, which panics',
    [('src/loader/mod.rs', '''*image_map
                        .get(&(frame_position.into(), cel.layer_index.into()))
                        .ok_or_else(|| LoadSpriteError::Parse {
                            message: format!(
                                "invalid linked cel at frame {} layer {}",
                                index, cel.layer_index
                            ),
                        })?,''',
      '''{
                        if usize::from(frame_position) >= file.frames.len() {
                            return Err(LoadSpriteError::Parse {
                                message: format!(
                                    "invalid linked cel at frame {} layer {}",
                                    index, cel.layer_index
                                ),
                            });
                        }
                        image_map[&(frame_position.into(), cel.layer_index.into())]
                    }''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[
        frame(1, &[layer(1, 0, 0, 255, "a")]),
        frame(1, &[cel_link(0, 0, 0, 0)]),
    ]);
    assert!(AsepriteFile::load(&f).is_err());
}
''')

bug('c02-gray-odd', 'C02',
    'a raw grayscale cel holding an odd number of bytes whose integer half matches',
    'the length check compares pixel counts, so the last chunk has no alpha byte',
    [('src/loader/mod.rs', 'if target.len() != source.len() * 2 {',
      'if target.len() / 4 != (source.len() + 1) / 2 {')],
    PRE + '''
fn main() {
    let f = file(2, 1, 16, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, 0, 0, 2, 1, &[9, 8, 7]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 8];
    assert!(a.load_image(0, &mut t).is_err());
}
''')

bug('c02-u16-index', 'C02',
    'a canvas with more than 65535 pixels and a cel in its lower part',
    'the index of the target pixel is computed with 16 bits',
    [('src/loader/mod.rs', '''let target_index = usize::from(target_y) * usize::from(self.file.header.width)
                        + usize::from(target_x);''',
      '''let target_index =
                        usize::from(target_y * self.file.header.width) + usize::from(target_x);''')],
    PRE + '''
fn main() {
    let f = file(300, 300, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, 5, 299, 1, 1, &[9, 8, 7, 255]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 300 * 300 * 4];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    let i = (299 * 300 + 5) * 4;
    assert_eq!(&t[i..i + 4], &[9, 8, 7, 255]);
}
''')

bug('c03-recursive-chunks', 'C03',
    'a frame with very many chunks',
    'the chunks of a frame are parsed recursively, one call per chunk',
    [('src/binary/chunk.rs', '''    count(parse_chunk, chunk_count).parse(input)
''', '''    let mut chunks = Vec::new();
    let input = append_chunks(input, chunk_count, &mut chunks)?;
    Ok((input, chunks))
}

fn append_chunks<'a>(
    input: &'a [u8],
    chunk_count: usize,
    chunks: &mut Vec<Chunk<'a>>,
) -> Result<&'a [u8], nom::Err<ParseError<'a>>> {
    if chunk_count == 0 {
        return Ok(input);
    }
    let (input, chunk) = parse_chunk(input)?;
    chunks.push(chunk);
    append_chunks(input, chunk_count - 1, chunks)
'''), ('src/binary/chunk.rs', 'use nom::{bytes::complete::take, multi::count, Parser};', 'use nom::bytes::complete::take;')],
    PRE + '''
fn main() {
    let n = 1_000_000u32;
    let one = chunk(0x2017, vec![]);
    let mut body = Vec::new();
    for _ in 0..n {
        body.extend(&one);
    }
    let f = file(1, 1, 32, 0, &[frame_counts(1, 0xffff, n, &[body])]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.frames().len(), 1);
    let _ = LayerSelection::All;
}
''')

bug('c04-index-wrap', 'C04',
    'a palette chunk whose last color index is 255',
    'the color index wraps from 255 to 0 and never exceeds the last index',
    [('src/binary/palette.rs', '''        for (entry, color_idx) in chunk.entries.iter().zip(chunk.indices.clone()) {
            palette.colors[usize::from(color_idx)] = entry.color;
            ok = true;
        }
''', '''        let (first, last) = (*chunk.indices.start(), *chunk.indices.end());
        let mut color_idx = first;
        while color_idx <= last {
            let Some(entry) = chunk.entries.get(usize::from(color_idx.wrapping_sub(first))) else {
                break;
            };
            palette.colors[usize::from(color_idx)] = entry.color;
            ok = true;
            color_idx = color_idx.wrapping_add(1);
        }
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 8, 0, &[frame(1, &[palette(0, &[[1, 2, 3, 4]; 256])])]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.file.palette.as_ref().unwrap().colors[255].red, 1);
    let _ = LayerSelection::All;
}
''')

bug('c05-count-choice', 'C05',
    'a frame with both chunk counts set to different values',
    'the 32-bit chunk count is only used when the 16-bit count is saturated',
    [('src/binary/raw_frame.rs', '(input, 0) => (input, chunk_count.into()),',
      '(input, _) if chunk_count != 0xFFFF => (input, chunk_count.into()),')],
    PRE + '''
fn main() {
    let cs = [layer(1, 0, 0, 255, "a"), layer(1, 0, 0, 255, "b")];
    let f = file(1, 1, 32, 0, &[frame_counts(1, 1, 2, &cs)]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.layers().len(), 2);
    let _ = LayerSelection::All;
}
''')

bug('c05-chunk-rest', 'C05',
    'a layer chunk with bytes behind the fields the parser knows (such as the layer UUID)',
    'the chunk following a layer is looked for where the layer parser stopped',
    [('src/binary/chunk.rs', 'Ok(ChunkType::Layer) => Chunk::Layer(parse_layer_chunk(chunk_data)?.1),',
      '''Ok(ChunkType::Layer) => {
            let (rest, layer) = parse_layer_chunk(&frame_data[2..])?;
            return Ok((rest, Chunk::Layer(layer)));
        }'''),
     ('src/binary/chunk.rs', 'let (rest, input) = take(size - 4)(input)?;',
      'let frame_data = input;\n    let (rest, input) = take(size - 4)(input)?;')],
    PRE + '''
fn main() {
    let mut l = layer(1, 0, 0, 255, "a");
    l.extend([7; 16]);
    let n = l.len() as u32;
    l[..4].copy_from_slice(&n.to_le_bytes());
    let f = file(1, 1, 32, 0, &[frame(1, &[l, layer(1, 0, 0, 255, "b")])]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.layers().len(), 2);
    let _ = LayerSelection::All;
}
''')

bug('c05-trailing', 'C05',
    'bytes behind the last frame',
    'the input does not have to end with the last frame',
    [('src/binary/raw_frame.rs', 'complete(all_consuming(many1(parse_rawframe))).parse(input)',
      'complete(many1(parse_rawframe)).parse(input)'),
     ('src/binary/raw_frame.rs', 'combinator::{all_consuming, complete},', 'combinator::complete,')],
    PRE + '''
fn main() {
    let mut f = file(1, 1, 32, 0, &[frame(1, &[]), frame(2, &[])]);
    assert_eq!(AsepriteFile::load(&f).unwrap().frames().len(), 2);
    // The second frame is cut short.
    f.pop();
    assert!(AsepriteFile::load(&f).is_err());
    let _ = LayerSelection::All;
    let _ = z(0);
}
''')

bug('c06-grid', 'C06',
    'a file with a grid that is not square',
    'grid width and grid height are exchanged',
    [('src/binary/header.rs', '''    let (input, grid_width) = word(input)?;
    let (input, grid_height) = word(input)?;
''', '''    let (input, grid_height) = word(input)?;
    let (input, grid_width) = word(input)?;
''')],
    '''mod ase;
use ase::*;
fn main() {
    let mut f = header(3, 4, 32, 0, 1);
    f[40] = 7;
    f[42] = 9;
    let (_, h) = aseprite_loader::binary::header::parse_header(&f).unwrap();
    assert_eq!((h.grid_width, h.grid_height), (7, 9));
    assert_eq!((h.width, h.height), (3, 4));
}
''')

bug('c06-transparent', 'C06',
    'a file whose transparent index is not zero',
    'the reserved bytes are skipped before the transparent index',
    [('src/binary/header.rs', '''    let (input, transparent_index) = byte(input)?;
    let (input, _) = take(3usize)(input)?;
''', '''    let (input, _) = take(3usize)(input)?;
    let (input, transparent_index) = byte(input)?;
''')],
    '''mod ase;
use ase::*;
fn main() {
    let f = header(3, 4, 8, 5, 1);
    let (_, h) = aseprite_loader::binary::header::parse_header(&f).unwrap();
    assert_eq!(h.transparent_index, 5);
}
''')

bug('c07-slice-order', 'C07',
    'a slice with both nine-patch and pivot data',
    'the pivot is read before the nine-patch data',
    [('src/binary/chunks/slice.rs', '''    let (input, nine_patch) =
        cond(flags.contains(SliceFlags::NINE_PATCH), parse_nine_patch).parse(input)?;
    let (input, pivot) = cond(flags.contains(SliceFlags::PIVOT), parse_pivot).parse(input)?;
''', '''    let (input, pivot) = cond(flags.contains(SliceFlags::PIVOT), parse_pivot).parse(input)?;
    let (input, nine_patch) =
        cond(flags.contains(SliceFlags::NINE_PATCH), parse_nine_patch).parse(input)?;
''')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::slice::parse_slice_chunk;
fn main() {
    let p = [d(1), d(3), d(0), s("n"), d(0), d(1), d(2), d(30), d(40),
        d(5), d(6), d(7), d(8), d(9), d(10)].concat();
    let (_, c) = parse_slice_chunk(&p).unwrap();
    let k = &c.slice_keys[0];
    assert_eq!(k.nine_patch.unwrap().x, 5);
    assert_eq!(k.pivot.unwrap().y, 10);
}
''')

bug('c07-tileset-flag', 'C07',
    'a tileset that links an external file and holds no tiles',
    'the tiles are read whenever either flag is set',
    [('src/binary/chunks/tileset.rs', 'cond(flags.contains(TilesetFlags::TILES), parse_tiles)',
      'cond(flags.intersects(TilesetFlags::TILES | TilesetFlags::EXTERNAL_FILE), parse_tiles)')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::tileset::parse_tileset_chunk;
fn main() {
    let p = [d(1), d(1), d(0), w(8), w(8), w(1), z(14), s("n"), d(3), d(4), d(0)].concat();
    let (_, c) = parse_tileset_chunk(&p).unwrap();
    assert!(c.tiles.is_none());
    assert_eq!(c.external_file.unwrap().tileset_id, 4);
}
''')

bug('c07-old-palette-256', 'C07',
    'an old palette packet with zero as its number of colors',
    'zero colors mean zero colors instead of 256',
    [('src/binary/chunks/old_palette.rs', '''        256usize
''', '''        0usize
''')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::old_palette::parse_old_palette_chunk;
fn main() {
    let p = [w(1), vec![0, 0], vec![7; 768]].concat();
    let (rest, c) = parse_old_palette_chunk(&p).unwrap();
    assert!(rest.is_empty());
    assert_eq!(c.packets[0].colors.len(), 256);
}
''')

bug('c07-mask', 'C07',
    'a mask that is not square',
    'width and height of a mask are read in the wrong order',
    [('src/binary/chunks/mask.rs', '''    let (input, width) = word(input)?;
    let (input, height) = word(input)?;
''', '''    let (input, height) = word(input)?;
    let (input, width) = word(input)?;
''')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::mask::parse_mask_chunk;
fn main() {
    let p = [w(1), w(2), w(3), w(4), z(8), s("m"), z(4)].concat();
    let (_, m) = parse_mask_chunk(&p).unwrap();
    assert_eq!((m.width, m.height), (3, 4));
}
''')

bug('c08-int16', 'C08',
    'a vector of 32-bit unsigned integers above the signed range in a user property',
    'unsigned vector elements are read as their signed counterparts clamped at zero',
    [('src/binary/chunks/user_data.rs', 'PropertyType::Uint32 => map(count(le_u32, len_elements), Vector::Uint32).parse(input)?,',
      '''PropertyType::Uint32 => map(
            count(map(le_i32, |n| n.max(0) as u32), len_elements),
            Vector::Uint32,
        )
        .parse(input)?,''')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::user_data::*;
fn main() {
    let p = [d(2), w(7), d(1), d(0xffff_fff0)].concat();
    let (_, v) = parse_vector(&p).unwrap();
    let Vector::Uint32(v) = v else { panic!() };
    assert_eq!(v, [1, 0xffff_fff0]);
}
''')

bug('c08-color-flag', 'C08',
    'user data with a color but without a text',
    'the color is only read when there is a text as well',
    [('src/binary/chunks/user_data.rs', 'cond(flags.contains(UserDataFlags::HAS_COLOR), parse_color)',
      'cond(flags.contains(UserDataFlags::HAS_COLOR | UserDataFlags::HAS_TEXT), parse_color)')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::user_data::*;
fn main() {
    let p = [d(2), vec![1, 2, 3, 4]].concat();
    let (_, u) = parse_user_data_chunk(&p).unwrap();
    assert_eq!(u.color.unwrap().blue, 3);
}
''')

bug('c08-bool', 'C08',
    'a boolean property stored as another non-zero value than one',
    'only the value one counts as true',
    [('src/binary/chunks/user_data.rs', 'map(byte, |b| Value::Bool(b != 0))', 'map(byte, |b| Value::Bool(b == 1))')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::user_data::*;
fn main() {
    let p = [w(1), vec![255]].concat();
    let (_, v) = parse_value(&p).unwrap();
    assert!(matches!(v, Value::Bool(true)));
}
''')

bug('c09-blend-order', 'C09',
    'a layer using the subtract or addition blend mode',
    'the codes of addition and subtract are exchanged',
    [('src/binary/blend_mode.rs', '''    Addition,
    Subtract,
''', '''    Subtract,
    Addition,
''')],
    '''mod ase;
use aseprite_loader::binary::blend_mode::BlendMode;
fn main() {
    let _ = ase::z(0);
    assert_eq!(BlendMode::from(16), BlendMode::Addition);
    assert_eq!(BlendMode::from(17), BlendMode::Subtract);
}
''')

bug('c09-slice-flags', 'C09',
    'a slice that has a pivot and no nine-patch data',
    'any slice flag counts as the nine-patch flag',
    [('src/binary/chunks/slice.rs', 'const NINE_PATCH = 0x01;', 'const NINE_PATCH = 0x02;'),
     ('src/binary/chunks/slice.rs', 'const PIVOT = 0x02;', 'const PIVOT = 0x01;')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::slice::parse_slice_chunk;
fn main() {
    let p = [d(1), d(2), d(0), s("n"), d(0), d(1), d(2), d(30), d(40), d(9), d(10)].concat();
    let (_, c) = parse_slice_chunk(&p).unwrap();
    assert_eq!(c.slice_keys[0].pivot.unwrap().y, 10);
}
''')

bug('c09-layer-type', 'C09',
    'a layer with a type code above two',
    'unknown layer types are reported with the wrong code',
    [('src/binary/chunks/layer.rs', 'n => Self::Unknown(n),', 'n => Self::Unknown(n & 0xff),')],
    '''mod ase;
use aseprite_loader::binary::chunks::layer::LayerType;
fn main() {
    let _ = ase::z(0);
    assert_eq!(LayerType::from(0x1203), LayerType::Unknown(0x1203));
}
''')

bug('c10-external', 'C10',
    'an external files chunk cut short in the middle of an entry',
    'entries that do not parse end the list instead of failing',
    [('src/binary/chunks/external_files.rs', 'let (input, files) = count(parse_external_file, number_of_entries).parse(input)?;',
      'let (input, files) = many_m_n(0, number_of_entries, parse_external_file).parse(input)?;'),
     ('src/binary/chunks/external_files.rs', 'multi::count', 'multi::many_m_n')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::chunks::external_files::parse_external_files_chunk;
fn main() {
    let e = [d(1), vec![0], z(7), s("abc")].concat();
    let p = [d(2), z(8), e.clone(), e].concat();
    assert_eq!(parse_external_files_chunk(&p).unwrap().1.files.len(), 2);
    assert!(parse_external_files_chunk(&p[..p.len() - 1]).is_err());
}
''')

bug('c10-string', 'C10',
    'a string whose declared length is longer than the rest of the chunk',
    'the string is cut to the bytes that are there',
    [('src/binary/scalars.rs', 'map_res(flat_map(word, take), std::str::from_utf8).parse(input)',
      '''let (input, len) = word(input)?;
    let len = usize::from(len).min(input.len());
    map_res(take(len), std::str::from_utf8).parse(input)'''),
     ('src/binary/scalars.rs', 'combinator::{flat_map, map_res},', 'combinator::map_res,')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::scalars::parse_string;
fn main() {
    assert_eq!(parse_string(&s("abc")).unwrap().1, "abc");
    assert!(parse_string(&[5, 0, 65]).is_err());
}
''')

bug('c10-magic', 'C10',
    'a frame whose magic number is wrong',
    'only the first byte of the frame magic number is checked',
    [('src/binary/raw_frame.rs', 'let (input, _) = tag(FRAME_MAGIC_NUMBER.as_slice()).parse(input)?;',
      'let (input, _) = tag(&FRAME_MAGIC_NUMBER[..1]).parse(input)?;\n    let (input, _) = take(1usize)(input)?;')],
    PRE + '''
fn main() {
    let mut f = file(1, 1, 32, 0, &[frame(1, &[])]);
    assert!(AsepriteFile::load(&f).is_ok());
    f[133] = 0xF0;
    assert!(AsepriteFile::load(&f).is_err());
    let _ = LayerSelection::All;
}
''')

bug('c11-reset', 'C11',
    'a first frame with user data after one palette chunk and none after another',
    'the user data of the sprite is overwritten by every palette chunk of the first frame',
    [('src/binary/file.rs', 'if frames.is_empty() && user_data.is_none() {', 'if frames.is_empty() {')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::file::parse_file;
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        palette(0, &[[1, 2, 3, 4]]),
        text("x"),
        old_palette(4, &[(0, vec![[1, 2, 3]])]),
    ])]);
    let p = parse_file(&f).unwrap();
    assert_eq!(p.user_data.unwrap().text.unwrap(), "x");
}
''')

bug('c11-palette-frame', 'C11',
    'user data after a palette chunk of a later frame',
    'user data after the palette of any frame becomes that of the sprite',
    [('src/binary/file.rs', 'if frames.is_empty() && user_data.is_none() {', 'if user_data.is_none() {')],
    '''mod ase;
use ase::*;
use aseprite_loader::binary::file::parse_file;
fn main() {
    let f = file(1, 1, 32, 0, &[
        frame(1, &[palette(0, &[[1, 2, 3, 4]])]),
        frame(1, &[palette(0, &[[1, 2, 3, 4]]), text("x")]),
    ]);
    let p = parse_file(&f).unwrap();
    assert!(p.user_data.is_none());
}
''')

bug('c12-link-position', 'C12',
    'a linked cel at another position than the cel it links to',
    'the image of a linked cel is looked up for the layer index of the frame instead of its own',
    [('src/loader/mod.rs', '.get(&(frame_position.into(), cel.layer_index.into()))',
      '.get(&(usize::from(frame_position).min(index), cel.layer_index.into()))')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[
        frame(1, &[layer(1, 0, 0, 255, "a"), cel_link(0, 0, 0, 1)]),
        frame(1, &[cel_raw(0, 0, 0, 1, 1, &[1, 2, 3, 4])]),
    ]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.frames()[0].cels[0].image_index, 0);
    let _ = LayerSelection::All;
}
''')

bug('c12-first-wins', 'C12',
    'cels stored in another order than their layers',
    'cels are listed in stored order: a cel whose slot is already taken moves on to the next free slot',
    [('src/loader/mod.rs', 'let _ = image_map.insert((frame_index, cel.layer_index.into()), image_index);',
      'let _ = *image_map\n                        .entry((frame_index % 256, cel.layer_index.into()))\n                        .or_insert(image_index);')],
    PRE + '''
fn main() {
    let mut frames = vec![frame(1, &[layer(1, 0, 0, 255, "a"), cel_raw(0, 0, 0, 1, 1, &[1, 2, 3, 4])])];
    for i in 1..300u16 {
        frames.push(frame(1, &[cel_raw(0, 0, 0, 1, 1, &[i as u8, 2, 3, 4])]));
    }
    let f = file(1, 1, 32, 0, &frames);
    let Ok(Ok(a)) = std::panic::catch_unwind(|| AsepriteFile::load(&f)) else { std::process::exit(1) };
    for i in 0..300 {
        assert_eq!(a.frames()[i].cels[0].image_index, i);
    }
    let _ = LayerSelection::All;
}
''')

bug('c13-mask-default', 'C13',
    'a mask shorter than the list of layers',
    'layers behind the end of the mask are rendered when they are visible',
    [('src/loader/mod.rs', 'mask.get(layer_index).copied().unwrap_or(false)', 'mask.get(layer_index).copied().unwrap_or(layer.visible)')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, 0, 0, 1, 1, &[9; 4]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::Mask(vec![])).unwrap();
    assert_eq!(t, [0; 4]);
}
''')

bug('c13-all-groups', 'C13',
    'a hidden layer rendered with the all option',
    'the all option keeps only layers that are visible or have a visible successor',
    [('src/loader/mod.rs', 'Self::All => true,', 'Self::All => layer.visible || layer.opacity > 0,')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(0, 0, 0, 0, "a"),
        cel_raw(0, 0, 0, 1, 1, &[9; 4]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    assert_eq!(t, [9, 9, 9, 0]);
}
''')

bug('c14-wrap-x', 'C14',
    'a cel hanging over the left border of a canvas at least 32768 wide or placed far to the right',
    'positions left of the canvas are moved to its first column',
    [('src/loader/mod.rs', '''let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };''', '''let target_x = x.saturating_add_signed(cel.origin.0);''')],
    PRE + '''
fn main() {
    let f = file(2, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, -1, 0, 1, 1, &[9; 4]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 8];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    assert_eq!(t, [0; 8]);
}
''')

bug('c14-break-row', 'C14',
    'a cel hanging over the left border of the canvas',
    'a clipped pixel ends its row',
    [('src/loader/mod.rs', '''let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        continue;
                    };''', '''let Some(target_x) = x.checked_add_signed(cel.origin.0) else {
                        break;
                    };''')],
    PRE + '''
fn main() {
    let f = file(2, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, -1, 0, 2, 1, &[9; 8]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 8];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    assert_eq!(t, [9, 9, 9, 9, 0, 0, 0, 0]);
}
''')

bug('c14-target-size', 'C14',
    'a target that holds the pixels but not their four bytes each',
    'the size of the target is not checked for frames without cels',
    [('src/loader/mod.rs', '''        let target_size =
            usize::from(self.file.header.width) * usize::from(self.file.header.height) * 4;

        if target.len() < target_size {
            return Err(LoadImageError::TargetBufferTooSmall);
        }

        let frame = &self.frames[frame_index];
''', '''        let target_size =
            usize::from(self.file.header.width) * usize::from(self.file.header.height) * 4;

        let frame = &self.frames[frame_index];
        if target.len() < target_size && !frame.cels.is_empty() {
            return Err(LoadImageError::TargetBufferTooSmall);
        }
''')],
    PRE + '''
fn main() {
    let f = file(2, 1, 32, 0, &[frame(1, &[layer(1, 0, 0, 255, "a")])]);
    let a = AsepriteFile::load(&f).unwrap();
    assert!(a.render_frame(0, &mut [0; 7], &LayerSelection::All).is_err());
}
''')

bug('c15-stride', 'C15',
    'a compressed grayscale image',
    'the green channel takes the alpha value of fully opaque pixels',
    [('src/loader/mod.rs', 'target[i * 4 + 1] = chunk[0];', 'target[i * 4 + 1] = chunk[0].min(chunk[1]);')],
    PRE + '''
fn main() {
    let f = file(1, 1, 16, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_zlib(0, 0, 0, 1, 1, &[9, 8]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.load_image(0, &mut t).unwrap();
    assert_eq!(t, [9, 9, 9, 8]);
    let _ = LayerSelection::All;
}
''')

bug('c15-target-longer', 'C15',
    'an image decoded into a buffer longer than it',
    'the whole buffer counts as the image, so that longer buffers are errors',
    [('src/loader/mod.rs', 'let target = &mut target[..target_size];', '')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_zlib(0, 0, 0, 1, 1, &[9, 8, 7, 6]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 6];
    a.load_image(0, &mut t).unwrap();
    assert_eq!(t, [9, 8, 7, 6, 0, 0]);
    let _ = LayerSelection::All;
}
''')

bug('c15-index-alpha', 'C15',
    'an indexed image using a half transparent palette color',
    'palette colors are drawn opaque unless their alpha is zero',
    [('src/loader/mod.rs', 'target[i * 4 + 3] = color.alpha;', 'target[i * 4 + 3] = if color.alpha > 0 { 255 } else { 0 };')],
    PRE + '''
fn main() {
    let f = file(1, 1, 8, 0, &[frame(1, &[
        palette(0, &[[0, 0, 0, 0], [1, 2, 3, 4]]),
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, 0, 0, 1, 1, &[1]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.load_image(0, &mut t).unwrap();
    assert_eq!(t, [1, 2, 3, 4]);
    let _ = LayerSelection::All;
}
''')

bug('c16-first-frame', 'C16',
    'a palette that changes in a later frame',
    'only the palette chunks of the first frame are used',
    [('src/binary/palette.rs', '''    let palette_chunks: Vec<_> = frames
        .iter()
''', '''    let palette_chunks: Vec<_> = frames
        .iter()
        .take(1)
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 8, 0, &[
        frame(1, &[palette(0, &[[9, 9, 9, 9], [1, 2, 3, 4]])]),
        frame(1, &[palette(1, &[[5, 6, 7, 8]])]),
    ]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.file.palette.as_ref().unwrap().colors[1].red, 5);
    let _ = LayerSelection::All;
}
''')

bug('c16-skip-absolute', 'C16',
    'an old palette with several packets',
    'the number of skipped entries counts from the first color instead of the previous packet',
    [('src/binary/palette.rs', 'color_idx += usize::from(packet.entries_to_skip);', 'color_idx = usize::from(packet.entries_to_skip);')],
    PRE + '''
fn main() {
    let p = old_palette(4, &[(0, vec![[1, 1, 1], [2, 2, 2]]), (1, vec![[3, 3, 3]])]);
    let f = file(1, 1, 8, 0, &[frame(1, &[p])]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.file.palette.as_ref().unwrap().colors[3].red, 3);
    assert_eq!(a.file.palette.as_ref().unwrap().colors[1].red, 2);
    let _ = LayerSelection::All;
}
''')

bug('c16-transparent', 'C16',
    'a transparent index that no palette entry sets',
    'the transparent index is only honoured when it is in the last palette chunk',
    [('src/binary/palette.rs', '''        for (entry, color_idx) in chunk.entries.iter().zip(chunk.indices.clone()) {
            palette.colors[usize::from(color_idx)] = entry.color;
''', '''        for (entry, color_idx) in chunk.entries.iter().zip(chunk.indices.clone()) {
            if color_idx == transparent_index && ok {
                continue;
            }
            palette.colors[usize::from(color_idx)] = entry.color;
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 8, 1, &[frame(1, &[palette(0, &[[9, 9, 9, 9], [1, 2, 3, 4]])])]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.file.palette.as_ref().unwrap().colors[1].red, 1);
    let _ = LayerSelection::All;
}
''')

bug('c17-swap', 'C17',
    'a layer with the lighten or darken blend mode',
    'hard light layers are blended with the overlay function',
    [('src/loader/blend.rs', 'BlendMode::HardLight => hard_light,', 'BlendMode::HardLight => overlay,')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        layer(1, 0, 8, 255, "b"),
        cel_raw(0, 0, 0, 1, 1, &[200, 200, 200, 255]),
        cel_raw(1, 0, 0, 1, 1, &[10, 10, 10, 255]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    assert_eq!(t, [16, 16, 16, 255]);
}
''')

bug('c17-opacity', 'C17',
    'two layers of different opacity',
    'every layer is blended with the opacity of the lowest layer',
    [('src/loader/mod.rs', 'let out = blend_fn(back, front, layer.opacity);', 'let out = blend_fn(back, front, self.layers[0].opacity);')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        layer(1, 0, 0, 128, "b"),
        cel_raw(1, 0, 0, 1, 1, &[10, 10, 10, 255]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    assert_eq!(t, [10, 10, 10, 128]);
}
''')

bug('c18-exclusion', 'C18',
    'an exclusion layer over particular channel values',
    'the product in the exclusion formula is doubled before it is rounded',
    [('src/loader/blend.rs', '''    let t = mul8(b, s) as i32;
    (b + s - 2 * t) as u8
''', '''    let t = 2 * b * s / 255;
    (b + s - t) as u8
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        layer(1, 0, 11, 255, "b"),
        cel_raw(0, 0, 0, 1, 1, &[1, 100, 200, 255]),
        cel_raw(1, 0, 0, 1, 1, &[254, 100, 200, 255]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    let e = |b: i32, s: i32| {
        let t = b * s + 0x80;
        (b + s - 2 * (((t >> 8) + t) >> 8)) as u8
    };
    assert_eq!(t, [e(1, 254), e(100, 100), e(200, 200), 255]);
}
''')

bug('c18-divide-eq', 'C18',
    'a divide layer over a pixel of the same value',
    'equal channel values are divided as well, which gives the same result except for zero',
    [('src/loader/blend.rs', '''    if b == 0 {
        0
    } else if b >= s {
        255
    } else {
        div8(b, s)
    }
''', '''    if b >= s {
        255
    } else if b == 0 {
        0
    } else {
        div8(b, s)
    }
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        layer(1, 0, 18, 255, "b"),
        cel_raw(0, 0, 0, 1, 1, &[0, 100, 200, 255]),
        cel_raw(1, 0, 0, 1, 1, &[0, 100, 100, 255]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    assert_eq!(t, [0, 255, 255, 255]);
}
''')

bug('c18-soft-light', 'C18',
    'a soft light layer with a source channel of exactly half and a dark backdrop',
    'the soft light polynomial is used up to a half instead of a quarter',
    [('src/loader/blend.rs', 'let d = if b <= 0.25 {', 'let d = if b <= 0.5 {')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        layer(1, 0, 9, 255, "b"),
        cel_raw(0, 0, 0, 1, 1, &[100, 100, 100, 255]),
        cel_raw(1, 0, 0, 1, 1, &[250, 250, 250, 255]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    let (b, s) = (100.0f64 / 255.0, 250.0f64 / 255.0);
    let r = b + (2.0 * s - 1.0) * (b.sqrt() - b);
    let e = (r * 255.0 + 0.5) as u8;
    assert_eq!(t, [e, e, e, 255]);
}
''')

bug('c19-cache', 'C19',
    'two files loaded one after the other',
    'decoded images are remembered by their index across files',
    [('src/loader/mod.rs', '''        let target = &mut target[..target_size];
        match''', '''        let target = &mut target[..target_size];
        static LAST: std::sync::Mutex<(usize, Vec<u8>)> = std::sync::Mutex::new((0, Vec::new()));
        if let Ok(last) = LAST.lock() {
            if last.0 == image.data.as_ptr() as usize && last.1.len() == target_size {
                target.copy_from_slice(&last.1);
                return Ok(());
            }
        }
        self.decode_image(image, target)?;
        if let Ok(mut last) = LAST.lock() {
            *last = (image.data.as_ptr() as usize, target.to_vec());
        }
        Ok(())
    }

    fn decode_image(&self, image: &Image<'_>, target: &mut [u8]) -> Result<(), LoadImageError> {
        let target_size = target.len();
        match''')],
    PRE + '''
fn main() {
    let mut f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, 0, 0, 1, 1, &[1, 2, 3, 4]),
    ])]);
    let mut t = vec![0; 4];
    AsepriteFile::load(&f).unwrap().load_image(0, &mut t).unwrap();
    assert_eq!(t, [1, 2, 3, 4]);
    let n = f.len();
    f[n - 4..].copy_from_slice(&[5, 6, 7, 8]);
    AsepriteFile::load(&f).unwrap().load_image(0, &mut t).unwrap();
    assert_eq!(t, [5, 6, 7, 8]);
    let _ = LayerSelection::All;
}
''')

bug('c19-env', 'C19',
    'an environment variable being set',
    'the environment decides whether unknown layer types are rendered',
    [('src/loader/mod.rs', 'Self::Visible => layer.visible,',
      'Self::Visible => layer.visible || std::env::var_os("ASEPRITE_SHOW_HIDDEN").is_some(),')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(0, 0, 0, 255, "a"),
        cel_raw(0, 0, 0, 1, 1, &[9; 4]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    std::env::set_var("ASEPRITE_SHOW_HIDDEN", "1");
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &LayerSelection::Visible).unwrap();
    assert_eq!(t, [0; 4]);
}
''')

bug('c20-rc', 'C20',
    'sending a loaded file to another thread',
    'tags hold their names through a pointer that is not thread safe',
    [('src/loader/mod.rs', '''    /// Tag name as defined in the Aseprite file.
    pub name: String,
''', '''    /// Tag name as defined in the Aseprite file.
    pub name: std::rc::Rc<str>,
'''), ('src/loader/mod.rs', 'name: tag.name.to_string(),', 'name: tag.name.into(),')],
    '''mod ase;
use aseprite_loader::loader::AsepriteFile;
fn cross<T: Send + Sync>() {}
fn main() {
    let _ = ase::z(0);
    cross::<AsepriteFile<'static>>();
}
''')

bug('c20-unsafe', 'C20',
    'a pixel index that is not checked',
    'pixels are read without bounds checks',
    [('src/lib.rs', '#![forbid(non_ascii_idents, unsafe_code)]', '#![forbid(non_ascii_idents)]'),
     ('src/loader/mod.rs', 'let cel_pixel: &[u8] = &cel_target[cel_index * 4..cel_index * 4 + 4];',
      'let cel_pixel: &[u8] = unsafe { cel_target.get_unchecked(cel_index * 4..cel_index * 4 + 4) };')],
    '''mod ase;
// The crate is built with -F unsafe_code.
fn main() {
    let _ = ase::z(0);
    let _ = aseprite_loader::binary::header::parse_header(&[]);
}
''')

bug('c21-size', 'C21',
    'a sprite that is not square',
    'width and height of the sprite are exchanged',
    [('src/loader/mod.rs', '(self.file.header.width, self.file.header.height)', '(self.file.header.height, self.file.header.width)')],
    PRE + '''
fn main() {
    let f = file(3, 1, 32, 0, &[frame(1, &[])]);
    assert_eq!(AsepriteFile::load(&f).unwrap().size(), (3, 1));
    let _ = LayerSelection::All;
}
''')

bug('c21-repeat', 'C21',
    'a tag repeated exactly once',
    'a repeat count of one is reported as not specified',
    [('src/loader/mod.rs', 'repeat: if tag.animation_repeat > 0 {', 'repeat: if tag.animation_repeat > 1 {')],
    PRE + '''
fn main() {
    let f = file(3, 1, 32, 0, &[frame(1, &[tags(&[tag(0, 0, 0, 1, "a")])])]);
    assert_eq!(AsepriteFile::load(&f).unwrap().tags()[0].repeat, Some(1));
    let _ = LayerSelection::All;
}
''')

bug('c14-beyond', 'C14',
    'a target longer than the canvas and a cel hanging over its lower border',
    'rows are clipped at the end of the target instead of the end of the canvas',
    [('src/loader/mod.rs', 'if target_y >= self.file.header.height {',
      'if usize::from(target_y) >= target.len() / 4 / usize::from(self.file.header.width) {')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[
        layer(1, 0, 0, 255, "a"),
        cel_raw(0, 0, 0, 1, 2, &[9; 8]),
    ])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 8];
    a.render_frame(0, &mut t, &LayerSelection::All).unwrap();
    assert_eq!(t, [9, 9, 9, 9, 0, 0, 0, 0]);
}
''')

HUGE = '''mod ase;
use ase::*;
use aseprite_loader::loader::AsepriteFile;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

struct Largest;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Largest {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Ordering::Relaxed);
        if l.size() > 1 << 26 {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Largest = Largest;
'''

bug('c23-slice-keys', 'C23',
    'a slice that declares far more keys than the chunk holds',
    'memory for the declared number of keys is reserved before any key is parsed',
    [('src/binary/chunks/slice.rs', '''    let (input, slice_keys) =
        count(|input| parse_slice_key(input, flags), number_of_keys).parse(input)?;
''', '''    let mut slice_keys = Vec::with_capacity(number_of_keys);
    let mut input = input;
    for _ in 0..number_of_keys {
        let (rest, key) = parse_slice_key(input, flags)?;
        slice_keys.push(key);
        input = rest;
    }
'''), ('src/binary/chunks/slice.rs', 'use nom::{combinator::cond, multi::count, Parser};', 'use nom::{combinator::cond, Parser};')],
    HUGE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[chunk(0x2022, [d(0x0fff_ffff), d(0), d(0), s("a")].concat())])]);
    assert!(AsepriteFile::load(&f).is_err());
    assert!(LARGEST.load(Ordering::Relaxed) < 1 << 20);
}
''')

bug('c23-string-vector', 'C23',
    'a vector of strings whose declared length exceeds the data',
    'memory for the declared number of strings is reserved before any string is parsed',
    [('src/binary/chunks/user_data.rs', '''            map(count(parse_string, len_elements), Vector::String).parse(input)?
''', '''            let mut strings = Vec::new();
            strings.reserve_exact(len_elements);
            let mut input = input;
            while strings.len() < len_elements {
                let (rest, string) = parse_string(input)?;
                strings.push(string);
                input = rest;
            }
            (input, Vector::String(strings))
''')],
    HUGE + '''
fn main() {
    let vector = [d(0x00ff_ffff), w(0x000d)].concat();
    let prop = [s("p"), w(0x0011), vector].concat();
    let map = [d(0), d(1), prop].concat();
    let maps = [d(8 + map.len() as u32), d(1), map].concat();
    let f = file(1, 1, 32, 0, &[frame(1, &[chunk(0x2020, [d(4), maps].concat())])]);
    let _ = AsepriteFile::load(&f);
    assert!(LARGEST.load(Ordering::Relaxed) < 1 << 20);
}
''')

bug('c22-origin', 'C22',
    'two frames that show the same linked image at different positions',
    'the hash leaves out the position of the cel',
    [('src/loader/mod.rs', '(cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);',
      '(cel.image_index, cel.layer_index, cel.size).hash(&mut hasher);')],
    PRE + '''
#[allow(deprecated)]
fn main() {
    let f = file(2, 1, 32, 0, &[
        frame(1, &[layer(1, 0, 0, 255, "a"), cel_raw(0, 0, 0, 1, 1, &[9; 4])]),
        frame(1, &[cel_link(0, 1, 0, 0)]),
    ]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 8];
    let x = a.combined_frame_image(0, &mut t).unwrap();
    let mut t = vec![0; 8];
    let y = a.combined_frame_image(1, &mut t).unwrap();
    assert_ne!(x, y);
    let _ = LayerSelection::All;
}
''')

bug('c22-first-cel', 'C22',
    'two frames that share the cel of their bottom layer and differ above it',
    'the hash covers the first cel of a frame only',
    [('src/loader/mod.rs', '''        for cel in frame.cels.iter() {
            (cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);''',
      '''        for cel in frame.cels.iter().take(1) {
            (cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);''')],
    PRE + '''
#[allow(deprecated)]
fn main() {
    let f = file(1, 1, 32, 0, &[
        frame(1, &[layer(1, 0, 0, 255, "a"), layer(1, 0, 0, 255, "b"), cel_raw(0, 0, 0, 1, 1, &[9; 4]), cel_raw(1, 0, 0, 1, 1, &[1; 4])]),
        frame(1, &[cel_link(0, 0, 0, 0), cel_raw(1, 0, 0, 1, 1, &[200; 4])]),
    ]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    let x = a.combined_frame_image(0, &mut t).unwrap();
    let mut t = vec![0; 4];
    let y = a.combined_frame_image(1, &mut t).unwrap();
    assert_ne!(x, y);
    let _ = LayerSelection::All;
}
''')

bug('c13-name-prefix', 'C13',
    'selecting a name that begins with the name of another layer',
    'layers whose name is a prefix of a requested name are selected too',
    [('src/loader/mod.rs', 'self.select_layers(|l| names.contains(&l.name.as_str()))',
      'self.select_layers(|l| names.iter().any(|n| n.starts_with(l.name.as_str())))')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[layer(1, 0, 0, 255, "arm"), layer(1, 0, 0, 255, "armor")])]);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.select_layers_by_name(&["armor"]), LayerSelection::Mask(vec![false, true]));
}
''')

bug('c13-hidden-mask', 'C13',
    'a mask that selects a layer which is hidden in the file',
    'a mask only selects layers that are visible as well',
    [('src/loader/mod.rs', 'Self::Mask(mask) => mask.get(layer_index).copied().unwrap_or(false),',
      'Self::Mask(mask) => layer.visible && mask.get(layer_index).copied().unwrap_or(false),')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[layer(0, 0, 0, 255, "a"), cel_raw(0, 0, 0, 1, 1, &[9; 4])])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    a.render_frame(0, &mut t, &a.select_layers(|_| true)).unwrap();
    assert_eq!(t, [9; 4]);
    let _ = LayerSelection::All;
}
''')

bug('c04-link-cycle', 'C04',
    'linked cels that link to each other',
    'links are followed until a cel with an image is found, which never happens in a cycle',
    [('src/loader/mod.rs', '''                    CelContent::LinkedCel { frame_position } => *image_map
                        .get(&(frame_position.into(), cel.layer_index.into()))
''', '''                    CelContent::LinkedCel { frame_position } => *image_map
                        .get(&(
                            {
                                let mut position = usize::from(frame_position);
                                while let Some(CelContent::LinkedCel { frame_position }) = file
                                    .frames
                                    .get(position)
                                    .and_then(|f| f.cels[usize::from(cel.layer_index)].as_ref())
                                    .map(|c| &c.content)
                                {
                                    position = usize::from(*frame_position);
                                }
                                position
                            },
                            cel.layer_index.into(),
                        ))
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[
        frame(1, &[layer(1, 0, 0, 255, "a"), cel_link(0, 0, 0, 1)]),
        frame(1, &[cel_link(0, 0, 0, 0)]),
    ]);
    assert!(AsepriteFile::load(&f).is_err());
    let _ = LayerSelection::All;
}
''')

bug('c03-link-chain', 'C03',
    'a long chain of linked cels, or two that link to each other',
    'links to linked cels are followed recursively without a bound',
    [('src/loader/mod.rs', '''                    CelContent::LinkedCel { frame_position } => *image_map
                        .get(&(frame_position.into(), cel.layer_index.into()))
''', '''                    CelContent::LinkedCel { frame_position } => *image_map
                        .get(&(
                            linked_frame(&file, frame_position.into(), cel.layer_index.into()),
                            cel.layer_index.into(),
                        ))
'''), ('src/loader/mod.rs', '''impl AsepriteFile<'_> {
    /// Load a aseprite file from a byte slice
''', '''fn linked_frame(file: &File<'_>, frame: usize, layer: usize) -> usize {
    let cel = file.frames.get(frame).and_then(|f| f.cels.get(layer));
    match cel.and_then(|c| c.as_ref()).map(|c| &c.content) {
        Some(CelContent::LinkedCel { frame_position }) => {
            linked_frame(file, usize::from(*frame_position), layer)
        }
        _ => frame,
    }
}

impl AsepriteFile<'_> {
    /// Load a aseprite file from a byte slice
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[
        frame(1, &[layer(1, 0, 0, 255, "a"), cel_link(0, 0, 0, 1)]),
        frame(1, &[cel_link(0, 0, 0, 0)]),
    ]);
    assert!(AsepriteFile::load(&f).is_err());
    let _ = LayerSelection::All;
}
''')

bug('c19-map-order', 'C19',
    'a frame with several cels, loaded more than once',
    'the images are collected from a hash map, so that their order differs from run to run',
    [('src/loader/mod.rs', '''        let mut frames: Vec<Frame> = Vec::new();
        let mut tags: Vec<Tag> = Vec::new();
''', '''        let mut image_order: Vec<usize> = image_map.values().copied().collect();
        image_order.dedup();
        for (position, index) in image_map.values_mut().enumerate() {
            *index = position;
        }
        let image_vec: Vec<Image<'_>> = image_order
            .into_iter()
            .map(|index| image_vec[index].clone())
            .collect();

        let mut frames: Vec<Frame> = Vec::new();
        let mut tags: Vec<Tag> = Vec::new();
''')],
    PRE + '''
fn main() {
    let mut chunks = vec![];
    for i in 0..6 {
        chunks.push(layer(1, 0, 0, 255, &format!("{i}")));
    }
    for i in 0..6 {
        chunks.push(cel_raw(i, 0, 0, 1, 1, &[9; 4]));
    }
    let f = file(1, 1, 32, 0, &[frame(1, &chunks)]);
    let order = |a: &AsepriteFile| a.frames[0].cels.iter().map(|c| c.image_index).collect::<Vec<_>>();
    let first = order(&AsepriteFile::load(&f).unwrap());
    for _ in 0..50 {
        assert_eq!(order(&AsepriteFile::load(&f).unwrap()), first);
    }
    let _ = LayerSelection::All;
}
''')

bug('c21-empty-tag', 'C21',
    'a tag without a name',
    'tags with an empty name are left out of the view',
    [('src/loader/mod.rs', 'for tag in file.tags.iter() {', 'for tag in file.tags.iter().filter(|tag| !tag.name.is_empty()) {')],
    PRE + '''
fn main() {
    let f = file(3, 1, 32, 0, &[frame(1, &[tags(&[tag(0, 0, 0, 1, ""), tag(0, 0, 0, 1, "a")])])]);
    assert_eq!(AsepriteFile::load(&f).unwrap().tags().len(), 2);
    let _ = LayerSelection::All;
}
''')

bug('c17-unknown-normal', 'C17',
    'a layer whose blend mode code the crate does not know',
    'unknown blend modes are drawn like the normal mode instead of being reported',
    [('src/loader/mod.rs', '''            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
                .ok_or(LoadImageError::UnsupportedBlendMode)?;
''', '''            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
                .or_else(|| blend_mode_to_blend_fn(BlendMode::Normal))
                .ok_or(LoadImageError::UnsupportedBlendMode)?;
''')],
    PRE + '''
fn main() {
    let f = file(1, 1, 32, 0, &[frame(1, &[layer(1, 0, 77, 255, "a"), cel_raw(0, 0, 0, 1, 1, &[9; 4])])]);
    let a = AsepriteFile::load(&f).unwrap();
    let mut t = vec![0; 4];
    assert!(a.render_frame(0, &mut t, &LayerSelection::All).is_err());
}
''')

bug('c12-link-frame-low', 'C12',
    'a link to a frame beyond the first 256',
    'only the low byte of the linked frame is used',
    [('src/loader/mod.rs', '.get(&(frame_position.into(), cel.layer_index.into()))',
      '.get(&((frame_position & 0xff).into(), cel.layer_index.into()))')],
    PRE + '''
fn main() {
    let mut frames = vec![frame(1, &[layer(1, 0, 0, 255, "a"), cel_raw(0, 0, 0, 1, 1, &[1; 4])])];
    for _ in 1..256 {
        frames.push(frame(1, &[]));
    }
    frames.push(frame(1, &[cel_raw(0, 0, 0, 1, 1, &[2; 4])]));
    frames.push(frame(1, &[cel_link(0, 0, 0, 256)]));
    let f = file(1, 1, 32, 0, &frames);
    let a = AsepriteFile::load(&f).unwrap();
    assert_eq!(a.frames[257].cels[0].image_index, 1);
    let _ = LayerSelection::All;
}
''')

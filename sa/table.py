"""The goals: which function of the crate is compared with which reference
function, and which properties the verdict supports."""
B = 'binary::'
C = 'binary::chunks::'
U = C + 'user_data::'
A = "loader::AsepriteFile::<'_>::"
CH = ' '.join(C + x for x in ('old_palette::parse_old_palette_chunk', 'layer::parse_layer_chunk', 'cel::parse_cel_chunk', 'cel_extra::parse_cel_extra_chunk',
                              'color_profile::parse_color_profile', 'external_files::parse_external_files_chunk', 'mask::parse_mask_chunk', 'tags::parse_tags_chunk',
                              'palette::parse_palette_chunk', 'user_data::parse_user_data_chunk', 'slice::parse_slice_chunk', 'tileset::parse_tileset_chunk'))


def g(id, repo, ref, props, needs='', soft=False, panic='C01', **kw):
    if 'opaque' in kw:
        kw['opaque'] = tuple(kw['opaque'].split())
    if 'C01' not in panic.split():
        kw['allocs'] = False
    d = dict(id=id, repo=repo, ref='__sa::' + ref if ref else None, props=props.split(), needs=needs.split(), soft=soft, panic=panic.split(), opts=kw)
    return d


def few(*at):
    return lambda t, p: 0 if t.startswith('std::option::Option<binary::chunks::cel') and p and p[0] not in at else None


def layers(*at):
    return lambda t, p: 0 if t.startswith('std::option::Option<binary::chunks::cel') and len(p) > 1 and p[1] not in at else None


# what the chunk parsers put into some fields (the goals chunk.* show that they do)
def no_data(e, a, t, fs, i):
    from .models import option
    from .dd import FALSE
    from .val import UNDEF
    fs[i] = option(FALSE, UNDEF)


def as_many(e, a, t, fs, i):
    """a palette chunk has an entry for every index of its range"""
    from .eng import P, atom, leaf, ite, dge, dadd, dsub, k_, ZERO, FALSE
    from .val import agg, seq
    j = [f[0] for f in t['v'][0]['f']].index('indices')
    ty = t['v'][0]['f'][i][1]
    at, el = atom('fl', (a, 0, i)), e.seq_elem(e.T[ty])
    n = e.fixed(at, e.T[el], e.T[ty])
    r = atom('fl', (a, 0, j))
    if n is not None:
        # (its own name: the bounds of an atom are fixed)
        start = leaf(P(atom('lz', (r, 'of', n.v), 0, 256 - max(1, n.v.cval()))))
        end = dadd(start, dsub(n, k_(1)))
        fs[i] = seq(('opq', at, el, n))
    else:
        start, end = (leaf(P(atom('lz', (atom('fl', (r, 0, x)),), 0, 255))) for x in (0, 1))
        fs[i] = seq(('opq', at, el, ite(dge(end, start), dadd(dsub(end, start), k_(1)), ZERO)))
    fs[j] = agg(start, end, FALSE)


CHUNKS = {('LayerChunk', 'user_data'): no_data, ('CelChunk', 'user_data'): no_data, ('SliceChunk', 'user_data'): no_data, ('Tag', 'user_data'): no_data, ('PaletteChunk', 'entries'): as_many}
# shapes of input for which the loops of a goal are run out exactly: lengths by element type
FRAMES = [('one frame', 20, {'RawFrame': 1, 'Chunk<': 4, '*': 1}), ('two frames', 20, {'RawFrame': 2, 'Chunk<': 3, '*': 2}), ('three frames', 20, {'RawFrame': 3, 'Chunk<': 2, '*': 1})]
CELS = [('one layer, two frames', 6, {'LayerChunk': 1, 'Frame<': 2, 'Option<': 1, '*': 1}), ('two layers, three frames', 20, {'LayerChunk': 2, 'Frame<': 3, 'Option<': 2, '*': 1}), ('three layers, two frames', 20, {'LayerChunk': 3, 'Frame<': 2, 'Option<': 3, '*': 2}),
        ('five layers, two frames, two layers with a cel', 40, {'LayerChunk': 5, 'Frame<': 2, 'Option<': 5, '*': 1, 'variant': layers(3, 4)}),
        ('258 layers, two frames, four layers with a cel', 1100, {'LayerChunk': 258, 'Frame<': 2, 'Option<': 258, '*': 1, 'variant': layers(0, 1, 256, 257)}),
        ('258 frames, four with a cel', 600, {'LayerChunk': 1, 'Frame<': 258, 'Option<': 1, '*': 1, 'variant': few(0, 1, 256, 257)})]
def pixels(w, h, **kw):
    return ('images of %dx%d pixels' % (w, h), 4 * w * h + 4, {'fields': {('Image', 'width'): w, ('Image', 'height'): h}, **kw})



def scene(cels, cw, ch, w, h, at=None, **kw):
    return ('%d cels of %dx%d on %dx%d%s%s' % (cels, cw, ch, w, h, ' at %d,%d' % at if at else '', ' ' + ' '.join(kw) if kw else ''), 4 * cels * cw * ch + 4,
            {'fields': {('Header', 'width'): w, ('Header', 'height'): h, ('FrameCel', 'size'): (cw, ch), ('Image', 'width'): cw, ('Image', 'height'): ch, **({('FrameCel', 'origin'): at} if at else {})}, 'FrameCel': cels, **kw, '*': 300})


SCENES = [scene(1, 1, 1, 2, 2), scene(1, 1, 2, 2, 2), scene(1, 2, 1, 40000, 1), scene(1, 1, 2, 1, 40000), scene(1, 1, 1, 3, 40000), scene(1, 2, 2, 3, 3), scene(2, 1, 1, 1, 1, at=(0, 0)), scene(3, 1, 1, 2, 1, at=(1, 0)), scene(2, 1, 1, 1, 2), scene(2, 2, 1, 2, 2), scene(3, 1, 1, 1, 1), scene(1, 1, 1, 0, 0), scene(1, 1, 1, 1, 1, bool=1), scene(1, 1, 1, 1, 1, bool=0), scene(1, 1, 1, 300, 300, at=(299, 298)), scene(1, 2, 2, 3, 3, at=(-1, -1)), scene(1, 2, 2, 3, 3, at=(2, 2)), scene(1, 2, 2, 3, 3, at=(2, -1)), scene(1, 2, 2, 3, 3, at=(-1, 2)), scene(1, 2, 3, 3, 2, at=(0, -2)), scene(1, 3, 2, 2, 3, at=(-2, 0)), scene(1, 2, 2, 3, 3, at=(-32768, 3)), scene(1, 2, 1, 40000, 1, at=(32767, 0)), scene(1, 1, 2, 1, 40000, at=(0, 32767)), scene(1, 258, 1, 258, 1, at=(0, 0)), scene(1, 1, 258, 1, 258, at=(0, 0))]
NINE = [('up to nine repetitions', 9, None)]
PALETTES = [('%d frames of %d chunks with %d entries, %d packets of %d' % (a, b, c, p, q), max(24, c + 8), {'RawFrame': a, 'Chunk<': b, 'PaletteEntry': c, 'Packet': p, 'Color': q, 'RGB': q, '*': 1})
            for a, b, c, p, q in ((1, 1, 1, 1, 1), (1, 1, 2, 2, 1), (1, 2, 1, 1, 1), (2, 1, 1, 1, 1), (1, 1, 2, 1, 2), (2, 1, 2, 2, 1), (1, 1, 256, 1, 1))]
GOALS = [
    # scalars
    g('scalar.byte', B + 'scalars::byte', 'scalars::byte', 'C07'),
    g('scalar.word', B + 'scalars::word', 'scalars::word', 'C07'),
    g('scalar.short', B + 'scalars::short', 'scalars::short', 'C07'),
    g('scalar.dword', B + 'scalars::dword', 'scalars::dword', 'C07'),
    g('scalar.long', B + 'scalars::long', 'scalars::long', 'C07'),
    g('scalar.uuid', B + 'scalars::parse_uuid', 'scalars::parse_uuid', 'C07 C08'),
    g('scalar.string', B + 'scalars::parse_string', 'scalars::parse_string', 'C07'),
    g('scalar.fixed', B + 'scalars::fixed', 'scalars::fixed', 'C07'),
    g('scalar.point', B + 'scalars::parse_point', 'scalars::parse_point', 'C07 C08'),
    g('scalar.size', B + 'scalars::parse_size', 'scalars::parse_size', 'C07 C08'),
    g('scalar.rect', B + 'scalars::parse_rect', 'scalars::parse_rect', 'C07 C08'),
    g('scalar.color', B + 'scalars::parse_color', 'scalars::parse_color', 'C07'),
    g('scalar.rgb', B + 'scalars::parse_rgb', 'scalars::parse_rgb', 'C07'),
    g('scalar.usize', B + 'scalars::parse_dword_as_usize', 'scalars::parse_dword_as_usize', 'C07'),
    # header
    g('header', B + 'header::parse_header', 'header::parse_header', 'C06 C10'),
    g('header.depth', B + 'color_depth::parse_color_depth', 'header::parse_color_depth', 'C06 C09'),
    # codes
    g('code.blend', '__sa::enums::repo_blend_mode', 'enums::blend_mode', 'C09'),
    g('code.blend.parse', B + 'blend_mode::parse_blend_mode', 'enums::parse_blend_mode', 'C09'),
    g('code.layer', '__sa::enums::repo_layer_type', 'enums::layer_type', 'C09'),
    g('code.direction', '__sa::enums::repo_direction', 'enums::direction', 'C09'),
    g('code.extfile', '__sa::enums::repo_external_file_type', 'enums::external_file_type', 'C09'),
    g('code.chunk', B + 'chunk_type::parse_chunk_type', 'enums::parse_chunk_type', 'C05 C09'),
    g('flags.layer', '__sa::layer::flag_bits', 'layer::flag_bits_want', 'C09'),
    g('flags.celextra', '__sa::misc::cel_extra_bits', 'misc::cel_extra_bits_want', 'C09'),
    g('flags.slice', '__sa::slices::slice_bits', 'slices::slice_bits_want', 'C09'),
    g('flags.tileset', '__sa::tileset::tileset_bits', 'tileset::tileset_bits_want', 'C09'),
    # chunks
    g('chunk.layer', C + 'layer::parse_layer_chunk', 'layer::parse_layer_chunk', 'C07 C09 C10'),
    g('chunk.cel', C + 'cel::parse_cel_chunk', 'cel::parse_cel_chunk', 'C07 C09 C10'),
    g('chunk.celextra', C + 'cel_extra::parse_cel_extra_chunk', 'misc::parse_cel_extra_chunk', 'C07 C10'),
    g('chunk.mask', C + 'mask::parse_mask_chunk', 'misc::parse_mask_chunk', 'C07 C10'),
    g('chunk.colorprofile', C + 'color_profile::parse_color_profile', 'misc::parse_color_profile', 'C07 C09 C10'),
    g('chunk.extfile', C + 'external_files::parse_external_file', 'misc::parse_external_file', 'C07'),
    g('chunk.extfiles', C + 'external_files::parse_external_files_chunk', 'misc::parse_external_files_chunk', 'C07 C10', fix=NINE),
    g('chunk.palette.entry', C + 'palette::parse_palette_entry', 'palettes::parse_palette_entry', 'C07 C16'),
    g('chunk.palette', C + 'palette::parse_palette_chunk', 'palettes::parse_palette_chunk', 'C07 C10 C16'),
    g('chunk.oldpalette.packet', C + 'old_palette::parse_packet', 'palettes::parse_packet', 'C07 C16'),
    g('chunk.oldpalette', C + 'old_palette::parse_old_palette_chunk', 'palettes::parse_old_palette_chunk', 'C07 C10 C16', fix=NINE),
    g('chunk.slice', C + 'slice::parse_slice_chunk', 'slices::parse_slice_chunk', 'C07 C10', fix=NINE),
    g('chunk.slice.key', '__sa::slices::repo_key', 'slices::key', 'C07'),
    g('chunk.tag', C + 'tags::parse_tag', 'tags::parse_tag', 'C07'),
    g('chunk.tags', C + 'tags::parse_tags_chunk', 'tags::parse_tags_chunk', 'C07 C09 C10', fix=NINE),
    g('chunk.tiles', C + 'tileset::parse_tiles', 'tileset::parse_tiles', 'C07'),
    g('chunk.tileset', C + 'tileset::parse_tileset_chunk', 'tileset::parse_tileset_chunk', 'C07 C10'),
    # properties
    # (recursive parsers are compared body by body; the two entry points fix the meaning of the recursion arguments)
    g('ud.value', U + 'parse_value', 'user_data::parse_value', 'C08', soft=True),
    g('ud.vector', U + 'parse_vector', 'user_data::parse_vector', 'C08', soft=True),
    g('ud.value.body', "cut:Value<'_>", 'user_data::value', 'C08', needs='ud.value ud.vector'),
    g('ud.vector.body', "cut:Vector<'_>", 'user_data::vector', 'C08', needs='ud.value ud.vector'),
    g('ud.property', U + 'parse_property', 'user_data::parse_property', 'C08', needs='ud.value ud.vector'),
    g('ud.map', U + 'parse_properties_map', 'user_data::parse_properties_map', 'C08', needs='ud.value ud.vector', fix=NINE),
    g('ud.maps', '__sa::user_data::repo_parse_properties_maps', 'user_data::parse_properties_maps', 'C08 C10', needs='ud.value ud.vector', opaque=U + 'parse_properties_map'),
    g('ud.chunk', '__sa::user_data::repo_parse_user_data_chunk', 'user_data::parse_user_data_chunk', 'C08 C10', opaque=U + 'parse_properties_maps'),
    # framing
    g('chunk', B + 'chunk::parse_chunk', 'chunk::parse_chunk', 'C05 C09 C10', opaque=CH),
    g('chunks', B + 'chunk::parse_chunks', 'chunk::parse_chunks', 'C05 C10', opaque=B + 'chunk::parse_chunk', fix=NINE),
    g('frame', B + 'raw_frame::parse_rawframe', 'chunk::parse_rawframe', 'C05 C10 C12', opaque=B + 'chunk::parse_chunks'),
    g('frames', '__sa::chunk::repo_frames', 'chunk::frames', 'C05 C10', opaque=B + 'chunk::parse_chunks'),
    g('rawfile', B + 'raw_file::parse_raw_file', 'chunk::parse_raw_file', 'C05 C10', opaque=B + 'raw_frame::parse_frames ' + B + 'header::parse_header', fix=NINE),
    # assembling the file
    g('file', B + 'file::parse_file', 'file::parse_file', 'C10 C11 C12', opaque=B + 'raw_file::parse_raw_file ' + B + 'palette::create_palette', known=CHUNKS, fix=FRAMES),
    g('palette', B + 'palette::create_palette', 'palette::create_palette', 'C16', known=CHUNKS, fix=PALETTES),
    # the rendering view
    g('file.inv', '__sa::loader::repo_consistent', 'loader::yes', 'C12', opaque=B + 'raw_file::parse_raw_file ' + B + 'palette::create_palette', known=CHUNKS, fix=FRAMES, bound=0),
    g('load', '__sa::loader::repo_load', 'loader::load', 'C12 C21', opaque=B + 'file::parse_file', pre='__sa::loader::pre_load', fix=CELS),
    g('load.inv', '__sa::loader::repo_loaded', 'loader::all_loaded', 'C12', opaque=B + 'file::parse_file', pre='__sa::loader::pre_load', fix=CELS, bound=0),
    g('decompress', 'loader::decompress', 'loader::decompress', 'C15', panic='C02'),
    g('image', '__sa::loader::repo_load_image', 'loader::load_image', 'C15', panic='C02', opaque='loader::decompress', pre='__sa::loader::pre_image', fix=[pixels(1, 1), pixels(2, 1), pixels(0, 3)]),
    g('render', '__sa::loader::repo_render_frame', 'loader::render_frame', 'C13 C14 C17', panic='C02', opaque="loader::AsepriteFile::<'_>::load_image", fpopaque=True, pre='__sa::loader::pre_frame', fix=SCENES),
]
GOALS += [
    # what the loaded sprite reports, and how layers are selected
    g('view.size', A + 'size', 'view::size', 'C21'),
    g('view.tags', A + 'tags', 'view::tags', 'C21'),
    g('view.layers', A + 'layers', 'view::layers', 'C21'),
    g('view.frames', A + 'frames', 'view::frames', 'C21'),
    g('view.images', A + 'image_count', 'view::image_count', 'C21'),
    g('view.slices', '__sa::view::repo_slices', 'view::slices', 'C21'),
    g('view.select', '__sa::view::repo_select', 'view::select', 'C13', panic='C02', fpopaque=True),
    g('view.names', A + 'select_layers_by_name', 'view::select_by_name', 'C13', panic='C02', fix=[('two layers, one name', 4, {'Layer': 2, '*': 1}), ('two layers, two names', 4, {'*': 2})]),
    g('view.combined', A + 'combined_frame_image', 'view::combined', 'C13 C22', panic='C02', opaque=A + 'render_frame', pre='__sa::view::pre_combined'),
    g('depth.bpp', B + 'color_depth::ColorDepth::bpp', 'view::bpp', 'C09'),
    g('depth.size', B + 'color_depth::ColorDepth::pixel_size', 'view::pixel_size', 'C09'),
    g('frame.cels', '__sa::view::repo_cels', 'view::cels', 'C12'),
]
MODES = 'normal multiply screen overlay darken lighten color_dodge color_burn hard_light soft_light difference exclusion hue saturation color luminosity addition subtract divide'.split()
GOALS += [g('blend.' + m, '__sa::blend::repo_' + m, 'blend::' + m, 'C17 C18', panic='C02') for m in MODES]
GOALS += [g('blend.unknown', '__sa::blend::repo_unknown', 'blend::unknown', 'C17', panic='C02')]

from .rules import RULES
PANIC = {}
LEVEL = {}
TRUSTED = ['rustc (MIR of the crate and of its dependencies)', 'models of core/alloc/nom leaf functions in sa/models.py', 'reference functions in ref/', 'sa/ (abstract evaluator, linear integer decision procedure)']
ASSUME = ['64-bit target', 'no allocation failure', 'no object is larger than 2^48 bytes', 'no loop runs more than 2^62 times']

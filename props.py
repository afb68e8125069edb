"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
B, K, L = 'src/binary/', 'src/binary/chunks/', 'src/loader/'
P = []


def p(id, title, statement, over, text, why, files, mech, claim=True, technique='', note='', reason='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, technique=technique, note=note, reason=reason, observe=list(observe)))


CHUNKS = [K + f + '.rs' for f in ('layer', 'cel', 'cel_extra', 'color_profile', 'external_files', 'mask', 'palette', 'old_palette', 'slice', 'tags', 'tileset', 'user_data')]
EQ = 'MIR value-flow equivalence with a reference function'
EQN = ('The exported MIR of the crate and of a reference function are evaluated over all inputs (gated value flow, loop summaries) and every component of the results is compared; '
       'differences are reported only with a verified integer model. Trusts the models of core/alloc/nom leaf functions, the reference functions and rustc; loops that cannot be aligned are compared with two iterations unrolled.')
OB = 'panic-site obligations over MIR value flow'
OBN = ('Every assertion, index, slice, unwrap, arithmetic overflow and explicit panic in the call tree of the entry points becomes an obligation discharged by linear integer reasoning over all inputs; '
       'an obligation is reported only with a verified model of the input facts, obligations it cannot decide are listed as undecided in the evidence. Assumes a 64-bit target and no allocation failure.')

p('C01', 'Loading never panics, whatever the bytes',
  'Parsing any byte sequence, in either the low-level or the high-level form, or loading it for rendering, returns a value or an error and never panics, including through arithmetic overflow with overflow checks enabled.',
  ['inputs'], 'every byte sequence given to any of the loading entry points',
  'The tests load a handful of well-formed files; a panic needs one particular malformed length, count or index out of all byte sequences.',
  ['src/binary', 'src/loader/mod.rs'], [('complete-input parsers return errors instead of indexing', B), ('checked lookups in the cel and layer tables', B + 'file.rs')],
  technique=OB, note=OBN)
p('C02', 'Rendering and image decoding never panic',
  'For every file that loads, rendering an existing frame or decoding an existing image into a caller-provided buffer of any length returns a value or an error and never panics, with overflow checks enabled.',
  ['inputs'], 'every loadable file, every existing frame or image index and every buffer length',
  'The tests render well-formed sprites into buffers of the right size; wrong lengths, off-canvas cels and out-of-range palette indices each need a specific file.',
  [L + 'mod.rs', L + 'blend.rs'], [('region and length checks before indexing', L + 'mod.rs')], technique=OB, note=OBN)
p('C03', 'Recursion depth is bounded regardless of the input',
  'The depth of nested calls made while loading or rendering does not grow without bound with the input: nested values are only followed to a fixed depth, and nothing else recurses.',
  ['inputs'], 'every byte sequence', 'No test nests values deeply, and stack exhaustion aborts the process instead of failing a test.',
  [K + 'user_data.rs'], [('a depth counter passed through the recursive value parsers', K + 'user_data.rs')],
  technique='call-graph cycles with a strictly increasing, bounded depth argument', note='Every cycle of the resolved call graph reachable from the public functions is enumerated, and on every recursive call of a cycle the depth argument is shown to grow and to stay below a constant. Trusts the resolved call graph (no recursion through trait objects exists).')
p('C04', 'Loading and rendering always terminate',
  'Every loop executed while loading or rendering makes progress: it consumes input, advances through a finite collection or counts towards a bound, so that no input makes it run forever.',
  ['inputs'], 'every byte sequence and every loaded file', 'A non-terminating input hangs instead of failing, and the tests contain none of the degenerate lengths that could cause it.',
  ['src'], [('counted and consuming repetition', B), ('iteration over finite ranges and slices', L + 'mod.rs')],
  technique='loop inventory over MIR with a progress measure per loop', note='Each natural loop of each reachable function must be driven by an iterator over a finite source or have a recognised measure; loops without one are reported only when the loop state provably repeats.')
p('C05', 'Files, frames and chunks are framed by their declared sizes',
  'A file is its header followed by frames up to the end of the input, a frame its header followed by the declared number of chunks (the 32-bit count, or the 16-bit count when that is zero), and a chunk occupies exactly the number of bytes it declares, whatever its payload parser consumes; smaller sizes than the chunk header, wrong magic numbers and truncation are errors, and chunks of unknown type keep their type code and exact payload bytes.',
  ['inputs'], 'every byte sequence', 'The tests only read files in which every chunk is exactly as long as its content; trailing bytes inside chunks, both chunk counters and unknown types occur for particular inputs only.',
  [B + 'raw_file.rs', B + 'raw_frame.rs', B + 'chunk.rs', B + 'chunk_type.rs'], [('chunk payload sliced out before it is parsed', B + 'chunk.rs')], technique=EQ, note=EQN)
p('C06', 'The file header is decoded as the file format specifies',
  'Every header field is read from its documented offset with its documented width, signedness and byte order; a wrong magic number, a colour depth other than 8, 16 or 32 bits and an incomplete header are errors, the pixel aspect and flags are kept as stored, and zero stands for 256 palette colours in old files.',
  ['inputs'], 'every byte sequence', 'Each sample file fixes one value of every field; two fields with equal values, or zero, can be exchanged without a test noticing.',
  [B + 'header.rs', B + 'color_depth.rs'], [('sequential little-endian field reads', B + 'header.rs')], technique=EQ, note=EQN)
p('C07', 'Every chunk field is decoded as the file format specifies',
  'For each chunk type every field is read with its documented order, width, signedness and byte order, optional parts exist exactly when their flag or type says so, counted parts have exactly the declared number of elements, strings are the declared number of UTF-8 bytes, and reserved bytes are skipped.',
  ['inputs'], 'every payload of every chunk type', 'Sample files exercise few chunk types, flag combinations and counts, mostly zero or one, which hides exchanged, truncated or sign-confused fields.',
  [B + 'scalars.rs'] + CHUNKS, [('sequential field reads and counted repetition', K)], technique=EQ, note=EQN)
p('C08', 'User data and property values are decoded as specified',
  'A user data chunk carries text, colour and property maps exactly when the corresponding flag is set; each property value is decoded by its own type code with the documented width, including vectors whose elements share one type or carry their own, nested maps and identifiers, and an unknown type code is an error.',
  ['inputs', 'programs'], 'every payload, with values nested in any way', 'The sample file contains some of the 19 value types at shallow nesting and no homogeneous vector of most types.',
  [K + 'user_data.rs'], [('dispatch on the type code', K + 'user_data.rs')], technique=EQ + ', recursion by induction', note=EQN + ' Recursive parsers are compared body by body under the hypothesis that the recursive calls agree.')
p('C09', 'Codes and flags decode to the documented meaning; unknown ones survive',
  'Each numeric code of a blend mode, layer type, colour depth, animation direction, external file type, chunk type and cel type denotes exactly its documented variant, every other code is kept as unknown with its value (or rejected where the format leaves no room for it), and each flag bit means what the format documents.',
  ['inputs'], 'every 8, 16 or 32 bit code', 'The tests decode the few codes that occur in sample files, not all 65536 values of each.',
  [B + 'blend_mode.rs', B + 'chunk_type.rs', B + 'color_depth.rs', K + 'layer.rs', K + 'tags.rs', K + 'external_files.rs', K + 'cel.rs'], [('enumerations with explicit discriminants', B)], technique=EQ, note=EQN)
p('C10', 'Malformed input is reported as an error, never as a shortened result',
  'A parser succeeds exactly when all bytes its format requires are present and valid; whenever a count, size or string length exceeds the available data, or a required magic number, code or encoding is wrong, the result is an error rather than a partial value.',
  ['inputs'], 'every byte sequence, in particular every truncation of every valid one', 'The tests contain no truncated or inconsistent file.',
  [B + 'errors.rs', B + 'chunk.rs'] + CHUNKS, [('complete-input parsers and error propagation', B)], technique=EQ, note=EQN + ' The success condition of each parser is compared with that of its reference as part of the result.')
p('C11', 'User data is attached to the element it follows',
  'A user data chunk belongs to the layer, cel, slice, tag or palette it follows: data after a tags chunk goes to the tags in order and data after the palette in the first frame goes to the sprite; an element without a following user data chunk has none.',
  ['inputs', 'histories'], 'every order of chunks in every frame', 'Sample files contain the chunk orders the editor writes; association goes wrong for particular sequences of chunks.',
  [B + 'file.rs'], [('lookahead after each chunk', B + 'file.rs')], technique=EQ, note=EQN)
p('C12', 'The frame and cel tables reproduce the file, linked cels the linked content',
  'Each frame has its stored duration and, for every layer, the cel the frame stores for that layer or none; a cel for a layer that does not exist is an error; a linked cel shows the image that the frame it links to stores for the same layer, at the position of the linked cel itself, and a link to a cel without an image is an error.',
  ['inputs', 'histories'], 'every file with any number of frames, layers, cels and links', 'The sample files have few layers and links; indices go wrong for cels out of order, links between distant frames, or unusual layer positions.',
  [B + 'file.rs', L + 'mod.rs'], [('cel table indexed by layer', B + 'file.rs'), ('link resolution', L + 'mod.rs')], technique=EQ, note=EQN)
p('C13', 'Exactly the requested layers are rendered',
  'A frame is rendered from the cels of its normal layers that the selection asks for: the visible selection takes the layers flagged visible, the selection of all takes every layer, and a mask takes the layers whose entry is true, layers beyond its end being left out; selecting by predicate or by name makes the mask with one entry per layer, true exactly for the layers accepted or named. Group and tilemap layers draw nothing.',
  ['inputs', 'configurations'], 'every layer list and every selection', 'The tests use a few selections on files whose layers are nearly all visible.',
  [L + 'mod.rs'], [('selection predicate', L + 'mod.rs')], technique=EQ, note=EQN)
p('C14', 'Cels are drawn at their position, clipped to the canvas and the image',
  'Rendering a frame writes the pixel at image position (x, y) of each cel to canvas position (cel x + x, cel y + y) and nowhere else, draws nothing outside the canvas, draws layers from bottom to top, and reports an error instead of writing when the target is shorter than the canvas.',
  ['inputs'], 'every canvas size, cel position, cel size and target length', 'The tests render sprites whose cels lie inside the canvas; negative and overlapping positions each need a specific file.',
  [L + 'mod.rs'], [('clipping of the cel rectangle', L + 'mod.rs')], technique=EQ, note=EQN)
p('C15', 'Pixels decode by colour depth, and wrong amounts of data are rejected',
  'A grayscale pixel (v, a) decodes to (v, v, v, a), an indexed pixel to the palette colour at its index, and an RGBA pixel to its four bytes; compressed or raw data with too few or too many bytes for the image size, a missing palette and a target shorter than the image are errors, and nothing is written past the image in a longer target.',
  ['inputs'], 'every image, palette and target buffer', 'The tests decode correct images only.',
  [L + 'mod.rs', B + 'image.rs', K + 'cel.rs'], [('length checks and per-depth conversion', L + 'mod.rs')], technique=EQ, note=EQN)
p('C16', 'The sprite palette is built from the newest palette chunks the file provides',
  'The palette in use is built from all current palette chunks of the file in order if there is any, otherwise from the old palette chunks of the later kind (0x0004), otherwise from those of the earlier kind (0x0011), whose 6-bit components are scaled to 8 bits; skip counts and first indices are respected, every colour appears at its index with later entries replacing earlier ones, the transparent index is fully transparent, and indices beyond 255 or a missing palette in an indexed file are errors.',
  ['inputs'], 'every set of palette chunks', 'Sample files contain one palette chunk starting at index zero.',
  [B + 'palette.rs', K + 'palette.rs', K + 'old_palette.rs'], [('palette construction', B + 'palette.rs')], technique=EQ, note=EQN)
p('C17', 'Each blend mode uses its own blend function and the opacity of its layer',
  'A layer is blended with the function its blend mode names and with the opacity of that layer, and a blend mode that is not known is reported as an error rather than replaced.',
  ['inputs'], 'every blend mode code and layer opacity', 'The tests contain one or two layers per mode at a single opacity.',
  [L + 'mod.rs', L + 'blend.rs'], [('table from mode to function', L + 'blend.rs')], technique=EQ, note=EQN)
p('C18', 'Blend functions compute the documented formulas',
  'For all colours and opacities the separable integer blend modes compute the editor\'s documented formula with its rounding, a fully transparent source leaves the backdrop unchanged, and a fully transparent backdrop is replaced by the source with its alpha scaled by the opacity.',
  ['inputs'], 'every pair of colours and every opacity', 'The tests compare one picture per mode with a reference picture within a tolerance.',
  [L + 'blend.rs'], [('per-channel blend functions', L + 'blend.rs')], technique=EQ, note=EQN)
p('C19', 'Loading and rendering depend on nothing but their arguments',
  'The result of loading or rendering is a function of the given bytes and arguments only: no global mutable state, file, environment, clock, thread or random source is consulted and nothing outside the returned value and the given buffer is written.',
  ['inputs', 'histories'], 'every call sequence', 'A single test run cannot distinguish a result that depends on history or environment from one that does not.',
  ['src'], [('pure functions over borrowed input', 'src')], technique='effect analysis over the resolved call graph', note='Every function reachable from the public API is enumerated from MIR; statics, calls into std modules with effects and interior mutability are violations. Trusts the resolved call graph; iteration over hash maps is the one listed order-sensitive construct.')
p('C20', 'The crate is free of unsafe code and its values can cross threads',
  'All code of the crate is safe Rust, so that no input can cause undefined behaviour in it, and the loaded file types can be shared between and sent to other threads.',
  ['programs', 'schedules'], 'every program using the crate', 'Undefined behaviour and data races need not show in a test run.',
  ['src'], [('safe code only', 'src'), ('no interior mutability in loaded values', L + 'mod.rs')], technique='MIR and type inventory, compile-time trait witnesses', note='Unsafe blocks, functions, impls and raw pointer dereferences in the crate are counted from the compiler\'s own analysis; Send and Sync of the public types are decided by the type checker.')
p('C21', 'The rendering view mirrors the parsed file',
  'The names, frame durations, tags with their ranges, directions and repeats, canvas size, slices and layer list reported by the loaded sprite equal those stored in the file.',
  ['inputs'], 'every loadable file', 'The tests compare a few of these attributes on one or two files.',
  [L + 'mod.rs'], [('conversion from the parsed file', L + 'mod.rs')], technique=EQ, note=EQN)

p('C22', 'The combined image and its hash describe the visible frame',
  'The combined image of a frame is the frame rendered with its visible layers, errors included, and its hash is determined by the image, layer, origin and size of every cel of the frame, in order, and by nothing else, so that frames whose cels are the same in these respects have the same hash and differing ones are told apart as far as a 64-bit hash can.',
  ['inputs'], 'every loaded file and frame', 'The tests render a few frames; a field left out of the hash, or one too many, shows only between particular frames.',
  [L + 'mod.rs'], [('hash over the cels of the frame', L + 'mod.rs')], technique=EQ, note=EQN + ' The hasher is modelled as the sequence of values fed to it.')

p('C23', 'No memory is reserved for counts the input does not back',
  'While loading, the number of elements for which memory is reserved ahead of their data is bounded by a constant or by the length of a collection that already exists; it is never a count or size taken from the file unchecked, so that a short file cannot make loading reserve gigabytes.',
  ['inputs'], 'every byte sequence', 'A file that declares four billion elements and contains none makes no test fail as long as it is not among the samples, and aborts the process if memory runs out.',
  ['src/binary', L + 'mod.rs'], [('counted repetition grows as elements are parsed', B)], technique='allocation-size obligations over MIR value flow',
  note='Every call in the call trees of the loading functions (nom included) that reserves memory ahead of contents is an obligation: the reserved number of elements, less the lengths of existing collections, stays below 2^20 for all inputs. Reported only with a verified model of the input facts. Memory held by parsed values and pixel buffers allocated while rendering are outside.')


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    skip = set(open(os.path.join(here, 'unclaimed.txt')).read().split()) if os.path.exists(os.path.join(here, 'unclaimed.txt')) else set()
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']},
                                'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']], 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
    for x in P:
        if x['claim'] and x['id'] not in skip:
            m['checks'].append({'property': x['id'], 'quick_cmd': 'python3 check.py %s quick' % x['id'], 'thorough_cmd': 'python3 check.py %s thorough' % x['id'],
                                'technique': x['technique'], 'level': 'other', 'level_note': x['note']})
        else:
            m['not_applicable'].append({'property': x['id'], 'reason': x['reason'] or 'not claimed yet'})
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


if __name__ == '__main__':
    main()

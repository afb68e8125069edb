//! Builds Aseprite files byte by byte, following the file format
//! specification, for the demonstrations.
#![allow(dead_code)]

pub fn w(x: u16) -> Vec<u8> {
    x.to_le_bytes().to_vec()
}
pub fn d(x: u32) -> Vec<u8> {
    x.to_le_bytes().to_vec()
}
pub fn s(x: &str) -> Vec<u8> {
    [w(x.len() as u16), x.as_bytes().to_vec()].concat()
}
pub fn z(n: usize) -> Vec<u8> {
    vec![0; n]
}

pub fn header(width: u16, height: u16, bpp: u16, transparent: u8, frames: u16) -> Vec<u8> {
    [
        d(0),
        w(0xA5E0),
        w(frames),
        w(width),
        w(height),
        w(bpp),
        d(1),
        w(100),
        z(8),
        vec![transparent],
        z(3),
        w(256),
        vec![1, 1],
        w(0),
        w(0),
        w(16),
        w(16),
        z(84),
    ]
    .concat()
}

pub fn file(width: u16, height: u16, bpp: u16, transparent: u8, frames: &[Vec<u8>]) -> Vec<u8> {
    let mut out = header(width, height, bpp, transparent, frames.len() as u16);
    for f in frames {
        out.extend(f);
    }
    let n = out.len() as u32;
    out[0..4].copy_from_slice(&n.to_le_bytes());
    out
}

pub fn frame_counts(duration: u16, old: u16, new: u32, chunks: &[Vec<u8>]) -> Vec<u8> {
    let body = chunks.concat();
    [
        d(16 + body.len() as u32),
        w(0xF1FA),
        w(old),
        w(duration),
        z(2),
        d(new),
        body,
    ]
    .concat()
}

pub fn frame(duration: u16, chunks: &[Vec<u8>]) -> Vec<u8> {
    frame_counts(duration, chunks.len().min(0xffff) as u16, chunks.len() as u32, chunks)
}

pub fn chunk(kind: u16, payload: Vec<u8>) -> Vec<u8> {
    [d(6 + payload.len() as u32), w(kind), payload].concat()
}

pub fn layer(flags: u16, kind: u16, blend: u16, opacity: u8, name: &str) -> Vec<u8> {
    chunk(
        0x2004,
        [
            w(flags),
            w(kind),
            w(0),
            w(0),
            w(0),
            w(blend),
            vec![opacity],
            z(3),
            s(name),
            if kind == 2 { d(0) } else { vec![] },
        ]
        .concat(),
    )
}

pub fn cel_head(layer: u16, x: i16, y: i16, kind: u16) -> Vec<u8> {
    [w(layer), w(x as u16), w(y as u16), vec![255], w(kind), w(0), z(5)].concat()
}

pub fn cel_raw(layer: u16, x: i16, y: i16, width: u16, height: u16, data: &[u8]) -> Vec<u8> {
    chunk(
        0x2005,
        [cel_head(layer, x, y, 0), w(width), w(height), data.to_vec()].concat(),
    )
}

pub fn cel_zlib(layer: u16, x: i16, y: i16, width: u16, height: u16, data: &[u8]) -> Vec<u8> {
    chunk(
        0x2005,
        [cel_head(layer, x, y, 2), w(width), w(height), zlib(data)].concat(),
    )
}

pub fn cel_link(layer: u16, x: i16, y: i16, frame: u16) -> Vec<u8> {
    chunk(0x2005, [cel_head(layer, x, y, 1), w(frame)].concat())
}

/// A zlib stream made of one stored block.
pub fn zlib(data: &[u8]) -> Vec<u8> {
    let n = data.len() as u16;
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + u32::from(*x)) % 65521;
        b = (b + a) % 65521;
    }
    let sum = (b << 16) | a;
    [
        vec![0x78, 0x01, 0x01],
        w(n),
        w(!n),
        data.to_vec(),
        sum.to_be_bytes().to_vec(),
    ]
    .concat()
}

pub fn tag(from: u16, to: u16, direction: u8, repeat: u16, name: &str) -> Vec<u8> {
    [
        w(from),
        w(to),
        vec![direction],
        w(repeat),
        z(6),
        vec![1, 2, 3, 0],
        s(name),
    ]
    .concat()
}

pub fn tags(tags: &[Vec<u8>]) -> Vec<u8> {
    chunk(0x2018, [w(tags.len() as u16), z(8), tags.concat()].concat())
}

pub fn text(t: &str) -> Vec<u8> {
    chunk(0x2020, [d(1), s(t)].concat())
}

pub fn palette(first: u32, colors: &[[u8; 4]]) -> Vec<u8> {
    let mut p = [d(256), d(first), d(first + colors.len() as u32 - 1), z(8)].concat();
    for c in colors {
        p.extend(w(0));
        p.extend(c);
    }
    chunk(0x2019, p)
}

pub fn old_palette(kind: u16, packets: &[(u8, Vec<[u8; 3]>)]) -> Vec<u8> {
    let mut p = w(packets.len() as u16);
    for (skip, colors) in packets {
        p.push(*skip);
        p.push(colors.len() as u8);
        for c in colors {
            p.extend(c);
        }
    }
    chunk(kind, p)
}

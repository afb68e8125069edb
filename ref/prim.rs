//! Reading primitives of the reference model (independent of the code under analysis).
pub type R<'a, T> = Result<(&'a [u8], T), ()>;

pub fn take<'a>(i: &'a [u8], n: usize) -> R<'a, &'a [u8]> {
    if i.len() < n {
        return Err(());
    }
    Ok((&i[n..], &i[..n]))
}
pub fn r8<'a>(i: &'a [u8]) -> R<'a, u8> {
    if i.len() < 1 {
        return Err(());
    }
    Ok((&i[1..], i[0]))
}
pub fn r16<'a>(i: &'a [u8]) -> R<'a, u16> {
    if i.len() < 2 {
        return Err(());
    }
    Ok((&i[2..], u16::from_le_bytes([i[0], i[1]])))
}
pub fn r32<'a>(i: &'a [u8]) -> R<'a, u32> {
    if i.len() < 4 {
        return Err(());
    }
    Ok((&i[4..], u32::from_le_bytes([i[0], i[1], i[2], i[3]])))
}
pub fn r64<'a>(i: &'a [u8]) -> R<'a, u64> {
    if i.len() < 8 {
        return Err(());
    }
    Ok((&i[8..], u64::from_le_bytes([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]])))
}
pub fn r128<'a>(i: &'a [u8]) -> R<'a, u128> {
    if i.len() < 16 {
        return Err(());
    }
    Ok((
        &i[16..],
        u128::from_le_bytes([
            i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13],
            i[14], i[15],
        ]),
    ))
}
pub fn s8<'a>(i: &'a [u8]) -> R<'a, i8> {
    let (i, v) = r8(i)?;
    Ok((i, v as i8))
}
pub fn s16<'a>(i: &'a [u8]) -> R<'a, i16> {
    let (i, v) = r16(i)?;
    Ok((i, v as i16))
}
pub fn s32<'a>(i: &'a [u8]) -> R<'a, i32> {
    let (i, v) = r32(i)?;
    Ok((i, v as i32))
}
pub fn s64<'a>(i: &'a [u8]) -> R<'a, i64> {
    let (i, v) = r64(i)?;
    Ok((i, v as i64))
}
pub fn f32_<'a>(i: &'a [u8]) -> R<'a, f32> {
    let (i, v) = r32(i)?;
    Ok((i, f32::from_bits(v)))
}
pub fn f64_<'a>(i: &'a [u8]) -> R<'a, f64> {
    let (i, v) = r64(i)?;
    Ok((i, f64::from_bits(v)))
}
/// 16 bit length, then that many bytes of UTF-8
pub fn string<'a>(i: &'a [u8]) -> R<'a, &'a str> {
    let (i, n) = r16(i)?;
    let (i, b) = take(i, n as usize)?;
    match core::str::from_utf8(b) {
        Ok(s) => Ok((i, s)),
        Err(_) => Err(()),
    }
}
/// `n` repetitions of `f`
pub fn times<'a, T>(i: &'a [u8], n: usize, f: impl Fn(&'a [u8]) -> R<'a, T>) -> R<'a, Vec<T>> {
    let mut i = i;
    let mut out = Vec::new();
    for _ in 0..n {
        let (j, v) = f(i)?;
        out.push(v);
        i = j;
    }
    Ok((i, out))
}

/// a value about which nothing is said
pub fn any<T>() -> T {
    unimplemented!()
}

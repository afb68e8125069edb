use crate::binary::blend_mode::BlendMode;
use crate::loader::__sa_items::{blend_mode_to_blend_fn, Color};

// Aseprite's doc/blend_funcs.cpp; channels are 0..=255

/// a * b / 255, rounded
fn part(a: i32, b: i32) -> i32 {
    let t = a * b + 128;
    ((t >> 8) + t) >> 8
}

fn mul(a: i32, b: i32) -> i32 {
    part(a, b) as u8 as i32
}

fn div(a: i32, b: i32) -> i32 {
    ((a * 255 + b / 2) / b) as u8 as i32
}

fn col(r: i32, g: i32, b: i32, a: i32) -> Color {
    Color { r: r as u8, g: g as u8, b: b as u8, a: a as u8 }
}

pub fn normal(b: Color, s: Color, opacity: u8) -> Color {
    let sa = mul(s.a as i32, opacity as i32);
    if b.a == 0 {
        return Color { r: s.r, g: s.g, b: s.b, a: sa as u8 };
    }
    if s.a == 0 {
        return b;
    }
    let ba = b.a as i32;
    let ra = sa + ba - mul(ba, sa);
    let ch = |b: u8, s: u8| b as i32 + ((s as i32 - b as i32) * sa) / ra;
    col(ch(b.r, s.r), ch(b.g, s.g), ch(b.b, s.b), ra)
}

fn merge(b: Color, s: Color, opacity: i32) -> Color {
    let mix = |b: u8, s: u8| b as i32 + part(s as i32 - b as i32, opacity);
    let a = mix(b.a, s.a);
    if a as u8 == 0 {
        return col(0, 0, 0, 0);
    }
    if b.a == 0 {
        return col(s.r as i32, s.g as i32, s.b as i32, a);
    }
    if s.a == 0 {
        return col(b.r as i32, b.g as i32, b.b as i32, a);
    }
    col(mix(b.r, s.r), mix(b.g, s.g), mix(b.b, s.b), a)
}

/// mixes the plain and the blended colour by the backdrop's alpha
fn finish(b: Color, s: Color, opacity: u8, blended: Color) -> Color {
    if b.a == 0 {
        return normal(b, s, opacity);
    }
    let plain = normal(b, s, opacity);
    let blend = normal(b, blended, opacity);
    let both = merge(plain, blend, b.a as i32);
    let total = mul(s.a as i32, opacity as i32);
    merge(both, blend, mul(b.a as i32, total))
}

fn channels<F: Fn(i32, i32) -> i32>(b: Color, s: Color, opacity: u8, f: F) -> Color {
    let blended = Color {
        r: f(b.r as i32, s.r as i32) as u8,
        g: f(b.g as i32, s.g as i32) as u8,
        b: f(b.b as i32, s.b as i32) as u8,
        a: s.a,
    };
    finish(b, s, opacity, blended)
}

fn hard(b: i32, s: i32) -> i32 {
    if s < 128 {
        mul(b, s * 2)
    } else {
        let s = s * 2 - 255;
        b + s - mul(b, s)
    }
}

fn soft(b: i32, s: i32) -> i32 {
    let b = b as f64 / 255.0;
    let s = s as f64 / 255.0;
    let d = if b <= 0.25 { ((16.0 * b - 12.0) * b + 4.0) * b } else { b.sqrt() };
    let r = if s <= 0.5 { b - (1.0 - 2.0 * s) * b * (1.0 - b) } else { b + (2.0 * s - 1.0) * (d - b) };
    (r * 255.0 + 0.5) as u32 as i32
}

pub fn multiply(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, mul)
}
pub fn screen(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| b + s - mul(b, s))
}
pub fn overlay(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| hard(s, b))
}
pub fn darken(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| if b < s { b } else { s })
}
pub fn lighten(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| if b > s { b } else { s })
}
pub fn color_dodge(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| {
        if b == 0 {
            0
        } else if b >= 255 - s {
            255
        } else {
            div(b, 255 - s)
        }
    })
}
pub fn color_burn(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| {
        if b == 255 {
            255
        } else if 255 - b >= s {
            0
        } else {
            255 - div(255 - b, s)
        }
    })
}
pub fn hard_light(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, hard)
}
pub fn soft_light(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, soft)
}
pub fn difference(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| if b > s { b - s } else { s - b })
}
pub fn exclusion(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| b + s - 2 * mul(b, s))
}
pub fn addition(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| if b + s > 255 { 255 } else { b + s })
}
pub fn subtract(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| if b < s { 0 } else { b - s })
}
pub fn divide(b: Color, s: Color, o: u8) -> Color {
    channels(b, s, o, |b, s| {
        if b == 0 {
            0
        } else if b >= s {
            255
        } else {
            div(b, s)
        }
    })
}

type Rgb = (f64, f64, f64);

fn unit(c: Color) -> Rgb {
    (c.r as f64 / 255.0, c.g as f64 / 255.0, c.b as f64 / 255.0)
}

fn lum(c: Rgb) -> f64 {
    0.3 * c.0 + 0.59 * c.1 + 0.11 * c.2
}

fn sat(c: Rgb) -> f64 {
    c.0.max(c.1.max(c.2)) - c.0.min(c.1.min(c.2))
}

fn set_lum(c: Rgb, l: f64) -> Rgb {
    let d = l - lum(c);
    clip((c.0 + d, c.1 + d, c.2 + d))
}

fn clip(c: Rgb) -> Rgb {
    let l = lum(c);
    let n = c.0.min(c.1.min(c.2));
    let x = c.0.max(c.1.max(c.2));
    let mut c = c;
    if n < 0.0 {
        let f = |v: f64| l + (((v - l) * l) / (l - n));
        c = (f(c.0), f(c.1), f(c.2));
    }
    if x > 1.0 {
        let f = |v: f64| l + (((v - l) * (1.0 - l)) / (x - l));
        c = (f(c.0), f(c.1), f(c.2));
    }
    c
}

/// the order of the channels the way Aseprite determines it
fn set_sat(c: Rgb, s: f64) -> Rgb {
    let (r, g, b) = c;
    let mut v = [r, g, b];
    let min = if r < g.min(b) {
        0
    } else if g < b {
        1
    } else {
        2
    };
    let max = if r > g.max(b) {
        0
    } else if g > b {
        1
    } else {
        2
    };
    let mid = if r > g {
        if g > b {
            1
        } else if r > b {
            2
        } else {
            0
        }
    } else if g > b {
        if b > r {
            2
        } else {
            0
        }
    } else {
        1
    };
    if v[max] > v[min] {
        v[mid] = ((v[mid] - v[min]) * s) / (v[max] - v[min]);
        v[max] = s;
    } else {
        v[mid] = 0.0;
        v[max] = 0.0;
    }
    v[min] = 0.0;
    (v[0], v[1], v[2])
}

fn hsl(b: Color, s: Color, o: u8, c: Rgb) -> Color {
    let blended = Color { r: (c.0 * 255.0) as i32 as u8, g: (c.1 * 255.0) as i32 as u8, b: (c.2 * 255.0) as i32 as u8, a: s.a };
    finish(b, s, o, blended)
}

pub fn hue(b: Color, s: Color, o: u8) -> Color {
    let (ub, us) = (unit(b), unit(s));
    hsl(b, s, o, set_lum(set_sat(us, sat(ub)), lum(ub)))
}
pub fn saturation(b: Color, s: Color, o: u8) -> Color {
    let (ub, us) = (unit(b), unit(s));
    hsl(b, s, o, set_lum(set_sat(ub, sat(us)), lum(ub)))
}
pub fn color(b: Color, s: Color, o: u8) -> Color {
    let (ub, us) = (unit(b), unit(s));
    hsl(b, s, o, set_lum(us, lum(ub)))
}
pub fn luminosity(b: Color, s: Color, o: u8) -> Color {
    let (ub, us) = (unit(b), unit(s));
    hsl(b, s, o, set_lum(ub, lum(us)))
}

/// unknown modes have no function
pub fn unknown(_code: u16) -> bool {
    true
}
pub fn repo_unknown(code: u16) -> bool {
    blend_mode_to_blend_fn(BlendMode::Unknown(code)).is_none()
}

macro_rules! modes {
    ($($f:ident $m:ident,)*) => {
        $(pub fn $f(b: Color, s: Color, o: u8) -> Color {
            match blend_mode_to_blend_fn(BlendMode::$m) {
                Some(f) => f(b, s, o),
                None => Color { r: 1, g: 2, b: 3, a: 0 },
            }
        })*
    };
}
modes! {
    repo_normal Normal, repo_multiply Multiply, repo_screen Screen, repo_overlay Overlay, repo_darken Darken, repo_lighten Lighten,
    repo_color_dodge ColorDodge, repo_color_burn ColorBurn, repo_hard_light HardLight, repo_soft_light SoftLight, repo_difference Difference,
    repo_exclusion Exclusion, repo_hue Hue, repo_saturation Saturation, repo_color Color, repo_luminosity Luminosity, repo_addition Addition,
    repo_subtract Subtract, repo_divide Divide,
}

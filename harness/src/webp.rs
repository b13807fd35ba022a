//! WebP RIFF files (RFC 9649): generator and parser.
use crate::engine::*;
use crate::img::*;

pub fn chunk(o: &mut Vec<u8>, name: &[u8], d: &[u8]) {
    o.extend_from_slice(name); o.extend_from_slice(&(d.len() as u32).to_le_bytes()); o.extend_from_slice(d);
    if d.len() % 2 == 1 { o.push(0); }
}
pub fn riff(chunks: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = b"RIFF\0\0\0\0WEBP".to_vec();
    for (n, d) in chunks { chunk(&mut o, n, d); }
    let l = (o.len() - 8) as u32; o[4..8].copy_from_slice(&l.to_le_bytes());
    o
}
fn dim(s: &mut Src) -> u32 { match s.weighted(&[4, 2, 2]) { 0 => s.int(1, 300) as u32, 1 => *s.pick(&[1u32, 2, 255, 256, 257, 4096, 16382, 16383]), _ => s.int(1, 16383) as u32 } }
/// key frame header and random data
pub fn vp8(s: &mut Src) -> Vec<u8> {
    let (w, h) = (dim(s), dim(s));
    let tag = (s.draw(3) << 1 | 1 << 4 | s.draw(0x7ffff) << 5) as u32;
    let mut d = tag.to_le_bytes()[..3].to_vec();
    d.extend_from_slice(&[0x9d, 0x01, 0x2a]);
    d.extend_from_slice(&((w | (s.draw(3) as u32) << 14) as u16).to_le_bytes());
    d.extend_from_slice(&((h | (s.draw(3) as u32) << 14) as u16).to_le_bytes());
    let n = s.bulk(60); d.extend(s.blob(n));
    d
}
pub fn vp8l(s: &mut Src) -> Vec<u8> {
    let w = if s.chance(1, 12) { 16384 } else { dim(s) }; let h = if s.chance(1, 12) { 16384 } else { dim(s) };
    let v = (w - 1) | (h - 1) << 14 | (s.draw(1) as u32) << 28;
    let mut d = vec![0x2f]; d.extend_from_slice(&v.to_le_bytes());
    let n = s.bulk(60); d.extend(s.blob(n));
    d
}
/// canvas width, height and alpha of a simple file's image chunk
pub fn simple_info(name: &[u8], d: &[u8]) -> Result<(u32, u32, bool), String> {
    match name {
        b"VP8 " => {
            if d.len() < 10 || d[3..6] != [0x9d, 1, 0x2a] || d[0] & 1 != 0 { return Err("bad VP8 header".into()); }
            Ok((u16::from_le_bytes([d[6], d[7]]) as u32 & 0x3fff, u16::from_le_bytes([d[8], d[9]]) as u32 & 0x3fff, false))
        }
        b"VP8L" => {
            if d.len() < 5 || d[0] != 0x2f { return Err("bad VP8L header".into()); }
            let v = u32::from_le_bytes(d[1..5].try_into().unwrap());
            Ok(((v & 0x3fff) + 1, (v >> 14 & 0x3fff) + 1, v >> 28 & 1 == 1))
        }
        _ => Err("not an image chunk".into()),
    }
}
pub fn vp8x(flags: u8, w: u32, h: u32) -> Vec<u8> {
    let mut d = vec![flags, 0, 0, 0];
    d.extend_from_slice(&(w - 1).to_le_bytes()[..3]); d.extend_from_slice(&(h - 1).to_le_bytes()[..3]);
    d
}
pub fn exif_data(s: &mut Src, tiff: &[u8]) -> Vec<u8> { let mut d = if s.chance(1, 3) { b"Exif\0\0".to_vec() } else { vec![] }; d.extend_from_slice(tiff); d }
fn unknown(s: &mut Src) -> (Vec<u8>, Vec<u8>) { let n = s.bulk(50); let d = if s.chance(1, 5) { b"EXIF\x04\0\0\0II*\0".to_vec() } else { s.blob(n) }; (s.pick(&[b"abcd", b"XMPP", b"EXI ", b"EXIG", b"zzzz", b"LIST", b"VP8M"]).to_vec(), d) }
/// Simple files can only be generated without Exif.
pub fn gen(s: &mut Src, ctx: &mut Ctx, exif: &[Vec<u8>], flag_wrong: bool) -> Vec<u8> {
    if exif.is_empty() && s.chance(1, 2) {
        let lossy = s.bool();
        ctx.label(if lossy { "WebP: simple lossy" } else { "WebP: simple lossless" });
        let mut d = if lossy { vp8(s) } else { vp8l(s) };
        if lossy { d[0] &= 0xfe; }
        let mut c = vec![(if lossy { b"VP8 ".to_vec() } else { b"VP8L".to_vec() }, d)];
        if s.chance(1, 10) { c.push(unknown(s)); }
        return riff(&c);
    }
    let icc = s.chance(1, 3); let anim = s.chance(1, 4); let alpha = s.chance(1, 3); let xmp = s.chance(1, 3);
    let mut c: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if icc { let n = s.bulk(40); c.push((b"ICCP".to_vec(), s.blob(n))); }
    if anim {
        ctx.label("WebP: animation");
        c.push((b"ANIM".to_vec(), s.blob(6)));
        let frames = s.int(1, 3) + s.crowd(); if frames > 3 { ctx.label("WebP: many frames"); }
        for _ in 0..frames {
            let mut f = s.blob(16);
            if alpha && s.bool() { chunk(&mut f, b"ALPH", &[0, 1, 2]); }
            let mut d = vp8(s); d[0] &= 0xfe; chunk(&mut f, b"VP8 ", &d);
            if s.chance(1, 6) { chunk(&mut f, b"EXIF", b"II*\0in frame"); }
            c.push((b"ANMF".to_vec(), f));
        }
    } else if s.bool() {
        if alpha { let n = s.small(30) as usize; c.push((b"ALPH".to_vec(), s.blob(n))); }
        let mut d = vp8(s); d[0] &= 0xfe; c.push((b"VP8 ".to_vec(), d));
    } else { let d = vp8l(s); c.push((b"VP8L".to_vec(), d)); }
    let base = c.len();
    if xmp { c.push((b"XMP ".to_vec(), b"<x:xmpmeta exif:a=\"b\"/>".to_vec())); if s.chance(1, 3) { let n = c.last().unwrap().1.len(); c.last_mut().unwrap().1.truncate(n - 1); } }
    for _ in 0..s.weighted(&[4, 2, 1]) as u64 + s.crowd() { let u = unknown(s); let i = s.usize(0, c.len()); c.insert(i, u); }
    for e in exif { let d = exif_data(s, e); let i = match s.draw(2) { 0 => base.min(c.len()), 1 => c.len(), _ => s.usize(0, c.len()) }; if i < base { ctx.label("WebP: Exif before the image data"); } c.insert(i, (b"EXIF".to_vec(), d)); }
    let mut flags = 0u8;
    if icc { flags |= 0x20; } if alpha { flags |= 0x10; } if xmp { flags |= 0x04; } if anim { flags |= 0x02; }
    if exif.is_empty() == flag_wrong { flags |= 0x08; }
    ctx.label("WebP: extended");
    let d = |s: &mut Src| match s.draw(3) { 0 => 1 << 24, 1 => s.int(1, 1 << 24) as u32, _ => s.int(1, 2000) as u32 };
    let (w, h) = (d(s), d(s));
    let mut x = vp8x(flags, w, h);
    if s.chance(1, 12) { ctx.label("WebP: reserved bits of VP8X set"); x[0] |= *s.pick(&[0x01u8, 0x40, 0x80, 0xc1]); if s.bool() { let i = s.usize(1, 3); x[i] = s.int(1, 255) as u8; } }
    c.insert(0, (b"VP8X".to_vec(), x));
    riff(&c)
}
pub fn chunks(b: &[u8]) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    if b.len() < 12 || &b[..4] != b"RIFF" || &b[8..12] != b"WEBP" { return Err("no WebP signature".into()); }
    let n = u32::from_le_bytes(b[4..8].try_into().unwrap()) as usize;
    if n + 8 != b.len() { return Err(format!("RIFF size {n} in a file of {}", b.len())); }
    let mut i = 12; let mut v = vec![];
    while i < b.len() {
        let h = b.get(i..i + 8).ok_or(format!("chunk header at {i} does not fit"))?;
        let l = u32::from_le_bytes(h[4..8].try_into().unwrap()) as usize;
        let d = b.get(i + 8..i + 8 + l).ok_or(format!("chunk {} of {l} bytes at {i} does not fit", String::from_utf8_lossy(&h[..4])))?;
        v.push((h[..4].to_vec(), d.to_vec()));
        i += 8 + l;
        if l % 2 == 1 { if b.get(i) != Some(&0) { return Err(format!("padding byte at {i} is {:?}", b.get(i))); } i += 1; }
    }
    if v.is_empty() { return Err("no chunk".into()); }
    Ok(v)
}
/// A simple file is shown as the extended file it corresponds to; the Exif flag is not shown but checked.
pub fn view(b: &[u8]) -> Result<View, String> { view_with(b, true) }
pub fn view_with(b: &[u8], check_flag: bool) -> Result<View, String> {
    let c = chunks(b)?;
    let mut v = View::default();
    let n_exif = c.iter().filter(|x| x.0 == b"EXIF").count();
    if c[0].0 == b"VP8X" {
        if c[0].1.len() != 10 { return Err("VP8X chunk size".into()); }
        if check_flag && (c[0].1[0] & 8 != 0) != (n_exif > 0) { return Err(format!("Exif flag {} with {n_exif} Exif chunks", c[0].1[0] & 8 != 0)); }
        let mut d = c[0].1.clone(); d[0] &= !8;
        v.parts.push(("VP8X".into(), d));
    } else {
        if n_exif > 0 { return Err("Exif chunk in a simple file".into()); }
        let (w, h, a) = simple_info(&c[0].0, &c[0].1)?;
        v.parts.push(("VP8X".into(), vp8x(if a { 0x10 } else { 0 }, w, h)));
    }
    for (n, d) in &c[(c[0].0 == b"VP8X") as usize..] {
        if n == b"VP8X" { return Err("second VP8X".into()); }
        if n == b"EXIF" { v.exif.push(d.strip_prefix(b"Exif\0\0").unwrap_or(d).to_vec()); v.exif_at.push(v.parts.len()); }
        else { v.parts.push((String::from_utf8_lossy(n).into_owned(), d.clone())); }
    }
    Ok(v)
}

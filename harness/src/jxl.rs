//! JPEG XL containers (ISO/IEC 18181-2): generator and parser.
use crate::engine::*;
use crate::img::*;

pub const SIG: &[u8] = &[0, 0, 0, 12, b'J', b'X', b'L', b' ', 0x0d, 0x0a, 0x87, 0x0a];
pub const FTYP: &[u8] = b"jxl \0\0\0\0jxl ";

pub fn brotli(d: &[u8], q: i32) -> Vec<u8> {
    let mut o = vec![];
    let p = brotli::enc::BrotliEncoderParams { quality: q, lgwin: 16, ..Default::default() };
    brotli::BrotliCompress(&mut &d[..], &mut o, &p).expect("brotli");
    o
}
pub fn unbrotli(d: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut o = vec![];
    brotli::Decompressor::new(d, 4096).take(1 << 24).read_to_end(&mut o).ok()?;
    Some(o)
}
/// form 0: 32-bit size, 1: 64-bit size, 2: to the end of the file
pub fn boxed(o: &mut Vec<u8>, name: &[u8], d: &[u8], form: u8) {
    match form {
        0 => { o.extend_from_slice(&((d.len() + 8) as u32).to_be_bytes()); o.extend_from_slice(name); }
        1 => { o.extend_from_slice(&1u32.to_be_bytes()); o.extend_from_slice(name); o.extend_from_slice(&((d.len() + 16) as u64).to_be_bytes()); }
        _ => { o.extend_from_slice(&0u32.to_be_bytes()); o.extend_from_slice(name); }
    }
    o.extend_from_slice(d);
}
pub fn exif_payload(s: &mut Src, tiff: &[u8]) -> Vec<u8> {
    let pre: Vec<u8> = match s.weighted(&[6, 1, 1]) { 0 => vec![], 1 => b"Exif\0\0".to_vec(), _ => header_prefix(s) };
    let mut d = (pre.len() as u32).to_be_bytes().to_vec(); d.extend_from_slice(&pre); d.extend_from_slice(tiff);
    d
}
fn other(s: &mut Src) -> (Vec<u8>, Vec<u8>) {
    let n = s.bulk(60);
    match s.draw(6) {
        0 => (b"xml ".to_vec(), b"<x:xmpmeta/>".to_vec()),
        1 => (b"jumb".to_vec(), s.blob(n)),
        2 => { let mut d = b"xml ".to_vec(); d.extend(if s.bool() { brotli(b"<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"/>", 5) } else { s.blob(n) }); (b"brob".to_vec(), d) }
        3 => { let mut d = b"jumb".to_vec(); d.extend(brotli(&s.blob(n), 3)); (b"brob".to_vec(), d) }
        4 => (b"jbrd".to_vec(), s.blob(n)),
        5 => (s.pick(&[b"exif", b"EXIF", b"free", b"abcd", b"Exi ", b"uuid"]).to_vec(), if s.bool() { b"\0\0\0\0II*\0\x08\0\0\0\0\0".to_vec() } else { s.blob(n) }),
        _ => (b"hrgm".to_vec(), s.blob(n)),
    }
}
fn codestream(s: &mut Src) -> Vec<u8> { let n = s.bulk(300); let mut d = vec![0xff, 0x0a]; d.extend(s.blob(n)); d }
pub fn gen(s: &mut Src, ctx: &mut Ctx, exif: &[Vec<u8>]) -> Vec<u8> {
    if exif.is_empty() && s.chance(1, 4) { ctx.label("JXL: naked codestream"); if s.chance(1, 100) { ctx.label("JXL: naked codestream of more than 60 kB"); let n = s.usize(60_000, 400_000); let mut d = vec![0xff, 0x0a]; d.extend(s.blob(n)); return d; } return codestream(s); }
    ctx.label("JXL: container");
    let mut c: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if s.chance(1, 4) { c.push((b"jxll".to_vec(), vec![10])); }
    let cs = codestream(s);
    if s.chance(1, 3) {
        ctx.label("JXL: partial codestreams");
        let k = s.usize(1, 3) + s.crowd() as usize; let step = cs.len() / k + 1;
        let parts: Vec<&[u8]> = cs.chunks(step).collect();
        for (i, p) in parts.iter().enumerate() { let idx = i as u32 | if i + 1 == parts.len() { 0x8000_0000 } else { 0 }; let mut d = idx.to_be_bytes().to_vec(); d.extend_from_slice(p); c.push((b"jxlp".to_vec(), d)); }
    } else { c.push((b"jxlc".to_vec(), cs)); }
    let many = s.crowd(); if many > 0 { ctx.label("JXL: many boxes"); }
    for _ in 0..s.small(4) + many { let o = other(s); let i = s.usize(0, c.len()); c.insert(i, o); }
    for e in exif {
        let d = exif_payload(s, e);
        let b = if s.chance(1, 3) { ctx.label("JXL: brob Exif"); let mut x = b"Exif".to_vec(); x.extend(brotli(&d, *s.pick(&[5, 0, 9]))); (b"brob".to_vec(), x) } else { ctx.label("JXL: Exif box"); (b"Exif".to_vec(), d) };
        let i = s.usize(0, c.len()); c.insert(i, b);
    }
    let mut o = SIG.to_vec();
    let mut ft = FTYP.to_vec(); if s.chance(1, 8) { ft.extend_from_slice(b"abcd"); }
    boxed(&mut o, b"ftyp", &ft, 0);
    let n = c.len();
    for (i, (name, d)) in c.iter().enumerate() {
        let form = if i + 1 == n && s.chance(1, 4) { ctx.label("JXL: open-ended last box"); 2 } else if s.chance(1, 10) { ctx.label("JXL: 64-bit size"); 1 } else { 0 };
        boxed(&mut o, name, d, form);
    }
    o
}
pub struct Bx { pub name: [u8; 4], pub raw: (usize, usize), pub data: (usize, usize), pub form: u8 }
pub fn boxes(b: &[u8]) -> Result<Vec<Bx>, String> {
    let mut i = 0; let mut v = vec![];
    while i < b.len() {
        let h = b.get(i..i + 8).ok_or(format!("box header at {i} does not fit"))?;
        let sz = u32::from_be_bytes(h[..4].try_into().unwrap()) as u64;
        let (form, start, end) = match sz {
            0 => (2, i + 8, b.len()),
            1 => { let l = u64::from_be_bytes(b.get(i + 8..i + 16).ok_or("64-bit size does not fit")?.try_into().unwrap()); (1, i + 16, (i as u64).checked_add(l).ok_or("size")? as usize) }
            n => (0, i + 8, i + n as usize),
        };
        if end < start || end > b.len() { return Err(format!("box {} at {i} of size {sz} does not fit in {}", String::from_utf8_lossy(&h[4..8]), b.len())); }
        v.push(Bx { name: h[4..8].try_into().unwrap(), raw: (i, end), data: (start, end), form });
        i = end;
    }
    Ok(v)
}
pub fn view(b: &[u8]) -> Result<View, String> {
    let mut v = View::default();
    if b.starts_with(&[0xff, 0x0a]) {
        let mut f = vec![]; boxed(&mut f, b"ftyp", FTYP, 0);
        let mut c = vec![]; boxed(&mut c, b"jxlc", b, 0);
        v.parts = vec![("JXL ".into(), SIG.to_vec()), ("ftyp".into(), f), ("jxlc".into(), c)];
        return Ok(v);
    }
    if !b.starts_with(SIG) { return Err("no JPEG XL signature".into()); }
    let bx = boxes(b)?;
    if bx.len() < 2 || &bx[1].name != b"ftyp" { return Err("no ftyp box behind the signature".into()); }
    for x in &bx {
        let d = &b[x.data.0..x.data.1];
        let e = if &x.name == b"Exif" { Some(d.to_vec()) } else if &x.name == b"brob" && d.starts_with(b"Exif") { Some(unbrotli(&d[4..]).ok_or("brob Exif box does not decompress")?) } else { None };
        match e {
            Some(d) => {
                let off = u32::from_be_bytes(d.get(..4).ok_or("Exif box without offset")?.try_into().unwrap()) as usize;
                v.exif.push(d.get(4 + off..).ok_or("TIFF header offset outside the Exif box")?.to_vec()); v.exif_at.push(v.parts.len());
            }
            None => v.parts.push((String::from_utf8_lossy(&x.name).into_owned(), b[x.raw.0..x.raw.1].to_vec())),
        }
    }
    Ok(v)
}

//! Part "large" of P22 and P23: inputs of up to 60 kB that are built to make a
//! reader work or store more than their size justifies: overlapping values,
//! directories reached many times, claimed counts, table entries without a
//! size, nesting, compression.
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;

use crate::engine::*;
use crate::img::*;
use crate::p_all::{compose, listing};
use crate::{jxl, png, webp};

/// Work and memory that a call may use. Linear parts: several copies of the
/// values and of the tables, compression (zlib and brotli: about 1 to 1000).
/// Quadratic part: removing or looking up elements one after the other.
fn limits(n: usize, packed: bool, brob: bool) -> (u64, u64) {
    let n = n as u64;
    (300_000_000 + if packed { 60_000 } else { 20_000 } * n + n * n / 2, (64 << 20) + if packed { 12_000 } else { 1000 } * n + if brob { 300 << 20 } else { 0 })
}
struct Made { b: Vec<u8>, f: F, packed: bool, brob: bool }

struct T { big: bool, b: Vec<u8> }
impl T {
    fn u2(&mut self, v: u16) { self.b.extend(if self.big { v.to_be_bytes() } else { v.to_le_bytes() }) }
    fn u4(&mut self, v: u32) { self.b.extend(if self.big { v.to_be_bytes() } else { v.to_le_bytes() }) }
    fn entry(&mut self, tag: u16, fmt: u16, count: u32, value: u32) { self.u2(tag); self.u2(fmt); self.u4(count); self.u4(value); }
}
/// An Exif block.
fn block(s: &mut Src, ctx: &mut Ctx, n: usize) -> Vec<u8> {
    let big = s.bool();
    let mut t = T { big, b: if big { b"MM\0*\0\0\0\x08".to_vec() } else { b"II*\0\x08\0\0\0".to_vec() } };
    const W: [u32; 13] = [1, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8];
    match s.draw(6) {
        0 => {
            ctx.label("values that overlap");
            let k = s.usize(1, (n / 12).min(5000)); let fmt = s.int(1, 12) as u16; let same = s.bool();
            let total = 14 + 12 * k + n / 3; let part = s.usize(1, 3);
            t.u2(k as u16);
            for i in 0..k { let off = if same { 8 } else { 8 + (i % 50) as u32 }; t.entry(0x8000 + i as u16, fmt, ((total / part) as u32 - off) / W[fmt as usize], off); }
            t.u4(0); t.b.resize(total, b'a');
        }
        1 => {
            ctx.label("strips that overlap");
            let k = s.usize(1, n / 10); let total = 8 + 2 + 24 + 4 + 8 * k; let size = *s.pick(&[0u32, 1, 100, total as u32 - 8]);
            t.u2(2);
            t.entry(0x111, 4, k as u32, 38); t.entry(0x117, 4, k as u32, 38 + 4 * k as u32); t.u4(0);
            for _ in 0..k { t.u4(8); } for _ in 0..k { t.u4(size); }
        }
        2 => {
            ctx.label("chain of directories");
            let e = s.draw(3) as usize; let each = 6 + 12 * e; let k = s.usize(1, n / each).max(1); let to = s.draw(3);
            for i in 0..k { t.u2(e as u16); for j in 0..e { t.entry(0x8000 + j as u16, 4, 1, 5); } t.u4(if i + 1 < k { (8 + each * (i + 1)) as u32 } else { match to { 0 => 0, 1 => 8, 2 => (8 + each * i) as u32, _ => (8 + each * (i / 2)) as u32 } }); }
        }
        3 => {
            ctx.label("sub-directories used many times");
            let each = 6 + 12 * 2; let sub = s.usize(0, 300); let k = s.usize(1, n / each).max(1); let at = (8 + each * k) as u32;
            for i in 0..k { t.u2(2); t.entry(0x8769, 4, 1, at); t.entry(0x8825, 4, 1, at); t.u4(if i + 1 < k { (8 + each * (i + 1)) as u32 } else { 0 }); }
            t.u2(sub as u16); for j in 0..sub { t.entry(0x9000 + j as u16, 4, 1, 5); } t.u4(0);
        }
        4 => {
            ctx.label("sub-directories inside themselves");
            let k = s.usize(1, 600); let p = [0x8769u16, 0x8825, 0xa005];
            t.u2(k as u16); for i in 0..k { let x = p[i % 3]; t.entry(x, 4, 1, 8); } t.u4(if s.bool() { 8 } else { 0 });
        }
        5 => {
            ctx.label("claimed counts");
            let k = s.usize(1, 60); let fmt = s.int(1, 12) as u16;
            t.u2(if s.bool() { k as u16 } else { 0xffff });
            for i in 0..k { let c = *s.pick(&[u32::MAX, 0x8000_0000, 0x2000_0000, 0x1fff_ffff, 0x1000_0001, 0x0400_0000]); t.entry(*s.pick(&[0x8000 + i as u16, 0x10e, 0x111, 0x117, 0x201, 0x202, 0x8769]), fmt, c, 8); }
            t.u4(8);
        }
        _ => {
            ctx.label("many entries of the same tag");
            let k = s.usize(1, n / 12); let h = *s.pick(&[0x10eu16, 0x111, 0x117, 0x201, 0x202, 0x9999]);
            t.u2(k as u16); for _ in 0..k { t.entry(h, 4, 1, 8); } t.u4(0);
        }
    }
    t.b
}
fn png_head() -> Vec<u8> { let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10]; png::chunk(&mut o, b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]); o }
fn text_png(s: &mut Src, keyword: &str, text: Vec<u8>) -> Made {
    let kind = *s.pick(b"tzi");
    let t = png::Text { kind, keyword: keyword.as_bytes().to_vec(), compressed: s.bool(), lang: vec![], trans: vec![], text };
    let d = png::text_data(&t, 6);
    let mut b = png_head();
    png::chunk(&mut b, match kind { b't' => b"tEXt", b'z' => b"zTXt", _ => b"iTXt" }, &d);
    png::chunk(&mut b, b"IDAT", &[1, 2, 3]); png::chunk(&mut b, b"IEND", &[]);
    Made { b, f: F::Png, packed: true, brob: false }
}
fn make(s: &mut Src, ctx: &mut Ctx) -> Made {
    let n = if s.bool() { s.usize(20_000, 60_000) } else { s.usize(100, 20_000) };
    let plain = |f: F, b: Vec<u8>| Made { b, f, packed: false, brob: false };
    match s.weighted(&[4, 3, 2, 2, 2, 2, 3, 5, 1]) {
        8 => {
            // much data behind much Exif data
            ctx.label("half a megabyte of Exif data and image data");
            let mut t = T { big: false, b: b"II*\0\x08\0\0\0".to_vec() };
            let k = s.usize(200_000, 500_000) as u32;
            t.u2(1); t.entry(0xfe01, 1, k, 26); t.u4(0); t.b.resize(26 + k as usize, 7);
            let f = *s.pick(&[F::Png, F::Webp, F::Jxl, F::Heif, F::Jpeg]);
            let more = vec![9u8; s.usize(200_000, 500_000)];
            let b = match f {
                F::Png => { let mut b = png_head(); png::chunk(&mut b, b"eXIf", &t.b); png::chunk(&mut b, b"IDAT", &more); png::chunk(&mut b, b"IEND", &[]); b }
                F::Webp => webp::riff(&[(b"VP8X".to_vec(), webp::vp8x(8, 4, 4)), (b"EXIF".to_vec(), t.b), (b"VP8 ".to_vec(), webp::vp8(s)), (b"abcd".to_vec(), more)]),
                F::Jxl => { let mut b = jxl_head(); let mut p = vec![0; 4]; p.extend(t.b); jxl::boxed(&mut b, b"Exif", &p, 0); jxl::boxed(&mut b, b"jxlc", &more, 0); b }
                F::Heif => { let mut m = vec![0, 0, 0, 0]; let mut d = vec![2, 0, 0, 0, 0, 1, 0, 0]; d.extend(b"Exif\0"); let mut i = vec![0, 0, 0, 0, 0, 1]; bx(&mut i, b"infe", &d); bx(&mut m, b"iinf", &i); let mut l = vec![0, 0, 0, 0, 0x44, 0, 0, 1, 0, 1, 0, 0, 0, 1]; let at = 24 + 8 + m.len() + 30 + 8; l.extend((at as u32).to_be_bytes()); l.extend((t.b.len() as u32 + 4).to_be_bytes()); bx(&mut m, b"iloc", &l); let mut f = vec![]; bx(&mut f, b"ftyp", b"heic\0\0\0\0mif1heic"); bx(&mut f, b"meta", &m); let mut p = vec![0; 4]; p.extend(t.b); p.extend(more); bx(&mut f, b"mdat", &p); f }
                _ => { let mut b = vec![0xff, 0xd8]; let n = s.usize(100, 3000); for i in 0..n { let k = s.usize(6, 300); b.extend([0xff, 0xe1 + (i % 2) as u8 * 11]); b.extend((k as u16 + 2).to_be_bytes()); b.extend(b"Exif\0\0"); b.extend(vec![1; k - 6]); } b.extend([0xff, 0xda, 0, 2]); b.extend(more.iter().map(|x| x & 15)); b.extend([0xff, 0xd9]); b }
            };
            Made { packed: f == F::Png, b, f, brob: false }
        }
        0 => {
            let x = block(s, ctx, n);
            let f = *s.pick(&FORMATS);
            if f == F::Tiff || x.len() > 64_000 { return plain(F::Tiff, x); }
            let b = compose(s, ctx, f, &[x]);
            Made { b, f, packed: f == F::Png || f == F::Jxl, brob: f == F::Jxl }
        }
        1 => { // XMP
            let ex = s.bool(); let name = if ex { "exif:a" } else { "b" };
            let text = match s.draw(4) {
                0 => { ctx.label("XMP: nested elements"); let d = n / (2 * name.len() + 5); let mut t = String::new(); for _ in 0..d { t += &format!("<{name}>"); } if s.bool() { for _ in 0..d { t += &format!("</{name}>"); } } t }
                1 => { ctx.label("XMP: many attributes"); let mut t = format!("<r {}", if s.bool() { "exif:z=\"\" " } else { "" }); for i in 0..n / 12 { t += &format!("{name}{i}=\"\" "); } t + "/>" }
                2 => { ctx.label("XMP: many elements"); let mut t = String::from("<r>"); for _ in 0..n / 15 { t += &format!("<{name}/>\n<!---->"); } t + "</r>" }
                3 => { ctx.label("XMP: much text"); let c = *s.pick(&["<", ">", "&", "\n", " ", "<!--", "<![CDATA[", "<?x ", "<!DOCTYPE [", "\"", "&lt;"]); format!("<r><exif:a/>{}</r>", c.repeat(n / c.len())) }
                _ => { ctx.label("XMP: compressed"); let k = s.usize(1, 2_000_000); format!("<r><exif:a/>{}</r>", (*s.pick(&["x", "\n", "\n\n "])).repeat(k)) }
            };
            text_png(s, png::XMP, text.into_bytes())
        }
        2 => { // raw profile
            ctx.label("raw profile");
            let mut t = b"\nexif\n".to_vec();
            let k = if s.bool() { n } else { s.usize(n, 3_000_000) };
            match s.draw(5) { 0 => t.extend(format!("{:8}\n", k).bytes()), 1 => t.extend(b"99999999\n"), 2 => t.extend(b"99999999999999999999999999999\n"), 3 => {} , 4 => t.extend(b"-1\n"), _ => t.extend(b"       0\n") }
            if s.bool() { t.extend(b"457869660000"); }
            let c: &[u8] = *s.pick(&[&b"0"[..], b"00", b"49492a00", b"ff\n", b"\n", b" ", b"zz", b"4", b"\xff", b"4949"]);
            t.extend(c.repeat(k / c.len()));
            text_png(s, png::RAW, t)
        }
        3 => { // PNG chunks
            ctx.label("many PNG chunks");
            let mut b = png_head(); let k = n / 12;
            let name: &[u8; 4] = *s.pick(&[b"eXIf", b"tEXt", b"zTXt", b"iTXt", b"IDAT", b"abCd", b"IHDR"]);
            let d: Vec<u8> = match s.draw(4) { 0 => vec![], 1 => b"Raw profile type exif\0\0".to_vec(), 2 => b"XML:com.adobe.xmp\0\0\0\0\0<a exif:b=\"\"/>".to_vec(), 3 => b"\0".to_vec(), _ => { let v = s.usize(0, 20); s.blob(v) } };
            let mut one = vec![]; png::chunk(&mut one, name, &d);
            for _ in 0..(k * 12 / one.len()).max(1) { b.extend(&one); }
            if s.chance(1, 4) { b.extend([0xff, 0xff, 0xff, 0xf0]); b.extend(b"tEXt"); }
            png::chunk(&mut b, b"IEND", &[]);
            Made { b, f: F::Png, packed: true, brob: false }
        }
        4 => {
            ctx.label("many JPEG segments");
            let one: Vec<u8> = match s.draw(6) { 0 => vec![0xff, 0xe1, 0, 2], 1 => b"\xff\xe1\0\x08Exif\0\0".to_vec(), 2 => vec![0xff, 0xec, 0, 2], 3 => vec![0xff, 0xed, 0, 3, 0], 4 => vec![0xff], 5 => vec![0xff, 0xd0], _ => vec![0xff, 0xda, 0, 2, 7, 0xff, 0xd1, 0xff, 0] };
            let mut b = vec![0xff, 0xd8]; b.extend(one.repeat(n / one.len())); if s.bool() { b.extend([0xff, 0xd9]); }
            plain(F::Jpeg, b)
        }
        5 => {
            ctx.label("many WebP chunks");
            let name: &[u8; 4] = *s.pick(&[b"EXIF", b"ANMF", b"abcd", b"XMP ", b"VP8X", b"VP8 "]);
            let d = match s.draw(2) { 0 => vec![], 1 => vec![0], _ => b"Exif\0\0II*\0".to_vec() };
            let mut v = vec![(b"VP8X".to_vec(), webp::vp8x(8, 4, 4)), (b"VP8 ".to_vec(), { webp::vp8(s) })];
            for _ in 0..n / (8 + d.len()) { v.push((name.to_vec(), d.clone())); }
            let mut b = webp::riff(&v);
            if s.chance(1, 4) { b.extend(b"EXIF\xf0\xff\xff\xff"); }
            plain(F::Webp, b)
        }
        6 => {
            let mut b = jxl_head();
            match s.weighted(&[2, 3, 1, 1]) {
                0 => {
                    ctx.label("many JPEG XL boxes");
                    let (name, d): (&[u8; 4], &[u8]) = *s.pick(&[(b"Exif", &b""[..]), (b"Exif", b"\0\0\0\0II*\0"), (b"brob", b"Exif"), (b"brob", b"xml "), (b"free", b""), (b"ftyp", b""), (b"JXL ", b"")]);
                    let mut one = vec![]; jxl::boxed(&mut one, name, d, 0);
                    for _ in 0..n / one.len() { b.extend(&one); }
                }
                1 => {
                    ctx.label("compressed box with any window");
                    let mut d = b"Exif".to_vec();
                    if s.chance(2, 3) {
                        // a stream that starts with an uncompressed part of up to 16 MiB
                        let mut bits: Vec<u64> = vec![];
                        let mut put = |v: u64, n: u64| for i in 0..n { bits.push(v >> i & 1); };
                        if s.bool() { put(0x11, 8); put(s.int(24, 31), 6); } else { put(s.draw(127), 7); }
                        put(0, 1); put(2, 2); put(s.draw(0xff_ffff), 24); put(s.draw(1), 1);
                        for c in bits.chunks(8) { d.push(c.iter().enumerate().fold(0, |a, x| a | (*x.1 as u8) << x.0)); }
                    } else { match s.draw(2) { 0 => { d.push(0x11); d.push(s.draw(255) as u8); } 1 => { d.push(0x91); d.push(s.int(10, 62) as u8); } _ => d.push(s.draw(255) as u8) } }
                    let k = s.usize(0, 40); let v = s.blob(k); d.extend(v);
                    jxl::boxed(&mut b, b"brob", &d, 0);
                    return Made { b, f: F::Jxl, packed: false, brob: true };
                }
                2 => {
                    ctx.label("compressed box that gets large");
                    let k = s.usize(1, 90_000_000); let z = *s.pick(&[0u8, b'a']);
                    let mut p = b"\0\0\0\0".to_vec(); if s.bool() { p.extend(block(s, ctx, 200)); } p.resize(p.len() + k, z);
                    let mut d = b"Exif".to_vec(); d.extend(jxl::brotli(&p, 1));
                    jxl::boxed(&mut b, b"brob", &d, 0);
                    return Made { b, f: F::Jxl, packed: false, brob: true };
                }
                _ => { ctx.label("claimed box sizes"); b.extend([0, 0, 0, 1]); b.extend(b"Exif"); b.extend(s.u64().to_be_bytes()); let k = s.usize(0, 40); b.extend(s.blob(k)); }
            }
            plain(F::Jxl, b)
        }
        _ => plain(F::Heif, heif_large(s, ctx, n)),
    }
}
fn jxl_head() -> Vec<u8> { let mut b = vec![]; jxl::boxed(&mut b, b"JXL ", &[0x0d, 0x0a, 0x87, 0x0a], 0); jxl::boxed(&mut b, b"ftyp", b"jxl \0\0\0\0jxl ", 0); b }
fn bx(o: &mut Vec<u8>, name: &[u8; 4], d: &[u8]) { o.extend((d.len() as u32 + 8).to_be_bytes()); o.extend(name); o.extend(d); }
fn heif_large(s: &mut Src, ctx: &mut Ctx, n: usize) -> Vec<u8> {
    let infe = |id: u16, t: &[u8; 4]| { let mut d = vec![2, 0, 0, 0]; d.extend(id.to_be_bytes()); d.extend([0, 0]); d.extend(t); d.push(0); let mut o = vec![]; bx(&mut o, b"infe", &d); o };
    let iinf = |count: u16, items: &[u8]| { let mut d = vec![0, 0, 0, 0]; d.extend(count.to_be_bytes()); d.extend(items); let mut o = vec![]; bx(&mut o, b"iinf", &d); o };
    let mut m = vec![0u8, 0, 0, 0]; let mut tail = vec![];
    bx(&mut m, b"hdlr", b"\0\0\0\0\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0");
    bx(&mut m, b"pitm", b"\0\0\0\0\0\x01");
    let payload = { let mut p = vec![0u8, 0, 0, 0]; p.extend(block(s, ctx, 300)); p };
    match s.draw(6) {
        0 => {
            ctx.label("HEIF: many Exif items at the same place");
            let k = s.usize(1, n / 40); let len = s.usize(8, n) as u32;
            let items: Vec<u8> = (0..k).flat_map(|i| infe(i as u16 + 1, b"Exif")).collect();
            m.extend(iinf(k as u16, &items));
            let mut d = vec![0, 0, 0, 0, 0x44, 0]; d.extend((k as u16).to_be_bytes());
            let off = 56 + m.len() as u32 + 14 * k as u32;
            for i in 0..k { d.extend((i as u16 + 1).to_be_bytes()); d.extend([0, 0, 0, 1]); d.extend(off.to_be_bytes()); d.extend(len.to_be_bytes()); }
            bx(&mut m, b"iloc", &d);
            tail = payload; tail.resize(len as usize, 0);
        }
        1 => {
            ctx.label("HEIF: locations without any size");
            let v = s.draw(2) as u8; let k = s.usize(1, n / 8);
            m.extend(iinf(1, &infe(1, b"Exif")));
            let mut d = vec![v, 0, 0, 0, 0, 0]; if v < 2 { d.extend((k as u16).to_be_bytes()) } else { d.extend((k as u32).to_be_bytes()) }
            for i in 0..k { if v < 2 { d.extend((i as u16 + 1).to_be_bytes()) } else { d.extend((i as u32 + 1).to_be_bytes()) } if v > 0 { d.extend([0, 0]); } d.extend([0, 0, 0xff, 0xff]); }
            bx(&mut m, b"iloc", &d);
        }
        2 => {
            ctx.label("HEIF: claimed counts");
            m.extend(iinf(0xffff, &infe(1, b"Exif")));
            let v = s.draw(2) as u8; let w = *s.pick(&[0u8, 0x44, 0x88, 0x40, 0x04]);
            let mut d = vec![v, 0, 0, 0, w, *s.pick(&[0u8, 0x40, 0x44, 0x80])]; d.extend([0xff, 0xff]); if v == 2 { d.extend([0xff, 0xff]); }
            let k = s.usize(0, 60); d.extend(vec![*s.pick(&[0u8, 1, 0xff]); k]);
            bx(&mut m, b"iloc", &d);
            let mut r = vec![s.draw(1) as u8, 0, 0, 0]; let mut o = vec![]; bx(&mut o, b"cdsc", &[0, 1, 0xff, 0xff, 0, 1]); r.extend(o); bx(&mut m, b"iref", &r);
        }
        3 => {
            ctx.label("HEIF: many extents at the same place");
            let k = s.usize(1, (n / 8).min(65_535));
            m.extend(iinf(1, &infe(1, b"Exif")));
            let mut d = vec![0, 0, 0, 0, 0x44, 0, 0, 1, 0, 1, 0, 0]; d.extend((k as u16).to_be_bytes());
            let len = *s.pick(&[0u32, 1, 4, n as u32]);
            for _ in 0..k { d.extend([0, 0, 0, 0]); d.extend(len.to_be_bytes()); }
            bx(&mut m, b"iloc", &d);
        }
        4 => { ctx.label("HEIF: nested boxes"); let mut o: Vec<u8> = vec![]; let name = *s.pick(&[b"meta", b"iinf", b"iref", b"iprp"]); let k = (n / 12).min(3000); for i in 0..k { let size = (12 * (k - i)) as u32; o.extend(size.to_be_bytes()); o.extend(name); o.extend([0; 4]); } m.extend(o); }
        5 => { ctx.label("HEIF: many boxes"); let k = n / 8; let name = *s.pick(&[b"free", b"meta", b"iloc", b"iinf", b"iref", b"idat", b"mdat"]); let v = [&[0, 0, 0, 8][..], name].concat().repeat(k); if s.bool() { m.extend(v); } else { tail = v; } m.extend(iinf(1, &infe(1, b"Exif"))); bx(&mut m, b"iloc", &[0, 0, 0, 0, 0x44, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 30]); }
        _ => {
            ctx.label("HEIF: many references");
            m.extend(iinf(1, &infe(1, if s.bool() { b"Exif" } else { b"hvc1" })));
            bx(&mut m, b"iloc", &[0, 0, 0, 0, 0x44, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 30]);
            let v = s.draw(1) as u8; let mut r = vec![v, 0, 0, 0]; let mut o = vec![]; let e: &[u8] = if v == 0 { &[0, 1, 0, 0] } else { &[0, 0, 0, 1, 0, 0] }; bx(&mut o, b"cdsc", e); r.extend(o.repeat(n / o.len())); bx(&mut m, b"iref", &r);
        }
    }
    let mut f = vec![]; bx(&mut f, b"ftyp", b"heic\0\0\0\0mif1heic");
    bx(&mut f, b"meta", &m);
    bx(&mut f, b"mdat", &tail);
    f
}

/// Processor time of this thread, in seconds.
fn cpu() -> f64 {
    #[repr(C)] struct Ts { s: i64, n: i64 }
    extern "C" { fn clock_gettime(clock: i32, t: *mut Ts) -> i32; }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t); }
    t.s as f64 + t.n as f64 * 1e-9
}
fn call<R>(ctx: &mut Ctx, what: &str, m: &Made, more: usize, f: impl FnOnce() -> R) -> Result<R, Fail> {
    let (e, l) = limits(m.b.len() + more, m.packed, m.brob);
    let t = cpu();
    let (r, u) = ctx.lib_limited(what, e, l, f)?;
    let t = cpu() - t;
    // the standard library is not instrumented: a bound far above anything
    // linear, in processor time of this thread
    crate::ensure!(t < 5.0, "cpu-time", "{what}: {t:.1} s of processor time for {} bytes", m.b.len() + more);
    if std::env::var("VH_USAGE").is_ok() { eprintln!("USAGE {:.4} {:.4} {:.4} {} {:?} n={} edges={} peak={}", u.edges as f64 / e as f64, u.peak as f64 / l as f64, t, what, ctx.case_labels, m.b.len(), u.edges, u.peak); }
    Ok(r)
}
fn start(s: &mut Src, ctx: &mut Ctx) -> (Made, bool, FileExtension) {
    let m = make(s, ctx);
    ctx.label(m.f.name());
    ctx.note(|| format!("{}: {} bytes: {}...", m.f.name(), m.b.len(), hex(&m.b[..m.b.len().min(60)])));
    if m.b.len() > 1000 { ctx.nontrivial(); }
    let file = s.chance(1, 4);
    let ft = m.f.ft();
    (m, file, ft)
}
pub fn p22(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, file, ft) = start(s, ctx);
    let r = if file { let p = ctx.scratch_file(&format!("f.{}", m.f.exts()[0])); std::fs::write(&p, &m.b).expect("scratch file"); call(ctx, "new_from_path", &m, 0, || Metadata::new_from_path(&p))? } else { call(ctx, "new_from_vec", &m, 0, || Metadata::new_from_vec(&m.b, ft))? };
    ctx.label(if r.is_ok() { "accepted" } else { "rejected" });
    if let Ok(x) = r {
        let l = listing(&x).len();
        if l > 0 { ctx.label("tags were read"); }
        let _ = call(ctx, "data", &m, 0, || (&x).into_iter().count())?;
        let _ = call(ctx, "encode what was read", &m, 0, || x.encode().map(|v| v.len()))?;
    }
    Ok(())
}
pub fn p23(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (m, file, ft) = start(s, ctx);
    let mm = crate::p_all::gen_for(s, m.f, &crate::meta::SMALL);
    let x = crate::meta::build(&mm, s)?;
    let more = x.encode().map_or(0, |v| v.len());
    let what = s.draw(if m.f == F::Jpeg { 3 } else { 1 });
    let r = if file {
        let p = ctx.scratch_file(&format!("f.{}", m.f.exts()[0])); std::fs::write(&p, &m.b).expect("scratch file");
        match what { 0 => call(ctx, "write_to_file", &m, more, || x.write_to_file(&p))?, 1 => call(ctx, "file_clear_metadata", &m, 0, || Metadata::file_clear_metadata(&p))?, 2 => call(ctx, "file_clear_app12_segment", &m, 0, || Metadata::file_clear_app12_segment(&p))?, _ => call(ctx, "file_clear_app13_segment", &m, 0, || Metadata::file_clear_app13_segment(&p))? }
    } else {
        let mut v = m.b.clone();
        match what { 0 => call(ctx, "write_to_vec", &m, more, || x.write_to_vec(&mut v, ft))?, 1 => call(ctx, "clear_metadata", &m, 0, || Metadata::clear_metadata(&mut v, ft))?, 2 => call(ctx, "clear_app12_segment", &m, 0, || Metadata::clear_app12_segment(&mut v, ft))?, _ => call(ctx, "clear_app13_segment", &m, 0, || Metadata::clear_app13_segment(&mut v, ft))? }
    };
    ctx.label(if r.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}

//! PNG chunk streams (PNG specification, third edition): generator and parser.
use crate::engine::*;
use crate::img::*;
use crate::xml;
use miniz_oxide::{deflate::compress_to_vec_zlib, inflate::decompress_to_vec_zlib_with_limit};

pub const SIG: &[u8] = &[0x89, b'P', b'N', b'G', 13, 10, 26, 10];
pub const RAW: &str = "Raw profile type exif";
pub const XMP: &str = "XML:com.adobe.xmp";

pub fn crc(d: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 }; } }
    !c
}
pub fn chunk(out: &mut Vec<u8>, name: &[u8], data: &[u8]) {
    out.extend_from_slice(&(data.len() as u32).to_be_bytes());
    let at = out.len();
    out.extend_from_slice(name); out.extend_from_slice(data);
    let c = crc(&out[at..]);
    out.extend_from_slice(&c.to_be_bytes());
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Text { pub kind: u8, pub keyword: Vec<u8>, pub compressed: bool, pub lang: Vec<u8>, pub trans: Vec<u8>, pub text: Vec<u8> }
/// kind b't', b'z', b'i'
pub fn text_data(t: &Text, level: u8) -> Vec<u8> {
    let mut d = t.keyword.clone(); d.push(0);
    match t.kind {
        b't' => d.extend_from_slice(&t.text),
        b'z' => { d.push(0); d.extend(compress_to_vec_zlib(&t.text, level)); }
        _ => {
            d.push(t.compressed as u8); d.push(0); d.extend_from_slice(&t.lang); d.push(0); d.extend_from_slice(&t.trans); d.push(0);
            if t.compressed { d.extend(compress_to_vec_zlib(&t.text, level)); } else { d.extend_from_slice(&t.text); }
        }
    }
    d
}
pub fn parse_text(name: &[u8], d: &[u8]) -> Option<Text> {
    let z = d.iter().position(|b| *b == 0)?;
    let keyword = d[..z].to_vec();
    let inflate = |b: &[u8]| decompress_to_vec_zlib_with_limit(b, 1 << 24).ok();
    match name {
        b"tEXt" => Some(Text { kind: b't', keyword, compressed: false, lang: vec![], trans: vec![], text: d[z + 1..].to_vec() }),
        b"zTXt" => { if d.get(z + 1) != Some(&0) { return None; } Some(Text { kind: b'z', keyword, compressed: true, lang: vec![], trans: vec![], text: inflate(&d[z + 2..])? }) }
        b"iTXt" => {
            let (f, m) = (*d.get(z + 1)?, *d.get(z + 2)?);
            if f > 1 || (f == 1 && m != 0) { return None; }
            let r = &d[z + 3..];
            let a = r.iter().position(|b| *b == 0)?;
            let b = r[a + 1..].iter().position(|b| *b == 0)? + a + 1;
            Some(Text { kind: b'i', keyword, compressed: f == 1, lang: r[..a].to_vec(), trans: r[a + 1..b].to_vec(), text: if f == 1 { inflate(&r[b + 1..])? } else { r[b + 1..].to_vec() } })
        }
        _ => None,
    }
}
/// ImageMagick's raw profile: "\nexif\n" length, hex lines.
pub fn raw_profile(tiff: &[u8], s: &mut Src) -> Vec<u8> {
    let mut p = b"Exif\0\0".to_vec();
    p.extend_from_slice(tiff);
    let mut t = format!("\nexif\n{:8}\n", p.len()).into_bytes();
    let upper = s.chance(1, 4);
    let width = *s.pick(&[36usize, 36, 72, 40, usize::MAX]);
    for (i, b) in p.iter().enumerate() {
        if i > 0 && i % width == 0 { t.push(b'\n'); }
        t.extend_from_slice(if upper { format!("{b:02X}") } else { format!("{b:02x}") }.as_bytes());
    }
    t.push(b'\n');
    t
}
pub fn parse_raw_profile(t: &[u8]) -> Result<Vec<u8>, String> {
    let r = t.strip_prefix(b"\nexif\n").ok_or("raw profile does not start with the profile name")?;
    let nl = r.iter().position(|b| *b == b'\n').ok_or("no line end after the length")?;
    let n: usize = std::str::from_utf8(&r[..nl]).ok().and_then(|x| x.trim().parse().ok()).ok_or("bad length")?;
    let h: Vec<u8> = r[nl + 1..].iter().copied().filter(|b| *b != b'\n').collect();
    if h.len() != 2 * n { return Err(format!("raw profile of stated length {n} has {} digits", h.len())); }
    let v = unhex(std::str::from_utf8(&h).map_err(|_| "not hex")?);
    if v.len() != n { return Err("not hex".into()); }
    Ok(v)
}
fn keyword(s: &mut Src) -> Vec<u8> {
    match s.draw(14) {
        10 => b"Raw profile type exif ".to_vec(), 11 => b" Raw profile type exif".to_vec(), 12 => b"XML:com.adobe.xmp ".to_vec(), 13 => b"RAW PROFILE TYPE EXIF".to_vec(), 14 => b"xml:COM.ADOBE.XMP".to_vec(),
        0 => b"Comment".to_vec(), 1 => b"Raw profile type exi".to_vec(), 2 => b"Raw profile type exif2".to_vec(), 3 => b"Raw profile type iptc".to_vec(),
        4 => b"raw profile type exif".to_vec(), 5 => b"XML:com.adobe.xm".to_vec(), 6 => vec![b'T', 0xef, b't', 0xe9], 7 => b"Raw profile type icc".to_vec(), 8 => b"x".to_vec(), _ => b"Description".to_vec(),
    }
}
fn text_chunk(s: &mut Src) -> (Vec<u8>, Vec<u8>) {
    let mut t = Text { kind: *s.pick(b"tzi"), keyword: keyword(s), compressed: s.bool(), lang: s.pick(&["", "en", "x-klingon"]).as_bytes().to_vec(), trans: s.pick(&["", "Kommentar", "ü"]).as_bytes().to_vec(), text: vec![] };
    let n = s.bulk(60);
    t.text = match s.draw(2) { 0 => (0..n).map(|_| s.int(32, 126) as u8).collect(), 1 => b"Exif\0\0II*\0\x08\0\0\0".iter().map(|b| (*b).max(1)).collect(), _ => b"\nexif\n       6\n457869660000\n".to_vec() };
    let name = match t.kind { b't' => b"tEXt", b'z' => b"zTXt", _ => b"iTXt" };
    (name.to_vec(), text_data(&t, s.draw(9) as u8))
}
pub fn xmp_chunk(s: &mut Src, ctx: &mut Ctx, exif: bool) -> (Vec<u8>, Vec<u8>) {
    let kind = *s.pick(b"itz");
    let ascii = kind != b'i' && s.chance(2, 3);
    let packet = xml::gen(s, &xml::Gx { exif, ascii });
    ctx.label(match kind { b'i' => "PNG: XMP in iTXt", b't' => "PNG: XMP in tEXt", _ => "PNG: XMP in zTXt" });
    let t = Text { kind, keyword: XMP.as_bytes().to_vec(), compressed: s.chance(1, 3), lang: s.pick(&["", "", "en-us"]).as_bytes().to_vec(), trans: s.pick(&["", "", "XMP", "Größe", "元数据 é"]).as_bytes().to_vec(), text: packet.into_bytes() };
    let name = match kind { b't' => b"tEXt", b'z' => b"zTXt", _ => b"iTXt" };
    (name.to_vec(), text_data(&t, s.draw(9) as u8))
}
pub fn exif_chunk(s: &mut Src, ctx: &mut Ctx, tiff: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match s.draw(3) {
        0 => { ctx.label("PNG: eXIf chunk"); (b"eXIf".to_vec(), tiff.to_vec()) }
        k => {
            let kind = b"_zti"[k as usize];
            ctx.label(match kind { b'z' => "PNG: profile in zTXt", b't' => "PNG: profile in tEXt", _ => "PNG: profile in iTXt" });
            let p = raw_profile(tiff, s);
            let t = Text { kind, keyword: RAW.as_bytes().to_vec(), compressed: s.bool(), lang: s.pick(&["", "", "en"]).as_bytes().to_vec(), trans: s.pick(&["", "", "Rohdaten", "Größe", "原始数据"]).as_bytes().to_vec(), text: p };
            let name = match kind { b't' => b"tEXt", b'z' => b"zTXt", _ => b"iTXt" };
            (name.to_vec(), text_data(&t, s.draw(9) as u8))
        }
    }
}
fn other(s: &mut Src, before: bool) -> (Vec<u8>, Vec<u8>) {
    let n = s.bulk(40);
    match s.weighted(&[3, 3, 2]) {
        0 => text_chunk(s),
        1 => { let k = if before { *s.pick(&[b"gAMA", b"pHYs", b"sRGB", b"PLTE", b"tRNS", b"cHRM", b"bKGD", b"iCCP", b"sBIT", b"hIST", b"sPLT", b"cICP", b"acTL", b"fcTL"]) } else { *s.pick(&[b"tIME", b"fcTL", b"fdAT", b"sPLT", b"tIME"]) }; (k.to_vec(), s.blob(n)) }
        _ => { let k = *s.pick(&[b"prVt", b"eXIg", b"exIf", b"vpAg", b"caBX", b"ruSt", b"zzZz", b"orNT", b"tExt"]); (k.to_vec(), if s.chance(1, 4) { b"Raw profile type exif\0\0x".to_vec() } else { s.blob(n) }) }
    }
}
/// Generates a PNG with the given Exif blocks in random carriers and positions.
pub fn gen(s: &mut Src, ctx: &mut Ctx, exif: &[Vec<u8>], xmp: u64, xmp_exif: bool) -> Vec<u8> {
    let mut pre: Vec<(Vec<u8>, Vec<u8>)> = (0..s.small(6) + s.crowd()).map(|_| other(s, true)).collect();
    let mut post: Vec<(Vec<u8>, Vec<u8>)> = (0..s.small(3)).map(|_| other(s, false)).collect();
    for _ in 0..xmp { let c = xmp_chunk(s, ctx, xmp_exif); let v = if s.chance(1, 4) { &mut post } else { &mut pre }; let i = s.usize(0, v.len()); v.insert(i, c); }
    for e in exif { let c = exif_chunk(s, ctx, e); let l = s.chance(1, 3); if l { ctx.label("PNG: Exif after the image data"); } let v = if l { &mut post } else { &mut pre }; let i = s.usize(0, v.len()); v.insert(i, c); }
    let mut o = SIG.to_vec();
    let mut ihdr = s.int(1, 70_000).to_be_bytes()[4..].to_vec(); ihdr.extend_from_slice(&(s.int(1, 300) as u32).to_be_bytes());
    ihdr.extend_from_slice(&[8, *s.pick(&[0u8, 2, 6, 3]), 0, 0, s.draw(1) as u8]);
    chunk(&mut o, b"IHDR", &ihdr);
    for (n, d) in &pre { chunk(&mut o, n, d); }
    let many = s.crowd(); if many > 0 { ctx.label("PNG: many IDAT chunks"); }
    for _ in 0..s.weighted(&[1, 6, 2, 1]) as u64 + many { let n = s.bulk(300); let d = s.blob(n); chunk(&mut o, b"IDAT", &d); }
    for (n, d) in &post { chunk(&mut o, n, d); }
    chunk(&mut o, b"IEND", &[]);
    if s.chance(1, 4) { ctx.label("PNG: data after IEND"); match s.draw(1) { 0 => { let n = s.usize(1, 20); o.extend(s.blob(n)); } _ => chunk(&mut o, b"eXIf", b"II*\0\x08\0\0\0\0\0\0\0\0\0") } }
    o
}
pub struct Chunk { pub name: Vec<u8>, pub data: Vec<u8> }
pub fn chunks(b: &[u8]) -> Result<(Vec<Chunk>, Vec<u8>), String> {
    if !b.starts_with(SIG) { return Err("no PNG signature".into()); }
    let mut i = 8; let mut v: Vec<Chunk> = vec![];
    loop {
        let l = u32::from_be_bytes(b.get(i..i + 4).ok_or(format!("no chunk at {i} of {}", b.len()))?.try_into().unwrap()) as usize;
        if l > 0x7fff_ffff { return Err("chunk too long".into()); }
        let c = b.get(i + 4..i + 12 + l).ok_or(format!("chunk at {i} of length {l} does not fit"))?;
        if crc(&c[..l + 4]).to_be_bytes() != c[l + 4..] { return Err(format!("chunk {} at {i} has a wrong checksum", String::from_utf8_lossy(&c[..4]))); }
        v.push(Chunk { name: c[..4].to_vec(), data: c[4..4 + l].to_vec() });
        i += 12 + l;
        if v.last().unwrap().name == b"IEND" { break; }
    }
    if v[0].name != b"IHDR" || v[0].data.len() != 13 { return Err("the first chunk is not IHDR".into()); }
    Ok((v, b[i..].to_vec()))
}
pub enum Kind { Exif(Vec<u8>), Xmp(Text), Other }
pub fn kind(c: &Chunk) -> Result<Kind, String> {
    if c.name == b"eXIf" { return Ok(Kind::Exif(c.data.clone())); }
    if [&b"tEXt"[..], b"zTXt", b"iTXt"].contains(&&c.name[..]) {
        if let Some(t) = parse_text(&c.name, &c.data) {
            if t.keyword == RAW.as_bytes() {
                let p = parse_raw_profile(&t.text)?;
                return Ok(Kind::Exif(p.strip_prefix(b"Exif\0\0").unwrap_or(&p).to_vec()));
            }
            if t.keyword == XMP.as_bytes() { return Ok(Kind::Xmp(t)); }
        }
    }
    Ok(Kind::Other)
}
/// XMP packets are shown without the parts that have the exif prefix.
pub fn view(b: &[u8]) -> Result<View, String> {
    let (cs, rest) = chunks(b)?;
    let mut v = View::default();
    for c in &cs {
        match kind(c)? {
            Kind::Exif(e) => { v.exif.push(e); v.exif_at.push(v.parts.len()); }
            Kind::Xmp(t) => {
                let text = match xml::parse(&t.text) { Ok(n) if xml::has_exif(&n) => format!("{:?}", strip(&xml::filter(&n))).into_bytes(), Ok(n) => format!("{:?}", strip(&n)).into_bytes(), Err(_) => t.text.clone() };
                v.parts.push((format!("XMP {} {} {:?} {:?}", t.kind as char, t.compressed, t.lang, t.trans), text));
            }
            Kind::Other => v.parts.push((String::from_utf8_lossy(&c.name).into_owned(), c.data.clone())),
        }
    }
    v.parts.push(("after IEND".into(), rest));
    Ok(v)
}
/// without whitespace-only text, for the comparison of views
fn strip(v: &[xml::Node]) -> Vec<xml::Node> {
    let mut o: Vec<xml::Node> = vec![];
    for n in v {
        match n {
            xml::Node::Text(t, _) => { let t: String = t.split_whitespace().collect(); if !t.is_empty() { if let Some(xml::Node::Text(x, _)) = o.last_mut() { x.push_str(&t); } else { o.push(xml::Node::Text(t, false)); } } }
            xml::Node::Elem(n, a, c) => { let mut a = a.clone(); a.sort(); o.push(xml::Node::Elem(n.clone(), a, strip(c))) }
            x => o.push(x.clone()),
        }
    }
    o
}

//! P22, P23: coverage-guided byte fuzzing of everything that reads, writes or
//! clears, with deterministic bounds on work and memory.
use std::io::Cursor;
use little_exif::filetype::{get_file_type, FileExtension};
use little_exif::metadata::Metadata;

use crate::engine::*;
use crate::img::*;
use crate::meta::*;
use crate::p_all::{any_content, compose, damage, gen_img, listing};
use crate::tags::{Val, V};
use crate::{png, tiff, xml};

/// Bounds for one call: what is claimed inside the input does not count, only
/// its size. Constant parts: tables and small buffers; the linear parts allow
/// for compression (zlib: 1 to 1000), the quadratic one for values of a TIFF
/// structure that overlap. A compressed JPEG XL box may use the window that
/// the brotli format allows.
fn limits(b: &[u8]) -> (u64, u64) {
    let n = b.len() as u64;
    let brob = b.windows(4).any(|w| w == b"brob");
    let mem = (48u64 << 20) + 3000 * n + n * n / 4 + if brob { 150 << 20 } else { 0 };
    let edges = 100_000_000 + 40_000 * n + 8 * n * n;
    (edges, mem.min(3 << 30))
}
fn call<R>(ctx: &mut Ctx, what: &str, size: &[u8], f: impl FnOnce() -> R) -> Result<R, Fail> {
    let (e, m) = limits(size);
    ctx.lib_limited(what, e, m, f).map(|x| x.0)
}

const TYPES: [(F, &str); 7] = [(F::Png, "png"), (F::Jpeg, "jpg"), (F::Webp, "webp"), (F::Tiff, "tif"), (F::Heif, "heif"), (F::Jxl, "jxl"), (F::Jxl, "naked")];
fn ft(i: usize) -> FileExtension { if i == 6 { FileExtension::NAKED_JXL } else { TYPES[i].0.ft() } }

/// Recomputes the checksums of everything that looks like a PNG chunk.
fn repair_crc(b: &mut [u8]) {
    let mut at = 8;
    while at + 12 <= b.len() {
        let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        if n > b.len() - at - 12 { break; }
        let c = png::crc(&b[at + 4..at + 8 + n]);
        b[at + 8 + n..at + 12 + n].copy_from_slice(&c.to_be_bytes());
        at += 12 + n;
    }
}
fn png_text(text: &[u8], keyword: &[u8], sel: u8) -> Vec<u8> {
    let kind = b"tzi"[(sel % 3) as usize];
    let t = png::Text { kind, keyword: keyword.to_vec(), compressed: sel & 4 != 0, lang: vec![], trans: vec![], text: text.to_vec() };
    let d = png::text_data(&t, 6);
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    png::chunk(&mut o, b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]);
    png::chunk(&mut o, match kind { b't' => b"tEXt", b'z' => b"zTXt", _ => b"iTXt" }, &d);
    png::chunk(&mut o, b"IDAT", &[1, 2, 3]);
    png::chunk(&mut o, b"IEND", &[]);
    o
}
/// Entries: what the bytes stand for.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// an image in memory, of the type with this index
    Mem(usize),
    /// the same on a file
    File(usize),
    /// first byte: the type claimed; then any content
    Mixed,
    /// a PNG whose checksums are made right
    PngCrc,
    PngCrcFile,
    /// first byte: selector; then an Exif block, placed in a valid image
    Block(F),
    /// first byte: selector; then the text of a raw profile
    Profile,
    /// first byte: selector; then an XMP packet
    Packet,
}
use Kind::*;
const ENTRIES: [Kind; 24] = [
    Mem(0), Mem(1), Mem(2), Mem(3), Mem(4), Mem(5), Mem(6), Mixed,
    PngCrc, File(1), File(2), Block(F::Heif), File(4), File(5), Packet, Profile,
    PngCrcFile, Block(F::Jpeg), Block(F::Webp), File(3), Block(F::Png), Block(F::Jxl), Mem(3), Mem(4),
];

fn corpus(s: &mut Src, e: u64) -> Vec<u8> {
    let mut c = Ctx::new(std::path::PathBuf::new());
    let b = match ENTRIES[e as usize] {
        Mem(i) | File(i) => {
            if i == 6 { any_content(s, &mut c, F::Jxl) }
            else if TYPES[i].0 == F::Tiff && s.bool() { block(s) }
            else { let k = s.weighted(&[1, 3, 1]); let mut b = gen_img(s, &mut c, TYPES[i].0, k).b; match s.draw(3) { 0 => damage(s, &mut b), 1 => b = crate::reshape::reshape(s, TYPES[i].0, &b), _ => {} } b }
        }
        Mixed => { let f = *s.pick(&FORMATS); let mut v = vec![s.draw(6) as u8]; v.extend(any_content(s, &mut c, f)); v }
        PngCrc | PngCrcFile => { let k = s.weighted(&[1, 3, 1]); let x = s.draw(1); let bl: Vec<Vec<u8>> = (0..k).map(|_| small_block(s, &mut c).1).collect(); let mut b = png::gen(s, &mut c, &bl, x, true); match s.draw(3) { 0 => damage(s, &mut b), 1 => b = crate::reshape::reshape(s, F::Png, &b), _ => {} } b }
        Block(_) => { let mut v = vec![s.draw(255) as u8]; v.extend(block(s)); v }
        Profile => { let b = block(s); let mut v = vec![s.draw(255) as u8]; v.extend(png::raw_profile(&b, s)); v }
        Packet => { let mut v = vec![s.draw(255) as u8]; v.extend(xml::gen(s, &xml::Gx { exif: true, ascii: false }).into_bytes()); v }
    };
    if b.len() > 12_000 { b[..12_000].to_vec() } else { b }
}
/// An Exif block, often a damaged one, with cycles and overlaps.
fn block(s: &mut Src) -> Vec<u8> {
    let mut o = SMALL; o.max_tags = 6; o.max_dirs = 3;
    let m = gen_meta(s, &o);
    let mut b = tiff::encode(&m, if s.bool() { tiff::FREE } else { tiff::PLAIN }, s);
    if s.bool() {
        // references inside the block that point to other places of it
        let big = b.starts_with(b"MM");
        for _ in 0..s.int(1, 3) {
            let n = b.len() as u64;
            let v = match s.draw(3) { 0 => 8, 1 => s.draw(n) as u32, 2 => (n as u32).wrapping_sub(s.draw(12) as u32), _ => s.u32() };
            let i = s.draw(n.saturating_sub(4)) as usize & !1;
            if i + 4 <= b.len() { b[i..i + 4].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() }); }
        }
    } else if s.chance(1, 3) { damage(s, &mut b); }
    b
}
/// The image that the bytes of an entry stand for, and the type claimed.
fn image(e: u64, b: &[u8]) -> Option<(Vec<u8>, usize, bool)> {
    let mut c = Ctx::new(std::path::PathBuf::new());
    let sel = b.first().copied().unwrap_or(0);
    let rest = || b.get(1..).unwrap_or(&[]).to_vec();
    let host = |f: F, c: &mut Ctx| { let r = rest(); if f == F::Jpeg && r.len() > 65_000 { return None; } Some(compose(&mut Src::random(1 + sel as u64), c, f, &[r])) };
    let ix = |f: F| TYPES.iter().position(|t| t.0 == f).unwrap();
    Some(match ENTRIES[e as usize] {
        Mem(i) => (b.to_vec(), i, false),
        File(i) => (b.to_vec(), i, true),
        Mixed => (rest(), sel as usize % 7, false),
        PngCrc => { let mut v = b.to_vec(); repair_crc(&mut v); (v, 0, false) }
        PngCrcFile => { let mut v = b.to_vec(); repair_crc(&mut v); (v, 0, true) }
        Block(f) => (host(f, &mut c)?, ix(f), false),
        Profile => (png_text(&rest(), png::RAW.as_bytes(), sel), 0, false),
        Packet => (png_text(&rest(), png::XMP.as_bytes(), sel), 0, false),
    })
}
fn label(ctx: &mut Ctx, e: u64) {
    ctx.label(match ENTRIES[e as usize] { Mem(0) => "PNG in memory", Mem(1) => "JPEG in memory", Mem(2) => "WebP in memory", Mem(3) => "TIFF in memory", Mem(4) => "HEIF in memory", Mem(5) => "JPEG XL in memory", Mem(_) => "naked JPEG XL in memory", File(1) => "JPEG file", File(2) => "WebP file", File(3) => "TIFF file", File(4) => "HEIF file", File(_) => "JPEG XL file", Mixed => "any content as any type", PngCrc => "PNG with right checksums", PngCrcFile => "PNG file with right checksums", Block(_) => "Exif block in a valid image", Profile => "raw profile text", Packet => "XMP packet" });
}
fn kind_of(ctx: &mut Ctx, ok: bool) { if ok { ctx.label("accepted") } else { ctx.label("rejected") } }

// ---------------------------------------------------------------- P22
fn p22(e: u64, b: &[u8], ctx: &mut Ctx) -> Res {
    let Some((img, i, file)) = image(e, b) else { return Ok(()) };
    label(ctx, e);
    ctx.note(|| format!("{:?}: {} bytes: {}", ENTRIES[e as usize], b.len(), hex(&b[..b.len().min(60)])));
    let r = if file {
        let p = ctx.scratch_file(&format!("f.{}", TYPES[i].1));
        std::fs::write(&p, &img).expect("scratch file");
        let t = call(ctx, "get_file_type", &img, || get_file_type(&p));
        let r = call(ctx, "new_from_path", &img, || Metadata::new_from_path(&p));
        let _ = t?;
        r?
    } else {
        let _ = call(ctx, "auto_detect", &img, || FileExtension::auto_detect(&mut Cursor::new(&img)))?;
        call(ctx, "new_from_vec", &img, || Metadata::new_from_vec(&img, ft(i)))?
    };
    kind_of(ctx, r.is_ok());
    if img.len() >= 12 { ctx.nontrivial(); }
    if let Ok(m) = r {
        // what was read can be looked at and encoded
        let l = listing(&m);
        if !l.is_empty() { ctx.label("tags were read"); }
        let _ = call(ctx, "data", &img, || (&m).into_iter().count())?;
        let _ = call(ctx, "encode what was read", &img, || m.encode().map(|v| v.len()))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P23
thread_local! { static METAS: std::cell::RefCell<Vec<(Metadata, u64)>> = const { std::cell::RefCell::new(vec![]) }; }
fn metas() {
    METAS.with(|m| {
        let mut m = m.borrow_mut();
        if !m.is_empty() { return; }
        for k in 0..16u64 {
            let mut s = Src::random(900 + k);
            let mut x = if k % 4 == 3 { crate::tiffimg::gen_model(&mut s, true) } else if k == 0 { MMeta::default() } else { gen_meta(&mut s, if k % 2 == 0 { &FULL } else { &SMALL }) };
            if k == 6 { x.dirs.entry((0, crate::tags::G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(vec![7; 66_000]) }); }
            let lib = build(&x, &mut s).unwrap_or_else(|e| abandon(&e.sig, e.msg));
            let n = lib.encode().map(|v| v.len() as u64).unwrap_or(100_000);
            m.push((lib, n));
        }
    });
}
fn p23(e: u64, b: &[u8], ctx: &mut Ctx) -> Res {
    let Some((img, i, file)) = image(e, b) else { return Ok(()) };
    metas();
    label(ctx, e);
    ctx.note(|| format!("{:?}: {} bytes: {}", ENTRIES[e as usize], b.len(), hex(&b[..b.len().min(60)])));
    if img.len() >= 12 { ctx.nontrivial(); }
    // the metadata: one of a fixed set, chosen by the input
    let k = (b.iter().rev().take(8).fold(b.len() as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)) % 16) as usize;
    METAS.with(|m| {
        let m = m.borrow();
        let (meta, n) = &m[k];
        let mut size = img.clone(); size.resize(img.len() + *n as usize, 0);
        if file {
            let p = ctx.scratch_file(&format!("f.{}", TYPES[i].1));
            let mut ops: Vec<(&str, Box<dyn Fn() -> bool>)> = vec![];
            let (q, mm) = (p.clone(), meta.clone());
            ops.push(("write_to_file", Box::new(move || mm.write_to_file(&q).is_ok())));
            let q = p.clone(); ops.push(("file_clear_metadata", Box::new(move || Metadata::file_clear_metadata(&q).is_ok())));
            if TYPES[i].0 == F::Jpeg {
                let q = p.clone(); ops.push(("file_clear_app12_segment", Box::new(move || Metadata::file_clear_app12_segment(&q).is_ok())));
                let q = p.clone(); ops.push(("file_clear_app13_segment", Box::new(move || Metadata::file_clear_app13_segment(&q).is_ok())));
            }
            for (what, f) in &ops {
                std::fs::write(&p, &img).expect("scratch file");
                let ok = call(ctx, what, &size, || f())?;
                kind_of(ctx, ok);
            }
            return Ok(());
        }
        let mut v = img.clone();
        let r = call(ctx, "write_to_vec", &size, || meta.write_to_vec(&mut v, ft(i)))?;
        kind_of(ctx, r.is_ok());
        let mut v = img.clone();
        let r = call(ctx, "clear_metadata", &size, || Metadata::clear_metadata(&mut v, ft(i)))?;
        kind_of(ctx, r.is_ok());
        if i == 1 || ENTRIES[e as usize] == Mixed {
            for n in [12, 13] {
                let mut v = img.clone();
                let r = call(ctx, "clear_app_segment", &size, || if n == 12 { Metadata::clear_app12_segment(&mut v, ft(i)) } else { Metadata::clear_app13_segment(&mut v, ft(i)) })?;
                kind_of(ctx, r.is_ok());
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- part "parts"
/// A valid image whose parts are damaged one by one while sizes and checksums
/// around them stay right.
fn rearranged(s: &mut Src, ctx: &mut Ctx) -> (Vec<u8>, F, bool) {
    let f = *s.pick(&FORMATS);
    let k = s.weighted(&[1, 4, 1]);
    let b = if f == F::Png && s.bool() { let bl: Vec<Vec<u8>> = (0..k).map(|_| small_block(s, ctx).1).collect(); let x = s.draw(1); png::gen(s, ctx, &bl, x, true) } else { gen_img(s, ctx, f, k).b };
    ctx.label(f.name());
    let b = crate::reshape::reshape(s, f, &b);
    ctx.note(|| format!("{}: {} bytes: {}...", f.name(), b.len(), hex(&b[..b.len().min(60)])));
    ctx.nontrivial();
    let file = s.chance(1, 4);
    (b, f, file)
}
fn p22_parts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, f, file) = rearranged(s, ctx);
    let r = if file { let p = ctx.scratch_file(&format!("f.{}", f.exts()[0])); std::fs::write(&p, &b).expect("scratch file"); call(ctx, "new_from_path", &b, || Metadata::new_from_path(&p))? } else { call(ctx, "new_from_vec", &b, || Metadata::new_from_vec(&b, f.ft()))? };
    kind_of(ctx, r.is_ok());
    if let Ok(m) = r {
        if !listing(&m).is_empty() { ctx.label("tags were read"); }
        let _ = call(ctx, "encode what was read", &b, || m.encode().map(|v| v.len()))?;
    }
    Ok(())
}
fn p23_parts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, f, file) = rearranged(s, ctx);
    let mm = crate::p_all::gen_for(s, f, &SMALL);
    let x = build(&mm, s)?;
    let mut size = b.clone(); size.resize(b.len() + x.encode().map_or(0, |v| v.len()), 0);
    let (mut done, p) = (0, ctx.scratch_file(&format!("f.{}", f.exts()[0])));
    for what in 0..if f == F::Jpeg { 4 } else { 2 } {
        let r = if file {
            std::fs::write(&p, &b).expect("scratch file");
            match what { 0 => call(ctx, "write_to_file", &size, || x.write_to_file(&p))?, 1 => call(ctx, "file_clear_metadata", &size, || Metadata::file_clear_metadata(&p))?, 2 => call(ctx, "file_clear_app12_segment", &size, || Metadata::file_clear_app12_segment(&p))?, _ => call(ctx, "file_clear_app13_segment", &size, || Metadata::file_clear_app13_segment(&p))? }
        } else {
            let mut v = b.clone();
            match what { 0 => call(ctx, "write_to_vec", &size, || x.write_to_vec(&mut v, f.ft()))?, 1 => call(ctx, "clear_metadata", &size, || Metadata::clear_metadata(&mut v, f.ft()))?, 2 => call(ctx, "clear_app12_segment", &size, || Metadata::clear_app12_segment(&mut v, f.ft()))?, _ => call(ctx, "clear_app13_segment", &size, || Metadata::clear_app13_segment(&mut v, f.ft()))? }
        };
        done += r.is_ok() as usize;
    }
    kind_of(ctx, done > 0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let n = ENTRIES.len() as u64;
    let rule = "inputs of 12 bytes or more, distinct by content; generated images, blocks, profiles and packets, damaged and mutated under edge-coverage feedback";
    vec![
        Prop { id: "P22", rule, assumptions: &["panics are failures with debug assertions and overflow checks on", "work: edges executed in the library; memory: live heap bytes; bounds as in limits() of p_fuzz.rs"],
            parts: vec![Part { name: "bytes", body: Body::Bytes { entry_count: n, corpus, run: p22 }, quick: 2_400_000, thorough: 120_000_000 }, Part { name: "parts", body: Body::Choices(p22_parts), quick: 500_000, thorough: 30_000_000 }, Part { name: "large", body: Body::Choices(crate::p_large::p22), quick: 2_500, thorough: 200_000 }] },
        Prop { id: "P23", rule, assumptions: &["panics are failures with debug assertions and overflow checks on", "work: edges executed in the library; memory: live heap bytes; bounds as in limits() of p_fuzz.rs", "metadata: 16 fixed generated objects"],
            parts: vec![Part { name: "bytes", body: Body::Bytes { entry_count: n, corpus, run: p23 }, quick: 800_000, thorough: 60_000_000 }, Part { name: "parts", body: Body::Choices(p23_parts), quick: 300_000, thorough: 20_000_000 }, Part { name: "large", body: Body::Choices(crate::p_large::p23), quick: 2_000, thorough: 150_000 }] },
    ]
}

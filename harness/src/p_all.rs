//! Properties over all formats: P08, P09, P16, P19, P20, P21, P24, P25.
use std::collections::BTreeSet;
use std::io::Cursor;
use little_exif::filetype::{get_file_type, FileExtension};
use little_exif::metadata::Metadata;

use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::meta::*;
use crate::p_codec::lib_encode;
use crate::tags::*;
use crate::{heif, jpeg, jxl, p_heif, png, tiff, tiffimg, webp};

/// A valid image and the metadata of its Exif blocks.
pub struct Img { pub f: F, pub b: Vec<u8>, pub metas: Vec<MMeta>, pub raws: Vec<Vec<u8>> }
pub fn compose(s: &mut Src, ctx: &mut Ctx, f: F, blocks: &[Vec<u8>]) -> Vec<u8> {
    match f {
        F::Jpeg => { let apps = s.bool(); jpeg::gen(s, ctx, blocks, apps) }
        F::Png => { let x = s.weighted(&[3, 1]) as u64; png::gen(s, ctx, blocks, x, false) }
        F::Webp => webp::gen(s, ctx, blocks, false),
        F::Jxl => jxl::gen(s, ctx, blocks),
        F::Heif => heif::gen(s, ctx, blocks),
        F::Tiff => unreachable!(),
    }
}
pub fn gen_img(s: &mut Src, ctx: &mut Ctx, f: F, n: usize) -> Img {
    ctx.label(f.name());
    if f == F::Tiff { let m = tiffimg::gen_model(s, n > 0); let b = tiffimg::encode(&m, s); return Img { f, b, metas: vec![m], raws: vec![] }; }
    let bl: Vec<(MMeta, Vec<u8>)> = (0..n).map(|_| small_block(s, ctx)).collect();
    let raw: Vec<Vec<u8>> = bl.iter().map(|x| x.1.clone()).collect();
    Img { f, b: compose(s, ctx, f, &raw), metas: bl.into_iter().map(|x| x.0).collect(), raws: raw }
}
pub fn view(f: F, b: &[u8]) -> Result<View, String> {
    match f { F::Jpeg => jpeg::view(b), F::Png => png::view(b), F::Webp => webp::view(b), F::Jxl => jxl::view(b), F::Tiff => tiffimg::view(b), F::Heif => heif::view(b) }
}
/// Metadata that a user writes into an image of this format.
pub fn gen_for(s: &mut Src, f: F, o: &Opt) -> MMeta {
    let mut m = gen_meta(s, o);
    if f == F::Tiff { let mx = m.dirs.keys().map(|k| k.0).max().unwrap_or(0); for n in 0..=mx { m.dirs.entry((n, G::GENERIC)).or_default(); } tiffimg::add_pixels(s, &mut m); }
    m
}
fn fmt(s: &mut Src) -> F { *s.pick(&FORMATS) }
/// The type handed to the library for the in-memory call.
fn as_type(s: &mut Src, f: F) -> FileExtension { if f == F::Png { FileExtension::PNG { as_zTXt_chunk: s.bool() } } else { f.ft() } }
fn gone(ctx: &mut Ctx, r: Result<Metadata, std::io::Error>, what: &str) -> Res {
    let _ = ctx;
    if let Ok(m) = r { let v = view_meta(&m)?; ensure!(v.tag_count() == 0, format!("{what}:invented"), "{what}: tags appear in an image without Exif data: {}", v.describe()); }
    Ok(())
}
fn view_meta(m: &Metadata) -> Result<MMeta, Fail> { crate::meta::view(m) }

// ---------------------------------------------------------------- P08
fn p08(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = fmt(s);
    let n = s.weighted(&[4, 4, 1]);
    let img = gen_img(s, ctx, f, n);
    let o = if s.chance(1, 3) { FULL } else { WRITE };
    let mut m = gen_for(s, f, &o);
    if s.chance(1, if f == F::Jpeg { 6 } else { 60 }) {
        // sizes around the limit of a JPEG segment
        let x = build(&m, s)?;
        let k = lib_encode(ctx, &x)?.len();
        let target = if s.chance(2, 3) { 65_527 + s.usize(0, 24) - 12 } else { s.usize(60_000, 140_000) };
        if target > k + 24 { let v = s.blob(target - k - 12 - k % 2); m.dirs.entry((0, G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(v) }); ctx.label("metadata of 60 kB or more"); }
    }
    let x = build(&m, s)?;
    if m.tag_count() >= 2 { ctx.nontrivial(); }
    if n > 0 { ctx.label("image with Exif data before"); } else { ctx.label("image without Exif data before"); }
    ctx.note(|| format!("{} {} bytes <- {}", f.name(), img.b.len(), m.describe()));
    let place = Place::gen(s, ctx, f);
    let t = as_type(s, f);
    let (r, out) = place.write_as(ctx, &x, &img.b, t)?;
    let len = lib_encode(ctx, &x)?.len();
    if f == F::Jpeg && len + 8 > 65_535 {
        ctx.label("too large for JPEG");
        ensure!(r.is_err(), "too-large", "writing {len} bytes of metadata to a JPEG reports success");
        return Ok(());
    }
    if let Err(e) = r { return fail("write-err", format!("writing {len} bytes of metadata to a valid {}: {e}", f.name())); }
    let got = match place.read_as(ctx, &out, t)? { Ok(g) => g, Err(e) => return fail("read-err", format!("reading {} back: {e}", f.name())) };
    diff(&m.writable(), &crate::meta::view2(&got, true)?, "read back")
}

/// Metadata of one to twenty megabytes.
fn p08_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = *s.pick(&[F::Png, F::Png, F::Webp, F::Jxl, F::Heif, F::Tiff]);
    let n = s.weighted(&[1, 1]);
    let img = gen_img(s, ctx, f, n);
    let mut m = if f == F::Tiff { gen_for(s, f, &SMALL) } else { gen_meta(s, &SMALL) };
    let k = lib_encode(ctx, &build(&m, s)?)?.len() + 7;
    let target = match s.draw(2) { 0 => 10_000_000 + s.usize(0, 80) - 60, 1 => 16_777_216 + s.usize(0, 80) - 60, _ => s.usize(1_000_000, 20_000_000) };
    let v = s.blob(target - k);
    if s.bool() { m.dirs.entry((0, G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(v) }); }
    else { m.dirs.entry((0, G::GENERIC)).or_default().insert(0xfe01, V { fmt: 1, val: Val::Bytes(v) }); }
    let x = build(&m, s)?;
    ctx.nontrivial(); ctx.label("1 to 20 MB");
    ctx.note(|| format!("{} {} bytes <- {target} bytes", f.name(), img.b.len()));
    let place = Place::gen(s, ctx, f);
    let out = place.must_write(ctx, &x, &img.b)?;
    let got = place.must_read(ctx, &out)?;
    diff(&m.writable(), &crate::meta::view2(&got, true)?, "read back")
}

/// Metadata around the size where the length of a PNG raw profile has more
/// than eight digits.
fn p08_digits(s: &mut Src, ctx: &mut Ctx) -> Res {
    let img = gen_img(s, ctx, F::Png, 0);
    let mut m = MMeta::default();
    let n = 99_999_900 + s.usize(0, 200);
    m.dirs.entry((0, G::GENERIC)).or_default().insert(0xfe01, V { fmt: 1, val: Val::Bytes(vec![7; n]) });
    let x = build(&m, s)?;
    ctx.nontrivial(); ctx.label("about 100 MB");
    ctx.note(|| format!("PNG {} bytes <- {n} bytes", img.b.len()));
    let place = Place::memory(F::Png);
    ctx.more = 100;
    let (r, out) = place.write(ctx, &x, &img.b)?;
    if r.is_err() { ctx.label("rejected"); ensure!(out == img.b, "changed", "a rejected write changes the image"); return Ok(()); }
    ctx.label("accepted");
    let got = place.must_read(ctx, &out)?;
    diff(&m.writable(), &crate::meta::view2(&got, true)?, "read back")
}

/// A length whose decimal digits are read as bytes, two at a time, by who
/// takes them for a part of the hexadecimal data of a PNG; or any small one.
fn gen_length(s: &mut Src) -> usize {
    match s.weighted(&[3, 2, 1]) {
        0 => {
            let mut t = String::new();
            if s.chance(1, 3) { t.push_str(&s.int(1, 9).to_string()); }
            for _ in 0..s.int(1, 3) { t.push_str(s.pick(&["49", "49", "45", "78", "69", "66", "00", "42", "20"])); }
            if t.len() < 6 && s.chance(1, 2) { t.push_str(&s.int(0, 9).to_string()); }
            t.parse::<usize>().unwrap_or(0) % 3_000_000
        }
        1 => s.usize(0, 3000),
        _ => { let k = *s.pick(&[256usize, 1000, 4096, 8192, 10_000, 16_384, 32_768, 65_536, 100_000, 131_072, 1_000_000, 1 << 20]); k - 20 + s.usize(0, 40) }
    }
}
/// Metadata whose encoded form has a given length.
fn p08_length(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = match s.weighted(&[3, 4]) { 0 => F::Png, _ => fmt(s) };
    let img = gen_img(s, ctx, f, 0);
    let target = gen_length(s);
    let mut m = if f == F::Tiff { gen_for(s, f, &SMALL) } else { MMeta::default() };
    m.dirs.entry((0, G::GENERIC)).or_default().insert(0x010f, V { fmt: 2, val: Val::Str("ab".into()) });
    let k = lib_encode(ctx, &build(&m, s)?)?.len() + 12;
    let n = target.saturating_sub(k).max(5);
    let v = s.blob(n);
    if f == F::Tiff || s.bool() { m.dirs.entry((0, G::GENERIC)).or_default().insert(0xfe01, V { fmt: 7, val: Val::Bytes(v) }); }
    else { m.dirs.entry((0, G::GENERIC)).or_default().insert(0x010e, V { fmt: 2, val: Val::Str(v.iter().map(|b| (b'!' + b % 90) as char).collect()) }); }
    let x = build(&m, s)?;
    let len = lib_encode(ctx, &x)?.len();
    if f == F::Jpeg && len + 8 > 65_535 { return Ok(()); }
    ctx.nontrivial(); ctx.label("given length");
    ctx.note(|| format!("{} {} bytes <- {len} bytes", f.name(), img.b.len()));
    let place = Place::gen(s, ctx, f);
    let t = as_type(s, f);
    let (r, out) = place.write_as(ctx, &x, &img.b, t)?;
    if let Err(e) = r { return fail("write-err", format!("writing {len} bytes of metadata to a valid {}: {e}", f.name())); }
    let got = match place.read_as(ctx, &out, t)? { Ok(g) => g, Err(e) => return fail("read-err", format!("reading {len} bytes back from a {}: {e}", f.name())) };
    diff(&m.writable(), &crate::meta::view2(&got, true)?, "read back")
}
/// Foreign blocks of a given length.
fn p09_length(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = match s.weighted(&[3, 4]) { 0 => F::Png, _ => *s.pick(&[F::Jpeg, F::Webp, F::Jxl, F::Heif]) };
    ctx.label(f.name());
    let target = gen_length(s);
    let m = gen_meta(s, &SMALL);
    let mut b = tiff::encode(&m, tiff::FREE, s);
    // in a PNG the number counts the header before the block as well
    let target = if s.bool() { target.saturating_sub(6) } else { target };
    if target > b.len() { let v = s.blob(target - b.len()); b.extend(v); }
    if f == F::Jpeg && b.len() > 65_500 { return Ok(()); }
    let img = compose(s, ctx, f, &[b.clone()]);
    ctx.nontrivial(); ctx.label("given length");
    ctx.note(|| format!("{} {} bytes with a block of {}", f.name(), img.len(), b.len()));
    let place = Place::memory(f);
    let t = as_type(s, f);
    match place.read_as(ctx, &img, t)? { Err(e) => fail("read-err", format!("reading a valid {} with a block of {} bytes: {e}", f.name(), b.len())), Ok(g) => diff(&m, &crate::meta::view2(&g, true)?, "read") }
}

// ---------------------------------------------------------------- P09
fn p09(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = fmt(s);
    let n = s.weighted(&[2, 7]);
    let img = if f != F::Tiff && n == 1 && s.chance(1, 4) {
        // a block of up to the full size
        ctx.label(f.name()); ctx.label("larger block");
        let mut m = gen_meta(s, &FULL);
        if f != F::Jpeg && s.chance(1, 100) { ctx.label("block of up to 1 MB"); grow(s, &mut m, &FULL); let mx = m.dirs.keys().map(|k| k.0).max().unwrap_or(0); for n in 0..=mx { m.dirs.entry((n, G::GENERIC)).or_default(); } }
        let b = tiff::encode(&m, tiff::FREE, s);
        let b2 = if f == F::Jpeg && b.len() > 65_500 { None } else { Some(b) };
        match b2 { Some(b) => { let c = compose(s, ctx, f, &[b.clone()]); Img { f, b: c, metas: vec![m], raws: vec![b] } } None => gen_img(s, ctx, f, 1) }
    } else { gen_img(s, ctx, f, n) };
    ctx.note(|| format!("{} {} bytes: {:?}", f.name(), img.b.len(), img.metas.iter().map(|m| m.describe()).collect::<Vec<_>>()));
    // a file is read by its content, whatever its name says
    let place = if s.chance(1, 3) { let g = fmt(s); if g != f { ctx.label("file named like another format"); } else { ctx.label("on a file"); } Place::on_file(ctx, f, *s.pick(g.exts())) } else { Place::memory(f) };
    let t = as_type(s, f);
    let r = place.read_as(ctx, &img.b, t)?;
    if f != F::Tiff && n == 0 { ctx.label("image without Exif data"); return gone(ctx, r, "read"); }
    if img.metas[0].tag_count() >= 2 { ctx.nontrivial(); }
    match r { Err(e) => fail("read-err", format!("reading a valid {}: {e}", f.name())), Ok(g) => diff(&img.metas[0], &crate::meta::view2(&g, true)?, "read") }
}

// ---------------------------------------------------------------- P16
fn mark(s: &mut Src, m: &mut MMeta, marker: &[u8]) {
    let n = m.dirs.keys().filter(|k| k.1 == G::GENERIC).map(|k| k.0).max().unwrap_or(0);
    let n = if s.bool() { n } else { 0 };
    let text = String::from_utf8(marker.to_vec()).unwrap();
    match s.draw(2) {
        0 => { m.dirs.entry((n, G::GENERIC)).or_default().insert(0x010e, V { fmt: 2, val: Val::Str(text) }); }
        1 => { m.dirs.entry((n, G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(marker.to_vec()) }); }
        _ => { m.dirs.entry((n, G::GPS)).or_default().insert(0x001d, V { fmt: 2, val: Val::Str(text) }); }
    }
    for i in 0..=n { m.dirs.entry((i, G::GENERIC)).or_default(); }
}
fn contains(h: &[u8], n: &[u8]) -> bool { h.windows(n.len()).any(|w| w == n) }
/// Removes descriptive data, as clearing must.
fn p16(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = fmt(s);
    let n = s.weighted(&[2, 4, 2, 1]);
    ctx.label(f.name());
    let marker: Vec<u8> = (0..24).map(|_| b'A' + s.draw(25) as u8).collect();
    let marker = if marker.iter().all(|b| *b == marker[0]) { b"QWERTZUIOPASDFGHJKLYXCVB".to_vec() } else { marker };
    let mut metas = vec![];
    let mut wrong = false;
    let img = if f == F::Tiff {
        let mut m = tiffimg::gen_model(s, n > 0);
        if n > 0 { mark(s, &mut m, &marker); let mx = m.dirs.keys().map(|k| k.0).max().unwrap(); for i in 0..=mx { m.dirs.entry((i, G::GENERIC)).or_default(); } }
        let b = tiffimg::encode(&m, s); metas.push(m); b
    } else {
        let mut raw = vec![];
        for _ in 0..n {
            let mut o = SMALL; o.max_tags = 5;
            let mut m = gen_meta(s, &o);
            mark(s, &mut m, &marker);
            let mut b = tiff::encode(&m, if s.bool() { tiff::FREE } else { tiff::PLAIN }, s);
            if s.chance(1, 10) { ctx.label("Exif block that cannot be decoded"); match s.draw(3) { 0 => b = any_block(s, ctx), 1 => { let i = s.usize(0, 7); b[i] ^= 1 << s.draw(7); } 2 => { let i = s.usize(0, b.len() - 1); b[i] ^= 1 << s.draw(7); } _ => { b.drain(..8); } } }
            raw.push(b); metas.push(m);
        }
        if f == F::Webp && n > 0 && s.chance(1, 8) { wrong = true; ctx.label("Exif flag not set"); webp::gen(s, ctx, &raw, true) } else { compose(s, ctx, f, &raw) }
    };
    if n > 0 { ctx.nontrivial(); }
    if n > 1 { ctx.label("several Exif blocks"); }
    ctx.note(|| format!("{} {} bytes, {n} blocks", f.name(), img.len()));
    let before = if f == F::Tiff { tiffimg::view_of(&metas[0]) } else if wrong { webp::view_with(&img, false).expect("generator") } else { view(f, &img).expect("generator") };
    let place = Place::gen(s, ctx, f);
    let out = place.must_clear(ctx, &img)?;
    ensure!(!contains(&out, &marker), "trace", "{}: a piece of the old Exif data is left in the file", f.name());
    let hexed: Vec<u8> = hex(&marker).into_bytes();
    ensure!(!contains(&out.to_ascii_lowercase(), &hexed), "trace-hex", "{}: a piece of the old Exif data is left in hexadecimal form", f.name());
    let after = parsed(view(f, &out), "clear")?;
    match f {
        F::Heif => for e in &after.exif {
            let p = match tiff::parse(e) { Ok(p) => p, Err(m) => return fail("clear-block", format!("the emptied Exif item is invalid: {m}")) };
            for (k, d) in &p.meta.dirs { for h in d.keys() { ensure!(*k == (0, G::GENERIC) && p_heif::KEPT.contains(h), "left", "tag {h:04x} of {k:?} is left"); } }
        },
        _ => ensure!(after.exif.is_empty(), "left", "{}: Exif data is left: {}", f.name(), String::from_utf8_lossy(&after.exif[0])),
    }
    same_parts(&before, &after, "clear")?;
    // the image reads as having none
    let r = place.read(ctx, &out)?;
    match f {
        F::Tiff => match r { Ok(m) => diff(&tiffimg::cleared(&metas[0]), &view_meta(&m)?, "read after clear")?, Err(e) => return fail("read-err", format!("reading a cleared TIFF: {e}")) },
        F::Heif => if let Ok(m) = r { for (k, d) in view_meta(&m)?.norm().dirs { for h in d.keys() { ensure!(k == (0, G::GENERIC) && p_heif::KEPT.contains(h), "left-read", "tag {h:04x} of {k:?} is read after clearing"); } } },
        _ => gone(ctx, r, "cleared")?,
    }
    if n == 0 && f != F::Tiff { ensure!(out == img, "no-op", "{}: clearing an image without Exif data changes it", f.name()); }
    let twice = place.must_clear(ctx, &out)?;
    ensure!(twice == out, "twice", "{}: clearing a second time changes the file", f.name());
    Ok(())
}

// ---------------------------------------------------------------- damage
pub fn damage(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.int(1, 3) {
        let n = b.len();
        match s.weighted(&[4, 4, 2, 1, 1, 2]) {
            0 => { let k = s.usize(0, n); b.truncate(k); }
            1 => for _ in 0..s.int(1, 4) { if n > 0 { let i = s.usize(0, n - 1); b[i] = *s.pick(&[0u8, 1, 2, 4, 8, 0x10, 0x7f, 0x80, 0xd9, 0xda, 0xe1, 0xff]); } },
            2 => if n > 0 { let i = s.usize(0, n - 1); let k = s.usize(1, 16).min(n - i); b.drain(i..i + k); },
            3 => { let i = s.usize(0, n); let k = s.usize(1, 16); let v = s.blob(k); b.splice(i..i, v); }
            4 => { let k = s.usize(1, 40); let v = s.blob(k); b.extend(v); }
            _ => if n >= 4 { let i = s.usize(0, n - 4); let v = *s.pick(&[0u32, 1, 7, 8, 11, 12, 0xff, 0xffff, 0x7fff_ffff, 0xffff_ffff, n as u32, (n as u32).wrapping_sub(8)]); b[i..i + 4].copy_from_slice(&if s.bool() { v.to_be_bytes() } else { v.to_le_bytes() }); },
        }
    }
}
/// any content: valid, damaged, of another format, or no image at all
pub fn any_content(s: &mut Src, ctx: &mut Ctx, f: F) -> Vec<u8> {
    match s.weighted(&[3, 7, 1, 1]) {
        0 => { let k = s.weighted(&[1, 2, 1]); gen_img(s, ctx, f, k).b }
        1 => { let k = s.weighted(&[1, 3, 1]); let mut b = if f == F::Png && s.chance(1, 3) { png::gen(s, ctx, &[], 1, true) } else { gen_img(s, ctx, f, k).b }; if s.chance(2, 5) { ctx.label("rearranged"); return crate::reshape::reshape(s, f, &b); } damage(s, &mut b); ctx.label("damaged"); b }
        2 => { ctx.label("another format"); let g = fmt(s); gen_img(s, ctx, g, 1).b }
        _ => { ctx.label("random bytes"); let k = s.small(100) as usize; s.blob(k) }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Write, Clear, App(u8) }
fn gen_op(s: &mut Src) -> Op { match s.weighted(&[5, 4, 1, 1]) { 0 => Op::Write, 1 => Op::Clear, 2 => Op::App(12), _ => Op::App(13) } }
fn gen_any_meta(s: &mut Src, f: F) -> MMeta {
    if s.chance(1, 10) {
        let mut m = gen_meta(s, &SMALL);
        let k = s.usize(64_000, 70_000); let v = s.blob(k);
        m.dirs.entry((0, G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(v) });
        return m;
    }
    if f == F::Tiff && s.chance(1, 5) { return gen_meta(s, &SMALL); }
    gen_for(s, f, &WRITE)
}
fn apply(ctx: &mut Ctx, p: &Place, op: Op, x: &Metadata, b: &[u8]) -> Result<(Result<(), std::io::Error>, Vec<u8>), Fail> {
    match op { Op::Write => p.write(ctx, x, b), Op::Clear => p.clear(ctx, b), Op::App(n) => p.clear_app(ctx, b, n) }
}

// ---------------------------------------------------------------- P19
/// Everything a metadata object shows, for content where tags may be repeated.
pub fn listing(m: &Metadata) -> Vec<String> {
    let mut v = vec![format!("{}", matches!(m.get_endian(), little_exif::endian::Endian::Big))];
    for ifd in m.get_ifds() { for t in ifd.get_tags() { let (h, x) = open(t); let all = match &x.val { Val::Data(d) => d.concat(), y => y.bytes(false) }; v.push(format!("{:?} {} {h:?} {x:?} {:x}", ifd.get_ifd_type(), ifd.get_generic_ifd_nr(), fnv(&all))); } }
    v
}
fn p19(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = fmt(s);
    ctx.label(f.name());
    let b = any_content(s, ctx, f);
    let mem = Place::memory(f);
    let ext = *s.pick(f.exts());
    let ext = if s.chance(1, 6) { ext.to_uppercase() } else { ext.to_string() };
    let file = Place::on_file(ctx, f, &ext);
    ctx.note(|| format!("{} bytes as .{ext}", b.len()));
    if s.chance(1, 3) {
        ctx.label("read");
        // the content decides; without a known signature the name does
        let t = FileExtension::auto_detect(&mut Cursor::new(&b)).unwrap_or(f.ft());
        let a = mem.read_as(ctx, &b, t)?; let c = file.read(ctx, &b)?;
        match (a, c) {
            (Ok(a), Ok(c)) => { let (a, c) = (listing(&a), listing(&c)); if a.len() > 1 { ctx.nontrivial(); } ensure!(a == c, "read-tags", "{}: {} lines of tags in memory, {} on a file", f.name(), a.len(), c.len()); Ok(()) }
            (Err(_), Err(_)) => { ctx.label("both fail"); Ok(()) }
            (Ok(_), Err(e)) => fail("read-file-err", format!("{}: reading works in memory, on a file: {e}", f.name())),
            (Err(e), Ok(_)) => fail("read-mem-err", format!("{}: reading works on a file, in memory: {e}", f.name())),
        }
    } else {
        let op = gen_op(s);
        let m = gen_any_meta(s, f);
        let x = build(&m, s)?;
        ctx.label(match op { Op::Write => "write", Op::Clear => "clear", _ => "remove segment" });
        ctx.note(|| format!("{op:?} {}", m.describe()));
        let (ra, a) = apply(ctx, &mem, op, &x, &b)?;
        let (rc, c) = apply(ctx, &file, op, &x, &b)?;
        match (&ra, &rc) {
            (Ok(()), Err(e)) => return fail("op-file-err", format!("{} {op:?}: works in memory, on a file: {e}", f.name())),
            (Err(e), Ok(())) => return fail("op-mem-err", format!("{} {op:?}: works on a file, in memory: {e}", f.name())),
            _ => {}
        }
        if ra.is_err() { ctx.label("both fail"); } else if a != b { ctx.nontrivial(); }
        ensure!(a == c, "op-bytes", "{} {op:?}: {} bytes in memory, {} on a file, first difference at {:?}", f.name(), a.len(), c.len(), a.iter().zip(&c).position(|(x, y)| x != y));
        Ok(())
    }
}

// ---------------------------------------------------------------- P20
fn p20(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = fmt(s);
    let k = s.weighted(&[3, 4, 2]);
    let img = gen_img(s, ctx, f, k);
    let place = Place::gen(s, ctx, f);
    let mut cur = img.b.clone();
    let mut expect: Option<MMeta> = if f == F::Tiff { Some(img.metas[0].clone()) } else { None };
    let mut last: Option<Metadata> = None;
    let mut wrote = false;
    let n = if s.chance(1, 300) { ctx.label("long history"); s.int(10, 40) } else { s.int(2, 6) };
    let mut trace = vec![];
    // in HEIF files the first item of the list counts
    let mut kept_heif: Option<MMeta> = if f == F::Heif && img.metas.len() > 1 {
        let p = heif::parse(&img.b).expect("generator");
        let first = p.order.iter().find(|i| p.exif_ids.contains(i)).unwrap();
        let k = p.exif_ids.iter().position(|i| i == first).unwrap();
        img.raws.iter().position(|r| *r == p.view.exif[k]).map(|i| img.metas[i].clone())
    } else { img.metas.first().cloned() };
    for i in 0..n {
        let clear = s.chance(2, 5);
        let before = cur.clone();
        if clear {
            cur = place.must_clear(ctx, &cur)?;
            last = None;
            if f == F::Tiff { expect = expect.map(|m| tiffimg::cleared(&m)); } else { expect = None; }
            trace.push("clear".to_string());
        } else {
            // sometimes edit what is there instead of writing something new
            let (m, x) = if s.chance(1, 3) && i > 0 && last.is_some() {
                let mut x = place.must_read(ctx, &cur)?;
                let mut m = view_meta(&x)?;
                let v = V { fmt: 2, val: Val::Str(gen_string(s, 30)) };
                let t = make_tag(0x0131, G::GENERIC, &v)?;
                ctx.lib("set_tag", || x.set_tag(t))?;
                m.dirs.entry((0, G::GENERIC)).or_default().insert(0x0131, v);
                ctx.label("edits what was read");
                (m, x)
            } else { let mut m = gen_for(s, f, &if f == F::Jpeg { Opt { huge: 0, ..WRITE } } else { WRITE }); if s.chance(1, if f == F::Jpeg { 12 } else { 200 }) { fatten(s, ctx, &mut m); } let x = build(&m, s)?; (m, x) };
            cur = place.must_write(ctx, &x, &cur)?;
            trace.push(format!("write {}", m.describe()));
            expect = Some(m.clone()); kept_heif = Some(m); last = Some(x); wrote = true;
        }
        // repeating the operation changes nothing
        if s.chance(1, 3) {
            let again = match &last { Some(x) => place.must_write(ctx, x, &cur)?, None => place.must_clear(ctx, &cur)? };
            ensure!(again == cur, "repeat", "{}: repeating an operation changes the file ({} -> {} -> {} bytes)", f.name(), before.len(), cur.len(), again.len());
        }
    }
    ctx.note(|| format!("{} {} bytes: {}", f.name(), img.b.len(), trace.join("; ")));
    if wrote { ctx.nontrivial(); }
    // what is read
    let r = place.read(ctx, &cur)?;
    match (&expect, r) {
        (Some(m), Ok(g)) => diff(&m.writable(), &view_meta(&g)?, "at the end")?,
        (Some(_), Err(e)) => return fail("read-err", format!("{}: reading at the end: {e}", f.name())),
        (None, Ok(g)) if f == F::Heif => { let m = kept_heif.clone().unwrap_or_default(); let g = view_meta(&g)?; for (k, d) in &g.dirs { for (h, v) in d { ensure!(k.1 == G::GENERIC && p_heif::KEPT.contains(h) && m.dirs.iter().any(|(k, d)| k.1 == G::GENERIC && d.get(h) == Some(v)), "at the end:left", "HEIF: tag {h:04x} of {k:?} is left: {v:?}"); } } }
        (None, r) => gone(ctx, r, "at the end")?,
    }
    // the content against the last operation applied to the original
    let direct = match &last { Some(x) => place.must_write(ctx, x, &img.b)?, None => place.must_clear(ctx, &img.b)? };
    let (a, b) = (parsed(view(f, &cur), "history")?, parsed(view(f, &direct), "direct")?);
    if f != F::Tiff || last.is_some() { same_parts(&b, &a, "history")?; }
    if last.is_some() { ensure!(f == F::Tiff || a.exif.len() == b.exif.len() || f == F::Heif, "accumulates", "{}: {} Exif blocks after the history, {} after the last operation alone", f.name(), a.exif.len(), b.exif.len()); }
    let converted = f == F::Webp && webp::chunks(&img.b).map(|c| c[0].0 != b"VP8X").unwrap_or(false) || f == F::Jxl && img.b.starts_with(&[0xff, 0x0a]);
    if !converted && (f != F::Tiff || last.is_some()) && f != F::Heif { ensure!(cur == direct, "history-bytes", "{}: the file differs from applying the last operation alone ({} and {} bytes)", f.name(), cur.len(), direct.len()); }
    if f == F::Heif && !img.metas.is_empty() && last.is_some() { ensure!(cur.len() == direct.len(), "history-size", "HEIF: {} bytes after the history, {} after the last operation alone", cur.len(), direct.len()); }
    Ok(())
}

// ---------------------------------------------------------------- P21
fn p21(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = fmt(s);
    ctx.label(f.name());
    let b = any_content(s, ctx, f);
    let op = gen_op(s);
    let m = gen_any_meta(s, f);
    let x = build(&m, s)?;
    let place = Place::gen(s, ctx, f);
    ctx.note(|| format!("{op:?} {} bytes <- {}", b.len(), m.describe()));
    let (r, out) = if place.file.is_none() && op == Op::Write && f == F::Jxl && s.chance(1, 6) { place.write_as(ctx, &x, &b, FileExtension::NAKED_JXL)? } else { apply(ctx, &place, op, &x, &b)? };
    ctx.label(match op { Op::Write => "write", Op::Clear => "clear", _ => "remove segment" });
    if let Err(e) = r {
        ctx.nontrivial();
        ensure!(out == b, "changed", "{} {op:?} reports \"{e}\" but changed the {} ({} -> {} bytes)", f.name(), if place.file.is_some() { "file" } else { "buffer" }, b.len(), out.len());
    } else { ctx.label("operation succeeds"); }
    Ok(())
}

// ---------------------------------------------------------------- P24
struct Trickle<'a> { c: Cursor<&'a [u8]>, step: usize }
impl std::io::Read for Trickle<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.step); self.c.read(&mut b[..n]) } }
impl std::io::Seek for Trickle<'_> { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.c.seek(p) } }
fn same_type(a: Option<FileExtension>, b: Option<FileExtension>) -> bool { match (a, b) { (Some(FileExtension::PNG { .. }), Some(FileExtension::PNG { .. })) => true, (a, b) => a == b } }
const BRANDS: [&[u8; 4]; 11] = [b"heic", b"heix", b"heim", b"heis", b"hevc", b"hevx", b"heif", b"mif1", b"msf1", b"avif", b"avis"];
fn p24(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.weighted(&[4, 3, 3, 2]) {
        0 => {
            // signatures
            let (sig, t): (Vec<u8>, FileExtension) = match s.draw(7) {
                0 => (b"\x89PNG\r\n\x1a\n".to_vec(), FileExtension::PNG { as_zTXt_chunk: true }),
                1 => (vec![0xff, 0xd8, 0xff], FileExtension::JPEG),
                2 => (b"II*\0".to_vec(), FileExtension::TIFF),
                3 => (b"MM\0*".to_vec(), FileExtension::TIFF),
                4 => { let mut v = b"RIFF".to_vec(); v.extend_from_slice(&s.u32().to_le_bytes()); v.extend_from_slice(b"WEBP"); (v, FileExtension::WEBP) }
                5 => (vec![0xff, 0x0a], FileExtension::NAKED_JXL),
                6 => (b"\0\0\0\x0cJXL \r\n\x87\n".to_vec(), FileExtension::JXL),
                _ => { let mut v = (if s.chance(1, 5) { 16 + 4 * s.int(0, 20_000) } else { s.int(16, 80) } as u32).to_be_bytes().to_vec(); v.extend_from_slice(b"ftyp"); v.extend_from_slice(*s.pick(&BRANDS)); (v, FileExtension::HEIF) }
            };
            ctx.label("signature");
            let n = s.small(60) as usize;
            let mut b = sig.clone();
            let lo = 4usize.saturating_sub(sig.len()).min(4);
            let k = n.max(lo); let tail = s.blob(k); b.extend(tail);
            let step = if s.chance(1, 3) { ctx.label("reader that gives a few bytes at a time"); s.usize(1, 8) } else { 1000 };
            let got = ctx.lib("auto_detect", || FileExtension::auto_detect(&mut Trickle { c: Cursor::new(&b), step }))?;
            ctx.nontrivial();
            ensure!(same_type(got, Some(t)), "signature", "content {} is taken for {got:?} instead of {t:?}", hex(&b[..b.len().min(16)]));
            // cut off before its end
            let c = s.usize(0, sig.len() - 1);
            let cut = &b[..c];
            let got = ctx.lib("auto_detect", || FileExtension::auto_detect(&mut Cursor::new(cut)))?;
            let ok = if c < 4 { got.is_none() } else { got.is_none() || same_type(got, Some(t)) };
            ensure!(ok, "short", "the first {c} bytes of {t:?} are taken for {got:?}");
        }
        1 => {
            // no signature: random bytes, near misses, other container brands
            let mut b = match s.draw(3) {
                0 => { let k = s.small(40) as usize; s.blob(k) }
                1 => { let mut v = vec![0, 0, 0, 20]; v.extend_from_slice(b"ftyp"); v.extend_from_slice(*s.pick(&[b"isom", b"mp42", b"qt  ", b"M4A ", b"3gp5", b"crx "])); v.extend(s.blob(12)); v }
                2 => { let mut v = s.pick(&[&b"RIFF\x20\0\0\0WAVEfmt "[..], b"RIFF\x20\0\0\0AVI LIST", b"GIF89a\x01\0", b"BM\x10\0\0\0", b"%PDF-1.7", b"\0\0\0\x0cjP  \r\n\x87\n", b"II+\0\x08\0\0\0", b"MM*\0", b"II\0*", b"\xff\xd9\xff\xe0", b"\xff\x4f\xff\x51", b"PNG\x0d\x0a", b"\x8aPNG"]).to_vec(); v.extend(s.blob(20)); v }
                _ => { let f = fmt(s); let mut v = gen_img(s, ctx, f, 1).b; let i = match f { F::Jpeg => 1, F::Webp => 8, F::Heif => 4, F::Jxl => if v[0] == 0xff { 1 } else { 4 }, _ => 0 }; v[i] ^= 1 << s.draw(7); v }
            };
            ctx.label("no signature");
            let known = b.len() >= 4 && (b.starts_with(&[0x89, b'P', b'N', b'G']) || b.starts_with(&[0xff, 0xd8]) || b.starts_with(b"II*\0") || b.starts_with(b"MM\0*") || b.starts_with(&[0xff, 0x0a]) || b.starts_with(b"\0\0\0\x0cJXL \r\n\x87\n") || (b.len() >= 12 && &b[..4] == b"RIFF" && &b[8..12] == b"WEBP") || (b.len() >= 12 && &b[4..8] == b"ftyp"));
            if known { let n = b.len(); b.truncate(n.min(3)); } else { ctx.nontrivial(); }
            let iso = b.len() >= 12 && &b[4..8] == b"ftyp";
            if iso && BRANDS.iter().any(|x| &b[8..12] == &x[..]) { return Ok(()); }
            let got = ctx.lib("auto_detect", || FileExtension::auto_detect(&mut Cursor::new(&b)))?;
            ensure!(got.is_none(), "invented", "content {} is taken for {got:?}", hex(&b[..b.len().min(16)]));
        }
        2 => {
            // names
            let f = fmt(s);
            let ext: String = s.pick(f.exts()).chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect();
            ctx.label("name");
            let unknown = s.chance(1, 3);
            let stem: Vec<u8> = match s.weighted(&[4, 2, 1]) {
                0 => s.pick(&["a", "a.b", "photo.png", "x.jpg.tif", "ü", ".hidden", "no ext", "a.", "..", "IMG_0001", " ", "a\u{301}", "-", "名.前"]).as_bytes().to_vec(),
                1 => { let n = s.usize(1, 12); (0..n).map(|_| match s.draw(255) as u8 { 0 | b'/' => b'.', c => c }).collect() }
                _ => { let n = *s.pick(&[100usize, 200, 240]); vec![b'n'; n] }
            };
            if std::str::from_utf8(&stem).is_err() { ctx.label("name that is not UTF-8"); }
            let mut name = stem.clone();
            let unknown = if unknown {
                match s.draw(3) {
                    0 => { name = format!(".{ext}").into_bytes(); ctx.label("no name but the extension"); }
                    1 => { name.retain(|b| *b != b'.'); if name.is_empty() { name = ext.clone().into_bytes(); } }
                    2 => { name.push(b'.'); name.extend_from_slice(ext.as_bytes()); name.push(*s.pick(&[0xffu8, b'.', b' ', b'~', b'\n', 0xc3])); }
                    _ => { name.push(b'.'); name.extend_from_slice(s.pick(&["gif", "bmp", "jpe", "txt", "jpgx", "pn", "heics", "webpp", "jp2", "raw", "avi", "xjpg", "tif2", "jpg ", "j", "jрg", "ＪＰＧ", "ﬁt"]).as_bytes()); }
                }
                true
            } else { name.push(b'.'); name.extend_from_slice(ext.as_bytes()); false };
            let name: &std::ffi::OsStr = std::os::unix::ffi::OsStrExt::from_bytes(&name[..]);
            let mut p = ctx.scratch_file("names");
            if s.chance(1, 3) { p.push(s.pick(&["sub.dir.gif", "sub.dir.jpg", "sub dir.", "sub_dir"])); }
            std::fs::create_dir_all(&p).expect("scratch directory");
            p.push(name);
            let name = name.to_string_lossy();
            let r = ctx.lib("get_file_type", || get_file_type(&p))?;
            ensure!(r.is_err(), "missing", "a file that does not exist has the type {r:?}");
            let r = ctx.lib("new_from_path", || Metadata::new_from_path(&p))?;
            ensure!(r.is_err(), "missing-read", "a file that does not exist was read");
            let x = Metadata::new();
            let r = ctx.lib("write_to_file", || x.write_to_file(&p))?;
            ensure!(r.is_err() && !p.exists(), "missing-write", "writing to a file that does not exist: {r:?}, exists afterwards: {}", p.exists());
            let r = ctx.lib("file_clear_metadata", || Metadata::file_clear_metadata(&p))?;
            ensure!(r.is_err() && !p.exists(), "missing-clear", "clearing a file that does not exist: {r:?}, exists afterwards: {}", p.exists());
            let img = gen_img(s, ctx, f, 1);
            std::fs::write(&p, &img.b).expect("scratch file");
            let r = ctx.lib("get_file_type", || get_file_type(&p));
            let read = ctx.lib("new_from_path", || Metadata::new_from_path(&p));
            let wr = ctx.lib("write_to_file", || x.write_to_file(&p));
            let after = std::fs::read(&p).unwrap_or_else(|e| abandon("file-gone", format!("the file cannot be read after the operation: {e}")));
            let _ = std::fs::remove_file(&p);
            let (r, read, wr) = (r?, read?, wr?);
            ctx.nontrivial();
            if unknown {
                ensure!(r.is_err(), "unknown-name", "{name} has the type {r:?}");
                ensure!(wr.is_err() && after == img.b, "unknown-write", "writing to {name} gives {wr:?}");
            } else {
                match r { Ok(t) => ensure!(same_type(Some(t), Some(f.ft())), "name", "{name} has the type {t:?}"), Err(e) => return fail("name-err", format!("type of {name}: {e}")) }
                match read { Ok(g) => diff(&img.metas[0], &view_meta(&g)?, "read")?, Err(e) => return fail("name-read", format!("reading {name}: {e}")) }
            }
        }
        _ => {
            // as text
            use std::str::FromStr;
            ctx.label("name as text"); ctx.nontrivial();
            let f = fmt(s);
            let ext: String = s.pick(f.exts()).chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect();
            let r = ctx.lib("from_str", || FileExtension::from_str(&ext))?;
            match r { Ok(t) => ensure!(same_type(Some(t), Some(f.ft())), "text", "{ext} is {t:?}"), Err(e) => return fail("text-err", format!("{ext}: {e}")) }
            let n = s.small(6) as usize;
            let t: String = (0..n).map(|_| *s.pick(&['j', 'p', 'e', 'g', 'n', 't', 'i', 'f', 'x', 'l', '.', ' ', 'w', 'b', 'h', 'c', 'v', 'a'])).collect();
            if !FORMATS.iter().any(|f| f.exts().contains(&t.as_str())) { let r = ctx.lib("from_str", || FileExtension::from_str(&t))?; ensure!(r.is_err(), "text-unknown", "{t:?} is {r:?}"); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P25
fn p25(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = fmt(s);
    ctx.label(f.name());
    let o = if s.chance(1, 3) { FULL } else { WRITE };
    let mut m = gen_meta(s, &o);
    if s.chance(1, if f == F::Jpeg { 8 } else { 60 }) { let k = s.usize(65_000, 66_000); let v = s.blob(k); m.dirs.entry((0, G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(v) }); ctx.label("65 kB"); }
    let x = build(&m, s)?;
    if m.tag_count() >= 2 { ctx.nontrivial(); }
    ctx.note(|| format!("{} {}", f.name(), m.describe()));
    let t = if f == F::Jxl && s.bool() { FileExtension::NAKED_JXL } else { as_type(s, f) };
    let enc = lib_encode(ctx, &x)?;
    let r = ctx.lib("as_u8_vec", || x.as_u8_vec(t))?;
    let e = match (f, r) {
        (F::Jxl | F::Tiff, r) => { ensure!(r.is_err(), "no-form", "{t:?} has no stand-alone form but one was made"); return Ok(()); }
        (F::Jpeg, r) if enc.len() + 8 > 65_535 => { ensure!(r.is_err(), "too-large", "a JPEG segment of {} bytes was made", enc.len()); return Ok(()); }
        (_, Err(e)) => return fail("err", format!("as_u8_vec for {t:?}: {e}")),
        (_, Ok(e)) => e,
    };
    let tail = |a: &[u8]| if a == enc { Ok(()) } else { fail::<()>("content", format!("{}: the stand-alone form holds {} bytes, the encoding has {}", f.name(), a.len(), enc.len())) };
    let base;
    let placed = match f {
        F::Jpeg => {
            ensure!(e.len() >= 10 && e[..2] == [0xff, 0xe1] && u16::from_be_bytes([e[2], e[3]]) as usize + 2 == e.len() && &e[4..10] == b"Exif\0\0", "segment", "not a JPEG segment: {}", hex(&e[..e.len().min(12)]));
            tail(&e[10..])?;
            base = jpeg::gen(s, ctx, &[], true);
            let segs = jpeg::segments(&base).expect("generator");
            let at = if s.bool() { 2 } else { let c: Vec<usize> = segs.iter().filter(|g| g.marker != 0xd8).map(|g| g.start).take(4).collect(); if c.is_empty() { 2 } else { *s.pick(&c) } };
            let mut o = base.clone(); o.splice(at..at, e.clone());
            if at == 2 { let w = Place::memory(f).must_write(ctx, &x, &base)?; ensure!(w == o, "embeds", "writing embeds something else than the stand-alone segment"); }
            o
        }
        F::Png => {
            let z = matches!(t, FileExtension::PNG { as_zTXt_chunk: true });
            let text = if z {
                ensure!(e.starts_with(b"zTXt"), "chunk", "does not start with the chunk type");
                let tx = match png::parse_text(b"zTXt", &e[4..]) { Some(x) => x, None => return fail("chunk", "not the data of a zTXt chunk") };
                ensure!(tx.keyword == b"Raw profile type exif", "keyword", "keyword {:?}", String::from_utf8_lossy(&tx.keyword));
                tx.text
            } else { e.clone() };
            profile(&text, &enc)?;
            base = png::gen(s, ctx, &[], 0, false);
            let (name, data): (&[u8], Vec<u8>) = if z { (b"zTXt", e[4..].to_vec()) } else {
                let kind = *s.pick(b"tzi");
                let tx = png::Text { kind, keyword: b"Raw profile type exif".to_vec(), compressed: s.bool(), lang: vec![], trans: vec![], text: e.clone() };
                (match kind { b't' => b"tEXt", b'z' => b"zTXt", _ => b"iTXt" }, png::text_data(&tx, 6))
            };
            let mut c = vec![]; png::chunk(&mut c, name, &data);
            let (cs, _) = png::chunks(&base).expect("generator");
            let mut offs = vec![33]; let mut at = 8; for k in &cs { at += 12 + k.data.len(); if k.name != b"IEND" { offs.push(at); } }
            let at = *s.pick(&offs);
            let mut o = base.clone(); o.splice(at..at, c.clone());
            if z && at == 33 { let w = Place::memory(f).must_write(ctx, &x, &base)?; ensure!(w == o, "embeds", "writing embeds something else than the stand-alone chunk"); }
            o
        }
        F::Webp => {
            ensure!(e.len() >= 8 && &e[..4] == b"EXIF", "chunk", "does not start with the chunk type");
            let n = u32::from_le_bytes(e[4..8].try_into().unwrap()) as usize;
            ensure!(e.len() == 8 + n || (e.len() == 9 + n && n % 2 == 1 && e[8 + n] == 0), "size", "chunk size {n} in {} bytes", e.len());
            let d = &e[8..8 + n];
            tail(d.strip_prefix(b"Exif\0\0").unwrap_or(d))?;
            base = webp::gen(s, ctx, &[], false);
            let w = Place::memory(f).must_write(ctx, &x, &base)?;
            let mut pad = e.clone(); if pad.len() % 2 == 1 { pad.push(0); }
            ensure!(contains(&w, &pad), "embeds", "writing embeds something else than the stand-alone chunk");
            let c = webp::chunks(&base).expect("generator");
            if c[0].0 != b"VP8X" { return Ok(()); }
            let mut o = base.clone(); o[20] |= 8;
            let mut offs = vec![]; let mut at = 12; for k in &c { at += 8 + k.1.len() + k.1.len() % 2; offs.push(at); }
            let at = *s.pick(&offs);
            o.splice(at..at, pad);
            let n = (o.len() - 8) as u32; o[4..8].copy_from_slice(&n.to_le_bytes());
            o
        }
        F::Heif => {
            ensure!(e.len() >= 4, "payload", "{} bytes", e.len());
            let off = u32::from_be_bytes(e[..4].try_into().unwrap()) as usize;
            match e.get(4 + off..) { Some(d) => tail(d)?, None => return fail("payload", "offset of the TIFF header outside the payload") }
            base = heif::gen(s, ctx, &[]);
            let w = Place::memory(f).must_write(ctx, &x, &base)?;
            let p = parsed(heif::parse(&w), "write")?;
            ensure!(p.exif_raw.contains(&e), "embeds", "writing embeds something else than the stand-alone payload");
            heif::gen_raw(s, ctx, &[e.clone()])
        }
        _ => unreachable!(),
    };
    let got = match Place::memory(f).read_as(ctx, &placed, f.ft())? { Ok(g) => g, Err(e) => return fail("placed-read", format!("reading {} with the data placed by hand: {e}", f.name())) };
    diff(&m.writable(), &view_meta(&got)?, "placed by hand")
}
/// The profile as the library and other programs write it: the length may count the digits up to one byte more.
fn profile(t: &[u8], enc: &[u8]) -> Res {
    let r = match t.strip_prefix(b"\nexif\n") { Some(r) => r, None => return fail("profile", "does not start with the profile name") };
    let Some(nl) = r.iter().position(|b| *b == b'\n') else { return fail("profile", "no line end after the length") };
    let Some(n) = std::str::from_utf8(&r[..nl]).ok().and_then(|x| x.trim().parse::<usize>().ok()) else { return fail("profile", "no length") };
    let h: Vec<u8> = r[nl + 1..].iter().copied().filter(|b| *b != b'\n').collect();
    let v = unhex(&String::from_utf8_lossy(&h));
    ensure!(h.len() % 2 == 0 && h.iter().all(|b| b.is_ascii_hexdigit()) && v.len() == n, "profile-length", "stated length {n}, {} digits", h.len());
    let d = match v.strip_prefix(b"Exif\0\0") { Some(d) => d, None => return fail("profile", "no Exif identifier") };
    ensure!(d.len() >= enc.len() && d.len() <= enc.len() + 1 && d.starts_with(enc) && d[enc.len()..].iter().all(|b| *b == 0), "profile-content", "the profile holds {} bytes, the encoding has {}", d.len(), enc.len());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = BTreeSet::<u8>::new();
    vec![
        Prop { id: "P08", rule: "random metadata written to random valid images of all six formats with 0 to 2 Exif blocks before, in memory and on files, sizes up to and beyond the JPEG limit, then read; non-trivial: two or more tags", assumptions: &["as P01"],
            parts: vec![Part { name: "write-read", body: Body::Choices(p08), quick: 400_000, thorough: 12_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p08(s, ctx) }), quick: LARGE, thorough: 4_000 }, Part { name: "megabytes", body: Body::Choices(p08_huge), quick: 24, thorough: 3_000 }, Part { name: "lengths", body: Body::Choices(p08_length), quick: 4_000, thorough: 400_000 }, Part { name: "digits", body: Body::Choices(p08_digits), quick: 4, thorough: 100 }] },
        Prop { id: "P09", rule: "valid images of all formats with one foreign Exif block in any carrier, position and TIFF layout, or none, read in memory and from files named like any format; non-trivial: block of two or more tags", assumptions: &["the rules of P10 to P15 for what a valid image is"],
            parts: vec![Part { name: "foreign-read", body: Body::Choices(p09), quick: 400_000, thorough: 12_000_000 }, Part { name: "lengths", body: Body::Choices(p09_length), quick: 4_000, thorough: 400_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p09(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P16", rule: "valid images with 0 to 3 Exif blocks holding a random marker, cleared once and twice, in memory and on files; non-trivial: at least one Exif block", assumptions: &["HEIF files keep an Exif item with orientation and resolution only"],
            parts: vec![Part { name: "clear", body: Body::Choices(p16), quick: 400_000, thorough: 12_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p16(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P19", rule: "reads, writes, clears and segment removals on valid, damaged and foreign content, compared between memory and file; non-trivial: tags were read or the content changed", assumptions: &[],
            parts: vec![Part { name: "memory-file", body: Body::Choices(p19), quick: 400_000, thorough: 12_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p19(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P20", rule: "histories of 2 to 6 writes, clears and read-edit-writes on valid images with 0 to 2 Exif blocks, with repetitions, compared with the last operation alone; non-trivial: at least one write", assumptions: &["HEIF files keep an Exif item with orientation and resolution only"],
            parts: vec![Part { name: "history", body: Body::Choices(p20), quick: 200_000, thorough: 6_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p20(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P21", rule: "operations on damaged, truncated, foreign and random content and with metadata that does not fit, in memory and on files; non-trivial: the operation failed", assumptions: &["the file system itself reports no error"],
            parts: vec![Part { name: "failed", body: Body::Choices(p21), quick: 400_000, thorough: 12_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p21(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P24", rule: "signatures with random continuations and truncations, near misses, file names in random case, missing files; non-trivial: not a mere truncation", assumptions: &[],
            parts: vec![Part { name: "types", body: Body::Choices(p24), quick: 300_000, thorough: 8_000_000 }] },
        Prop { id: "P25", rule: "stand-alone encodings of random metadata, taken apart, compared with what writing embeds, placed by hand into random images and read; non-trivial: two or more tags", assumptions: &["as P01"],
            parts: vec![Part { name: "standalone", body: Body::Choices(p25), quick: 300_000, thorough: 8_000_000 }] },
    ]
}

//! P01 encode/decode round trip, P02 well-formed blocks, P03 foreign blocks.
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;

use crate::p_all::listing;
use crate::engine::*;
use crate::ensure;
use crate::meta::*;
use crate::tags::*;
use crate::tiff;

pub fn lib_encode(ctx: &mut Ctx, m: &Metadata) -> Result<Vec<u8>, Fail> {
    match ctx.lib("encode", || m.encode())? { Ok(b) => Ok(b), Err(e) => fail("encode-err", format!("encode: {e}")) }
}
pub fn lib_decode(ctx: &mut Ctx, b: &[u8]) -> Result<Metadata, Fail> {
    let v = b.to_vec();
    match ctx.lib("decode", || Metadata::new_from_vec(&v, FileExtension::TIFF))? { Ok(m) => Ok(m), Err(e) => fail("decode-err", format!("decode: {e}")) }
}
fn labels(ctx: &mut Ctx, m: &MMeta) {
    if m.big { ctx.label("big endian"); }
    let k = m.dirs.keys();
    let n = k.clone().filter(|k| k.1 == G::GENERIC).count();
    if n > 1 { ctx.label("several top-level directories"); }
    if k.clone().any(|k| k.1 == G::EXIF) { ctx.label("EXIF directory"); }
    if k.clone().any(|k| k.1 == G::GPS) { ctx.label("GPS directory"); }
    if k.clone().any(|k| k.1 == G::INTEROP) { ctx.label("INTEROP directory"); }
    if m.dirs.values().any(|d| d.contains_key(&0x0111)) { ctx.label("image strips"); }
    if m.dirs.values().any(|d| d.contains_key(&0x0201)) { ctx.label("thumbnail"); }
    if m.dirs.iter().any(|(k, d)| d.keys().any(|h| row(*h, k.1).is_none() && !IMAGE_DATA_TAGS.contains(h))) { ctx.label("unknown tags"); }
    if m.tag_count() >= 3 { ctx.nontrivial(); }
}

fn p01(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_meta(s, &FULL);
    if s.chance(1, 500) { spread(s, &mut m); ctx.label("directory numbers far apart"); }
    let x = build(&m, s)?;
    labels(ctx, &m); ctx.note(|| m.describe());
    let b1 = lib_encode(ctx, &x)?;
    let y = lib_decode(ctx, &b1)?;
    diff(&m.writable(), &view2(&y, true)?, "decoded")?;
    let b2 = lib_encode(ctx, &y)?;
    ensure!(b1 == b2, "re-encode", "encoding the decoded metadata gives {} other bytes than the first encoding of {}", b2.len(), b1.len());
    // encoding does not change the object
    diff(&m, &view(&x)?, "object after encode")
}

fn p02(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_meta(s, &FULL);
    if s.chance(1, 500) { spread(s, &mut m); ctx.label("directory numbers far apart"); }
    let mut x = build(&m, s)?;
    // useless pointer tags set by the user, and directories without tags
    if s.chance(1, 3) {
        let v: Vec<u32> = (0..s.draw(2)).map(|_| s.u32()).collect();
        let nr = s.draw(2) as u32;
        match s.draw(2) { 0 => x.get_ifd_mut(G::GENERIC.lib(), nr).set_tag(ExifTag::ExifOffset(v)), 1 => x.get_ifd_mut(G::GENERIC.lib(), nr).set_tag(ExifTag::GPSInfo(v)), _ => x.get_ifd_mut(G::EXIF.lib(), nr).set_tag(ExifTag::InteropOffset(v)) }
        ctx.label("pointer tag set by the user");
    }
    if s.chance(1, 4) { let g = *s.pick(&GROUPS); x.create_ifd(g.lib(), s.draw(3) as u32); ctx.label("empty directory"); }
    labels(ctx, &m); ctx.note(|| m.describe());
    let b = lib_encode(ctx, &x)?;
    let p = match tiff::parse(&b) { Ok(p) => p, Err(e) => return fail("structure", format!("{e} in the encoding of {} ({})", m.describe(), hex(&b[..b.len().min(200)]))) };
    for ((n, g), d) in &p.meta.dirs { for h in d.keys() { ensure!(row(*h, *g).map_or(true, |r| r.writable), "not-writable", "tag {h:04x} of {g:?}{n} is not writable but encoded"); } }
    diff(&m.writable(), &p.meta, "encoded")?;
    ensure!(p.end + 4 >= b.len(), "trailing", "the block has {} bytes but ends at {}", b.len(), p.end);
    Ok(())
}

/// carriers that hand a block to the decoder with and without the Exif identifier
pub fn carry(b: &[u8], kind: u64) -> (Vec<u8>, FileExtension) {
    let id = b"Exif\0\0";
    match kind {
        1 | 2 => {
            let mut pl = if kind == 1 { id.to_vec() } else { vec![] }; pl.extend_from_slice(b);
            let mut o = b"RIFF\0\0\0\0WEBPVP8X\x0a\0\0\0\x08\0\0\0\0\0\0\0\0\0VP8L\x06\0\0\0\x2f\0\0\0\x10\0EXIF".to_vec();
            o.extend_from_slice(&(pl.len() as u32).to_le_bytes()); o.extend_from_slice(&pl); if pl.len() % 2 == 1 { o.push(0); }
            let n = (o.len() - 8) as u32; o[4..8].copy_from_slice(&n.to_le_bytes());
            (o, FileExtension::WEBP)
        }
        3 if b.len() < 65_000 => {
            let mut o = vec![0xff, 0xd8, 0xff, 0xe1]; o.extend_from_slice(&((b.len() + 8) as u16).to_be_bytes()); o.extend_from_slice(id); o.extend_from_slice(b); o.extend_from_slice(&[0xff, 0xd9]);
            (o, FileExtension::JPEG)
        }
        _ => (b.to_vec(), FileExtension::TIFF),
    }
}
/// Real numbers stored as unsigned instead of signed fractions keep their value.
fn p03_fractions(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = s.bool();
    let rs: Vec<&Row> = TABLE.iter().filter(|r| r.fmt == 10).collect();
    let r = *s.pick(&rs);
    let n = s.int(1, 4) as usize;
    let v: Vec<(u32, u32)> = (0..n).map(|_| { let f = |s: &mut Src| match s.draw(3) { 0 => s.draw(100) as u32, 1 => s.draw(100_000) as u32, 2 => s.draw(i32::MAX as u64) as u32, _ => s.u32() }; let a = f(s); (a, if a > i32::MAX as u32 && s.bool() { 1 } else { f(s).max(1) }) }).collect();
    let mut d = Dir::new();
    d.insert(0xfe00, V { fmt: 5, val: Val::UR(v.clone()) });
    let mut m = MMeta { big, ..Default::default() };
    m.dirs.insert((0, r.group), d);
    let mut b = tiff::encode(&m, tiff::PLAIN, s);
    // give the entry the number of the signed tag
    let (old, new) = if big { (0xfe00u16.to_be_bytes(), r.hex.to_be_bytes()) } else { (0xfe00u16.to_le_bytes(), r.hex.to_le_bytes()) };
    let key: Vec<u8> = { let mut k = old.to_vec(); k.extend(if big { [0, 5] } else { [5, 0] }); k };
    let i = b.windows(4).position(|w| w == &key[..]).expect("entry");
    b[i..i + 2].copy_from_slice(&new);
    ctx.label("signed fraction stored as unsigned"); ctx.nontrivial();
    ctx.note(|| format!("{} {v:?}", r.name));
    let y = lib_decode(ctx, &b)?;
    let got = view(&y)?;
    let g = got.dirs.get(&(0, r.group)).and_then(|d| d.get(&r.hex));
    let Some(V { val: Val::IR(x), .. }) = g else { return fail("fraction:missing", format!("{} is read as {g:?}", r.name)) };
    ensure!(x.len() == v.len(), "fraction:count", "{} fractions became {}", v.len(), x.len());
    for (a, b) in v.iter().zip(x) {
        // what is too large becomes the largest number there is (as in P05)
        let (p, q) = ((a.0 as f64 / a.1 as f64).min(i32::MAX as f64), b.0 as f64 / b.1 as f64);
        ensure!((p - q).abs() <= 1e-9 * p.max(1.0) * 1.000001, "fraction:value", "{}/{} became {}/{}", a.0, a.1, b.0, b.1);
    }
    Ok(())
}
/// A block that is none, or a value that the tag cannot hold, is an error and
/// does not become a wrong value.
fn p03_not_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = s.bool();
    if s.bool() {
        let mut m = gen_meta(s, &SMALL); m.big = big;
        let mut b = tiff::encode(&m, tiff::FREE, s);
        let old = b[..4].to_vec();
        match s.draw(4) {
            0 => { let i = s.usize(0, 3); b[i] ^= 1 << s.draw(7); }
            1 => b[..4].copy_from_slice(if big { b"II\0*" } else { b"MM*\0" }),
            2 => b[2..4].copy_from_slice(if big { &[0, 43] } else { &[43, 0] }),
            3 => b[2..4].copy_from_slice(s.pick(&[*b"RO", *b"RS", *b"U\0", [0, 0], [0xff, 0xff], *b"**"])),
            _ => { let n = s.usize(0, 7); b.truncate(n); }
        }
        // (both byte orders can also be reached by a change)
        if b.len() >= 4 && (b[..4] == old[..] || &b[..4] == b"II*\0" || &b[..4] == b"MM\0*") { return Ok(()); }
        let k = s.draw(3);
        let (img, ft) = carry(&b, k);
        ctx.label("no TIFF header"); ctx.nontrivial();
        ctx.note(|| format!("header {}", hex(&b[..b.len().min(8)])));
        let r = ctx.lib("decode", || Metadata::new_from_vec(&img, ft).map(|m| listing(&m)))?;
        if let Ok(l) = r { return fail("header:accepted", format!("a block that begins with {} is read as {l:?}", hex(&b[..b.len().min(8)]))); }
        return Ok(());
    }
    // a catalogued tag with a value of a format that cannot be converted
    let rs: Vec<&Row> = TABLE.iter().filter(|r| r.writable && is_offset(r.hex, r.group).is_none() && !IMAGE_DATA_TAGS.contains(&r.hex)).collect();
    let narrow = s.bool();
    let r = if narrow { let rs: Vec<&&Row> = rs.iter().filter(|r| r.fmt == 1).collect(); **s.pick(&rs) } else { *s.pick(&rs) };
    let (fmt, val) = if narrow {
        let n = s.usize(1, 5); let mut v: Vec<u16> = (0..n).map(|_| s.draw(255) as u16).collect();
        let i = s.usize(0, n - 1); v[i] = match s.draw(2) { 0 => 256, 1 => s.draw(0xff) as u16 * 256 + 255, _ => s.int(256, 0xffff) as u16 };
        if v[i] < 256 { v[i] = 256; }
        (3, Val::U16(v))
    } else {
        // numbers for text, text for numbers, real numbers for integers
        let fmt = match r.fmt { 2 => *s.pick(&[3u16, 4, 5, 10, 12]), 1 | 3 | 4 | 6 | 8 | 9 => *s.pick(&[5u16, 10, 11, 12]), _ => 2 };
        if r.fmt == 7 { return Ok(()); }
        let n = s.usize(1, 4); let val = gen_val(s, fmt, n);
        (fmt, val)
    };
    let mut d = Dir::new();
    d.insert(0xfe00, V { fmt, val: val.clone() });
    let mut m = MMeta { big, ..Default::default() };
    m.dirs.insert((0, r.group), d);
    let mut b = tiff::encode(&m, tiff::PLAIN, s);
    let p16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let key = [p16(0xfe00), p16(fmt)].concat();
    let i = b.windows(4).position(|w| w == &key[..]).expect("entry");
    b[i..i + 2].copy_from_slice(&p16(r.hex));
    ctx.label("value of a format that the tag cannot have"); ctx.nontrivial();
    ctx.note(|| format!("{} as {val:?}", r.name));
    let y = ctx.lib("decode", || Metadata::new_from_vec(&b, FileExtension::TIFF))?;
    if let Ok(y) = y {
        if let Some(v) = view(&y)?.dirs.get(&(0, r.group)).and_then(|d| d.get(&r.hex)) {
            ensure!(v.val == val, "value:wrong", "{}, stored as {val:?}, is read as {v:?}", r.name);
        }
    }
    Ok(())
}
fn p03(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 50) { return p03_fractions(s, ctx); }
    if s.chance(1, 30) { return p03_not_valid(s, ctx); }
    let mut m = gen_meta(s, &FULL);
    if s.chance(1, 8) {
        // the same value several times, as resolutions often are
        for d in m.dirs.values_mut() {
            let hs: Vec<u16> = d.keys().copied().filter(|h| !IMAGE_DATA_TAGS.contains(h)).collect();
            for w in hs.windows(2) { if d[&w[0]].fmt == d[&w[1]].fmt { let v = d[&w[0]].clone(); d.insert(w[1], v); ctx.label("equal values"); } }
        }
        if s.bool() { let v = V { fmt: 5, val: Val::UR(vec![(s.u32(), s.u32())]) }; let d = m.dirs.entry((0, G::GENERIC)).or_default(); d.insert(0x011a, v.clone()); d.insert(0x011b, v); }
    }
    if s.chance(1, 12) { let v = s.draw(1) as u8; m.dirs.entry((0, G::GPS)).or_default().insert(0x0005, V { fmt: 1, val: Val::Bytes(vec![v]) }); }
    let mut l = tiff::FREE;
    if s.chance(1, 3) { l.widths = false; } else { ctx.label("other integer widths"); }
    if s.chance(1, 3) { l.no_links = false; } else { ctx.label("sub-directory without link"); }
    let b = tiff::encode(&m, l, s);
    labels(ctx, &m); ctx.note(|| format!("{} as {} bytes", m.describe(), b.len()));
    let k = s.draw(3);
    let (img, ft) = carry(&b, k);
    let y = match ctx.lib("decode", || Metadata::new_from_vec(&img, ft))? { Ok(y) => y, Err(e) => return fail("decode-err", format!("decode of {}: {e}", m.describe())) };
    ctx.label(["bare block", "with identifier", "without identifier", "JPEG segment"][k as usize]);
    diff(&m, &view2(&y, true)?, "decoded")
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", rule: "random metadata over all catalogued and uncatalogued tags, groups, several top-level directories, strips and thumbnails, both byte orders; non-trivial: three or more tags", assumptions: &["tags are put into directories of their own group, texts have no trailing NUL, strip and thumbnail lengths are consistent with the data"],
            parts: vec![Part { name: "roundtrip", body: Body::Choices(p01), quick: 700_000, thorough: 30_000_000 }] },
        Prop { id: "P02", rule: "as P01, plus pointer tags set by the user and empty directories; the block is read with the harness's own strict TIFF reader; non-trivial: three or more tags", assumptions: &["as P01"],
            parts: vec![Part { name: "structure", body: Body::Choices(p02), quick: 700_000, thorough: 30_000_000 }] },
        Prop { id: "P03", rule: "random metadata written by the harness's own TIFF writer with shuffled layout, gaps, other integer widths, missing links, UTF-8 and Latin-1 text, in four carriers; some blocks that are not valid; non-trivial: three or more tags", assumptions: &[],
            parts: vec![Part { name: "foreign", body: Body::Choices(p03), quick: 700_000, thorough: 30_000_000 }] },
    ]
}

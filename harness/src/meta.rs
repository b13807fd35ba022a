//! The model of a metadata object, its generator, and conversions to and from
//! the library's `Metadata`.
use std::collections::{BTreeMap, BTreeSet};
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;

use crate::engine::{fail, Fail, Src};
use crate::tags::*;

pub type Dir = BTreeMap<u16, V>;
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct MMeta { pub big: bool, pub dirs: BTreeMap<(u32, G), Dir> }

impl MMeta {
    pub fn tag_count(&self) -> usize { self.dirs.values().map(|d| d.len()).sum() }
    pub fn get(&self, nr: u32, g: G, hex: u16) -> Option<&V> { self.dirs.get(&(nr, g)).and_then(|d| d.get(&hex)) }
    /// Directories without tags do not count, top-level directories are numbered consecutively.
    pub fn norm(&self) -> MMeta {
        let mut m = self.clone();
        m.dirs.retain(|_, d| !d.is_empty());
        let nrs: BTreeSet<u32> = m.dirs.keys().map(|k| k.0).collect();
        let map: BTreeMap<u32, u32> = nrs.iter().enumerate().map(|(i, n)| (*n, i as u32)).collect();
        m.dirs = m.dirs.into_iter().map(|((n, g), d)| ((map[&n], g), d)).collect();
        m
    }
    /// What writing keeps: the tags the library marks as writable.
    pub fn writable(&self) -> MMeta {
        let mut m = self.clone();
        for ((_, g), d) in m.dirs.iter_mut() { d.retain(|h, _| row(*h, *g).map_or(true, |r| r.writable) && is_offset(*h, *g).is_none()); }
        m
    }
    pub fn describe(&self) -> String {
        let mut s = format!("{}", if self.big { "BE" } else { "LE" });
        for ((n, g), d) in &self.dirs {
            s.push_str(&format!(" {g:?}{n}{{{}}}", d.iter().take(6).map(|(h, v)| format!("{h:04x}:{}:{:?}", v.fmt, v.val)).collect::<Vec<_>>().join(", ")));
            if d.len() > 6 { s.push_str(&format!("+{}", d.len() - 6)); }
        }
        s
    }
}

/// First difference between what is expected and what was found.
pub fn diff(exp: &MMeta, got: &MMeta, what: &str) -> Result<(), Fail> {
    let (e, g) = (exp.norm(), got.norm());
    if e.big != g.big { return fail(format!("{what}:endian"), format!("{what}: byte order expected {} found {}", if e.big { "big" } else { "little" }, if g.big { "big" } else { "little" })); }
    for (k, d) in &e.dirs {
        for (h, v) in d {
            match g.get(k.0, k.1, *h) {
                None => return fail(format!("{what}:missing"), format!("{what}: tag {h:04x} of {:?}{} is missing (expected {v:?}); found {}", k.1, k.0, g.describe())),
                Some(w) if w != v => return fail(format!("{what}:value"), format!("{what}: tag {h:04x} of {:?}{}: expected {v:?}, found {w:?}", k.1, k.0)),
                _ => {}
            }
        }
    }
    for (k, d) in &g.dirs {
        for (h, v) in d { if e.get(k.0, k.1, *h).is_none() { return fail(format!("{what}:extra"), format!("{what}: tag {h:04x} of {:?}{} appears although it was not stored: {v:?}", k.1, k.0)); } }
    }
    Ok(())
}

/// The library's object as a model; fails if a directory or tag is duplicated
/// or a directory is not in ascending order when `strict`.
pub fn view(m: &Metadata) -> Result<MMeta, Fail> { view2(m, false) }
pub fn view2(m: &Metadata, strict: bool) -> Result<MMeta, Fail> {
    let mut out = MMeta { big: m.get_endian() == Endian::Big, dirs: BTreeMap::new() };
    for ifd in m.get_ifds() {
        let k = (ifd.get_generic_ifd_nr(), G::of(ifd.get_ifd_type()));
        let mut d = Dir::new();
        let mut last: Option<u16> = None;
        for t in ifd.get_tags() {
            let hex = t.as_u16();
            if d.insert(hex, open(t).1).is_some() { return fail("duplicate-tag", format!("tag {hex:04x} is in {k:?} twice")); }
            if strict && last.is_some_and(|l| l >= hex) { return fail("unsorted", format!("tag {hex:04x} of {k:?} comes after {:04x}", last.unwrap())); }
            last = Some(hex);
        }
        if out.dirs.insert(k, d).is_some() { return fail("duplicate-ifd", format!("directory {k:?} appears twice")); }
    }
    Ok(out)
}

pub fn make_tag(hex: u16, g: G, v: &V) -> Result<ExifTag, Fail> {
    if row(hex, g).is_some() || IMAGE_DATA_TAGS.contains(&hex) {
        match make_known(hex, g, &v.val) { Some(t) => Ok(t), None => fail("catalogue-type", format!("tag {hex:04x} of {g:?} does not take {v:?}")) }
    } else { Ok(make_unknown(hex, g, v)) }
}

/// An empty metadata object of the given byte order (obtained through the public interface).
pub fn empty(big: bool) -> Metadata {
    if !big { return Metadata::new(); }
    let t = vec![0x4d, 0x4d, 0, 0x2a, 0, 0, 0, 8, 0, 0, 0, 0, 0, 0];
    match Metadata::new_from_vec(&t, FileExtension::TIFF) { Ok(m) => m, Err(e) => crate::engine::abandon("minimal-tiff", format!("an empty big endian TIFF structure cannot be read: {e}")) }
}

/// Builds the library's object, inserting in the order the source chooses.
pub fn build(m: &MMeta, order: &mut Src) -> Result<Metadata, Fail> {
    let mut x = empty(m.big);
    let mut all: Vec<(u32, G, u16, &V)> = vec![];
    for ((n, g), d) in &m.dirs { for (h, v) in d { all.push((*n, *g, *h, v)); } }
    if order.chance(1, 3) { for i in (1..all.len()).rev() { let j = order.usize(0, i); all.swap(i, j); } }
    for (n, g, h, v) in all {
        let t = make_tag(h, g, v)?;
        if n == 0 && h % 2 == 0 { x.set_tag(t); } else { x.get_ifd_mut(g.lib(), n).set_tag(t); }
    }
    Ok(x)
}

#[derive(Clone, Copy)]
pub struct Opt { pub max_dirs: u64, pub max_tags: u64, pub image_data: bool, pub unwritable: bool, pub max_count: u64, pub big: Option<bool>, pub huge: u64 }
pub const SMALL: Opt = Opt { max_dirs: 3, max_tags: 8, image_data: false, unwritable: false, max_count: 40, big: None, huge: 0 };
/// for metadata that gets written to images
pub const WRITE: Opt = Opt { image_data: true, huge: 1500, ..SMALL };
pub const FULL: Opt = Opt { max_dirs: 4, max_tags: 30, image_data: true, unwritable: true, max_count: 300, big: None, huge: 1500 };

pub fn gen_string(s: &mut Src, max: u64) -> String {
    let n = s.small(max) as usize;
    match s.weighted(&[6, 2, 1, 1]) {
        0 => (0..n).map(|_| (0x20 + s.draw(0x5e)) as u8 as char).collect(),
        // what fits into Latin-1
        3 => (0..n).map(|_| if s.bool() { (0x80 + s.draw(0x7f)) as u8 as char } else { (1 + s.draw(0x7e)) as u8 as char }).collect(),
        1 => { let mut t: String = (0..n).map(|_| *s.pick(&['a', 'Z', '0', ' ', 'ä', 'é', 'ß', '中', '😀', '\n', '\t', '"', '<', '&', '\u{7f}', '\u{feff}', '\u{fffd}'])).collect(); if t.ends_with('\0') { t.push('x'); } t }
        _ => { let mut t: String = (0..n).map(|_| *s.pick(&['a', 'b', '\0', 'ü'])).collect(); if t.ends_with('\0') { t.push('x'); } t }
    }
}
pub fn gen_val(s: &mut Src, fmt: u16, count: usize) -> Val {
    match fmt {
        1 | 7 => if count > 8 { Val::Bytes(s.blob(count)) } else { Val::Bytes((0..count).map(|_| s.draw(255) as u8).collect()) },
        2 => Val::Str(gen_string(s, count as u64)),
        3 => Val::U16((0..count).map(|_| s.u16()).collect()),
        4 => Val::U32((0..count).map(|_| s.u32()).collect()),
        5 => Val::UR((0..count).map(|_| (s.u32(), s.u32())).collect()),
        6 => Val::I8((0..count).map(|_| s.draw(255) as i8).collect()),
        8 => Val::I16((0..count).map(|_| s.u16() as i16).collect()),
        9 => Val::I32((0..count).map(|_| s.u32() as i32).collect()),
        10 => Val::IR((0..count).map(|_| (s.u32() as i32, s.u32() as i32)).collect()),
        11 => Val::F32((0..count).map(|_| gen_f64(s) as f32).map(|f| f.to_bits()).collect()),
        12 => Val::F64((0..count).map(|_| gen_f64(s).to_bits()).collect()),
        _ => unreachable!(),
    }
}
/// The value of a format that these little endian bytes stand for.
pub fn val_of(fmt: u16, b: &[u8]) -> Val {
    let u4 = |c: &[u8]| u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    match fmt {
        1 | 7 => Val::Bytes(b.to_vec()),
        2 => Val::Str(b.iter().map(|b| (b'!' + b % 90) as char).collect()),
        3 => Val::U16(b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()),
        4 => Val::U32(b.chunks(4).map(u4).collect()),
        5 => Val::UR(b.chunks(8).map(|c| (u4(c), u4(&c[4..]))).collect()),
        6 => Val::I8(b.iter().map(|b| *b as i8).collect()),
        8 => Val::I16(b.chunks(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect()),
        9 => Val::I32(b.chunks(4).map(|c| u4(c) as i32).collect()),
        10 => Val::IR(b.chunks(8).map(|c| (u4(c) as i32, u4(&c[4..]) as i32)).collect()),
        11 => Val::F32(b.chunks(4).map(u4).collect()),
        12 => Val::F64(b.chunks(8).map(|c| u4(c) as u64 | (u4(&c[4..]) as u64) << 32).collect()),
        _ => unreachable!(),
    }
}
pub fn gen_f64(s: &mut Src) -> f64 {
    match s.weighted(&[3, 3, 2, 2]) {
        0 => s.draw(1000) as f64,
        1 => { let a = s.int(1, 100_000) as f64; let b = s.int(1, 1000) as f64; if s.bool() { -a / b } else { a / b } }
        2 => *s.pick(&[0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, std::f64::consts::PI, 1e-300]),
        _ => f64::from_bits(s.draw(u64::MAX)),
    }
}
pub fn gen_count(s: &mut Src, pre: u32, max: u64) -> usize {
    match s.weighted(&[5, 3, 1]) {
        0 => if pre > 0 { pre as usize } else { s.int(1, 5) as usize },
        1 => s.small(max) as usize,
        _ => s.draw(5) as usize,
    }
}
/// a hex number that is not in the catalogue of the group
pub fn gen_unknown_hex(s: &mut Src, g: G) -> u16 {
    loop {
        let h = match s.weighted(&[2, 2, 3]) { 0 => *s.pick(&[0x4746u16, 0x9c9b, 0xc4a5, 0xfe00, 0x010d, 0x014a, 0xffff, 0x1001]), 1 => s.draw(0x30) as u16, _ => s.draw(0xffff) as u16 };
        if !catalogued(h, g) && is_offset(h, g).is_none() { return h; }
        if s.out.len() > 200_000 { return 0xfff0; }
    }
}
pub fn gen_dir(s: &mut Src, g: G, o: &Opt) -> Dir {
    let mut d = Dir::new();
    let rows: Vec<&Row> = TABLE.iter().filter(|r| r.group == g && is_offset(r.hex, g).is_none() && (o.unwritable || r.writable)).collect();
    for _ in 0..s.small(o.max_tags) {
        if s.chance(3, 4) {
            let r = *s.pick(&rows);
            let c = gen_count(s, r.count, o.max_count);
            d.insert(r.hex, V { fmt: r.fmt, val: gen_val(s, r.fmt, c) });
        } else {
            let h = gen_unknown_hex(s, g);
            let fmt = s.int(1, 12) as u16;
            let c = gen_count(s, 0, o.max_count);
            d.insert(h, V { fmt, val: gen_val(s, fmt, c) });
        }
    }
    if o.image_data && g == G::GENERIC {
        if s.chance(1, 4) {
            let strips: Vec<Vec<u8>> = (0..s.int(1, 4)).map(|_| { let n = s.small(200) as usize; s.blob(n) }).collect();
            d.insert(0x0117, V { fmt: 4, val: Val::U32(strips.iter().map(|x| x.len() as u32).collect()) });
            d.insert(0x0111, V { fmt: 4, val: Val::Data(strips) });
        }
        if s.chance(1, 4) {
            let n = s.small(400) as usize;
            let t = s.blob(n);
            d.insert(0x0202, V { fmt: 4, val: Val::U32(vec![t.len() as u32]) });
            d.insert(0x0201, V { fmt: 4, val: Val::Data(vec![t]) });
        }
    }
    d
}
pub fn gen_meta(s: &mut Src, o: &Opt) -> MMeta {
    let big = match o.big { Some(b) => b, None => s.bool() };
    let mut m = MMeta { big, dirs: BTreeMap::new() };
    let n_dirs = match s.weighted(&[5, 3, 1]) { 0 => 1, 1 => 2, _ => s.int(1, o.max_dirs.max(1)) };
    let mut nr = 0u32;
    for i in 0..n_dirs {
        if i > 0 { nr += if s.chance(1, 8) { s.int(2, 9) as u32 } else { 1 }; }
        m.dirs.insert((nr, G::GENERIC), gen_dir(s, G::GENERIC, o));
        if s.chance(1, 2) { m.dirs.insert((nr, G::EXIF), gen_dir(s, G::EXIF, o)); }
        if s.chance(1, 3) { m.dirs.insert((nr, G::GPS), gen_dir(s, G::GPS, o)); }
        if s.chance(1, 5) { m.dirs.insert((nr, G::INTEROP), gen_dir(s, G::INTEROP, o)); }
    }
    m.dirs.retain(|_, d| !d.is_empty());
    if o.huge > 0 && s.chance(1, o.huge) { grow(s, &mut m, o); }
    if o.huge > 0 && s.chance(1, 80) { let nr = m.dirs.keys().next_back().map_or(0, |k| k.0); let n = s.usize(20, 150); crowd(s, &mut m, nr, n); }
    m
}
/// Many tags in one directory.
fn crowd(s: &mut Src, m: &mut MMeta, nr: u32, n: usize) {
    let g = if s.bool() { G::EXIF } else { *s.pick(&GROUPS) };
    let v = s.blob(2 * n);
    let d = m.dirs.entry((nr, g)).or_default();
    for c in v.chunks(2) { let h = 0x2000 + u16::from_le_bytes([c[0], c[1]]) % 0x6000; if !catalogued(h, g) && is_offset(h, g).is_none() { d.insert(h, V { fmt: 4, val: Val::U32(vec![h as u32; 1 + (h % 3) as usize]) }); } }
}
/// Gives the top-level directories numbers that are far apart.
pub fn spread(s: &mut Src, m: &mut MMeta) {
    let from = s.draw(m.dirs.keys().map(|k| k.0).max().unwrap_or(0) as u64) as u32;
    let by = *s.pick(&[250u32, 255, 256, 300, 65_534, 65_536]);
    m.dirs = std::mem::take(&mut m.dirs).into_iter().map(|((n, g), d)| ((if n >= from { n + by } else { n }, g), d)).collect();
}
/// Makes the metadata large in one of its dimensions.
pub fn grow(s: &mut Src, m: &mut MMeta, o: &Opt) {
    let nr = m.dirs.keys().next_back().map_or(0, |k| k.0);
    match s.weighted(&[4, 2, 1, 1, 2, 1, 5]) {
        6 => { // a large value of any format in any tag
            let g = *s.pick(&GROUPS);
            let (h, fmt) = if s.bool() { let rs: Vec<&Row> = TABLE.iter().filter(|r| r.group == g && r.writable && is_offset(r.hex, g).is_none() && !IMAGE_DATA_TAGS.contains(&r.hex)).collect(); let r = *s.pick(&rs); (r.hex, r.fmt) } else { (gen_unknown_hex(s, g), s.int(1, 12) as u16) };
            let n = s.big_size(140_000);
            let w = [0usize, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8][fmt as usize];
            let b = s.blob(n * w);
            m.dirs.entry((nr, g)).or_default().insert(h, V { fmt, val: val_of(fmt, &b) });
        }
        0 => { let n = s.big_size(1_100_000); let v = s.blob(n); m.dirs.entry((nr, G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(v) }); }
        1 => { let n = s.big_size(300_000); let v: String = s.blob(n).iter().map(|b| (b'!' + b % 90) as char).collect(); m.dirs.entry((nr, G::GENERIC)).or_default().insert(0x010e, V { fmt: 2, val: Val::Str(v) }); }
        2 => { let n = s.big_size(100_000); let v = s.blob(2 * n).chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect(); m.dirs.entry((nr, G::GENERIC)).or_default().insert(0xfe01, V { fmt: 3, val: Val::U16(v) }); }
        3 => { // many tags
            let n = s.usize(100, 3000);
            crowd(s, m, nr, n);
        }
        4 => { // many pages
            let n = s.usize(5, 300) as u32;
            for i in 0..n { m.dirs.entry((nr + i, G::GENERIC)).or_default().insert(0x010f, V { fmt: 2, val: Val::Str(format!("page {i}")) }); if i % 7 == 3 { m.dirs.entry((nr + i, G::EXIF)).or_default().insert(0x927c, V { fmt: 7, val: Val::Bytes(vec![i as u8; 5]) }); } }
        }
        _ => if o.image_data {
            if s.chance(1, 3) { // a large thumbnail
                let n = s.big_size(150_000); let t = s.blob(n);
                let d = m.dirs.entry((nr, G::GENERIC)).or_default();
                d.insert(0x0202, V { fmt: 4, val: Val::U32(vec![t.len() as u32]) });
                d.insert(0x0201, V { fmt: 4, val: Val::Data(vec![t]) });
                return;
            }
            let n = s.big_size(300_000); let k = if s.bool() { s.usize(1, 3) } else { s.usize(1, 400) };
            let strips: Vec<Vec<u8>> = s.blob(n).chunks(n / k + 1).map(|c| c.to_vec()).collect();
            let d = m.dirs.entry((nr, G::GENERIC)).or_default();
            d.insert(0x0117, V { fmt: 4, val: Val::U32(strips.iter().map(|x| x.len() as u32).collect()) });
            d.insert(0x0111, V { fmt: 4, val: Val::Data(strips) });
        },
    }
}

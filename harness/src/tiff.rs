//! Independent TIFF/Exif structure reader (strict) and writer (any layout),
//! written from the TIFF 6.0 and Exif 2.32 specifications.
use std::collections::BTreeMap;
use crate::engine::Src;
use crate::meta::*;
use crate::tags::*;

fn u16_(b: &[u8], o: usize, big: bool) -> Option<u16> { let a = b.get(o..o + 2)?.try_into().unwrap(); Some(if big { u16::from_be_bytes(a) } else { u16::from_le_bytes(a) }) }
fn u32_(b: &[u8], o: usize, big: bool) -> Option<u32> { let a = b.get(o..o + 4)?.try_into().unwrap(); Some(if big { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) }) }

pub struct Parsed { pub meta: MMeta, pub regions: Vec<(usize, usize, String)>, pub end: usize }

/// Reads a block and reports the first violation of the structure rules.
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let big = match b.get(..4) { Some(b"II*\0") => false, Some(b"MM\0*") => true, x => return Err(format!("bad header {x:?}")) };
    let mut p = Parsed { meta: MMeta { big, dirs: BTreeMap::new() }, regions: vec![(0, 8, "header".into())], end: 0 };
    let mut off = u32_(b, 4, big).ok_or("no first directory offset")? as usize;
    if off == 0 { return Err("no first directory".into()); }
    let mut nr = 0;
    while off != 0 {
        off = dir(b, off, big, nr, G::GENERIC, &mut p)?;
        nr += 1;
        if nr > 100_000 { return Err("directories do not terminate".into()); }
    }
    p.regions.sort();
    for w in p.regions.windows(2) { if w[0].1 > w[1].0 { return Err(format!("{} [{}..{}) overlaps {} [{}..{})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)); } }
    p.end = p.regions.iter().map(|r| r.1).max().unwrap_or(0);
    Ok(p)
}
fn dir(b: &[u8], off: usize, big: bool, nr: u32, g: G, p: &mut Parsed) -> Result<usize, String> {
    let name = format!("{g:?}{nr}");
    if off % 2 != 0 { return Err(format!("directory {name} at odd offset {off}")); }
    if p.meta.dirs.contains_key(&(nr, g)) { return Err(format!("directory {name} is reached twice")); }
    let n = u16_(b, off, big).ok_or(format!("directory {name} at {off} is outside the block"))? as usize;
    let link = u32_(b, off + 2 + 12 * n, big).ok_or(format!("directory {name} with {n} entries does not fit"))? as usize;
    p.regions.push((off, off + 6 + 12 * n, format!("directory {name}")));
    if p.regions.len() > 300_000 { return Err("too many regions".into()); }
    p.meta.dirs.insert((nr, g), Dir::new());
    let mut d = Dir::new();
    let mut last = -1i32;
    let mut data: BTreeMap<u16, Vec<u32>> = BTreeMap::new();
    for i in 0..n {
        let e = off + 2 + 12 * i;
        let (h, f, c) = (u16_(b, e, big).unwrap(), u16_(b, e + 2, big).unwrap(), u32_(b, e + 4, big).unwrap() as usize);
        if h as i32 <= last { return Err(format!("entry {h:04x} of {name} follows {last:04x}")); }
        last = h as i32;
        let w = fmt_size(f);
        if w == 0 { return Err(format!("entry {h:04x} of {name} has format {f}")); }
        let len = c.checked_mul(w).ok_or("size overflow")?;
        let raw = if len <= 4 { &b[e + 8..e + 8 + len] } else {
            let o = u32_(b, e + 8, big).unwrap() as usize;
            if o % 2 != 0 { return Err(format!("value of {h:04x} of {name} at odd offset {o}")); }
            p.regions.push((o, o + len, format!("value of {h:04x} of {name}")));
            b.get(o..o + len).ok_or(format!("value of {h:04x} of {name} [{o}..{}) is outside the block of {}", o + len, b.len()))?
        };
        if let Some(sub) = is_offset(h, g) {
            if f != 4 || c != 1 { return Err(format!("pointer {h:04x} of {name} has format {f} count {c}")); }
            let link = dir(b, u32_(b, e + 8, big).unwrap() as usize, big, nr, sub, p)?;
            if link != 0 { return Err(format!("sub-directory {sub:?}{nr} has a link to {link}")); }
            continue;
        }
        let val = from_bytes(f, raw, big).ok_or("value")?;
        if f == 2 && raw.last() != Some(&0) { return Err(format!("text {h:04x} of {name} is not terminated")); }
        if IMAGE_DATA_TAGS.contains(&h) && g == G::GENERIC {
            match &val { Val::U32(v) => { data.insert(h, v.clone()); } Val::U16(v) => { data.insert(h, v.iter().map(|x| *x as u32).collect()); } _ => return Err(format!("{h:04x} has format {f}")) }
            if h == 0x0117 || h == 0x0202 { d.insert(h, V { fmt: 4, val: Val::U32(data[&h].clone()) }); }
            continue;
        }
        d.insert(h, V { fmt: f, val });
    }
    for (oh, lh) in [(0x0111u16, 0x0117u16), (0x0201, 0x0202)] {
        if let Some(os) = data.get(&oh) {
            let ls = data.get(&lh).ok_or(format!("{oh:04x} of {name} without {lh:04x}"))?;
            if os.len() != ls.len() { return Err(format!("{oh:04x} of {name} has {} values, {lh:04x} {}", os.len(), ls.len())); }
            let mut v = vec![];
            for (o, l) in os.iter().zip(ls) {
                let (o, l) = (*o as usize, *l as usize);
                if l > 0 { p.regions.push((o, o + l, format!("data of {oh:04x} of {name}"))); }
                v.push(b.get(o..o + l).ok_or(format!("data of {oh:04x} of {name} [{o}..{}) is outside the block", o + l))?.to_vec());
            }
            d.insert(oh, V { fmt: 4, val: Val::Data(v) });
        }
    }
    p.meta.dirs.insert((nr, g), d);
    Ok(link)
}

/// How freely the writer may lay the block out.
#[derive(Clone, Copy)]
pub struct Layout { pub shuffle: bool, pub widths: bool, pub no_links: bool }
pub const PLAIN: Layout = Layout { shuffle: false, widths: false, no_links: false };
pub const FREE: Layout = Layout { shuffle: true, widths: true, no_links: true };

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Blk { Dir(u32, G), Value(u32, G, u16), Piece(u32, u16, usize) }

/// Writes a model as a TIFF structure. The top-level directory numbers of the
/// model must be consecutive and parents are added where missing.
pub fn encode(m: &MMeta, l: Layout, s: &mut Src) -> Vec<u8> {
    let big = m.big;
    let mut m = m.norm();
    let keys: Vec<(u32, G)> = m.dirs.keys().copied().collect();
    for (n, g) in keys { m.dirs.entry((n, G::GENERIC)).or_default(); if g == G::INTEROP { m.dirs.entry((n, G::EXIF)).or_default(); } }
    if m.dirs.is_empty() { m.dirs.insert((0, G::GENERIC), Dir::new()); }
    let p16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let p32 = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };

    // entries: (hex, fmt, count, bytes) ; pointers and data offsets are patched later
    struct Ent { hex: u16, fmt: u16, count: u32, raw: Vec<u8>, ptr: Option<Blk>, data: Option<(u16, usize, u16)> }
    let mut dirs: BTreeMap<(u32, G), Vec<Ent>> = BTreeMap::new();
    let mut blocks: Vec<Blk> = vec![];
    let mut pieces: BTreeMap<(u32, u16), Vec<Vec<u8>>> = BTreeMap::new();
    let total_hint: usize = m.dirs.values().map(|d| 20 + d.values().map(|v| 16 + match &v.val { Val::Data(x) => x.iter().map(|y| y.len() + 8).sum::<usize>(), v => v.count() * 8 }).sum::<usize>()).sum::<usize>() * 2 + 100;
    for ((n, g), d) in &m.dirs {
        let mut es: Vec<Ent> = vec![];
        for (h, v) in d {
            if let (Val::Data(x), G::GENERIC) = (&v.val, *g) {
                let w = if l.widths && total_hint < 40_000 && s.chance(1, 3) { 3u16 } else { 4 };
                pieces.insert((*n, *h), x.clone());
                es.push(Ent { hex: *h, fmt: w, count: x.len() as u32, raw: vec![0; x.len() * fmt_size(w)], ptr: None, data: Some((*h, x.len(), w)) });
                continue;
            }
            let (mut fmt, mut raw) = (v.fmt, v.val.bytes(big));
            let mut count = v.val.count() as u32;
            if l.widths && s.chance(1, 4) && (row(*h, *g).is_some() || IMAGE_DATA_TAGS.contains(h)) {
                let nums: Option<Vec<u32>> = match (&v.val, v.fmt) { (Val::U32(x), _) => Some(x.clone()), (Val::U16(x), _) => Some(x.iter().map(|y| *y as u32).collect()), (Val::Bytes(x), 1) => Some(x.iter().map(|y| *y as u32).collect()), _ => None };
                if let Some(x) = nums {
                    let mx = x.iter().copied().max().unwrap_or(0);
                    let opts: Vec<u16> = match v.fmt { 4 => [3u16, 1].into(), 3 => [4u16, 1].into(), _ => vec![3] };
                    let opts: Vec<u16> = opts.into_iter().filter(|f| match f { 1 => mx <= 0xff, 3 => mx <= 0xffff, _ => true }).collect();
                    if !opts.is_empty() {
                        fmt = *s.pick(&opts);
                        raw = match fmt { 1 => x.iter().map(|y| *y as u8).collect(), 3 => x.iter().flat_map(|y| p16(*y as u16)).collect(), _ => x.iter().flat_map(|y| p32(*y)).collect() };
                    }
                }
                if *h == 0x001b && *g == G::GPS { fmt = 2; }
                if let (0x0005, G::GPS, Val::Bytes(x), true) = (*h, *g, &v.val, s.bool()) { if let [y @ (0 | 1)] = x[..] { fmt = 2; raw = vec![y + if s.bool() { b'0' } else { 0 }]; if s.bool() { raw.push(0); } } }
            }
            if let (2, true, Val::Str(x)) = (fmt, l.widths, &v.val) {
                // text of the time before UTF-8
                if x.chars().any(|c| c > '\u{7f}') && x.chars().all(|c| c > '\0' && c <= '\u{ff}') && s.bool() {
                    let b: Vec<u8> = x.chars().map(|c| c as u8).collect();
                    if std::str::from_utf8(&b).is_err() { raw = b; raw.push(0); }
                }
            }
            if fmt == 2 && l.widths {
                match s.weighted(&[4, 1, 1]) { 1 if v.fmt == 2 => { raw.pop(); } 2 if v.fmt == 2 => raw.extend(vec![0; s.usize(1, 9)]), _ => {} }
                count = raw.len() as u32;
            }
            es.push(Ent { hex: *h, fmt, count, raw, ptr: None, data: None });
        }
        let subs: &[(G, u16)] = match g { G::GENERIC => &[(G::EXIF, 0x8769), (G::GPS, 0x8825)], G::EXIF => &[(G::INTEROP, 0xa005)], _ => &[] };
        for (sg, h) in subs { if m.dirs.contains_key(&(*n, *sg)) { es.push(Ent { hex: *h, fmt: 4, count: 1, raw: vec![0; 4], ptr: Some(Blk::Dir(*n, *sg)), data: None }); } }
        es.sort_by_key(|e| e.hex);
        blocks.push(Blk::Dir(*n, *g));
        for e in &es { if e.raw.len() > 4 { blocks.push(Blk::Value(*n, *g, e.hex)); } if let Some((h, k, _)) = e.data { for i in 0..k { blocks.push(Blk::Piece(*n, h, i)); } } }
        dirs.insert((*n, *g), es);
    }
    if l.shuffle { match s.draw(3) { 0 => {} 1 => blocks.reverse(), _ => for i in (1..blocks.len()).rev() { let j = s.usize(0, i); blocks.swap(i, j); } } }
    // sub-directories may lack the link
    let mut linkless: Vec<(u32, G)> = vec![];
    if l.no_links { for k in dirs.keys() { if k.1 != G::GENERIC && s.chance(1, 3) { linkless.push(*k); } } }
    if l.no_links && !linkless.is_empty() && s.chance(1, 2) {
        // one of them at the very end
        let k = linkless[0];
        if let Some(i) = blocks.iter().position(|b| *b == Blk::Dir(k.0, k.1)) { let b = blocks.remove(i); blocks.push(b); }
    }
    // place
    let mut pos: BTreeMap<Blk, usize> = BTreeMap::new();
    let mut at = 8usize;
    let n_blocks = blocks.len();
    // TIFF asks for even offsets, but not everyone listens
    let odd = l.shuffle && s.chance(1, 5);
    for (i, b) in blocks.iter().enumerate() {
        if l.shuffle && s.chance(1, 5) { at += 2 * s.usize(1, 20); }
        if !matches!(b, Blk::Piece(..)) && !(odd && s.chance(1, 2)) { at += at % 2; }
        // entries with the same value may share its bytes
        if let (true, Blk::Value(n, g, h)) = (l.shuffle, b) {
            let raw = &dirs[&(*n, *g)].iter().find(|e| e.hex == *h).unwrap().raw;
            let twin = dirs[&(*n, *g)].iter().find(|e| e.hex != *h && e.data.is_none() && e.raw == *raw && pos.contains_key(&Blk::Value(*n, *g, e.hex))).map(|e| pos[&Blk::Value(*n, *g, e.hex)]);
            let own = dirs[&(*n, *g)].iter().find(|e| e.hex == *h).unwrap().data.is_none();
            if let Some(p) = twin.filter(|_| own) { if s.chance(2, 3) { pos.insert(*b, p); continue; } }
        }
        pos.insert(*b, at);
        at += match b {
            Blk::Dir(n, g) => { let k = dirs[&(*n, *g)].len(); 2 + 12 * k + if linkless.contains(&(*n, *g)) { 0 } else { 4 } }
            Blk::Value(n, g, h) => dirs[&(*n, *g)].iter().find(|e| e.hex == *h).unwrap().raw.len(),
            Blk::Piece(n, h, j) => pieces[&(*n, *h)][*j].len(),
        };
        // something behind the last block, but not behind a directory that ends the block without link
        if i + 1 == n_blocks && !matches!(b, Blk::Dir(n, g) if linkless.contains(&(*n, *g))) && l.shuffle && s.chance(1, 4) { at += s.usize(1, 12); }
    }
    let filler = if l.shuffle { s.draw(0xffff_ffff) } else { 0 };
    let mut out = crate::engine::expand(filler, at);
    out[..4].copy_from_slice(if big { b"MM\0*" } else { b"II*\0" });
    out[4..8].copy_from_slice(&p32(pos[&Blk::Dir(0, G::GENERIC)] as u32));
    for ((n, g), es) in &dirs {
        let mut o = pos[&Blk::Dir(*n, *g)];
        out[o..o + 2].copy_from_slice(&p16(es.len() as u16)); o += 2;
        for e in es {
            let mut raw = e.raw.clone();
            if let Some(b) = e.ptr { raw = p32(pos[&b] as u32).to_vec(); }
            if let Some((h, k, w)) = e.data { raw = (0..k).flat_map(|i| { let q = pos[&Blk::Piece(*n, h, i)] as u32; if w == 3 { p16(q as u16).to_vec() } else { p32(q).to_vec() } }).collect(); }
            out[o..o + 2].copy_from_slice(&p16(e.hex)); out[o + 2..o + 4].copy_from_slice(&p16(e.fmt)); out[o + 4..o + 8].copy_from_slice(&p32(e.count));
            if raw.len() <= 4 { out[o + 8..o + 8 + raw.len()].copy_from_slice(&raw); if !l.shuffle { for x in &mut out[o + 8 + raw.len()..o + 12] { *x = 0; } } }
            else { let q = pos[&Blk::Value(*n, *g, e.hex)]; out[o + 8..o + 12].copy_from_slice(&p32(q as u32)); out[q..q + raw.len()].copy_from_slice(&raw); }
            o += 12;
        }
        if !linkless.contains(&(*n, *g)) { let next = if *g == G::GENERIC { pos.get(&Blk::Dir(*n + 1, G::GENERIC)).copied().unwrap_or(0) } else { 0 }; out[o..o + 4].copy_from_slice(&p32(next as u32)); }
    }
    for ((n, h), ps) in &pieces { for (i, p) in ps.iter().enumerate() { let o = pos[&Blk::Piece(*n, *h, i)]; out[o..o + p.len()].copy_from_slice(p); } }
    out
}

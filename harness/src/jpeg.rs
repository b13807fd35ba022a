//! JPEG marker streams (ITU T.81 annex B): generator and parser.
use crate::engine::*;
use crate::img::*;

pub const EXIF_ID: &[u8] = b"Exif\0\0";
const XMP_ID: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";

/// Markers of segments with a length, SOS excepted
const ANY: [u8; 46] = [0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xeb, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf7, 0xf8, 0xfa, 0xfc, 0xfd, 0xfe];

fn seg(out: &mut Vec<u8>, s: &mut Src, fills: bool, marker: u8, payload: &[u8]) {
    if fills && s.chance(1, 12) { for _ in 0..s.int(1, 3) { out.push(0xff); } }
    out.extend_from_slice(&[0xff, marker]);
    out.extend_from_slice(&((payload.len() + 2) as u16).to_be_bytes());
    out.extend_from_slice(payload);
}
fn payload(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[5, 3, 1, 1]) {
        0 => { let n = s.usize(0, 12); s.blob(n) }
        1 => { // looks like markers and segments
            let n = s.usize(0, 40);
            (0..n).map(|_| *s.pick(&[0xffu8, 0xd8, 0xd9, 0xe1, 0xda, 0x00, 0xec, 0xed, 0x08, b'E', b'x', b'i', b'f'])).collect()
        }
        2 if s.chance(1, 2) => { // whole segments inside a segment
            let mut v = vec![];
            for _ in 0..s.int(1, 3) { v.extend_from_slice(*s.pick(&[&b"\xff\xe1\x00\x10Exif\0\0II*\0\x08\0\0\0"[..], b"\xff\xe1\x00\x08Exif\0\0", b"\xff\xec\x00\x04zz", b"\xff\xed\x00\x03q", b"\xff\xed\x00\x02", b"\xff\xd9", b"\xff\xda\x00\x02"])); }
            v
        }
        2 => { let mut v = EXIF_ID.to_vec(); v.insert(0, 0); v.extend_from_slice(b"II*\0\x08\0\0\0\0\0"); v }
        _ => { let n = *s.pick(&[200usize, 1000, 5000, 65_531, 65_532, 65_533]); let n = if n > 5000 && !s.chance(1, 6) { 300 } else { n }; s.blob(n) }
    }
}
fn well_known(s: &mut Src, m: u8) -> Vec<u8> {
    let mut v: Vec<u8> = match m {
        0xe0 => s.pick(&[&b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0"[..], b"JFXX\0\x10", b"AVI1\0", b"Ocad$Rev: 14797 $\0"]).to_vec(),
        0xe1 => XMP_ID.to_vec(),
        0xe2 => s.pick(&[&b"ICC_PROFILE\0\x01\x01"[..], b"FPXR\0", b"MPF\0II*\0\x08\0\0\0", b"MPF\0MM\0*\0\0\0\x08"]).to_vec(),
        0xe3 => s.pick(&[&b"Meta\0\0II*\0"[..], b"_JPSJPS_", b"Stim"]).to_vec(),
        0xe4 | 0xe5 => b"RMETA\0".to_vec(),
        0xeb => b"JP\0\x01\0\0\0\x01".to_vec(),
        0xec => s.pick(&[&b"Ducky\0\x01\0\x04\0\0\0\x50\0\0"[..], b"[picture info]\r\n"]).to_vec(),
        0xed => s.pick(&[&b"Photoshop 3.0\x008BIM\x04\x04\0\0\0\0\0\0"[..], b"Adobe_CM\0", b"Adobe_Photoshop2.5:"]).to_vec(),
        0xee => b"Adobe\0\x64\0\0\0\0\x01".to_vec(),
        _ => s.pick(&[EXIF_ID, b"Meta\0\0MM\0*", b"CREATOR: gd-jpeg v1.0\n"]).to_vec(),
    };
    v.extend(payload(s)); v.truncate(65_533);
    v
}
fn app1_other(s: &mut Src) -> Vec<u8> {
    let mut v = match s.draw(6) { 0 => XMP_ID.to_vec(), 1 => b"http://ns.adobe.com/xmp/extension/\0".to_vec(), 2 => b"exif\0\0II*\0".to_vec(), 3 => b"Exif".to_vec(), 4 => b"Exi".to_vec(), 5 => vec![], _ => b"ExifMeta\0".to_vec() };
    if v.len() > 5 { v.extend(payload(s)); v.truncate(65_533); }
    v
}
fn ecs(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    let mut rst = 0u8;
    for _ in 0..s.small(8) {
        match s.weighted(&[4, 2, 2, 1]) {
            0 => { let n = match s.rare_size() { Some(n) => n, None => s.usize(0, 30) }; for b in s.blob(n) { v.push(b); if b == 0xff { v.push(0); } } }
            1 => v.extend_from_slice(&[0xff, 0x00]),
            2 => { if s.chance(1, 8) { v.push(0xff); } v.extend_from_slice(&[0xff, 0xd0 + rst]); rst = (rst + 1) % 8; }
            _ => { // Exif look-alike inside image data (no marker is possible here)
                v.extend_from_slice(b"\xe1\x00\x20Exif\0\0II*\0\x08\0\0\0"); }
        }
    }
    if v.last() == Some(&0xff) { v.push(0); }
    v
}
/// Generates a marker stream with the given Exif segments at random positions.
/// `mid` allows them between scans.
pub fn gen(s: &mut Src, ctx: &mut Ctx, exif: &[Vec<u8>], apps: bool) -> Vec<u8> {
    let fills = s.chance(1, 4);
    if fills { ctx.label("JPEG: fill bytes"); }
    let scans = match s.weighted(&[5, 2, 1]) { 0 => 1, 1 => 2, _ => s.usize(0, 4) + s.crowd().min(60) as usize };
    // slots: before the first scan, between scans, before EOI
    let mut left: Vec<(usize, &Vec<u8>)> = exif.iter().map(|e| (if s.chance(1, 4) { s.usize(0, scans) } else { 0 }, e)).collect();
    left.sort_by_key(|x| x.0);
    let mut out = vec![0xff, 0xd8];
    for slot in 0..=scans {
        let mut n = if slot == 0 { s.small(8) + s.crowd() } else { s.small(3) } as usize;
        if n > 8 { ctx.label("JPEG: many segments"); }
        // (a segment has at most 64 kB)
        let many = s.large > 0 && s.bool();
        if many { s.large -= 1; n += s.usize(16, 60); }
        let mine: Vec<&Vec<u8>> = left.iter().filter(|x| x.0 == slot).map(|x| x.1).collect();
        if slot > 0 && !mine.is_empty() { ctx.label("JPEG: Exif between or after scans"); }
        let mut at: Vec<usize> = mine.iter().map(|_| s.usize(0, n)).collect(); at.sort();
        let mut k = 0;
        n += mine.len();
        let mut others = 0;
        for _ in 0..n {
            if k < mine.len() && at[k] <= others {
                let mut p = EXIF_ID.to_vec(); p.extend_from_slice(mine[k]); k += 1;
                seg(&mut out, s, fills, 0xe1, &p);
                continue;
            }
            others += 1;
            if many && s.chance(3, 4) { let m = *s.pick(&[0xe2u8, 0xe0, 0xfe, 0xe1, 0xec]); let k = s.usize(60_000, 65_533); let p = s.blob(k); seg(&mut out, s, fills, m, &p); continue; }
            match s.weighted(&[3, 3, 3, 2, 1, 2]) {
                5 => { // any marker of a segment
                    let m = *s.pick(&ANY); let p = if s.bool() { payload(s) } else { well_known(s, m) };
                    if m == 0xe1 && p.starts_with(EXIF_ID) { continue; }
                    seg(&mut out, s, fills, m, &p) }
                0 => { let m = *s.pick(&[0xdbu8, 0xc4, 0xc0, 0xdd, 0xfe, 0xc2, 0xcc, 0xf0, 0xdc, 0xde]); let p = payload(s); seg(&mut out, s, fills, m, &p) }
                1 => { let m = if apps && s.chance(2, 3) { *s.pick(&[0xecu8, 0xed]) } else { *s.pick(&[0xe0u8, 0xe2, 0xe3, 0xec, 0xed, 0xee, 0xef]) }; let p = payload(s); seg(&mut out, s, fills, m, &p) }
                2 => { let p = app1_other(s); ctx.label("JPEG: other APP1"); seg(&mut out, s, fills, 0xe1, &p) }
                3 => { let p = b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0"; seg(&mut out, s, fills, 0xe0, p) }
                _ => { if s.chance(1, 3) { out.extend_from_slice(&[0xff, 0x01]); } else { let p = payload(s); seg(&mut out, s, fills, 0xfe, &p) } }
            }
        }
        if slot < scans {
            let p = vec![1, 1, 0, 0, 63, 0]; seg(&mut out, s, fills, 0xda, &p);
            let e = ecs(s); out.extend_from_slice(&e);
        }
    }
    if scans > 1 { ctx.label("JPEG: several scans"); }
    if fills && s.chance(1, 4) { out.push(0xff); }
    if s.chance(1, 40) && scans > 0 && exif.is_empty() { ctx.label("JPEG: no EOI"); } else { out.extend_from_slice(&[0xff, 0xd9]); 
    if s.chance(1, 3) {
        ctx.label("JPEG: data after EOI");
        match s.draw(2) { 0 => { let n = s.usize(1, 30); out.extend(s.blob(n)); } 1 => out.extend_from_slice(b"\xff\xd8\xff\xe1\x00\x10Exif\0\0II*\0\x08\0\0\0\xff\xec\x00\x04zz\xff\xed\x00\x03q\xff\xd9"), _ => out.push(0xff) }
    } }
    out
}

pub struct Seg { pub marker: u8, pub start: usize, pub end: usize, pub payload: (usize, usize) }
/// Segments with a length field before EOI; `start` is the 0xFF directly before the marker.
pub fn segments(b: &[u8]) -> Result<Vec<Seg>, String> {
    if b.get(..2) != Some(&[0xff, 0xd8]) { return Err("no SOI".into()); }
    let mut i = 2;
    let mut v = vec![];
    loop {
        if i >= b.len() { return Ok(v); }
        if b[i] != 0xff { return Err(format!("no marker at {i}")); }
        while i + 1 < b.len() && b[i + 1] == 0xff { i += 1; }
        let Some(&m) = b.get(i + 1) else { return Ok(v) };
        if m == 0xd9 { return Ok(v); }
        if m == 0x01 || (0xd0..=0xd8).contains(&m) { i += 2; continue; }
        if m == 0 { return Err(format!("marker 0 at {i}")); }
        let l = u16::from_be_bytes(b.get(i + 2..i + 4).ok_or("segment length missing")?.try_into().unwrap()) as usize;
        if l < 2 || i + 2 + l > b.len() { return Err(format!("segment {m:02x} at {i} of length {l} does not fit")); }
        v.push(Seg { marker: m, start: i, end: i + 2 + l, payload: (i + 4, i + 2 + l) });
        i += 2 + l;
        if m == 0xda {
            loop {
                if i >= b.len() { return Ok(v); }
                if b[i] != 0xff { i += 1; continue; }
                // 0xFF: stuffing, restart marker (with fill bytes) or the next marker
                let mut j = i + 1;
                while j < b.len() && b[j] == 0xff { j += 1; }
                match b.get(j) { Some(0x00) | Some(0xd0..=0xd7) => i = j + 1, None => return Ok(v), _ => break }
            }
        }
    }
}
pub fn is_exif(b: &[u8], g: &Seg) -> bool { g.marker == 0xe1 && b[g.payload.0..g.payload.1].starts_with(EXIF_ID) }
/// The file without the segments that `f` selects.
pub fn without(b: &[u8], f: impl Fn(&Seg) -> bool) -> Result<Vec<u8>, String> {
    let mut out = vec![]; let mut at = 0;
    for g in segments(b)? { if f(&g) { out.extend_from_slice(&b[at..g.start]); at = g.end; } }
    out.extend_from_slice(&b[at..]);
    Ok(out)
}
pub fn view(b: &[u8]) -> Result<View, String> {
    let mut v = View::default();
    for g in segments(b)? { if is_exif(b, &g) { v.exif.push(b[g.payload.0 + 6..g.payload.1].to_vec()); v.exif_at.push(0); } }
    v.parts.push(("JPEG without Exif".into(), without(b, |g| is_exif(b, g))?));
    Ok(v)
}

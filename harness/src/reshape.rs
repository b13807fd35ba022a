//! Damage that keeps the outer structure of a file intact: chunks, segments and
//! boxes are cut, filled, renamed, moved, repeated or dropped, fields in them
//! get other values, and lengths and checksums around them are made right
//! again. Reaches code behind the checks of signatures, sizes and checksums.
use crate::engine::*;
use crate::img::F;
use crate::png;

#[derive(Clone)]
struct Node { name: Vec<u8>, data: Vec<u8>, kids: Option<Vec<Node>> }

fn be(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) }
fn boxes(b: &[u8], deep: bool) -> (Vec<Node>, Vec<u8>) {
    let (mut v, mut i) = (vec![], 0);
    while i + 8 <= b.len() {
        let n = be(&b[i..i + 4]) as usize;
        let (h, n) = match n { 0 => (8, b.len() - i), 1 if i + 16 <= b.len() => (16, be(&b[i + 8..i + 16]) as usize), n => (8, n) };
        if n < h || n > b.len() - i { break; }
        let (name, d) = (b[i + 4..i + 8].to_vec(), &b[i + h..i + n]);
        let pre = match &name[..] { b"meta" | b"iref" => 4, b"iinf" => if d.first() == Some(&0) { 6 } else { 8 }, b"iprp" | b"ipco" => 0, _ => usize::MAX };
        if deep && pre <= d.len() {
            let (kids, rest) = boxes(&d[pre..], deep);
            if rest.is_empty() { v.push(Node { name, data: d[..pre].to_vec(), kids: Some(kids) }); i += n; continue; }
        }
        v.push(Node { name, data: d.to_vec(), kids: None });
        i += n;
    }
    (v, b[i..].to_vec())
}
fn put_boxes(v: &[Node], o: &mut Vec<u8>) {
    for x in v {
        let at = o.len();
        o.extend([0; 4]); o.extend(&x.name); o.extend(&x.data);
        if let Some(k) = &x.kids { put_boxes(k, o); }
        let n = (o.len() - at) as u32;
        o[at..at + 4].copy_from_slice(&n.to_be_bytes());
    }
}
fn parse(f: F, b: &[u8]) -> (Vec<u8>, Vec<Node>, Vec<u8>) {
    let (mut v, mut i) = (vec![], 0);
    match f {
        F::Png => {
            i = 8.min(b.len());
            while i + 12 <= b.len() {
                let n = be(&b[i..i + 4]) as usize;
                if n > b.len() - i - 12 { break; }
                v.push(Node { name: b[i + 4..i + 8].to_vec(), data: b[i + 8..i + 8 + n].to_vec(), kids: None });
                i += 12 + n;
            }
            (b[..8.min(b.len())].to_vec(), v, b[i..].to_vec())
        }
        F::Webp => {
            i = 12.min(b.len());
            while i + 8 <= b.len() {
                let n = u32::from_le_bytes(b[i + 4..i + 8].try_into().unwrap()) as usize;
                if n > b.len() - i - 8 { break; }
                v.push(Node { name: b[i..i + 4].to_vec(), data: b[i + 8..i + 8 + n].to_vec(), kids: None });
                i = (i + 8 + n + n % 2).min(b.len());
            }
            (b[..12.min(b.len())].to_vec(), v, b[i..].to_vec())
        }
        F::Jpeg => {
            i = 2.min(b.len());
            while i + 4 <= b.len() && b[i] == 0xff && b[i + 1] != 0xff {
                let n = be(&b[i + 2..i + 4]) as usize;
                if n < 2 || n > b.len() - i - 2 { break; }
                v.push(Node { name: b[i..i + 2].to_vec(), data: b[i + 4..i + 2 + n].to_vec(), kids: None });
                i += 2 + n;
                if v.last().unwrap().name[1] == 0xda { break; }
            }
            (b[..2.min(b.len())].to_vec(), v, b[i..].to_vec())
        }
        F::Heif | F::Jxl => { let (v, t) = boxes(b, f == F::Heif); (vec![], v, t) }
        F::Tiff => { let _ = &mut i; (b.to_vec(), v, vec![]) }
    }
}
fn put(f: F, head: &[u8], v: &[Node], tail: &[u8]) -> Vec<u8> {
    let mut o = head.to_vec();
    match f {
        F::Png => for x in v { png::chunk(&mut o, &x.name, &x.data); },
        F::Webp => for x in v { o.extend(&x.name); o.extend((x.data.len() as u32).to_le_bytes()); o.extend(&x.data); if x.data.len() % 2 == 1 { o.push(0); } },
        F::Jpeg => for x in v { o.extend(&x.name); o.extend((x.data.len() as u16).wrapping_add(2).to_be_bytes()); o.extend(&x.data); },
        _ => put_boxes(v, &mut o),
    }
    o.extend(tail);
    o
}
fn names(f: F) -> &'static [&'static [u8]] {
    match f {
        F::Png => &[b"IHDR", b"eXIf", b"tEXt", b"zTXt", b"iTXt", b"IDAT", b"IEND", b"abCd", b"\xff\xfe\xfd\xfc"],
        F::Webp => &[b"VP8X", b"VP8 ", b"VP8L", b"EXIF", b"XMP ", b"ICCP", b"ANMF", b"ANIM", b"ALPH", b"vp8x", b"exif", b"\xff\xfe\xfd\xfc"],
        F::Jpeg => &[b"\xff\xe1", b"\xff\xec", b"\xff\xed", b"\xff\xe0", b"\xff\xda", b"\xff\xd9", b"\xff\xd8", b"\xff\xd0", b"\xff\x01", b"\xff\xff", b"\xff\0", b"\0\0"],
        _ => &[b"ftyp", b"JXL ", b"Exif", b"brob", b"jxlc", b"jxlp", b"free", b"meta", b"iinf", b"infe", b"iloc", b"iref", b"cdsc", b"pitm", b"idat", b"mdat", b"hdlr", b"uuid", b"\xff\xfe\xfd\xfc"],
    }
}
/// The list of nodes that the change applies to: at any depth.
fn pick<'a>(s: &mut Src, v: &'a mut Vec<Node>) -> &'a mut Vec<Node> {
    let inner: Vec<usize> = v.iter().enumerate().filter(|x| x.1.kids.as_ref().is_some_and(|k| !k.is_empty())).map(|x| x.0).collect();
    if inner.is_empty() || s.chance(1, 3) { return v; }
    let i = *s.pick(&inner);
    pick(s, v[i].kids.as_mut().unwrap())
}
fn field(s: &mut Src, d: &mut [u8]) {
    if d.is_empty() { return; }
    let n = d.len() as u64;
    let w = (*s.pick(&[1usize, 2, 4, 8])).min(d.len());
    let at = if s.bool() { s.usize(0, (d.len() - w).min(24)) } else { s.usize(0, d.len() - w) };
    let v = *s.pick(&[0u64, 1, 2, 3, 4, 7, 8, 0x10, 0x44, 0x7f, 0x80, 0xff, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, u64::MAX, n, n.wrapping_sub(1), n + 1]);
    let b = v.to_be_bytes();
    let mut x = b[8 - w..].to_vec();
    if s.bool() { x.reverse(); }
    d[at..at + w].copy_from_slice(&x);
}
/// Other content for one file of the format, still made of whole parts.
pub fn reshape(s: &mut Src, f: F, b: &[u8]) -> Vec<u8> {
    let (head, mut v, mut tail) = parse(f, b);
    if v.is_empty() { let mut b = b.to_vec(); for _ in 0..s.int(1, 3) { field(s, &mut b); } if s.chance(1, 3) { let k = s.usize(0, b.len()); b.truncate(k); } return b; }
    let mut at_end = vec![];
    for _ in 0..s.int(1, 3) {
        let l = pick(s, &mut v);
        let n = l.len();
        if n == 0 { break; }
        // the parts that matter most often
        let hot: Vec<usize> = (0..n).filter(|i| [&b"Exif"[..], b"EXIF", b"eXIf", b"tEXt", b"zTXt", b"iTXt", b"brob", b"VP8X", b"iloc", b"iinf", b"infe", b"iref", b"\xff\xe1"].contains(&&l[*i].name[..])).collect();
        let i = if !hot.is_empty() && s.bool() { *s.pick(&hot) } else { s.usize(0, n - 1) };
        match s.draw(9) {
            0 | 1 => { let m = l[i].data.len(); let k = *s.pick(&[0, 1, 2, 3, 4, 6, 8, m / 2, m.saturating_sub(1), m.saturating_sub(4)]); if s.chance(1, 4) { l[i].kids = None; } l[i].data.truncate(k); }
            2 => { let k = s.usize(1, 9); let c = *s.pick(&[0u8, 0xff, 4, 0x80]); l[i].data.extend(vec![c; k]); }
            3 | 4 => field(s, &mut l[i].data),
            5 => { l.remove(i); }
            6 => { let x = l[i].clone(); let j = s.usize(0, n); l.insert(j, x); }
            7 => { let j = s.usize(0, n - 1); l.swap(i, j); }
            8 => l[i].name = s.pick(names(f)).to_vec(),
            _ => { let k = s.usize(0, 12); let x = Node { name: s.pick(names(f)).to_vec(), data: s.blob(k), kids: None }; l.insert(i, x); }
        }
    }
    match s.weighted(&[5, 2, 1, 1]) {
        0 => {}
        1 => { let k = s.usize(1, 9); at_end = s.blob(k); }
        2 => { let k = s.usize(0, v.len()); v.truncate(k); tail.clear(); if s.bool() { let k = s.usize(0, 12); at_end = s.blob(k); } }
        _ => { let k = s.usize(0, tail.len()); tail.truncate(k); }
    }
    let mut o = put(f, &head, &v, &tail);
    o.extend(at_end);
    if f == F::Webp && o.len() >= 8 {
        let n = o.len() as u32 - 8;
        let n = match s.weighted(&[12, 1, 1, 1, 1]) { 0 => n, 1 => n.wrapping_add(1), 2 => n.wrapping_sub(1), 3 => u32::MAX - 7, _ => 0 };
        o[4..8].copy_from_slice(&n.to_le_bytes());
    }
    o
}

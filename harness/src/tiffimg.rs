//! Strip-based TIFF files: generator and the model of what clearing keeps.
use crate::engine::*;
use crate::img::View;
use crate::meta::*;
use crate::tags::*;
use crate::tiff;

/// Needed to decode the pixels (or describe their size).
pub const DECODE: [u16; 29] = [0x0100, 0x0101, 0x0102, 0x0103, 0x0106, 0x0111, 0x0115, 0x0116, 0x0117, 0x011a, 0x011b, 0x011c, 0x0128, 0x0140, 0x0201, 0x0202, 0x0211, 0x0212, 0x0213, 0x0214, 0x00fe, 0x010a, 0x0124, 0x0125, 0x013d, 0x014c, 0x0152, 0x0153, 0x015b];
/// Without these no TIFF file can be written.
pub const REQUIRED: [u16; 10] = [0x0100, 0x0101, 0x0103, 0x0106, 0x0111, 0x0116, 0x0117, 0x011a, 0x011b, 0x0128];

/// Puts an image into every page of the model.
pub fn add_pixels(s: &mut Src, m: &mut MMeta) {
    if !m.dirs.contains_key(&(0, G::GENERIC)) { m.dirs.insert((0, G::GENERIC), Dir::new()); }
    let pages: Vec<u32> = m.dirs.keys().filter(|k| k.1 == G::GENERIC).map(|k| k.0).collect();
    for n in pages {
        let d = m.dirs.get_mut(&(n, G::GENERIC)).unwrap();
        for h in REQUIRED.iter().filter(|h| !IMAGE_DATA_TAGS.contains(h)) {
            if d.contains_key(h) && s.bool() { continue; }
            let r = row(*h, G::GENERIC).unwrap();
            d.insert(*h, V { fmt: r.fmt, val: gen_val(s, r.fmt, 1) });
        }
        for h in DECODE.iter().filter(|h| !REQUIRED.contains(h) && !IMAGE_DATA_TAGS.contains(h)) {
            if !s.chance(1, 4) { continue; }
            let (fmt, c) = match row(*h, G::GENERIC) { Some(r) => (r.fmt, gen_count(s, r.count, 20)), None => (*s.pick(&[3u16, 4, 7, 1]), s.int(1, 6) as usize) };
            d.insert(*h, V { fmt, val: gen_val(s, fmt, c) });
        }
        let k = match s.weighted(&[300, 300, 100, 1]) { 0 => 1, 1 => s.int(1, 6), 2 => s.int(1, 40), _ => s.int(40, 1000) };
        let strips: Vec<Vec<u8>> = (0..k).map(|_| { let n = if k < 3 { s.bulk(300) } else { s.small(300) as usize }; s.blob(n) }).collect();
        d.insert(0x0117, V { fmt: 4, val: Val::U32(strips.iter().map(|x| x.len() as u32).collect()) });
        d.insert(0x0111, V { fmt: 4, val: Val::Data(strips) });
        d.remove(&0x0201); d.remove(&0x0202);
        if s.chance(1, 5) {
            let n = s.small(300) as usize;
            let t = s.blob(n);
            d.insert(0x0202, V { fmt: 4, val: Val::U32(vec![t.len() as u32]) });
            d.insert(0x0201, V { fmt: 4, val: Val::Data(vec![t]) });
        }
    }
}
/// A model with one to four pages, with or without descriptive tags.
pub fn gen_model(s: &mut Src, rich: bool) -> MMeta {
    let mut o = SMALL; o.max_dirs = 4; o.unwritable = rich; o.huge = 1500;
    let mut m = if rich { gen_meta(s, &o) } else { let mut m = MMeta { big: s.bool(), ..Default::default() }; for n in 0..s.int(1, 3) { m.dirs.insert((n as u32, G::GENERIC), Dir::new()); } m };
    // every numbered page exists
    let mx = m.dirs.keys().map(|k| k.0).max().unwrap_or(0);
    for n in 0..=mx { m.dirs.entry((n, G::GENERIC)).or_default(); }
    add_pixels(s, &mut m);
    m
}
pub fn cleared(m: &MMeta) -> MMeta {
    let mut r = m.writable();
    r.dirs.retain(|k, _| k.1 == G::GENERIC);
    for d in r.dirs.values_mut() { d.retain(|h, _| DECODE.contains(h)); }
    r.norm()
}
pub fn view_of(m: &MMeta) -> View {
    let c = cleared(m);
    let mut v = View::default();
    v.parts.push(("byte order".into(), vec![m.big as u8]));
    for ((n, _), d) in &c.dirs { for (h, x) in d { v.parts.push((format!("page {n} tag {h:04x}"), format!("{x:?}").into_bytes())); } }
    let rest: Vec<String> = m.norm().dirs.iter().flat_map(|(k, d)| d.iter().filter(|(h, _)| k.1 != G::GENERIC || !DECODE.contains(h)).map(|(h, x)| format!("{k:?} {h:04x} {x:?}")).collect::<Vec<_>>()).collect();
    if !rest.is_empty() { v.exif.push(rest.join("\n").into_bytes()); v.exif_at.push(v.parts.len()); }
    v
}
pub fn view(b: &[u8]) -> Result<View, String> { Ok(view_of(&tiff::parse(b)?.meta)) }
pub fn encode(m: &MMeta, s: &mut Src) -> Vec<u8> { let l = if s.chance(1, 4) { tiff::PLAIN } else { tiff::FREE }; tiff::encode(m, l, s) }

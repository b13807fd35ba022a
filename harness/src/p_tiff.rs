//! P14 TIFF files.
use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::meta::*;
use crate::tags::*;
use crate::tiff;
use crate::tiffimg as ti;

fn strict(b: &[u8], what: &str) -> Result<MMeta, Fail> {
    let p = parsed(tiff::parse(b), what)?;
    ensure!(p.end + 4 >= b.len(), format!("{what}:trailing"), "{what}: the file has {} bytes but ends at {}", b.len(), p.end);
    Ok(p.meta)
}
fn p14(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = ti::gen_model(s, true);
    let img = ti::encode(&m, s);
    let pages = m.dirs.keys().filter(|k| k.1 == G::GENERIC).count();
    if pages > 1 { ctx.label("several pages"); }
    if m.big { ctx.label("big endian"); }
    if m.dirs.values().any(|d| matches!(d.get(&0x0111), Some(V { val: Val::Data(x), .. }) if x.len() > 1)) { ctx.label("several strips"); ctx.nontrivial(); }
    if m.dirs.values().any(|d| d.contains_key(&0x0201)) { ctx.label("thumbnail"); }
    ctx.note(|| format!("{} as {} bytes", m.describe(), img.len()));
    let place = Place::gen(s, ctx, F::Tiff);
    if s.chance(1, 3) {
        ctx.label("clear");
        let out = place.must_clear(ctx, &img)?;
        return diff(&ti::cleared(&m), &strict(&out, "clear")?, "clear");
    }
    ctx.label("write");
    let mut x = place.must_read(ctx, &img)?;
    let mut exp = m.norm();
    // edits
    let mut trace = vec![];
    for _ in 0..s.draw(4) {
        let g = *s.pick(&GROUPS);
        let n = s.int(0, pages as u64 - 1) as u32;
        match s.weighted(&[4, 2, 1]) {
            0 => {
                let (h, fmt) = if s.chance(4, 5) { let rs: Vec<&Row> = TABLE.iter().filter(|r| r.group == g && r.writable && is_offset(r.hex, g).is_none() && !IMAGE_DATA_TAGS.contains(&r.hex)).collect(); let r = *s.pick(&rs); (r.hex, r.fmt) } else { (gen_unknown_hex(s, g), s.int(1, 12) as u16) };
                let c = gen_count(s, row(h, g).map_or(1, |r| r.count), 20);
                // (a required tag may be empty, but not missing)
                let v = V { fmt, val: gen_val(s, fmt, c) };
                let t = make_tag(h, g, &v)?;
                let direct = n == 0 && s.bool();
                ctx.lib("set_tag", || if direct { x.set_tag(t) } else { x.get_ifd_mut(g.lib(), n).set_tag(t) })?;
                trace.push(format!("set {h:04x} {g:?}{n}"));
                exp.dirs.entry((n, g)).or_default().insert(h, v);
            }
            1 => {
                let hs: Vec<u16> = exp.dirs.get(&(n, g)).map(|d| d.keys().copied().filter(|h| g != G::GENERIC || !ti::REQUIRED.contains(h) && !IMAGE_DATA_TAGS.contains(h)).collect()).unwrap_or_default();
                if hs.is_empty() { continue; }
                let h = *s.pick(&hs);
                ctx.lib("ifd.remove_tag", || x.get_ifd_mut(g.lib(), n).remove_tag(h))?;
                trace.push(format!("remove {h:04x} {g:?}{n}"));
                exp.dirs.get_mut(&(n, g)).unwrap().remove(&h);
            }
            _ => {
                let hs: Vec<(u16, G)> = exp.dirs.iter().flat_map(|(k, d)| { let g = k.1; d.keys().map(move |h| (*h, g)) }).filter(|(h, g)| *g != G::GENERIC || !ti::REQUIRED.contains(h) && !IMAGE_DATA_TAGS.contains(h)).collect();
                if hs.is_empty() { continue; }
                let (h, g) = *s.pick(&hs);
                ctx.lib("remove_tag_by_hex_group", || x.remove_tag_by_hex_group(h, g.lib()))?;
                trace.push(format!("remove {h:04x} {g:?} everywhere"));
                for (k, d) in exp.dirs.iter_mut() { if k.1 == g { d.remove(&h); } }
            }
        }
    }
    if trace.is_empty() { ctx.label("written back unchanged"); }
    ctx.note(|| trace.join(", "));
    if s.chance(1, 12) {
        // without one of the tags that every TIFF file needs
        let h = *s.pick(&ti::REQUIRED);
        ctx.lib("remove_tag_by_hex_group", || x.remove_tag_by_hex_group(h, G::GENERIC.lib()))?;
        ctx.label("required tag missing"); ctx.note(|| format!("without {h:04x}"));
        let (r, v) = place.write(ctx, &x, &img)?;
        ensure!(r.is_err(), "incomplete:ok", "metadata without tag {h:04x} was written as a TIFF file");
        ensure!(v == img, "incomplete:changed", "the failed write changed the file");
        return Ok(());
    }
    let out = place.must_write(ctx, &x, &img)?;
    diff(&exp.writable(), &strict(&out, "write")?, "write")
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P14", rule: "random TIFF files of 1 to 4 pages with 1 to 40 strips each, thumbnails, EXIF, GPS and INTEROP directories, any layout and integer widths; read, edited by 0 to 4 changes and written back, or cleared; non-trivial: a page with several strips", assumptions: &["tags the catalogue marks as not writable are not expected to survive", "strip data shares no bytes with other data"],
        parts: vec![Part { name: "pages", body: Body::Choices(p14), quick: 400_000, thorough: 12_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p14(s, ctx) }), quick: LARGE, thorough: 4_000 }] }]
}

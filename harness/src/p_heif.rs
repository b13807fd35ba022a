//! P15 HEIF items.
use crate::engine::*;
use crate::ensure;
use crate::heif;
use crate::img::*;
use crate::meta::*;
use crate::tags::G;
use crate::tiff;

/// What clearing keeps of a block stored in a HEIF file.
pub const KEPT: [u16; 4] = [0x0112, 0x011a, 0x011b, 0x0128];
pub fn reduced(m: &MMeta) -> MMeta {
    let mut r = m.writable().norm();
    r.dirs.retain(|k, _| *k == (0, G::GENERIC));
    for d in r.dirs.values_mut() { d.retain(|h, _| KEPT.contains(h)); }
    r.big = false;
    r.norm()
}
fn p15(s: &mut Src, ctx: &mut Ctx) -> Res {
    // with the metadata where it is known
    let blocks: Vec<(Option<MMeta>, Vec<u8>)> = (0..n_blocks(s, &[20, 25, 5, 1])).map(|_| if s.chance(2, 3) {
        let (mut m, b) = small_block(s, ctx);
        if s.bool() {
            let d = m.dirs.entry((0, G::GENERIC)).or_default();
            for h in KEPT { if s.bool() { let r = crate::tags::row(h, G::GENERIC).unwrap(); d.insert(h, crate::tags::V { fmt: r.fmt, val: gen_val(s, r.fmt, 1) }); } }
            let b = tiff::encode(&m, tiff::Layout { widths: false, ..tiff::FREE }, s);
            (Some(m), b)
        } else { (Some(m), b) }
    } else { (None, any_size_block(s, ctx)) }).collect();
    let raw: Vec<Vec<u8>> = blocks.iter().map(|b| b.1.clone()).collect();
    let img = heif::gen(s, ctx, &raw);
    let before = heif::parse(&img).expect("generator");
    if before.items.len() >= 3 { ctx.nontrivial(); }
    if raw.len() > 1 { ctx.label("HEIF: several Exif items"); }
    ctx.note(|| format!("{} bytes, items {:?}", img.len(), before.items.iter().map(|(i, x)| format!("{i}:{}", String::from_utf8_lossy(&x.typ))).collect::<Vec<_>>()));
    let place = Place::gen(s, ctx, F::Heif);
    let exif_refs = |p: &heif::Parsed, ids: &[u32]| p.refs.iter().filter(|r| ids.contains(&r.1)).cloned().collect::<Vec<_>>();
    if s.chance(1, 3) {
        ctx.label("clear");
        let out = place.must_clear(ctx, &img)?;
        if raw.is_empty() { ensure!(out == img, "clear-none", "clearing a file without Exif changes it"); return Ok(()); }
        let after = parsed(heif::parse(&out), "clear")?;
        same_parts(&before.view, &after.view, "clear")?;
        ensure!(before.exif_ids == after.exif_ids, "clear-items", "the Exif items were {:?} and are {:?}", before.exif_ids, after.exif_ids);
        ensure!(exif_refs(&before, &before.exif_ids) == exif_refs(&after, &after.exif_ids), "clear-refs", "references of the Exif items changed");
        for (e, old) in after.view.exif.iter().zip(&before.view.exif) {
            let p = match tiff::parse(e) { Ok(p) => p, Err(m) => return fail("clear-block", format!("the emptied Exif item is invalid: {m}")) };
            for (k, d) in &p.meta.dirs { for h in d.keys() { ensure!(*k == (0, G::GENERIC) && KEPT.contains(h), "clear-left", "tag {h:04x} of {k:?} is left in the Exif item"); } }
            // orientation and resolution stay
            if let Some((Some(m), _)) = blocks.iter().find(|b| b.1 == *old) { let mut kept = p.meta.norm(); kept.big = false; if reduced(m).tag_count() > 0 { ctx.label("HEIF: tags that clearing keeps"); } diff(&reduced(m), &kept, "clear-kept")?; }
        }
        Ok(())
    } else {
        ctx.label("write");
        let m = gen_meta(s, &WRITE);
        let x = build(&m, s)?;
        let out = place.must_write(ctx, &x, &img)?;
        let enc = crate::p_codec::lib_encode(ctx, &x)?;
        let after = parsed(heif::parse(&out), "write")?;
        same_parts(&before.view, &after.view, "write")?;
        ensure!(after.exif_ids.len() == raw.len().max(1), "write-count", "{} Exif items", after.exif_ids.len());
        // the metadata is in the first item of the list, further ones are emptied
        let first = after.order.iter().find(|i| after.exif_ids.contains(i)).copied().unwrap();
        for (i, e) in after.exif_ids.iter().zip(&after.view.exif) {
            if *i == first { ensure!(*e == enc, "write-content", "the Exif item is not the encoded metadata"); }
            else { ensure!(tiff::parse(e).map(|p| p.meta.tag_count()) == Ok(0), "write-second", "a further Exif item was not emptied"); }
        }
        if raw.is_empty() {
            let r = exif_refs(&after, &after.exif_ids);
            ensure!(r == vec![(*b"cdsc", first, vec![before.primary.unwrap()])], "write-ref", "the new Exif item has the references {r:?}, the primary item is {:?}", before.primary);
            ensure!(!before.items.contains_key(&first), "write-id", "item number {first} was already used");
        } else { ensure!(before.exif_ids == after.exif_ids && exif_refs(&before, &before.exif_ids) == exif_refs(&after, &after.exif_ids), "write-items", "the Exif items or their references changed"); }
        Ok(())
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P15", rule: "random HEIF/AVIF files: iloc versions 0 to 2 with all field widths, base offsets, several extents, items in mdat, idat, other items and other files, box and item orders, 64-bit and open-ended sizes, movie boxes, 0 to 2 Exif items; non-trivial: three or more items", assumptions: &["Exif data shares no bytes with other items", "extents are not empty"],
        parts: vec![Part { name: "items", body: Body::Choices(p15), quick: 400_000, thorough: 12_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p15(s, ctx) }), quick: LARGE, thorough: 4_000 }] }]
}

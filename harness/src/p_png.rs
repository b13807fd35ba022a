//! P11 PNG chunks, P17 embedded XMP.
use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::meta::*;
use crate::png::{self, Kind};
use crate::xml;

/// Chunk-wise relation between an image and the result of clearing (`new` is
/// None) or writing `new` to it.
fn relation(before: &[u8], after: &[u8], new: Option<&[u8]>) -> Res {
    let (a, ra) = png::chunks(before).expect("generator");
    let (b, rb) = match png::chunks(after) { Ok(x) => x, Err(e) => return fail("invalid", format!("the result is not a valid PNG: {e}")) };
    ensure!(ra == rb, "after-iend", "{} bytes behind IEND became {}", ra.len(), rb.len());
    let mut j = 0;
    for c in &a {
        match png::kind(c).expect("generator") {
            Kind::Exif(_) => continue,
            Kind::Other => {
                let Some(d) = b.get(j) else { return fail("lost", format!("chunk {} is lost", String::from_utf8_lossy(&c.name))) };
                ensure!(c.name == d.name && c.data == d.data, "changed", "chunk {} with {} bytes became {} with {}", String::from_utf8_lossy(&c.name), c.data.len(), String::from_utf8_lossy(&d.name), d.data.len());
            }
            Kind::Xmp(t) => {
                let Some(d) = b.get(j) else { return fail("xmp-lost", "the XMP chunk is lost") };
                let u = match png::parse_text(&d.name, &d.data) { Some(u) => u, None => return fail("xmp-invalid", format!("the XMP chunk became an invalid {} chunk", String::from_utf8_lossy(&d.name))) };
                ensure!((t.kind, &t.keyword, t.compressed, &t.lang, &t.trans) == (u.kind, &u.keyword, u.compressed, &u.lang, &u.trans), "xmp-chunk", "the XMP chunk {} {} {:?} {:?} became {} {} {:?} {:?}", t.kind as char, t.compressed, t.lang, t.trans, u.kind as char, u.compressed, u.lang, u.trans);
                let n = xml::parse(&t.text).expect("generator");
                if !xml::has_exif(&n) { ensure!(t.text == u.text, "xmp-text", "a packet without exif parts was changed: {:?} became {:?}", String::from_utf8_lossy(&t.text), String::from_utf8_lossy(&u.text)); }
                else {
                    let m = match xml::parse(&u.text) { Ok(m) => m, Err(e) => return fail("xmp-malformed", format!("the packet {:?} became {:?}: {e}", String::from_utf8_lossy(&t.text), String::from_utf8_lossy(&u.text))) };
                    if let Err(e) = xml::matches(&xml::filter(&n), &m) { return fail("xmp-content", format!("{e}: {:?} became {:?}", String::from_utf8_lossy(&t.text), String::from_utf8_lossy(&u.text))); }
                }
            }
        }
        j += 1;
        if j == 1 {
            if let Some(enc) = new {
                let Some(d) = b.get(1) else { return fail("no-new", "no chunk follows IHDR") };
                ensure!(d.name == b"zTXt", "new-kind", "the chunk behind IHDR is {}", String::from_utf8_lossy(&d.name));
                let t = match png::parse_text(&d.name, &d.data) { Some(t) => t, None => return fail("new-invalid", "the new chunk is invalid") };
                ensure!(t.keyword == png::RAW.as_bytes(), "new-keyword", "keyword {:?}", String::from_utf8_lossy(&t.keyword));
                let p = match png::parse_raw_profile(&t.text) { Ok(p) => p, Err(e) => return fail("new-profile", e) };
                let n = 6 + enc.len();
                ensure!(p.len() >= n && &p[..6] == b"Exif\0\0" && &p[6..n] == enc && p[n..].iter().all(|b| *b == 0) && p.len() <= n + 1, "new-content", "the new profile with {} bytes is not the encoded metadata with {}", p.len(), enc.len());
                j = 2;
            }
        }
    }
    if let Some(d) = b.get(j) { return fail("added", format!("chunk {} with {} bytes is left or added", String::from_utf8_lossy(&d.name), d.data.len())); }
    Ok(())
}
fn op(s: &mut Src, ctx: &mut Ctx, img: &[u8]) -> Res {
    let place = Place::gen(s, ctx, F::Png);
    if s.chance(1, 2) {
        ctx.label("clear");
        let out = place.must_clear(ctx, img)?;
        relation(img, &out, None)
    } else {
        ctx.label("write");
        let m = gen_meta(s, &WRITE);
        let x = build(&m, s)?;
        let out = place.must_write(ctx, &x, img)?;
        let enc = crate::p_codec::lib_encode(ctx, &x)?;
        relation(img, &out, Some(&enc))
    }
}
fn p11(s: &mut Src, ctx: &mut Ctx) -> Res {
    let blocks: Vec<Vec<u8>> = (0..n_blocks(s, &[15, 25, 10, 1])).map(|_| any_size_block(s, ctx)).collect();
    let xmp = s.weighted(&[5, 3, 1]) as u64;
    let with = s.bool();
    let img = png::gen(s, ctx, &blocks, xmp, with);
    let n = png::chunks(&img).expect("generator").0.len();
    if n >= 5 { ctx.nontrivial(); }
    ctx.note(|| format!("{} bytes, chunks {}", img.len(), png::chunks(&img).unwrap().0.iter().map(|c| format!("{}:{}", String::from_utf8_lossy(&c.name), c.data.len())).collect::<Vec<_>>().join(" ")));
    op(s, ctx, &img)
}
fn p17(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut img = png::SIG.to_vec();
    png::chunk(&mut img, b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]);
    let (name, data) = png::xmp_chunk(s, ctx, true);
    let t = png::parse_text(&name, &data).expect("generator");
    let packet = String::from_utf8(t.text.clone()).expect("generator");
    ctx.note(|| packet.clone());
    let damaged = s.chance(1, 5);
    let t2 = if damaged { xml::damage(s, &packet) } else { packet.clone() };
    let data = png::text_data(&png::Text { text: t2.clone().into_bytes(), ..t.clone() }, 6);
    png::chunk(&mut img, &name, &data);
    png::chunk(&mut img, b"IDAT", &[1, 2, 3]); png::chunk(&mut img, b"IEND", &[]);
    match xml::parse(t2.as_bytes()) {
        Ok(n) => { if xml::has_exif(&n) { ctx.nontrivial(); ctx.label("exif parts"); } else { ctx.label("no exif parts"); } op(s, ctx, &img) }
        Err(_) => {
            // damaged: an error that changes nothing, or nothing but exif parts is lost
            ctx.label("damaged packet");
            let place = Place::gen(s, ctx, F::Png);
            let (r, out) = if s.bool() { place.clear(ctx, &img)? } else { let x = empty(false); place.write(ctx, &x, &img)? };
            if r.is_err() { ensure!(out == img, "damaged-changed", "the operation fails but changes the image"); return Ok(()); }
            let (cs, _) = match png::chunks(&out) { Ok(x) => x, Err(e) => return fail("damaged-invalid", e) };
            let Some(u) = cs.iter().filter_map(|c| png::parse_text(&c.name, &c.data)).find(|u| u.keyword == png::XMP.as_bytes()) else { return fail("damaged-lost", "the XMP chunk is lost") };
            // what has no exif prefix must all still be there: letters outside exif parts are compared
            let (a, b) = (residue(&t2, true), residue(&String::from_utf8_lossy(&u.text), false));
            ensure!(b.ends_with(&a), "damaged-cut", "the damaged packet {t2:?} was cut to {:?}", String::from_utf8_lossy(&u.text));
            Ok(())
        }
    }
}
/// The tail of a packet behind the last exif prefix, without white space and
/// quotes: what no removal may reach.
fn residue(t: &str, tail: bool) -> String {
    let t = match t.rfind("exif:").filter(|_| tail) { Some(i) => t[i..].rfind('>').map(|j| &t[i + j + 1..]).unwrap_or(""), None => t };
    t.chars().filter(|c| !c.is_whitespace() && *c != '"' && *c != '\'').collect()
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P11", rule: "random PNG chunk streams with 0 to 2 Exif carriers (eXIf, raw profile in tEXt/zTXt/iTXt) and 0 to 2 XMP packets at any position; non-trivial: five or more chunks", assumptions: &["raw Exif profiles are those with the keyword 'Raw profile type exif' in the form ImageMagick defines"],
            parts: vec![Part { name: "chunks", body: Body::Choices(p11), quick: 250_000, thorough: 10_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p11(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P17", rule: "random XMP packets (nested elements, both quotes, entities, comments, CDATA, processing instructions) in the three text chunk kinds, one in five damaged; non-trivial: well-formed with exif parts", assumptions: &["white space directly behind a removed element may vanish with it", "packets are UTF-8, in tEXt and zTXt as well"],
            parts: vec![Part { name: "xmp", body: Body::Choices(p17), quick: 400_000, thorough: 15_000_000 }] },
    ]
}

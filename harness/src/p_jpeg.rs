//! P10 JPEG segments, P18 APP12/APP13.
use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::jpeg;
use crate::meta::*;

fn p10(s: &mut Src, ctx: &mut Ctx) -> Res {
    let blocks: Vec<Vec<u8>> = (0..n_blocks(s, &[15, 25, 10, 1])).map(|_| any_block(s, ctx)).collect();
    let img = jpeg::gen(s, ctx, &blocks, false);
    let place = Place::gen(s, ctx, F::Jpeg);
    let rest = match jpeg::without(&img, |g| jpeg::is_exif(&img, g)) { Ok(r) => r, Err(e) => panic!("generator: {e}") };
    let segs = jpeg::segments(&img).unwrap().len();
    if segs >= 3 { ctx.nontrivial(); }
    if blocks.len() > 1 { ctx.label("several Exif segments"); } else if blocks.is_empty() { ctx.label("no Exif segment"); }
    ctx.note(|| format!("{} bytes, {segs} segments, {} Exif: {}", img.len(), blocks.len(), hex(&img[..img.len().min(120)])));
    if s.chance(1, 2) {
        ctx.label("clear");
        let out = place.must_clear(ctx, &img)?;
        ensure!(out == rest, "clear", "clearing gives {} bytes instead of {}, first difference at {:?}", out.len(), rest.len(), out.iter().zip(&rest).position(|(a, b)| a != b));
    } else {
        ctx.label("write");
        let mut m = gen_meta(s, &WRITE);
        if s.chance(1, 60) { fatten(s, ctx, &mut m); }
        let x = build(&m, s)?;
        let enc = crate::p_codec::lib_encode(ctx, &x)?;
        if enc.len() + 8 > 65_535 {
            ctx.label("too large for a segment");
            let (r, out) = place.write(ctx, &x, &img)?;
            ensure!(r.is_err(), "too-large", "writing {} bytes of metadata reports success", enc.len());
            ensure!(out == img, "too-large-changed", "the failed write changed the image");
            return Ok(());
        }
        let out = place.must_write(ctx, &x, &img)?;
        let mut exp = vec![0xff, 0xd8, 0xff, 0xe1];
        exp.extend_from_slice(&((enc.len() + 8) as u16).to_be_bytes()); exp.extend_from_slice(b"Exif\0\0"); exp.extend_from_slice(&enc);
        let n = exp.len();
        ensure!(out.len() >= n && out[..n] == exp[..], "new-segment", "the new Exif segment is wrong: {}", hex(&out[..out.len().min(40)]));
        ensure!(out[n..] == rest[2..], "write", "writing gives {} bytes behind the new segment instead of {}, first difference at {:?}", out.len() - n, rest.len() - 2, out[n..].iter().zip(&rest[2..]).position(|(a, b)| a != b));
    }
    Ok(())
}
fn p18(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = if s.bool() { 12u8 } else { 13 };
    if s.chance(1, 12) {
        // another format: an error, nothing changes
        let f = *s.pick(&[F::Png, F::Webp, F::Jxl, F::Tiff, F::Heif]);
        let k = s.usize(0, 60);
        let b = if s.bool() { jpeg::gen(s, ctx, &[], true) } else { s.blob(k) };
        let place = Place::gen(s, ctx, f);
        ctx.label("other format"); ctx.nontrivial();
        let (r, out) = place.clear_app(ctx, &b, n)?;
        ensure!(r.is_err(), "other-format", "clearing APP{n} of {} succeeds", f.name());
        ensure!(out == b, "other-format-changed", "the failed operation changed the image");
        return Ok(());
    }
    let blocks: Vec<Vec<u8>> = (0..s.draw(1)).map(|_| any_block(s, ctx)).collect();
    let img = jpeg::gen(s, ctx, &blocks, true);
    let marker = 0xe0 + n;
    let exp = jpeg::without(&img, |g| g.marker == marker).expect("generator");
    let k = jpeg::segments(&img).unwrap().iter().filter(|g| g.marker == marker).count();
    if k > 0 { ctx.nontrivial(); }
    if k > 1 { ctx.label("several segments of the kind"); }
    ctx.note(|| format!("APP{n}: {k} segments in {} bytes: {}", img.len(), hex(&img[..img.len().min(120)])));
    let mem = Place::memory(F::Jpeg);
    let (r, out) = mem.clear_app(ctx, &img, n)?;
    ensure!(r.is_ok(), "err", "clearing APP{n}: {}", r.unwrap_err());
    ensure!(out == exp, "memory", "clearing APP{n} in memory gives {} bytes instead of {}, first difference at {:?}", out.len(), exp.len(), out.iter().zip(&exp).position(|(a, b)| a != b));
    let e = *s.pick(F::Jpeg.exts());
    let file = Place::on_file(ctx, F::Jpeg, e);
    let (r, out) = file.clear_app(ctx, &img, n)?;
    ensure!(r.is_ok(), "file-err", "clearing APP{n} of a file: {}", r.unwrap_err());
    ensure!(out == exp, "file", "clearing APP{n} on disk gives {} bytes instead of {}", out.len(), exp.len());
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P10", rule: "random JPEG marker streams (any segments, other APP1, fill bytes, several scans, restart markers, trailing data) with 0 to 2 Exif segments anywhere before EOI; non-trivial: three or more segments", assumptions: &["an Exif segment is an APP1 segment starting with Exif and two zero bytes, before EOI"],
            parts: vec![Part { name: "segments", body: Body::Choices(p10), quick: 800_000, thorough: 30_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p10(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P18", rule: "random JPEG marker streams rich in APP12/APP13 segments, and other formats; non-trivial: at least one segment of the kind, or another format", assumptions: &[],
            parts: vec![Part { name: "app", body: Body::Choices(p18), quick: 600_000, thorough: 30_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p18(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
    ]
}

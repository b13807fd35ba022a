//! P12 WebP chunks.
use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::meta::*;
use crate::webp;

fn p12(s: &mut Src, ctx: &mut Ctx) -> Res {
    let blocks: Vec<Vec<u8>> = (0..n_blocks(s, &[20, 25, 10, 1])).map(|_| any_size_block(s, ctx)).collect();
    let wrong = s.chance(1, 10);
    if wrong { ctx.label(if blocks.is_empty() { "Exif flag set without Exif chunk" } else { "Exif flag not set" }); }
    let img = webp::gen(s, ctx, &blocks, wrong);
    let before = webp::view_with(&img, !wrong).expect("generator");
    let simple = &img[12..16] != b"VP8X";
    if before.parts.len() >= 3 || simple { ctx.nontrivial(); }
    ctx.note(|| format!("{} bytes, chunks {}", img.len(), webp::chunks(&img).unwrap().iter().map(|c| format!("{}:{}", String::from_utf8_lossy(&c.0), c.1.len())).collect::<Vec<_>>().join(" ")));
    let place = Place::gen(s, ctx, F::Webp);
    if s.chance(1, 3) {
        ctx.label("clear");
        let out = place.must_clear(ctx, &img)?;
        if blocks.is_empty() && !wrong { ensure!(out == img, "clear-none", "clearing a file without Exif changes it"); }
        let after = parsed(webp::view(&out), "clear")?;
        ensure!(after.exif.is_empty(), "clear-left", "an Exif chunk is left");
        same_parts(&before, &after, "clear")
    } else {
        ctx.label("write");
        let mut o = WRITE; if s.chance(1, 4) { o.image_data = true; }
        let m = gen_meta(s, &o);
        let x = build(&m, s)?;
        let out = place.must_write(ctx, &x, &img)?;
        let enc = crate::p_codec::lib_encode(ctx, &x)?;
        if enc.len() % 2 == 1 { ctx.label("odd Exif size"); }
        let after = parsed(webp::view(&out), "write")?;
        ensure!(out[12..16] == *b"VP8X", "no-vp8x", "the file does not start with VP8X");
        ensure!(after.exif.len() == 1, "write-count", "{} Exif chunks", after.exif.len());
        ensure!(after.exif[0] == enc, "write-content", "the Exif chunk is not the encoded metadata");
        same_parts(&before, &after, "write")
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P12", rule: "random WebP files: simple lossy and lossless with all dimensions, extended with ICC, alpha, animation, XMP, unknown chunks, 0 to 2 Exif chunks anywhere behind VP8X, odd and even sizes; non-trivial: simple, or three or more chunks besides Exif", assumptions: &["padding bytes are zero and the RIFF size fits the file"],
        parts: vec![Part { name: "chunks", body: Body::Choices(p12), quick: 600_000, thorough: 20_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p12(s, ctx) }), quick: LARGE, thorough: 4_000 }] }]
}

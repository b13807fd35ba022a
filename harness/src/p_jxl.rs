//! P13 JPEG XL boxes.
use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::jxl;
use crate::meta::*;

fn p13(s: &mut Src, ctx: &mut Ctx) -> Res {
    let blocks: Vec<Vec<u8>> = (0..n_blocks(s, &[20, 25, 10, 1])).map(|_| any_size_block(s, ctx)).collect();
    let img = jxl::gen(s, ctx, &blocks);
    let naked = img.starts_with(&[0xff, 0x0a]);
    let before = jxl::view(&img).expect("generator");
    if before.parts.len() >= 4 || naked { ctx.nontrivial(); }
    ctx.note(|| format!("{} bytes, {}", img.len(), if naked { "naked".into() } else { jxl::boxes(&img).unwrap().iter().map(|c| format!("{}:{}:{}", String::from_utf8_lossy(&c.name), c.data.1 - c.data.0, c.form)).collect::<Vec<_>>().join(" ") }));
    let place = Place::gen(s, ctx, F::Jxl);
    if s.chance(1, 2) {
        ctx.label("clear");
        let out = place.must_clear(ctx, &img)?;
        if blocks.is_empty() { ensure!(out == img, "clear-none", "clearing a file without Exif changes it"); return Ok(()); }
        let after = parsed(jxl::view(&out), "clear")?;
        ensure!(after.exif.is_empty(), "clear-left", "an Exif box is left");
        let exp: Vec<u8> = before.parts.iter().flat_map(|p| p.1.clone()).collect();
        same_parts(&before, &after, "clear")?;
        ensure!(out == exp, "clear-bytes", "clearing changes more than the Exif boxes");
        Ok(())
    } else {
        ctx.label("write");
        let m = gen_meta(s, &WRITE);
        let x = build(&m, s)?;
        let out = place.must_write(ctx, &x, &img)?;
        let enc = crate::p_codec::lib_encode(ctx, &x)?;
        let after = parsed(jxl::view(&out), "write")?;
        ensure!(!out.starts_with(&[0xff, 0x0a]), "no-container", "the codestream was not wrapped");
        ensure!(after.exif.len() == 1, "write-count", "{} Exif boxes", after.exif.len());
        ensure!(after.exif[0] == enc, "write-content", "the Exif box is not the encoded metadata");
        same_parts(&before, &after, "write")
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P13", rule: "random JPEG XL containers (jxlc or jxlp, plain and brob boxes of other kinds, unknown boxes, three forms of box sizes) with 0 to 2 Exif boxes, plain or brotli-compressed, and bare codestreams; non-trivial: bare codestream or four or more boxes besides Exif", assumptions: &[],
        parts: vec![Part { name: "boxes", body: Body::Choices(p13), quick: 300_000, thorough: 10_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p13(s, ctx) }), quick: LARGE, thorough: 4_000 }] }]
}

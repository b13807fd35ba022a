//! P28: what is reported as done is done, whatever the bytes.
use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::meta::*;
use crate::p_all::{any_content, gen_for};
use crate::tags::G;

fn p28(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = *s.pick(&FORMATS);
    ctx.label(f.name());
    let b = any_content(s, ctx, f);
    let place = Place::gen(s, ctx, f);
    ctx.note(|| format!("{}: {} bytes: {}...", f.name(), b.len(), hex(&b[..b.len().min(60)])));
    match s.weighted(&[4, 4, if f == F::Jpeg { 1 } else { 0 }]) {
        0 => {
            ctx.label("write");
            let m = gen_for(s, f, &SMALL);
            let x = build(&m, s)?;
            let (r, out) = place.write(ctx, &x, &b)?;
            if r.is_err() { ctx.label("refused"); return Ok(()); }
            ctx.nontrivial();
            match place.read(ctx, &out)? {
                Ok(y) => diff(&m.writable(), &view(&y)?, "after write")?,
                Err(e) => return fail("write-unread", format!("{}: writing reports success, reading: {e}", f.name())),
            }
            // clearing ends the same as without the write; what a simple WebP or a bare codestream was turned into stays
            let converted = match f { F::Jpeg | F::Png => false, F::Webp => b.get(12..16) != out.get(12..16), F::Jxl => b.starts_with(&[0xff, 0x0a]), F::Heif | F::Tiff => true };
            if !converted {
                if let (Ok(()), without) = place.clear(ctx, &b)? {
                    ctx.label("write and clear against clear");
                    match place.clear(ctx, &out)? {
                        (Ok(()), with) => ensure!(with == without, "write-clear", "{}: clearing leads to {} bytes, writing and clearing to {} other ones", f.name(), without.len(), with.len()),
                        (Err(e), _) => return fail("write-clear-err", format!("{}: clearing succeeds, but after writing it fails: {e}", f.name())),
                    }
                }
            }
            // once more
            let (r, again) = place.write(ctx, &x, &out)?;
            if let Err(e) = r { return fail("write-again", format!("{}: writing reports success, writing again: {e}", f.name())); }
            // (in a HEIF file old data that other items use stays)
            if f != F::Heif { ensure!(again == out, "write-twice", "{}: writing the same again changes the file ({} -> {} bytes)", f.name(), out.len(), again.len()); return Ok(()); }
            match place.read(ctx, &again)? {
                Ok(y) => diff(&m.writable(), &view(&y)?, "after second write")?,
                Err(e) => return fail("write-unread", format!("{}: writing again reports success, reading: {e}", f.name())),
            }
        }
        1 => {
            ctx.label("clear");
            let (r, out) = place.clear(ctx, &b)?;
            if r.is_err() { ctx.label("refused"); return Ok(()); }
            if out != b { ctx.nontrivial(); }
            if let Ok(y) = place.read(ctx, &out)? {
                // (damaged content may have a tag twice)
                for ifd in y.get_ifds() { for t in ifd.get_tags() {
                    let (k, h) = ((ifd.get_generic_ifd_nr(), G::of(ifd.get_ifd_type())), t.as_u16());
                    let kept = match f { F::Heif => k.1 == G::GENERIC && crate::p_heif::KEPT.contains(&h), F::Tiff => k.1 == G::GENERIC && crate::tiffimg::DECODE.contains(&h), _ => false };
                    ensure!(kept, "clear-left", "{}: clearing reports success, tag {h:04x} of {k:?} is still read", f.name());
                } }
            }
            let (r, again) = place.clear(ctx, &out)?;
            if let Err(e) = r { return fail("clear-again", format!("{}: clearing reports success, clearing again: {e}", f.name())); }
            ensure!(again == out, "clear-twice", "{}: clearing again changes the file", f.name());
        }
        _ => {
            ctx.label("remove segment");
            let n = *s.pick(&[12u8, 13]);
            let (r, out) = place.clear_app(ctx, &b, n)?;
            if r.is_err() { ctx.label("refused"); return Ok(()); }
            if out != b { ctx.nontrivial(); }
            let (r, again) = place.clear_app(ctx, &out, n)?;
            if let Err(e) = r { return fail("app-again", format!("removing APP{n} reports success, again: {e}")); }
            ensure!(again == out, "app-twice", "removing APP{n} again changes the file");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P28", rule: "any content (valid, damaged, rearranged, of another format, random bytes), in memory and on files, with a write, clear or segment removal; non-trivial: the operation reports success and, where it removes, changed something", assumptions: &[],
        parts: vec![Part { name: "done", body: Body::Choices(p28), quick: 400_000, thorough: 20_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p28(s, ctx) }), quick: LARGE, thorough: 4_000 }] }]
}

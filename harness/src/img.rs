//! What all container formats have in common: generated images, their parsed
//! view, and calls of the library on buffers and files.
use std::path::PathBuf;
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;
use crate::engine::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F { Jpeg, Png, Webp, Jxl, Tiff, Heif }
pub const FORMATS: [F; 6] = [F::Jpeg, F::Png, F::Webp, F::Jxl, F::Tiff, F::Heif];
impl F {
    pub fn ft(self) -> FileExtension {
        match self { F::Jpeg => FileExtension::JPEG, F::Png => FileExtension::PNG { as_zTXt_chunk: true }, F::Webp => FileExtension::WEBP, F::Jxl => FileExtension::JXL, F::Tiff => FileExtension::TIFF, F::Heif => FileExtension::HEIF }
    }
    pub fn exts(self) -> &'static [&'static str] {
        match self { F::Jpeg => &["jpg", "jpeg"], F::Png => &["png"], F::Webp => &["webp"], F::Jxl => &["jxl"], F::Tiff => &["tif", "tiff"], F::Heif => &["heif", "heic", "hif", "avif"] }
    }
    pub fn name(self) -> &'static str { match self { F::Jpeg => "JPEG", F::Png => "PNG", F::Webp => "WebP", F::Jxl => "JPEG XL", F::Tiff => "TIFF", F::Heif => "HEIF" } }
}

/// An image as an independent parser sees it: everything that is not Exif, in
/// order, and the Exif blocks (without identifier) with the index in `parts`
/// before which they stand.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct View { pub parts: Vec<(String, Vec<u8>)>, pub exif: Vec<Vec<u8>>, pub exif_at: Vec<usize> }
pub fn same_parts(a: &View, b: &View, what: &str) -> Res {
    let n = a.parts.len().min(b.parts.len());
    for i in 0..n {
        if a.parts[i] != b.parts[i] {
            let (x, y) = (&a.parts[i], &b.parts[i]);
            let at = x.1.iter().zip(&y.1).position(|(p, q)| p != q).unwrap_or(x.1.len().min(y.1.len()));
            return fail(format!("{what}:part"), format!("{what}: part {i} was {} ({} bytes) and is {} ({} bytes), first difference at {at}", x.0, x.1.len(), y.0, y.1.len()));
        }
    }
    if a.parts.len() != b.parts.len() {
        let (l, w) = if a.parts.len() > n { (&a.parts[n], "lost") } else { (&b.parts[n], "added") };
        return fail(format!("{what}:parts"), format!("{what}: {} parts before, {} after; {w}: {} ({} bytes)", a.parts.len(), b.parts.len(), l.0, l.1.len()));
    }
    Ok(())
}

/// Where an operation is carried out: 0 in memory, 1 on a file.
pub struct Place { pub file: Option<PathBuf>, pub f: F }
impl Place {
    pub fn memory(f: F) -> Place { Place { file: None, f } }
    pub fn gen(s: &mut Src, ctx: &mut Ctx, f: F) -> Place {
        if s.chance(1, 3) { ctx.label("on a file"); let e = *s.pick(f.exts()); Place { file: Some(ctx.scratch_file(&format!("image.{e}"))), f } } else { Place::memory(f) }
    }
    pub fn on_file(ctx: &Ctx, f: F, ext: &str) -> Place { Place { file: Some(ctx.scratch_file(&format!("image.{ext}"))), f } }
    fn put(&self, b: &[u8]) { if let Some(p) = &self.file { std::fs::write(p, b).expect("scratch file") } }
    fn take(&self) -> Vec<u8> { let p = self.file.as_ref().unwrap(); std::fs::read(p).unwrap_or_else(|e| abandon("file-gone", format!("the file cannot be read after the operation: {e}"))) }

    pub fn read(&self, ctx: &mut Ctx, b: &[u8]) -> Result<Result<Metadata, std::io::Error>, Fail> { self.read_as(ctx, b, self.f.ft()) }
    pub fn read_as(&self, ctx: &mut Ctx, b: &[u8], ft: FileExtension) -> Result<Result<Metadata, std::io::Error>, Fail> {
        match &self.file {
            None => { let v = b.to_vec(); let r = ctx.lib("new_from_vec", || Metadata::new_from_vec(&v, ft))?; crate::ensure!(v == b, "read-changes", "reading changed the buffer"); Ok(r) }
            Some(p) => { self.put(b); let r = ctx.lib("new_from_path", || Metadata::new_from_path(p))?; crate::ensure!(self.take() == b, "read-changes", "reading changed the file"); Ok(r) }
        }
    }
    pub fn write(&self, ctx: &mut Ctx, m: &Metadata, b: &[u8]) -> Result<(Result<(), std::io::Error>, Vec<u8>), Fail> { self.write_as(ctx, m, b, self.f.ft()) }
    pub fn write_as(&self, ctx: &mut Ctx, m: &Metadata, b: &[u8], ft: FileExtension) -> Result<(Result<(), std::io::Error>, Vec<u8>), Fail> {
        match &self.file {
            None => { let mut v = b.to_vec(); dump("in", b); let r = ctx.lib("write_to_vec", || m.write_to_vec(&mut v, ft))?; dump("written", &v); Ok((r, v)) }
            Some(p) => { self.put(b); let r = ctx.lib("write_to_file", || m.write_to_file(p))?; Ok((r, self.take())) }
        }
    }
    pub fn clear(&self, ctx: &mut Ctx, b: &[u8]) -> Result<(Result<(), std::io::Error>, Vec<u8>), Fail> { self.clear_as(ctx, b, self.f.ft()) }
    pub fn clear_as(&self, ctx: &mut Ctx, b: &[u8], ft: FileExtension) -> Result<(Result<(), std::io::Error>, Vec<u8>), Fail> {
        match &self.file {
            None => { let mut v = b.to_vec(); dump("in", b); let r = ctx.lib("clear_metadata", || Metadata::clear_metadata(&mut v, ft))?; dump("cleared", &v); Ok((r, v)) }
            Some(p) => { self.put(b); let r = ctx.lib("file_clear_metadata", || Metadata::file_clear_metadata(p))?; Ok((r, self.take())) }
        }
    }
    pub fn clear_app(&self, ctx: &mut Ctx, b: &[u8], n: u8) -> Result<(Result<(), std::io::Error>, Vec<u8>), Fail> {
        let ft = self.f.ft();
        match &self.file {
            None => { let mut v = b.to_vec(); let r = ctx.lib("clear_app_segment", || if n == 12 { Metadata::clear_app12_segment(&mut v, ft) } else { Metadata::clear_app13_segment(&mut v, ft) })?; Ok((r, v)) }
            Some(p) => { self.put(b); let r = ctx.lib("file_clear_app_segment", || if n == 12 { Metadata::file_clear_app12_segment(p) } else { Metadata::file_clear_app13_segment(p) })?; Ok((r, self.take())) }
        }
    }
    /// The operation must succeed.
    pub fn must_write(&self, ctx: &mut Ctx, m: &Metadata, b: &[u8]) -> Result<Vec<u8>, Fail> { let (r, v) = self.write(ctx, m, b)?; match r { Ok(()) => Ok(v), Err(e) => fail("write-err", format!("writing to a valid {}: {e}", self.f.name())) } }
    pub fn must_clear(&self, ctx: &mut Ctx, b: &[u8]) -> Result<Vec<u8>, Fail> { let (r, v) = self.clear(ctx, b)?; match r { Ok(()) => Ok(v), Err(e) => fail("clear-err", format!("clearing a valid {}: {e}", self.f.name())) } }
    pub fn must_read(&self, ctx: &mut Ctx, b: &[u8]) -> Result<Metadata, Fail> { match self.read(ctx, b)? { Ok(m) => Ok(m), Err(e) => fail("read-err", format!("reading a valid {}: {e}", self.f.name())) } }
}

/// With VH_DUMP=dir set, the images of a replayed case are stored there.
pub fn dump(what: &str, b: &[u8]) { if let Ok(d) = std::env::var("VH_DUMP") { static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed); let _ = std::fs::write(format!("{d}/{n:03}-{what}"), b); } }

/// What the parser found against the image: an invalid structure is a failure.
pub fn parsed<T>(r: Result<T, String>, what: &str) -> Result<T, Fail> { match r { Ok(v) => Ok(v), Err(e) => fail(format!("{what}:invalid"), format!("{what}: the result is not a valid image: {e}")) } }

/// A well-formed small Exif block as other software would write it.
pub fn small_block(s: &mut Src, ctx: &mut Ctx) -> (crate::meta::MMeta, Vec<u8>) {
    let mut o = crate::meta::SMALL; o.max_tags = 5; o.max_dirs = 2;
    let m = crate::meta::gen_meta(s, &o);
    let l = if s.chance(1, 2) { crate::tiff::PLAIN } else { crate::tiff::Layout { widths: false, ..crate::tiff::FREE } };
    let _ = ctx;
    let b = crate::tiff::encode(&m, l, s);
    (m, b)
}

/// An Exif block as it may be found in an image when its content does not
/// matter: well-formed, large, cut off, empty or no Exif data at all.
pub fn any_block(s: &mut Src, ctx: &mut Ctx) -> Vec<u8> { sized_block(s, ctx, false) }
/// How many Exif blocks an image gets.
pub fn n_blocks(s: &mut Src, w: &[u64]) -> u64 { match s.weighted(w) as u64 { 3 => s.int(3, 6), n => n } }
/// What precedes the TIFF header in an Exif box or item, as its offset field says.
pub fn header_prefix(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[40, 40, 20, 1]) { 0 => s.usize(1, 16), 1 => s.usize(1, 300), 2 => 256 * s.usize(1, 3) + s.usize(0, 2), _ => 65_536 + s.usize(0, 300) };
    if s.chance(1, 4) { vec![0; n] } else { s.blob(n) }
}
/// The same for formats without a limit on the size: with a large image, megabytes at times.
pub fn any_size_block(s: &mut Src, ctx: &mut Ctx) -> Vec<u8> { sized_block(s, ctx, true) }
fn sized_block(s: &mut Src, ctx: &mut Ctx, unlimited: bool) -> Vec<u8> {
    if unlimited && s.large > 0 && s.chance(1, 4) {
        ctx.label("Exif block of 1 to 3 MB");
        let mut m = small_block(s, ctx).0;
        let n = s.usize(1_000_000, 3_000_000); let v = s.blob(n);
        m.dirs.entry((0, crate::tags::G::EXIF)).or_default().insert(0x927c, crate::tags::V { fmt: 7, val: crate::tags::Val::Bytes(v) });
        return crate::tiff::encode(&m, crate::tiff::PLAIN, s);
    }
    match s.weighted(&[40, 3, 1]) {
        0 => small_block(s, ctx).1,
        1 => {
            ctx.label("Exif block without usable content");
            match s.draw(4) {
                0 => vec![],
                1 => { let n = s.usize(1, 20); s.blob(n) }
                2 => { let t: &[u8] = *s.pick(&[&b"II*\0"[..], b"MM\0*", b"II*\0\0\0\0\0", b"MM\0*\0\0\0\x08", b"II*\0\x08\0\0\0\0\0\0\0\0\0", b"II*\0\xff\xff\xff\xff"]); t.to_vec() }
                3 => { let mut b = small_block(s, ctx).1; let n = s.usize(0, b.len()); b.truncate(n); b }
                _ => { let mut b = small_block(s, ctx).1; let i = s.usize(0, b.len() - 1); b[i] ^= 1 << s.draw(7); b }
            }
        }
        _ => {
            ctx.label("Exif block of 10 to 65 kB");
            let mut m = small_block(s, ctx).0;
            let n = match s.draw(2) { 0 => *s.pick(&[16_384usize, 32_768, 61_440]) + s.usize(0, 64) - 48, 1 => s.usize(10_000, 62_000), _ => s.usize(32_000, 34_000) };
            let v = s.blob(n);
            m.dirs.entry((0, crate::tags::G::EXIF)).or_default().insert(0x927c, crate::tags::V { fmt: 7, val: crate::tags::Val::Bytes(v) });
            let b = crate::tiff::encode(&m, crate::tiff::PLAIN, s);
            if b.len() + 8 > 65_535 { small_block(s, ctx).1 } else { b }
        }
    }
}
/// Adds a tag that makes JPEG metadata large, but not too large for a segment.
pub fn fatten(s: &mut Src, ctx: &mut Ctx, m: &mut crate::meta::MMeta) {
    let n = if s.bool() { s.usize(5_000, 50_000) } else { s.usize(30_000, 36_000) };
    let v = s.blob(n);
    m.dirs.entry((0, crate::tags::G::EXIF)).or_default().insert(0x927c, crate::tags::V { fmt: 7, val: crate::tags::Val::Bytes(v) });
    ctx.label("5 to 50 kB of metadata");
}

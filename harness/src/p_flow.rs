//! P26, P27: what users do with several images: copying and editing metadata,
//! and operations next to each other.
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
use little_exif::metadata::Metadata;

use crate::engine::*;
use crate::ensure;
use crate::img::*;
use crate::meta::*;
use crate::p_all::{compose, gen_for, gen_img, listing, view};
use crate::p_codec::lib_encode;
use crate::tags::*;
use crate::{tiff, tiffimg as ti};

// ---------------------------------------------------------------- P26
/// Zero to four changes of a metadata object, also done on the model.
fn edit(s: &mut Src, ctx: &mut Ctx, x: &mut Metadata, exp: &mut MMeta, pixels: bool) -> Result<Vec<String>, Fail> {
    let pages = exp.dirs.keys().map(|k| k.0).max().unwrap_or(0) as u64 + 1;
    let keep = |h: &u16, g: G| g == G::GENERIC && (IMAGE_DATA_TAGS.contains(h) || pixels && ti::REQUIRED.contains(h));
    let mut trace = vec![];
    for _ in 0..s.draw(4) {
        let g = *s.pick(&GROUPS);
        let n = s.int(0, pages - 1) as u32;
        match s.weighted(&[4, 2, 1, 1]) {
            0 => {
                let (h, fmt) = if s.chance(4, 5) { let rs: Vec<&Row> = TABLE.iter().filter(|r| r.group == g && r.writable && is_offset(r.hex, g).is_none() && !IMAGE_DATA_TAGS.contains(&r.hex)).collect(); let r = *s.pick(&rs); (r.hex, r.fmt) } else { (gen_unknown_hex(s, g), s.int(1, 12) as u16) };
                let c = gen_count(s, row(h, g).map_or(1, |r| r.count), 20);
                let v = V { fmt, val: gen_val(s, fmt, c) };
                let t = make_tag(h, g, &v)?;
                let direct = n == 0 && s.bool();
                ctx.lib("set_tag", || if direct { x.set_tag(t) } else { x.get_ifd_mut(g.lib(), n).set_tag(t) })?;
                trace.push(format!("set {h:04x} {g:?}{n}"));
                exp.dirs.entry((n, g)).or_default().insert(h, v);
            }
            1 => {
                let hs: Vec<u16> = exp.dirs.get(&(n, g)).map(|d| d.keys().copied().filter(|h| !keep(h, g)).collect()).unwrap_or_default();
                if hs.is_empty() { continue; }
                let h = *s.pick(&hs);
                ctx.lib("ifd.remove_tag", || x.get_ifd_mut(g.lib(), n).remove_tag(h))?;
                trace.push(format!("remove {h:04x} {g:?}{n}"));
                exp.dirs.get_mut(&(n, g)).unwrap().remove(&h);
            }
            2 => {
                let hs: Vec<(u16, G)> = exp.dirs.iter().flat_map(|(k, d)| { let g = k.1; d.keys().map(move |h| (*h, g)) }).filter(|(h, g)| !keep(h, *g)).collect();
                if hs.is_empty() { continue; }
                let (h, g) = *s.pick(&hs);
                ctx.lib("remove_tag_by_hex_group", || x.remove_tag_by_hex_group(h, g.lib()))?;
                trace.push(format!("remove {h:04x} {g:?} everywhere"));
                for (k, d) in exp.dirs.iter_mut() { if k.1 == g { d.remove(&h); } }
            }
            _ => { *x = x.clone(); trace.push("clone".into()); }
        }
    }
    if !trace.is_empty() { ctx.label("edited"); }
    Ok(trace)
}
fn p26(s: &mut Src, ctx: &mut Ctx) -> Res {
    let hops = 1 + s.weighted(&[3, 2, 1]);
    let targets: Vec<F> = (0..hops).map(|_| *s.pick(&FORMATS)).collect();
    let pixels = targets.contains(&F::Tiff);
    // the source: an image with a block written by other software
    let f = *s.pick(&FORMATS);
    ctx.label(match f { F::Jpeg => "from JPEG", F::Png => "from PNG", F::Webp => "from WebP", F::Jxl => "from JPEG XL", F::Tiff => "from TIFF", F::Heif => "from HEIF" });
    let mut m = if f == F::Tiff || pixels { ti::gen_model(s, true) } else { let mut o = if s.chance(1, 4) { FULL } else { SMALL }; o.image_data = true; gen_meta(s, &o) };
    let block = if f == F::Tiff { ti::encode(&m, s) } else { tiff::encode(&m, if s.bool() { tiff::FREE } else { tiff::PLAIN }, s) };
    if f == F::Jpeg && block.len() > 65_500 { return Ok(()); }
    let src = if f == F::Tiff { block } else { compose(s, ctx, f, &[block]) };
    let place = Place::gen(s, ctx, f);
    let mut x = place.must_read(ctx, &src)?;
    diff(&m, &view2(&x, true)?, "read")?;
    m = view2(&x, true)?; // (numbers of pages)
    let mut trace = vec![format!("{}: {}", f.name(), m.describe())];
    if m.tag_count() >= 2 { ctx.nontrivial(); }
    let mut cur = Some((f, src));
    for t in targets {
        trace.extend(edit(s, ctx, &mut x, &mut m, pixels)?);
        let same = s.bool() && cur.as_ref().is_some_and(|c| c.0 == t);
        let to = if same { ctx.label("back to the same image"); cur.take().unwrap().1 } else { let k = s.weighted(&[3, 2]); gen_img(s, ctx, t, k).b };
        trace.push(format!("-> {}", t.name()));
        ctx.note(|| trace.join("; "));
        let place = Place::gen(s, ctx, t);
        let len = lib_encode(ctx, &x)?.len();
        let (r, out) = place.write(ctx, &x, &to)?;
        if t == F::Jpeg && len + 8 > 65_535 { ctx.label("too large for JPEG"); ensure!(r.is_err(), "too-large", "{len} bytes in a JPEG"); return Ok(()); }
        if let Err(e) = r { return fail("write-err", format!("writing what was read to a valid {}: {e}", t.name())); }
        x = place.must_read(ctx, &out)?;
        let got = view2(&x, true)?;
        diff(&m.writable(), &got, "copied")?;
        m = got;
        cur = Some((t, out));
    }
    ctx.note(|| trace.join("; "));
    Ok(())
}

// ---------------------------------------------------------------- P27
#[derive(Clone, Debug)]
enum Step { Write(usize), Clear, Read }
struct Task { f: F, b: Vec<u8>, steps: Vec<Step>, file: Option<PathBuf> }
/// What is seen: success of every step, what was read, the content at the end.
type Seen = (Vec<String>, Vec<u8>);

fn step(st: &Step, f: F, cur: &mut Vec<u8>, file: &Option<PathBuf>, metas: &[Metadata]) -> String {
    let said = |r: Result<(), std::io::Error>| match r { Ok(()) => "ok".to_string(), Err(_) => "error".to_string() };
    match (st, file) {
        (Step::Write(i), None) => said(metas[*i].write_to_vec(cur, f.ft())),
        (Step::Write(i), Some(p)) => said(metas[*i].write_to_file(p)),
        (Step::Clear, None) => said(Metadata::clear_metadata(cur, f.ft())),
        (Step::Clear, Some(p)) => said(Metadata::file_clear_metadata(p)),
        (Step::Read, None) => Metadata::new_from_vec(cur, f.ft()).map_or("error".into(), |m| listing(&m).join("\n")),
        (Step::Read, Some(p)) => Metadata::new_from_path(p).map_or("error".into(), |m| listing(&m).join("\n")),
    }
}
fn snapshot(d: &PathBuf) -> BTreeMap<std::ffi::OsString, Vec<u8>> {
    std::fs::read_dir(d).expect("scratch directory").map(|e| { let e = e.unwrap(); (e.file_name(), std::fs::read(e.path()).unwrap_or_default()) }).collect()
}
fn p27(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = ctx.scratch_file("many");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    if s.chance(1, 4) { return attributes(s, ctx, &dir); }
    let stem = *s.pick(&["image", "a.b", "IMG 1"]);
    let k = s.usize(2, 4);
    let mut metas = vec![];
    for _ in 0..s.usize(1, 3) { let mut m = gen_meta(s, &SMALL); for n in 0..=m.dirs.keys().map(|k| k.0).max().unwrap_or(0) { m.dirs.entry((n, G::GENERIC)).or_default(); } ti::add_pixels(s, &mut m); metas.push(build(&m, s)?); }
    // sometimes two that are alike: the same sizes, only late bytes differ
    let mut twins = None;
    if s.bool() {
        let mut m = gen_meta(s, &SMALL); m.dirs.entry((0, G::GENERIC)).or_default(); ti::add_pixels(s, &mut m);
        let len = 1 + if s.bool() { s.small(60) } else { s.int(0, 3000) } as usize;
        let text = |c: char| "a".repeat(len - 1) + &c.to_string();
        let hex = *s.pick(&[0x010eu16, 0xc000, 0x0131]);
        for c in ['b', 'c'] { m.dirs.get_mut(&(0, G::GENERIC)).unwrap().insert(hex, V { fmt: if hex == 0xc000 { 7 } else { 2 }, val: if hex == 0xc000 { Val::Bytes(text(c).into_bytes()) } else { Val::Str(text(c)) } }); metas.push(build(&m, s)?); }
        twins = Some(metas.len() - 2);
        ctx.label("two images that are alike");
    }
    let shown: Vec<Vec<String>> = metas.iter().map(listing).collect();
    let mut tasks: Vec<Task> = vec![];
    if let Some(n) = twins {
        let mut f = *s.pick(&FORMATS);
        if f == F::Jpeg && lib_encode(ctx, &metas[n])?.len() > 60_000 { f = F::Png; }
        let z = s.weighted(&[2, 3, 1]); let img = gen_img(s, ctx, f, z).b;
        for i in n..n + 2 {
            let mut b = img.clone();
            let r = ctx.lib("prepare", || metas[i].write_to_vec(&mut b, f.ft()))?;
            if let Err(e) = r { return fail("write-err", format!("writing to a valid {}: {e}", f.name())); }
            let mut steps = vec![Step::Read]; if s.bool() { steps.push(match s.draw(2) { 0 => Step::Write(2 * n + 1 - i), 1 => Step::Clear, _ => Step::Write(i) }); if s.bool() { steps.push(Step::Read); } }
            let file = if s.bool() { Some(dir.join(format!("twin{i}.{}", s.pick(f.exts())))) } else { None };
            tasks.push(Task { f, b, steps, file });
        }
    }
    for i in tasks.len()..k {
        // sometimes the same image twice
        let (f, b) = if i > 0 && s.chance(1, 4) { (tasks[0].f, tasks[0].b.clone()) } else { let f = *s.pick(&FORMATS); let n = s.weighted(&[2, 3, 1]); (f, gen_img(s, ctx, f, n).b) };
        let steps = (0..s.usize(1, 3)).map(|_| match s.weighted(&[3, 2, 2]) { 0 => Step::Write(s.usize(0, metas.len() - 1)), 1 => Step::Clear, _ => Step::Read }).collect();
        let mut file = None;
        if s.chance(2, 3) { let e = *s.pick(f.exts()); let mut p = dir.join(format!("{stem}.{e}")); if tasks.iter().any(|t| t.file.as_ref() == Some(&p)) { p = dir.join(format!("{stem}{i}.{e}")); } file = Some(p); }
        tasks.push(Task { f, b, steps, file });
    }
    ctx.note(|| tasks.iter().map(|t| format!("{} {} bytes {:?} {:?}", t.f.name(), t.b.len(), t.file.as_ref().and_then(|p| p.file_name()), t.steps)).collect::<Vec<_>>().join("; "));
    ctx.nontrivial();
    // each image on its own
    let mut alone: Vec<Seen> = vec![];
    for t in &tasks {
        if let Some(p) = &t.file { std::fs::write(p, &t.b).expect("scratch file"); }
        let mut cur = t.b.clone(); let mut said = vec![];
        if s.bool() {
            for st in &t.steps { let r = ctx.lib("alone", || step(st, t.f, &mut cur, &t.file, &metas))?; said.push(r); }
        } else {
            let (c, ms) = (&mut cur, &metas);
            said = match std::thread::scope(|sc| sc.spawn(move || quiet(|| t.steps.iter().map(|st| step(st, t.f, c, &t.file, ms)).collect())).join()) { Ok(Ok(x)) => x, _ => return fail("alone-panic", "an operation in a new thread panicked") };
        }
        if let Some(p) = &t.file { cur = std::fs::read(p).unwrap_or_default(); let _ = std::fs::remove_file(p); }
        alone.push((said, cur));
    }
    // all of them, with other files around
    for n in [format!("{stem}"), format!("{stem}.tmp"), format!(".{stem}.jpg"), format!("{stem}.jpg~"), format!("{stem}.bak"), format!("{stem}.xmp"), "tmp".to_string()] { std::fs::write(dir.join(n), b"something else").expect("scratch file"); }
    for t in &tasks { if let Some(p) = &t.file { std::fs::write(p, &t.b).expect("scratch file"); let q = p.with_extension("tmp"); std::fs::write(&q, b"other").expect("scratch file"); let mut o = p.clone().into_os_string(); o.push(".tmp"); std::fs::write(o, b"other").expect("scratch file"); } }
    let before = snapshot(&dir);
    let mut seen: Vec<Seen> = tasks.iter().map(|t| (vec![], t.b.clone())).collect();
    if s.chance(1, 3) {
        ctx.label("several threads");
        let (ts, ms) = (&tasks, &metas);
        let r = ctx.lib("threads", move || std::thread::scope(|sc| {
            let hs: Vec<_> = ts.iter().map(|t| sc.spawn(move || quiet(|| {
                let mut cur = t.b.clone();
                let said: Vec<String> = t.steps.iter().map(|st| step(st, t.f, &mut cur, &t.file, ms)).collect();
                (said, cur)
            }))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("thread ended".into()))).collect::<Vec<_>>()
        }))?;
        for (i, r) in r.into_iter().enumerate() { match r { Ok(x) => seen[i] = x, Err(e) => return fail("thread-panic", format!("an operation next to others panicked: {e}")) } }
    } else {
        ctx.label("interleaved");
        let mut left: Vec<usize> = tasks.iter().enumerate().flat_map(|(i, t)| vec![i; t.steps.len()]).collect();
        for i in (1..left.len()).rev() { let j = s.usize(0, i); left.swap(i, j); }
        for i in left { let t = &tasks[i]; let st = t.steps[seen[i].0.len()].clone(); let r = { let cur = &mut seen[i].1; ctx.lib("interleaved", || step(&st, t.f, cur, &t.file, &metas))? }; seen[i].0.push(r); }
    }
    for (t, x) in tasks.iter().zip(seen.iter_mut()) { if let Some(p) = &t.file { x.1 = std::fs::read(p).unwrap_or_default(); } }
    if let Some(n) = twins {
        for (i, j) in [(0, 1), (1, 0)] {
            for mark in shown[n + i].iter().filter(|l| !shown[n + j].contains(l)) {
                for w in [&alone[i], &seen[i]] { ensure!(w.0[0].split('\n').any(|l| l == mark), "twin", "{}: not what is stored in this image is read, but {} ({mark} is missing)", tasks[i].f.name(), w.0[0]); }
            }
        }
    }
    for (i, t) in tasks.iter().enumerate() {
        ensure!(seen[i].0 == alone[i].0, "results", "{}: the results of {:?} differ from those alone", t.f.name(), t.steps);
        ensure!(seen[i].1 == alone[i].1, "content", "{}: after {:?} the content differs from that alone ({} and {} bytes)", t.f.name(), t.steps, seen[i].1.len(), alone[i].1.len());
    }
    let after = snapshot(&dir);
    for (n, b) in &before { if tasks.iter().any(|t| t.file.as_ref().is_some_and(|p| p.file_name() == Some(n))) { continue; } ensure!(after.get(n) == Some(b), "bystander", "the file {n:?} next to the images was changed or removed"); }
    for n in after.keys() { ensure!(before.contains_key(n), "new-file", "a file {n:?} is left next to the images"); }
    for (m, l) in metas.iter().zip(&shown) { ensure!(listing(m) == *l, "metadata-changed", "writing changed the metadata object"); }
    Ok(())
}
/// One operation on one file: permissions, links and the time of the last
/// change of files that are only read.
fn attributes(s: &mut Src, ctx: &mut Ctx, dir: &PathBuf) -> Res {
    ctx.label("file attributes");
    let f = *s.pick(&FORMATS);
    let k = s.weighted(&[1, 2]);
    let img = gen_img(s, ctx, f, k);
    let link = s.bool();
    let e = *s.pick(f.exts());
    let p = dir.join(format!("image.{e}"));
    let real = if link { ctx.label("symbolic link"); dir.join("data") } else { p.clone() };
    std::fs::write(&real, &img.b).expect("scratch file");
    if link { std::os::unix::fs::symlink("data", &p).expect("link"); }
    let mode = *s.pick(&[0o600u32, 0o644, 0o640, 0o666, 0o755]);
    std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode)).expect("mode");
    let old = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000 + s.draw(1000));
    std::fs::File::options().write(true).open(&real).expect("open").set_modified(old).expect("time");
    let m = gen_for(s, f, &SMALL);
    let x = build(&m, s)?;
    let what = s.draw(2);
    ctx.nontrivial();
    ctx.note(|| format!("{} {} bytes, mode {mode:o}, link {link}, step {what}", f.name(), img.b.len()));
    let st = match what { 0 => Step::Read, 1 => Step::Write(0), _ => Step::Clear };
    let shown = listing(&x);
    let metas = [x];
    let r = ctx.lib("on a file", || step(&st, f, &mut vec![], &Some(p.clone()), &metas))?;
    ensure!(listing(&metas[0]) == shown, "metadata-changed", "writing changed the metadata object");
    ensure!(what == 0 || r == "ok", "op-err", "{}: {st:?} on a valid file fails", f.name());
    let md = std::fs::metadata(&real).map_err(|e| Fail { sig: "gone".into(), msg: format!("the file is gone: {e}") })?;
    ensure!(md.permissions().mode() & 0o7777 == mode, "mode", "{}: {st:?} changed the permissions from {mode:o} to {:o}", f.name(), md.permissions().mode() & 0o7777);
    if link { ensure!(std::fs::symlink_metadata(&p).is_ok_and(|m| m.is_symlink()), "link", "{}: {st:?} replaced a symbolic link", f.name()); }
    let now = std::fs::read(&real).unwrap_or_default();
    match what {
        0 => { ensure!(md.modified().ok() == Some(old), "read-time", "{}: reading changed the time of the last change", f.name()); ensure!(now == img.b, "read-changes", "reading changed the file"); }
        _ => {
            let mut v = img.b.clone();
            let _ = ctx.lib("in memory", || step(&st, f, &mut v, &None, &metas))?;
            ensure!(now == v, "link-content", "{}: {st:?} on a file gives other bytes than in memory", f.name());
            parsed(view(f, &now), "on a file")?;
        }
    }
    if s.chance(1, 2) { return other_user(s, ctx, f, &p, &real); }
    let n = std::fs::read_dir(dir).expect("scratch directory").count();
    ensure!(n == 1 + link as usize, "new-file", "{n} files in the directory afterwards");
    Ok(())
}

extern "C" { fn setfsuid(uid: u32) -> i32; }
/// Runs `f` with the access to files of another user (no privileges, not the
/// owner), if that is possible here.
fn as_other<T>(f: impl FnOnce() -> T) -> Option<T> {
    struct Back(i32);
    // SAFETY: only changes whose rights this thread has when it opens files
    impl Drop for Back { fn drop(&mut self) { unsafe { setfsuid(self.0 as u32); } } }
    let (_back, ok) = unsafe { let old = setfsuid(65_534); (Back(old), setfsuid(u32::MAX) == 65_534) };
    if ok { Some(f()) } else { None }
}
/// Files that may only be read, or not even that.
fn other_user(s: &mut Src, ctx: &mut Ctx, f: F, p: &PathBuf, real: &PathBuf) -> Res {
    let mode = *s.pick(&[0o444u32, 0o644, 0o000, 0o600]);
    std::fs::set_permissions(real, std::fs::Permissions::from_mode(mode)).expect("mode");
    let before = std::fs::read(real).unwrap_or_default();
    let dir = p.parent().unwrap().to_path_buf();
    let around = snapshot(&dir);
    let st = match s.draw(2) { 0 | 1 => Step::Read, _ => if s.bool() { Step::Write(0) } else { Step::Clear } };
    let m = gen_for(s, f, &SMALL);
    let metas = [build(&m, s)?];
    // what may be read at all, seen from outside
    let Some(readable) = as_other(|| std::fs::File::open(p).is_ok()) else { return Ok(()) };
    ctx.label("a file of someone else");
    let want = step(&Step::Read, f, &mut before.clone(), &None, &[]);
    let r = ctx.lib("as another user", || as_other(|| step(&st, f, &mut vec![], &Some(p.clone()), &metas)))?.unwrap_or_default();
    match st {
        Step::Read => ensure!(r == if readable { want } else { "error".into() }, "read-only", "{}: reading a file with mode {mode:o} as another user gives {:?}", f.name(), r.chars().take(200).collect::<String>()),
        _ => ensure!(r == "error", "not-writable", "{}: {st:?} on a file of mode {mode:o} of another user is said to have worked", f.name()),
    }
    ensure!(snapshot(&dir) == around, "read-only-changed", "{}: {st:?} changed a file that it may not write", f.name());
    ensure!(std::fs::metadata(real).is_ok_and(|m| m.permissions().mode() & 0o7777 == mode), "read-only-mode", "{}: {st:?} changed the permissions", f.name());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P26", rule: "an image of any format with a block as other software writes it, read, edited by 0 to 4 changes, written to the same or another image of any format, up to three times, in memory and on files; non-trivial: two or more tags", assumptions: &["TIFF targets get metadata with the tags a TIFF needs", "tags the catalogue marks as not writable are not expected to survive"],
            parts: vec![Part { name: "copy", body: Body::Choices(p26), quick: 250_000, thorough: 10_000_000 }, Part { name: "large image", body: Body::Choices(|s, ctx| { s.large = 2; ctx.label("megabytes of image data"); p26(s, ctx) }), quick: LARGE, thorough: 4_000 }] },
        Prop { id: "P27", rule: "two to four images of any formats, in memory and in one directory together with other files, each with 1 to 3 steps: alone, interleaved and in threads; or one file with permissions, link and time or of another user; all cases are non-trivial", assumptions: &["threads work on different images"],
            parts: vec![Part { name: "together", body: Body::Choices(p27), quick: 120_000, thorough: 4_000_000 }] },
    ]
}

//! P04 value conversion, P05 rationals, P06 catalogue.
use little_exif::endian::Endian;
use little_exif::exif_tag::{ExifTag, TagType};
use little_exif::ifd::ImageFileDirectory;
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::rational::{iR64, uR64};
use little_exif::u8conversion::U8conversion;

use crate::engine::*;
use crate::ensure;
use crate::meta::*;
use crate::tags::*;

fn en(big: bool) -> Endian { if big { Endian::Big } else { Endian::Little } }
/// each scalar reversed
fn swap(b: &[u8], w: usize) -> Vec<u8> { b.chunks(w).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect() }

fn conv_one<T: U8conversion<T>>(ctx: &mut Ctx, name: &str, v: &T, want_le: Vec<u8>, w: usize, same: impl Fn(&T, &T) -> bool) -> Res {
    for big in [false, true] {
        let want = if big { swap(&want_le, w) } else { want_le.clone() };
        let got = ctx.lib("to_u8_vec", || v.to_u8_vec(&en(big)))?;
        ensure!(got == want, format!("{name}:to"), "{name} to bytes ({}): expected {} found {}", if big { "big" } else { "little" }, hex(&want), hex(&got));
        let back = ctx.lib("from_u8_vec_res", || T::from_u8_vec_res(&want, &en(big)))?;
        match back {
            Ok(b) => ensure!(same(&b, v), format!("{name}:from"), "{name} from {} ({}) is another value", hex(&want), if big { "big" } else { "little" }),
            Err(e) => return fail(format!("{name}:from-err"), format!("{name} from {}: {e}", hex(&want))),
        }
        let back = ctx.lib("from_u8_vec", || T::from_u8_vec(&want, &en(big)))?;
        ensure!(same(&back, v), format!("{name}:from2"), "{name} from_u8_vec of {} is another value", hex(&want));
    }
    Ok(())
}
fn reject<T: U8conversion<T>>(ctx: &mut Ctx, name: &str, b: &[u8]) -> Res {
    for big in [false, true] {
        let r = ctx.lib("from_u8_vec_res", || T::from_u8_vec_res(b, &en(big)).is_err())?;
        ensure!(r, format!("{name}:length"), "{name} accepted {} bytes", b.len());
    }
    Ok(())
}

fn p04(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = s.usize(0, 12);
    let mut n = s.small(200) as usize;
    if s.chance(1, 20_000) { n = 1 << s.int(12, 20); n += s.draw(9) as usize; ctx.label("long list"); }
    if kind == 12 {
        let t = gen_string(s, 120);
        let mut want = t.as_bytes().to_vec(); want.push(0);
        for big in [false, true] {
            let got = ctx.lib("to_u8_vec", || t.to_u8_vec(&en(big)))?;
            ensure!(got == want, "string:to", "{t:?} to bytes: {}", hex(&got));
            // with any number of terminators, also none
            for k in [0usize, 1, 2, 5] {
                let mut raw = t.as_bytes().to_vec(); raw.extend(vec![0; k]);
                let got = ctx.lib("from_u8_vec_res", || String::from_u8_vec_res(&raw, &en(big)))?;
                ensure!(got.as_ref().ok() == Some(&t), "string:from", "{t:?} with {k} terminators read as {got:?}");
            }
        }
        // 8-bit text that is not UTF-8: one character per byte
        let b: Vec<u8> = (0..n.min(5000)).map(|_| s.int(1, 255) as u8).collect();
        if std::str::from_utf8(&b).is_err() {
            ctx.label("8-bit text");
            let want: String = b.iter().map(|x| *x as char).collect();
            let mut raw = b.clone(); raw.extend([0, 0]);
            let got = ctx.lib("from_u8_vec_res", || String::from_u8_vec_res(&raw, &Endian::Big))?;
            ensure!(got.as_ref().ok() == Some(&want), "string:latin", "8-bit text {} read as {got:?}", hex(&raw));
        }
        ctx.label("text"); ctx.nontrivial(); ctx.note(|| format!("text {t:?}"));
        return Ok(());
    }
    let mut raw = match s.weighted(&[1, 3]) { 0 => vec![s.draw(255) as u8; n * 8 + 8], _ => s.blob(n * 8 + 8) };
    if s.chance(1, 3) { for x in raw.iter_mut() { if *x < 128 { *x = 0xff } } }
    // scalars and lists from the same raw little-endian data
    macro_rules! go { ($t:ty, $w:expr, $sw:expr, $name:expr, $le:expr, $eq:expr) => {{
        let list: Vec<$t> = raw.chunks_exact($w).take(n).map($le).collect();
        let first: $t = $le(&raw[..$w]);
        conv_one::<$t>(ctx, $name, &first, raw[..$w].to_vec(), $sw, $eq)?;
        conv_one::<Vec<$t>>(ctx, concat!("list of ", $name), &list, raw[..n * $w].to_vec(), $sw, |a, b| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| $eq(x, y)))?;
        let bad = s.usize(0, 24);
        if bad != $w { reject::<$t>(ctx, $name, &raw[..bad.min(raw.len())].to_vec().into_iter().chain(vec![0; bad.saturating_sub(raw.len())]).collect::<Vec<u8>>())?; }
        if bad % $w != 0 { reject::<Vec<$t>>(ctx, concat!("list of ", $name), &vec![7u8; bad])?; ctx.label("list length not fitting"); }
        if n >= 2 { ctx.nontrivial(); }
        ctx.note(|| format!("{} x{n}: {}", $name, hex(&raw[..(n * $w).min(32)])));
    }}}
    macro_rules! num { ($t:ty, $w:expr) => { go!($t, $w, $w, stringify!($t), |c: &[u8]| <$t>::from_le_bytes(c.try_into().unwrap()), |a: &$t, b: &$t| a.to_le_bytes() == b.to_le_bytes()) } }
    match kind {
        0 => num!(u8, 1), 1 => num!(i8, 1), 2 => num!(u16, 2), 3 => num!(i16, 2), 4 => num!(u32, 4), 5 => num!(i32, 4), 6 => num!(u64, 8), 7 => num!(i64, 8), 8 => num!(f32, 4), 9 => num!(f64, 8),
        10 => go!(uR64, 8, 4, "uR64", |c: &[u8]| uR64 { nominator: u32::from_le_bytes(c[..4].try_into().unwrap()), denominator: u32::from_le_bytes(c[4..8].try_into().unwrap()) }, |a: &uR64, b: &uR64| a == b),
        _ => go!(iR64, 8, 4, "iR64", |c: &[u8]| iR64 { nominator: i32::from_le_bytes(c[..4].try_into().unwrap()), denominator: i32::from_le_bytes(c[4..8].try_into().unwrap()) }, |a: &iR64, b: &iR64| a == b),
    }
    Ok(())
}

// ------------------------------------------------------------------ P05
fn gen_number(s: &mut Src) -> f64 {
    let x = match s.weighted(&[3, 3, 3, 3, 2, 2]) {
        0 => { let e = s.draw(31); let f = s.draw(1 << 30) as f64 / (1u64 << 30) as f64; f * (1u64 << e) as f64 }
        1 => s.int(0, 1000) as f64 + s.draw(1_000_000) as f64 / 1_000_000.0,
        2 => { let p = s.int(0, 1_000_000) as f64; let q = s.int(1, 1_000_000) as f64; p / q }
        3 => { let b = *s.pick(&[0.0f64, 1.0, 0.5, 1.0 / 3.0, 65535.0, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 2147483647.5, 1e-9, 1e-10, 3.0e9, std::f64::consts::PI]); let k = s.draw(6) as i64 - 3; b + k as f64 * *s.pick(&[0.0, 1e-12, 1e-9, 1e-7, 0.25, 0.5, 1.0]) }
        4 => { let e = s.draw(60) as i32 - 30; let m = 1.0 + s.draw((1 << 52) - 1) as f64 / (1u64 << 52) as f64; m * 2f64.powi(e) }
        _ => if s.chance(1, 50) { *s.pick(&[f64::NAN, f64::INFINITY, f64::from_bits(0x7ff0_0000_0000_0001)]) } else { f64::from_bits(s.draw(u64::MAX)) },
    };
    if s.chance(1, 3) { -x } else { x }
}
fn p05(s: &mut Src, ctx: &mut Ctx) -> Res {
    const IMAX: f64 = i32::MAX as f64; const UMAX: f64 = u32::MAX as f64;
    match s.weighted(&[6, 2, 2]) {
        0 => {
            let x = gen_number(s);
            let i = ctx.lib("iR64::from(f64)", || iR64::from(x))?;
            let u = ctx.lib("uR64::from(f64)", || uR64::from(x))?;
            ctx.note(|| format!("{x:?} -> {i:?}, {u:?}"));
            if x.is_finite() {
                ctx.nontrivial();
                ensure!(i.denominator != 0, "signed:zero-denominator", "{x:?} -> {i:?}");
                let tol = 1e-9 * x.abs().max(1.0);
                let val = i.nominator as f64 / i.denominator as f64;
                let target = if x.abs() > IMAX { ctx.label("outside signed range"); IMAX.copysign(x) } else { x };
                ensure!((val - target).abs() <= tol.min(1e-9 * target.abs().max(1.0)) * 1.000001, "signed:value", "{x:?} -> {i:?} = {val:?}");
                if x != 0.0 && val != 0.0 { ensure!((x < 0.0) == (val < 0.0), "signed:sign", "{x:?} -> {i:?}"); }
                if x >= 0.0 {
                    ensure!(u.denominator != 0, "unsigned:zero-denominator", "{x:?} -> {u:?}");
                    let val = u.nominator as f64 / u.denominator as f64;
                    let target = if x > UMAX { ctx.label("outside unsigned range"); UMAX } else { x };
                    ensure!((val - target).abs() <= 1e-9 * target.max(1.0) * 1.000001, "unsigned:value", "{x:?} -> {u:?} = {val:?}");
                    let back = ctx.lib("f64::from", || f64::from(u.clone()))?;
                    ensure!(back == val, "unsigned:back", "{u:?} -> {back:?}");
                }
                let back = ctx.lib("f64::from", || f64::from(i.clone()))?;
                ensure!(back == val, "signed:back", "{i:?} -> {back:?}");
            } else {
                ctx.label("not finite");
                let (bi, bu) = ctx.lib("f64::from", || (f64::from(i.clone()), f64::from(u.clone())))?;
                if x.is_nan() { ensure!(bi.is_nan() && bu.is_nan(), "nan", "{x:?} -> {i:?}, {u:?}"); }
                else { ensure!(bi == IMAX.copysign(x) && (x < 0.0 || bu == UMAX), "infinite", "{x:?} -> {i:?}, {u:?}"); }
            }
        }
        1 => {
            let v = s.u32();
            let u = ctx.lib("uR64::from(u32)", || uR64::from(v))?;
            ensure!((u.nominator, u.denominator) == (v, 1), "u32:unsigned", "{v} -> {u:?}");
            let back = ctx.lib("u32::from", || u32::from(u.clone()))?;
            ensure!(back == v, "u32:back", "{v} -> {u:?} -> {back}");
            let i = ctx.lib("iR64::from(u32)", || iR64::from(v))?;
            let want = v.min(i32::MAX as u32) as i32;
            ensure!((i.nominator, i.denominator) == (want, 1), "u32:signed", "{v} -> {i:?}");
            let w = v as i32;
            let i = ctx.lib("iR64::from(i32)", || iR64::from(w))?;
            ensure!((i.nominator, i.denominator) == (w, 1), "i32:signed", "{w} -> {i:?}");
            let back = ctx.lib("i32::from", || i32::from(i.clone()))?;
            ensure!(back == w, "i32:back", "{w} -> {i:?} -> {back}");
            for x in [v as f64, w as f64] {
                if x >= 0.0 { let u = ctx.lib("uR64::from(f64)", || uR64::from(x))?; ensure!(u.nominator as f64 == x && u.denominator == 1, "integer:unsigned", "{x:?} -> {u:?}"); }
                if x.abs() <= IMAX { let i = ctx.lib("iR64::from(f64)", || iR64::from(x))?; ensure!(i.nominator as f64 == x && i.denominator == 1, "integer:signed", "{x:?} -> {i:?}"); }
            }
            ctx.label("integer"); ctx.nontrivial(); ctx.note(|| format!("integer {v}"));
        }
        _ => {
            let (p, q) = (s.int(0, 1000) as u32, s.int(1, 1000) as u32);
            let (mut a, mut b) = (p, q); while b != 0 { (a, b) = (b, a % b); }
            let (rp, rq) = (p / a, q / a);
            let x = p as f64 / q as f64;
            let u = ctx.lib("uR64::from(f64)", || uR64::from(x))?;
            ensure!((u.nominator, u.denominator) == (rp, rq), "fraction:unsigned", "{p}/{q} -> {u:?}");
            let i = ctx.lib("iR64::from(f64)", || iR64::from(-x))?;
            ensure!((i.nominator, i.denominator) == (-(rp as i32), rq as i32), "fraction:signed", "-{p}/{q} -> {i:?}");
            ctx.label("small fraction"); if rq > 1 { ctx.nontrivial(); } ctx.note(|| format!("fraction {p}/{q}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P06
fn p06_lookup(_s: &mut Src, ctx: &mut Ctx) -> Res {
    for g in GROUPS {
        for hex in 0..=0xffffu16 {
            let r = row(hex, g);
            let t = ctx.lib("from_u16", || ExifTag::from_u16(hex, &g.lib()))?;
            match (r, &t) {
                (Some(r), Err(_)) => return fail("lookup:missing", format!("{} ({hex:04x}) is not found in {g:?}", r.name)),
                (_, Ok(t)) => {
                    ensure!(t.as_u16() == hex, "lookup:number", "looking up {hex:04x} in {g:?} gives {t:?} with number {:04x}", t.as_u16());
                    ensure!(!t.is_unknown(), "lookup:unknown", "looking up {hex:04x} in {g:?} gives an unknown tag");
                    if IMAGE_DATA_TAGS.contains(&hex) { ensure!(t.get_group().eq(&G::GENERIC.lib()) && t.format().as_u16() == 4, "lookup:group", "{t:?}"); continue; }
                    ensure!(G::of(t.get_group()) == g, "lookup:group", "looking up {hex:04x} in {g:?} gives {t:?} of group {:?}", t.get_group());
                    if let Some(r) = r {
                        let (name, v) = open(t);
                        ensure!(name == Some(r.name), "lookup:kind", "looking up {hex:04x} in {g:?} gives {t:?}, expected {}", r.name);
                        ensure!(t.format().as_u16() == r.fmt, "lookup:format", "{} reports format {:?}", r.name, t.format());
                        ensure!(t.is_string() == (r.fmt == 2), "lookup:string", "{} is_string {}", r.name, t.is_string());
                        ensure!(t.is_writable() == r.writable, "lookup:writable", "{} is_writable {}", r.name, t.is_writable());
                        let n = t.number_of_components();
                        ensure!(n == if r.fmt == 2 { 1 } else { r.count }, "lookup:count", "{} empty reports {n} components", r.name);
                        ensure!(if r.fmt == 2 { v.val == Val::Str(String::new()) } else { v.val.is_empty() }, "lookup:value", "{} is looked up with value {v:?}", r.name);
                    }
                }
                (None, Err(_)) => {}
            }
        }
    }
    ctx.label("whole number space"); ctx.nontrivial();
    Ok(())
}
fn fmt_of(f: u16) -> ExifTagFormat { ExifTagFormat::from_u16(f).expect("format code 1..=12") }

fn p06_build(s: &mut Src, ctx: &mut Ctx) -> Res {
    for f in 1..=12u16 {
        let x = ctx.lib("ExifTagFormat", || { let x = ExifTagFormat::from_u16(f); x.map(|x| (x.as_u16(), x.bytes_per_component())) })?;
        ensure!(x == Some((f, fmt_size(f) as u32)), "format", "format code {f}: {x:?}");
    }
    let bad = if s.bool() { 0 } else { s.int(13, 0xffff) as u16 };
    ensure!(ctx.lib("ExifTagFormat", || ExifTagFormat::from_u16(bad).is_none())?, "format", "format code {bad} is accepted");
    let big = s.bool();
    if s.chance(1, 12) { return p06_data(s, ctx, big); }
    if s.chance(1, 16) {
        // an unknown tag with a number that the catalogue has
        let r = s.pick(TABLE);
        let fmt = s.int(1, 12) as u16;
        let c = gen_count(s, 0, 20);
        let v = V { fmt, val: gen_val(s, fmt, c) };
        let t = make_unknown(r.hex, r.group, &v);
        let (h, f, g, unk, just) = ctx.lib("accessors", || (t.as_u16(), t.format().as_u16(), G::of(t.get_group()), t.is_unknown(), t.unknown_is_justified()))?;
        ensure!(h == r.hex && f == fmt && g == r.group && unk && open(&t).1 == v, "unknown:tag", "an unknown tag {:04x} of {:?} shows number {h:04x}, format {f}, group {g:?}, unknown {unk}", r.hex, r.group);
        ensure!(!just, "unknown:justified", "an unknown tag in place of {} is reported as justified", r.name);
        ctx.nontrivial(); ctx.label("unknown tag with a catalogued number");
        return Ok(());
    }
    let known = s.chance(3, 4);
    let (hex, g, fmt) = if known { let r = s.pick(TABLE); (r.hex, r.group, r.fmt) } else { let g = *s.pick(&GROUPS); (gen_unknown_hex(s, g), g, s.int(1, 12) as u16) };
    let mut c = gen_count(s, row(hex, g).map_or(0, |r| r.count), 300);
    let large = s.chance(1, 1000);
    if large { c = match s.draw(2) { 0 => s.usize(65_530, 65_545), _ => s.big_size(200_000) }; ctx.label("thousands of components"); }
    let val = if large { let b = s.blob(c * fmt_size(fmt)); val_of(fmt, &b) } else { gen_val(s, fmt, c) };
    let raw = val.bytes(big);
    let t = ctx.lib("from_u16_with_data", || ExifTag::from_u16_with_data(hex, &fmt_of(fmt), &raw, &en(big), &g.lib()))?;
    let t = match t { Ok(t) => t, Err(e) => return fail("build:err", format!("{hex:04x} of {g:?} from {} bytes of format {fmt}: {e}", raw.len())) };
    check_tag(ctx, &t, hex, g, &V { fmt, val: val.clone() }, known, big)?;
    // the same tag built by its constructor
    let t2 = make_tag(hex, g, &V { fmt, val: val.clone() })?;
    check_tag(ctx, &t2, hex, g, &V { fmt, val: val.clone() }, known, big)?;
    // bytes that are no multiple of the component size are an error, not a wrong value
    let w = fmt_size(fmt);
    if w > 1 {
        let extra = s.usize(1, w - 1);
        let mut bad = raw.clone(); bad.extend(vec![1; extra]);
        let r = ctx.lib("from_u16_with_data", || ExifTag::from_u16_with_data(hex, &fmt_of(fmt), &bad, &en(big), &g.lib()).is_err())?;
        ensure!(r, "build:length", "{hex:04x} of {g:?} accepts {} bytes of format {fmt}", bad.len());
        ctx.label("length that does not fit");
    }
    if !val.is_empty() { ctx.nontrivial(); }
    ctx.label(if known { "catalogued" } else { "not catalogued" });
    ctx.note(|| format!("{hex:04x} {g:?} {val:?}"));
    Ok(())
}
/// the tags for strips and thumbnails, whose data is not part of the entry
fn p06_data(s: &mut Src, ctx: &mut Ctx, big: bool) -> Res {
    let h = *s.pick(&IMAGE_DATA_TAGS);
    let n = if h >= 0x0201 { 1 } else if s.chance(1, 400) { 65_530 + s.draw(39) as usize } else { s.small(12) as usize };
    let val = if h == 0x0111 || h == 0x0201 { Val::Data((0..n).map(|_| { let k = s.small(40) as usize; s.blob(k) }).collect()) } else { Val::U32((0..n).map(|_| s.u32()).collect()) };
    let t = make_tag(h, G::GENERIC, &V { fmt: 4, val: val.clone() })?;
    let raw = Val::U32((0..n).map(|_| s.u32()).collect()).bytes(big);
    let r = ctx.lib("from_u16_with_data", || ExifTag::from_u16_with_data(h, &fmt_of(4), &raw, &en(big), &G::GENERIC.lib()))?;
    let r = match r { Ok(r) => r, Err(e) => return fail("data:err", format!("{h:04x} from {} bytes: {e}", raw.len())) };
    for (x, held) in [(&t, true), (&r, matches!(val, Val::U32(_)))] {
        let (num, f, grp, unk, c, st) = ctx.lib("accessors", || (x.as_u16(), x.format().as_u16(), G::of(x.get_group()), x.is_unknown(), x.number_of_components(), x.is_string()))?;
        ensure!(matches!(ctx.lib("get_tag_type", || x.get_tag_type())?, TagType::DATA_OFFSET(_)), "data:type", "{h:04x} is not reported as belonging to a data area");
        ensure!(num == h && f == 4 && grp == G::GENERIC && !unk && !st, "data:tag", "{h:04x} has number {num:04x}, format {f}, group {grp:?}, unknown {unk}");
        if held { ensure!(c as usize == n, "data:count", "{h:04x} holding {n} parts reports {c} components"); }
    }
    if let Val::U32(_) = val {
        ensure!(open(&t).1.val == val, "data:value", "{h:04x} built from {val:?} holds {:?}", open(&t).1);
        let b = ctx.lib("value_as_u8_vec", || (t.value_as_u8_vec(&en(big)), r.value_as_u8_vec(&en(big))))?;
        ensure!(b.0 == val.bytes(big) && b.1 == raw, "data:bytes", "{h:04x} with {val:?} as bytes {} and {}", hex(&b.0), hex(&b.1));
    } else { ensure!(open(&t).1.val == val, "data:value", "{h:04x} built from {val:?} holds {:?}", open(&t).1); }
    if n > 0 { ctx.nontrivial(); }
    ctx.label("image data tag");
    ctx.note(|| format!("{h:04x} {val:?}"));
    Ok(())
}
fn check_tag(ctx: &mut Ctx, t: &ExifTag, h: u16, g: G, v: &V, known: bool, big: bool) -> Res {
    let (n, f, grp, hx, unk, just, bytes) = ctx.lib("accessors", || (t.number_of_components(), t.format().as_u16(), G::of(t.get_group()), t.as_u16(), t.is_unknown(), t.unknown_is_justified(), t.value_as_u8_vec(&en(big))))?;
    let (name, got) = open(t);
    ensure!(hx == h, "tag:number", "{t:?} has number {hx:04x}, expected {h:04x}");
    ensure!(grp == g, "tag:group", "{t:?} has group {grp:?}, expected {g:?}");
    ensure!(f == v.fmt, "tag:format", "{t:?} has format {f}, expected {}", v.fmt);
    ensure!(got == *v, "tag:value", "{h:04x} of {g:?}: expected {v:?}, found {got:?}");
    ensure!(unk != known && just, "tag:unknown", "{t:?} is_unknown {unk}, justified {just}");
    if known { ensure!(name == row(h, g).map(|r| r.name), "tag:kind", "{h:04x} of {g:?} is {name:?}"); }
    let want = if v.val.is_empty() { row(h, g).map_or(0, |r| r.count) } else { v.val.count() as u32 };
    ensure!(n == want, "tag:count", "{h:04x} of {g:?} with {v:?} reports {n} components, expected {want}");
    ensure!(bytes == v.val.bytes(big), "tag:bytes", "{h:04x} of {g:?} with {v:?} as bytes: {}", hex(&bytes));
    ensure!(t.is_string() == (v.fmt == 2), "tag:string", "{t:?} is_string {}", t.is_string());
    let (ty, sub) = ctx.lib("get_tag_type", || (t.get_tag_type(), ImageFileDirectory::get_ifd_type_for_offset_tag(t)))?;
    match is_offset(h, g).filter(|_| known) {
        Some(o) => ensure!(ty == TagType::IFD_OFFSET(o.lib()) && sub == Some(o.lib()), "tag:type", "{h:04x} of {g:?} is not reported as the pointer to {o:?}"),
        None => ensure!(ty == TagType::VALUE && sub.is_none(), "tag:type", "{h:04x} of {g:?} is not reported as a plain value"),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P04", rule: "random values of every convertible type (scalars, lists, text) in both byte orders, plus byte strings of other lengths; non-trivial: a list of two or more values, or a text", assumptions: &[],
            parts: vec![Part { name: "convert", body: Body::Choices(p04), quick: 6_000_000, thorough: 200_000_000 }] },
        Prop { id: "P05", rule: "random reals over the whole range with emphasis on range ends, small fractions and integers; non-trivial: a finite number, an integer or a fraction that is no integer", assumptions: &["rational values are compared in f64 arithmetic with tolerance 1e-9"],
            parts: vec![Part { name: "convert", body: Body::Choices(p05), quick: 15_000_000, thorough: 1_000_000_000 }] },
        Prop { id: "P06", rule: "every 16-bit number in every group (lookup part), and random tags with random values built from raw bytes and by constructor; non-trivial: a tag holding at least one component", assumptions: &["the catalogue the harness expects was transcribed once from the library's documented tag list"],
            parts: vec![Part { name: "lookup", body: Body::Choices(p06_lookup), quick: 8, thorough: 8 }, Part { name: "build", body: Body::Choices(p06_build), quick: 6_000_000, thorough: 200_000_000 }] },
    ]
}

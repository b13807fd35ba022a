//! P07: the in-memory tag store against a map model.
use std::collections::BTreeMap;
use little_exif::ifd::ImageFileDirectory;
use little_exif::metadata::Metadata;

use crate::engine::*;
use crate::ensure;
use crate::meta::*;
use crate::tags::*;

type Model = BTreeMap<(u32, G), Dir>;

fn parents(m: &mut Model, nr: u32, g: G) {
    m.entry((nr, g)).or_default();
    match g { G::INTEROP => { m.entry((nr, G::EXIF)).or_default(); m.entry((nr, G::GENERIC)).or_default(); } G::EXIF | G::GPS => { m.entry((nr, G::GENERIC)).or_default(); } G::GENERIC => {} }
}
fn check(ctx: &mut Ctx, x: &Metadata, m: &Model) -> Res {
    let v = ctx.lib("get_ifds", || view2(x, true))??;
    for (k, d) in m { match v.dirs.get(k) { None => return fail("store:dir-missing", format!("directory {k:?} is missing")), Some(e) => ensure!(e == d, "store:content", "directory {k:?}: expected {d:?}, found {e:?}") } }
    for k in v.dirs.keys() { ensure!(m.contains_key(k), "store:dir-extra", "directory {k:?} was never created"); }
    // iteration gives every tag exactly once, each directory in order
    let all: Vec<(u16, V)> = ctx.lib("iterate", || x.into_iter().map(|t| (t.as_u16(), open(t).1)).collect::<Vec<_>>())?;
    let mut want: Vec<(u16, V)> = m.values().flat_map(|d| d.iter().map(|(h, v)| (*h, v.clone()))).collect();
    let mut got = all.clone();
    want.sort(); got.sort();
    ensure!(want == got, "store:iterate", "iteration gives {} tags, expected {}", got.len(), want.len());
    let mx = m.keys().filter(|k| k.1 == G::GENERIC).map(|k| k.0).max().unwrap_or(0);
    let gm = ctx.lib("get_max_generic_ifd_number", || x.get_max_generic_ifd_number())?;
    ensure!(gm == mx, "store:max", "highest directory number {gm}, expected {mx}");
    Ok(())
}
fn p07(s: &mut Src, ctx: &mut Ctx) -> Res {
    let start = gen_meta(s, &SMALL);
    let (mut x, mut m): (Metadata, Model) = if s.chance(1, 3) {
        // start from decoded metadata
        let b = build(&start, s)?;
        let enc = ctx.lib("encode", || b.encode())?;
        let Ok(enc) = enc else { return fail("encode", "cannot encode") };
        let r = ctx.lib("new_from_vec", || Metadata::new_from_vec(&enc, little_exif::filetype::FileExtension::TIFF))?;
        match r { Ok(r) => { let v = view(&r)?; ctx.label("starts from decoded metadata"); (r, v.dirs) } Err(e) => return fail("decode", format!("{e}")) }
    } else { (empty(start.big), if start.big { view(&empty(true))?.dirs } else { Model::new() }) };
    if s.chance(1, 25) {
        // a directory of many tags
        let (n, g, nr) = (s.int(40, 160), *s.pick(&GROUPS), s.draw(1) as u32);
        parents(&mut m, nr, g);
        for _ in 0..n {
            let h = gen_unknown_hex(s, g);
            let v = V { fmt: 7, val: gen_val(s, 7, 1) };
            let t = make_tag(h, g, &v)?;
            ctx.lib("set_tag", || x.get_ifd_mut(g.lib(), nr).set_tag(t))?;
            m.get_mut(&(nr, g)).unwrap().insert(h, v);
        }
        ctx.label("directory of many tags");
    }
    // a small pool of tags, so that operations collide
    let mut pool: Vec<(u16, G)> = vec![(0x010e, G::GENERIC), (0x0001, G::GPS), (0x0001, G::INTEROP), (0x9000, G::EXIF)];
    pool.push((*s.pick(&crate::tiffimg::DECODE.iter().copied().filter(|h| !IMAGE_DATA_TAGS.contains(h)).collect::<Vec<_>>()), G::GENERIC));
    for _ in 0..s.int(1, 5) { let g = *s.pick(&GROUPS); if s.bool() { let rs: Vec<_> = TABLE.iter().filter(|r| r.group == g && is_offset(r.hex, g).is_none()).collect(); pool.push((s.pick(&rs).hex, g)); } else { pool.push((gen_unknown_hex(s, g), g)); } }
    let nrs: Vec<u32> = { let mut v = vec![0, 0, 0, 1]; v.push(s.draw(50) as u32); if s.chance(1, 10) { v.push(s.draw(3000) as u32); } v };
    let steps = s.int(1, 40);
    let mut trace = vec![];
    let (mut removed_some, mut replaced) = (false, false);
    for _ in 0..steps {
        let (h, g) = *s.pick(&pool);
        let nr = *s.pick(&nrs);
        let fmt = row(h, g).map_or(7, |r| r.fmt);
        match s.weighted(&[24, 16, 8, 8, 4, 8, 8, 1]) {
            7 => {
                ctx.lib("reduce_to_a_minimum", || x.reduce_to_a_minimum())?;
                trace.push("reduce".into()); ctx.label("reduced to a minimum");
                m.retain(|k, _| k.1 == G::GENERIC);
                for d in m.values_mut() { let n = d.len(); d.retain(|h, _| crate::tiffimg::DECODE.contains(h)); removed_some |= d.len() < n; }
            }
            0 | 1 => {
                let c = gen_count(s, 0, 20);
                let v = V { fmt, val: gen_val(s, fmt, c) };
                let t = make_tag(h, g, &v)?;
                let direct = s.bool();
                let nr = if direct { 0 } else { nr };
                ctx.lib("set_tag", || if direct { x.set_tag(t) } else { x.get_ifd_mut(g.lib(), nr).set_tag(t) })?;
                trace.push(format!("set {h:04x} {g:?}{nr}"));
                parents(&mut m, nr, g);
                replaced |= m.get_mut(&(nr, g)).unwrap().insert(h, v).is_some();
            }
            2 => {
                let by_tag = s.bool();
                let n = if by_tag { let t = make_tag(h, g, &V { fmt, val: gen_val(s, fmt, 1) })?; ctx.lib("remove_tag", || x.remove_tag(t))? } else { ctx.lib("remove_tag_by_hex_group", || x.remove_tag_by_hex_group(h, g.lib()))? };
                trace.push(format!("remove {h:04x} {g:?} -> {n}"));
                let mut k = 0;
                for (_, d) in m.iter_mut().filter(|(k, _)| k.1 == g) { if d.remove(&h).is_some() { k += 1; } }
                removed_some |= k > 0;
                ensure!((n == 0) == (k == 0), "store:removed-count", "removing {h:04x} of {g:?} reports {n}, removed {k}");
            }
            3 => {
                ctx.lib("ifd.remove_tag", || x.get_ifd_mut(g.lib(), nr).remove_tag(h))?;
                trace.push(format!("ifd.remove {h:04x} {g:?}{nr}"));
                parents(&mut m, nr, g);
                removed_some |= m.get_mut(&(nr, g)).unwrap().remove(&h).is_some();
            }
            4 => { ctx.lib("create_ifd", || x.create_ifd(g.lib(), nr))?; trace.push(format!("create {g:?}{nr}")); parents(&mut m, nr, g); }
            5 => {
                let grp = if s.bool() { Some(g) } else { None };
                let got: Vec<V> = ctx.lib("get_tag_by_hex", || x.get_tag_by_hex(h, grp.map(|g| g.lib())).map(|t| open(t).1).collect())?;
                let mut want: Vec<V> = m.iter().filter(|(k, _)| grp.is_none() || Some(k.1) == grp).filter_map(|(_, d)| d.get(&h).cloned()).collect();
                let mut got2 = got.clone(); got2.sort(); want.sort();
                ensure!(got2 == want, "store:lookup", "looking up {h:04x} in {grp:?} gives {} values, expected {}", got2.len(), want.len());
                trace.push(format!("lookup {h:04x}"));
            }
            _ => {
                let t = make_tag(h, g, &V { fmt, val: gen_val(s, fmt, 1) })?;
                let got: Vec<V> = ctx.lib("get_tag", || x.get_tag(&t).map(|t| open(t).1).collect())?;
                let mut want: Vec<V> = m.iter().filter(|(k, _)| k.1 == g).filter_map(|(_, d)| d.get(&h).cloned()).collect();
                let mut got2 = got.clone(); got2.sort(); want.sort();
                ensure!(got2 == want, "store:lookup", "get_tag {h:04x} of {g:?} gives {} values, expected {}", got2.len(), want.len());
                let there = ctx.lib("get_ifd", || x.get_ifd(g.lib(), nr).is_some())?;
                ensure!(there == m.contains_key(&(nr, g)), "store:get-ifd", "get_ifd({g:?}, {nr}) is {there}");
                trace.push(format!("get {h:04x} {g:?}"));
            }
        }
        check(ctx, &x, &m)?;
    }
    if removed_some { ctx.label("a removal took effect"); }
    if replaced { ctx.label("a value was replaced"); }
    if m.keys().any(|k| k.0 > 0) { ctx.label("several top-level directories"); }
    if removed_some || replaced { ctx.nontrivial(); }
    ctx.note(|| trace.join(", "));
    Ok(())
}
/// A directory object of its own.
fn p07_dir(s: &mut Src, ctx: &mut Ctx) -> Res {
    let g = *s.pick(&GROUPS);
    let nr = s.u32();
    let mut o = SMALL; o.max_tags = 12;
    let mut d = gen_dir(s, g, &o);
    let tags = d.iter().map(|(h, v)| make_tag(*h, g, v)).collect::<Result<Vec<_>, _>>()?;
    let mut x = ctx.lib("new_with_tags", || ImageFileDirectory::new_with_tags(tags, g.lib(), nr))?;
    let pool: Vec<u16> = { let mut v: Vec<u16> = d.keys().copied().collect(); for _ in 0..s.int(1, 3) { v.push(gen_unknown_hex(s, g)); } v };
    let mut trace = vec![];
    for step in 0..s.int(1, 10) {
        if step > 0 {
            let h = *s.pick(&pool);
            if s.bool() {
                let fmt = row(h, g).map_or(9, |r| r.fmt);
                let c = gen_count(s, 0, 9);
                let v = V { fmt, val: gen_val(s, fmt, c) };
                let t = make_tag(h, g, &v)?;
                ctx.lib("ifd.set_tag", || x.set_tag(t))?;
                d.insert(h, v); trace.push(format!("set {h:04x}"));
            } else {
                ctx.lib("ifd.remove_tag", || x.remove_tag(h))?;
                if d.remove(&h).is_some() { ctx.nontrivial(); }
                trace.push(format!("remove {h:04x}"));
            }
        }
        let (got, ty, n) = ctx.lib("get_tags", || (x.get_tags().iter().map(|t| (t.as_u16(), open(t).1)).collect::<Vec<_>>(), x.get_ifd_type(), x.get_generic_ifd_nr()))?;
        ensure!(ty == g.lib() && n == nr, "dir:kind", "directory {nr} of {g:?} is {n} of {ty:?}");
        ensure!(got == d.iter().map(|(h, v)| (*h, v.clone())).collect::<Vec<_>>(), "dir:content", "{}: directory holds {got:?}, expected {d:?}", trace.join(", "));
        let p = ctx.lib("get_offset_tag_for_parent_ifd", || x.get_offset_tag_for_parent_ifd().map(|(p, t)| (G::of(p), t.as_u16(), G::of(t.get_group()), ImageFileDirectory::get_ifd_type_for_offset_tag(&t).map(G::of))))?;
        let want = match g { G::GENERIC => None, G::EXIF => Some((G::GENERIC, 0x8769)), G::GPS => Some((G::GENERIC, 0x8825)), G::INTEROP => Some((G::EXIF, 0xa005)) };
        ensure!(p == want.map(|(a, h)| (a, h, a, Some(g))), "dir:pointer", "the pointer to {g:?} is {p:?}");
    }
    ctx.note(|| format!("{g:?}{nr}: {}", trace.join(", ")));
    Ok(())
}
/// Metadata read from a directory that stores numbers twice: setting and
/// removing must treat all of them as one.
fn p07_dup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = s.bool();
    let g = *s.pick(&[G::GENERIC, G::EXIF, G::GPS, G::INTEROP]);
    let mut pool: Vec<u16> = vec![];
    for _ in 0..s.int(1, 4) { let rs: Vec<_> = TABLE.iter().filter(|r| r.group == g && is_offset(r.hex, g).is_none()).collect(); pool.push(if s.bool() { s.pick(&rs).hex } else { gen_unknown_hex(s, g) }); }
    pool.sort(); pool.dedup();
    let mut model: Vec<(u16, V)> = vec![];
    for h in &pool { for _ in 0..s.weighted(&[1, 2, 3, 1]) { let fmt = row(*h, g).map_or(7, |r| r.fmt); let c = gen_count(s, 0, 9).max(1); model.push((*h, V { fmt, val: gen_val(s, fmt, c) })); } }
    let p16 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let p32 = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut t = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    t.extend(p32(8));
    let chain: &[u16] = match g { G::GENERIC => &[], G::EXIF => &[0x8769], G::GPS => &[0x8825], G::INTEROP => &[0x8769, 0xa005] };
    for h in chain { let next = t.len() as u32 + 18; t.extend(p16(1)); t.extend(p16(*h)); t.extend(p16(4)); t.extend(p32(1)); t.extend(p32(next)); t.extend(p32(0)); }
    t.extend(p16(model.len() as u16));
    let mut area = t.len() + 12 * model.len() + 4;
    let mut tail = vec![];
    for (h, v) in &model {
        let raw = v.val.bytes(big);
        t.extend(p16(*h)); t.extend(p16(v.fmt)); t.extend(p32(v.val.count() as u32));
        if raw.len() <= 4 { let mut r = raw; r.resize(4, 0); t.extend(r); } else { t.extend(p32(area as u32)); tail.extend(&raw); if raw.len() % 2 == 1 { tail.push(0); } area += raw.len() + raw.len() % 2; }
    }
    t.extend(p32(0)); t.extend(tail);
    let r = ctx.lib("new_from_vec", || Metadata::new_from_vec(&t, little_exif::filetype::FileExtension::TIFF))?;
    let mut x = match r { Ok(x) => x, Err(e) => return fail("dup:decode", format!("{e}")) };
    let dup = |m: &Vec<(u16, V)>, h: u16| m.iter().filter(|x| x.0 == h).count() > 1;
    let mut trace = vec![];
    for _ in 0..s.int(0, 8) {
        let h = if s.chance(1, 8) { gen_unknown_hex(s, g) } else { *s.pick(&pool) };
        let fmt = row(h, g).map_or(7, |r| r.fmt);
        match s.draw(3) {
            0 | 1 => {
                if dup(&model, h) { ctx.label("a set replaced several"); ctx.nontrivial(); }
                let c = gen_count(s, 0, 9);
                let v = V { fmt, val: gen_val(s, fmt, c) };
                let tag = make_tag(h, g, &v)?;
                ctx.lib("set_tag", || if s.bool() { x.set_tag(tag) } else { x.get_ifd_mut(g.lib(), 0).set_tag(tag) })?;
                model.retain(|m| m.0 != h); model.push((h, v));
                trace.push(format!("set {h:04x}"));
            }
            2 => {
                if dup(&model, h) { ctx.label("a removal took several"); ctx.nontrivial(); }
                let n = ctx.lib("remove_tag_by_hex_group", || x.remove_tag_by_hex_group(h, g.lib()))?;
                let k = model.iter().filter(|m| m.0 == h).count();
                ensure!((n == 0) == (k == 0), "dup:removed-count", "removing {h:04x} of {g:?} reports {n}, {k} were stored");
                model.retain(|m| m.0 != h);
                trace.push(format!("remove {h:04x}"));
            }
            _ => {
                if dup(&model, h) { ctx.label("a removal took several"); ctx.nontrivial(); }
                ctx.lib("ifd.remove_tag", || x.get_ifd_mut(g.lib(), 0).remove_tag(h))?;
                model.retain(|m| m.0 != h);
                trace.push(format!("ifd.remove {h:04x}"));
            }
        }
        let mut want = model.clone(); want.sort();
        let tags: Vec<(u16, V)> = ctx.lib("get_ifd", || x.get_ifd(g.lib(), 0).map(|d| d.get_tags().iter().map(|t| (t.as_u16(), open(t).1)).collect()).unwrap_or_default())?;
        ensure!(tags.windows(2).all(|w| w[0].0 <= w[1].0), "dup:order", "numbers {:x?}", tags.iter().map(|t| t.0).collect::<Vec<_>>());
        let mut got = tags; got.sort();
        ensure!(got == want, "dup:content", "after {}: directory holds {got:?}, expected {want:?}", trace.join(", "));
        for h in &pool {
            let mut got: Vec<V> = ctx.lib("get_tag_by_hex", || x.get_tag_by_hex(*h, Some(g.lib())).map(|t| open(t).1).collect())?;
            let mut want: Vec<V> = model.iter().filter(|m| m.0 == *h).map(|m| m.1.clone()).collect();
            got.sort(); want.sort();
            ensure!(got == want, "dup:lookup", "looking up {h:04x} gives {got:?}, expected {want:?}");
        }
    }
    ctx.note(|| format!("{g:?} {} entries: {}", model.len(), trace.join(", ")));
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P07", rule: "histories of up to 40 set/remove/create/lookup operations on a colliding pool of tags, checked against a map after every step; non-trivial: a removal or a replacement took effect", assumptions: &["tags are put into directories of their own group"],
        parts: vec![Part { name: "history", body: Body::Choices(p07), quick: 800_000, thorough: 30_000_000 }, Part { name: "duplicates", body: Body::Choices(p07_dup), quick: 400_000, thorough: 20_000_000 }, Part { name: "directory", body: Body::Choices(p07_dir), quick: 200_000, thorough: 10_000_000 }] }]
}

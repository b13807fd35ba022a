//! HEIF/AVIF files (ISO/IEC 14496-12, 23008-12): generator, parser and an
//! independent resolver of items to their bytes.
use std::collections::BTreeMap;
use crate::engine::*;
use crate::img::*;
use crate::jxl::boxed;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Where { Mdat(usize), Idat }
struct Item { id: u32, typ: [u8; 4], name: Vec<u8>, tail: Vec<u8>, flags: u32, exif: bool, place: Option<Where>, extents: Vec<Vec<u8>>, refs_item: Option<(u32, Vec<(u64, u64, u64)>)>, external: Option<External>, prot: u16, old: bool }
/// An item in another file: index of the file, base offset, extents
struct External { dref: u16, base: u64, extents: Vec<(u64, u64, u64)> }

fn full(o: &mut Vec<u8>, name: &[u8], version: u8, flags: u32, d: &[u8], form: u8) {
    let mut v = (((version as u32) << 24) | flags).to_be_bytes().to_vec(); v.extend_from_slice(d);
    boxed(o, name, &v, form);
}
fn put(o: &mut Vec<u8>, v: u64, w: usize) { match w { 0 => {} 4 => o.extend_from_slice(&(v as u32).to_be_bytes()), 8 => o.extend_from_slice(&v.to_be_bytes()), 2 => o.extend_from_slice(&(v as u16).to_be_bytes()), _ => unreachable!() } }

pub fn exif_item_payload(s: &mut Src, tiff: &[u8]) -> Vec<u8> {
    let pre: Vec<u8> = match s.weighted(&[5, 3, 1]) { 0 => b"Exif\0\0".to_vec(), 1 => vec![], _ => header_prefix(s) };
    let mut d = (pre.len() as u32).to_be_bytes().to_vec(); d.extend_from_slice(&pre); d.extend_from_slice(tiff);
    d
}
/// Generates a HEIF file with the given Exif blocks as items.
pub fn gen(s: &mut Src, ctx: &mut Ctx, exif: &[Vec<u8>]) -> Vec<u8> {
    let p: Vec<Vec<u8>> = exif.iter().map(|e| exif_item_payload(s, e)).collect();
    gen_raw(s, ctx, &p)
}
/// The same with the complete content of the items.
pub fn gen_raw(s: &mut Src, ctx: &mut Ctx, exif: &[Vec<u8>]) -> Vec<u8> {
    // ---- table layout
    let iloc_v = s.draw(2) as u8;
    let wide_ids = iloc_v == 2 && s.chance(1, 3);
    let (off_w, len_w, base_w, idx_w);
    let base_only = s.chance(1, 8);
    if base_only { off_w = 0; base_w = *s.pick(&[4usize, 8]); } else { off_w = *s.pick(&[4usize, 4, 8]); base_w = *s.pick(&[0usize, 0, 4, 8]); }
    len_w = *s.pick(&[4usize, 4, 8]);
    idx_w = if iloc_v > 0 { *s.pick(&[0usize, 0, 4, 8]) } else { 0 };
    ctx.label(["HEIF: iloc version 0", "HEIF: iloc version 1", "HEIF: iloc version 2"][iloc_v as usize]);
    if base_only { ctx.label("HEIF: base offsets only"); } else if base_w > 0 { ctx.label("HEIF: base offsets"); }
    // ---- items
    let n_img = if s.chance(1, 3000) { s.int(5, 300) } else { s.int(1, 4) } as usize;
    let n_mdat = match s.weighted(&[1, 6, 2]) { 0 => 0, 1 => 1, _ => s.usize(1, 3) };
    let mut used: Vec<u32> = vec![];
    let new_id = |s: &mut Src, used: &mut Vec<u32>| { loop { let i = if wide_ids && s.chance(1, 3) { s.int(65_000, 80_000) as u32 } else if s.chance(1, 5) { s.int(1, 60_000) as u32 } else { s.int(1, 20) as u32 }; if !used.contains(&i) { used.push(i); return i; } if used.len() > 15 || s.out.len() > 100_000 { let i = used.iter().max().unwrap() + 1; used.push(i); return i; } } };
    let mut items: Vec<Item> = vec![];
    let mut order: Vec<usize> = vec![];
    for k in 0..n_img + exif.len() {
        let is_exif = k >= n_img;
        let id = new_id(s, &mut used);
        let (typ, tail): ([u8; 4], Vec<u8>) = if is_exif { (*b"Exif", vec![]) } else { match s.draw(5) { 0 => (*b"hvc1", vec![]), 1 => (*b"av01", vec![]), 2 => (*b"grid", vec![]), 3 => (*b"mime", if s.bool() { b"application/rdf+xml\0".to_vec() } else { b"text/plain\0deflate\0".to_vec() }), 4 => (*b"uri ", b"urn:x\0".to_vec()), _ => (**s.pick(&[b"Exig", b"exif", b"iden", b"jpeg"]), vec![]) } };
        let data = if is_exif { exif[k - n_img].clone() } else { let n = match s.rare_size() { Some(n) => n, None => s.int(1, 60) as usize }; s.blob(n) };
        let place = if n_mdat == 0 || (iloc_v > 0 && s.chance(1, 4)) { if iloc_v > 0 { Where::Idat } else { Where::Mdat(0) } } else { Where::Mdat(s.usize(0, n_mdat - 1)) };
        let mut extents = vec![];
        let parts = if base_only || data.len() < 3 { 1 } else { match s.weighted(&[6, 2, 1]) { 0 => 1, 1 => 2, _ => match s.crowd() { 0 => 3, n => { ctx.label("HEIF: many extents"); data.len().min(n as usize) } } } };
        let mut rest = &data[..];
        for p in 0..parts { let left = parts - p - 1; let n = if left == 0 { rest.len() } else { s.usize(1, rest.len() - left) }; extents.push(rest[..n].to_vec()); rest = &rest[n..]; }
        let name = if s.chance(1, 3) { s.pick(&["Exif", "Primary", "x", "ä"]).as_bytes().to_vec() } else { vec![] };
        items.push(Item { id, typ, name, tail, flags: if s.chance(1, 3) { 1 } else { 0 }, exif: is_exif, place: Some(place), extents, refs_item: None, external: None, prot: if s.chance(1, 12) { s.u16() } else { 0 }, old: !is_exif && s.chance(1, 25) });
        let at = s.usize(0, order.len()); order.insert(at, k);
    }
    // mdat 0 must exist if something is placed there
    let n_mdat = n_mdat.max(items.iter().filter_map(|i| match i.place { Some(Where::Mdat(m)) => Some(m + 1), _ => None }).max().unwrap_or(0));
    // an item described by a part of another item, an item in another file
    let mut extra_refs: Vec<([u8; 4], u32, Vec<u32>)> = vec![];
    let dinf = s.chance(1, 3);
    if iloc_v > 0 && !base_only && s.chance(1, 6) {
        ctx.label("HEIF: item inside another item");
        let target = &items[s.usize(0, n_img - 1)];
        let total: usize = target.extents.iter().map(|e| e.len()).sum();
        let o = s.usize(0, total - 1); let l = s.usize(1, total - o);
        let (tid, id) = (target.id, new_id(s, &mut used));
        extra_refs.push((*b"iloc", id, vec![tid]));
        items.push(Item { id, typ: *b"iden", name: vec![], tail: vec![], flags: 0, exif: false, place: None, extents: vec![], refs_item: Some((tid, vec![(1, o as u64, l as u64)])), external: None, prot: 0, old: false });
        order.push(items.len() - 1);
    }
    if dinf && !base_only && s.chance(1, 4) {
        ctx.label("HEIF: item in another file");
        let id = new_id(s, &mut used);
        let num = |s: &mut Src, w: usize| if w == 0 { 0 } else if s.chance(1, 3) { if w == 8 { s.draw(u64::MAX) } else { s.draw(u32::MAX as u64) } } else { s.draw(5000) };
        let mut e = External { dref: if s.bool() { 1 } else { s.u16().clamp(1, 300) }, base: num(s, base_w), extents: vec![] };
        for k in 0..s.int(0, 3) { e.extents.push((if s.bool() { k + 1 } else { num(s, idx_w) }, num(s, off_w), num(s, len_w))); }
        items.push(Item { id, typ: *b"hvc1", name: vec![], tail: vec![], flags: 0, exif: false, place: None, extents: vec![], refs_item: None, external: Some(e), prot: 0, old: false });
        order.push(items.len() - 1);
    }
    if s.chance(1, 8) { ctx.label("HEIF: item without location"); let id = new_id(s, &mut used); items.push(Item { id, typ: *b"grid", name: vec![], tail: vec![], flags: 0, exif: false, place: Some(Where::Idat), extents: vec![], refs_item: None, external: None, prot: 0, old: false }); order.push(items.len() - 1); }
    if s.chance(1, 12) { ctx.label("HEIF: item that is not in the iloc box"); let id = new_id(s, &mut used); items.push(Item { id, typ: *b"iden", name: vec![], tail: vec![], flags: 0, exif: false, place: None, extents: vec![], refs_item: None, external: None, prot: 0, old: false }); order.push(items.len() - 1); }
    let crowd = iloc_v == 2 && s.chance(1, 15_000);
    if crowd {
        ctx.label("HEIF: more than 65000 items");
        let first = used.iter().max().unwrap() + 1; let n = 65_500 + s.usize(0, 80);
        for k in 0..n { items.push(Item { id: first + k as u32, typ: *b"hvc1", name: vec![], tail: vec![], flags: 0, exif: false, place: Some(Where::Idat), extents: vec![], refs_item: None, external: None, prot: 0, old: false }); order.push(items.len() - 1); }
        used.push(first + n as u32);
    }
    if order.len() > 1 && items.iter().any(|i| i.exif) && items[*order.last().unwrap()].exif { ctx.label("HEIF: Exif item last in the list"); }
    let primary = items[s.usize(0, n_img - 1)].id;
    let max_id = *used.iter().max().unwrap();
    // groups of entities, numbered together with the items
    let mut groups: Vec<([u8; 4], u32, Vec<u32>)> = vec![];
    if s.chance(1, 8) {
        ctx.label("HEIF: entity groups");
        for _ in 0..s.int(0, 3) {
            let id = loop { let i = match s.draw(2) { 0 => used.iter().max().unwrap().saturating_add(1), 1 => s.int(1, 70_000) as u32, _ => s.int(1, 20) as u32 }; if !used.contains(&i) { break i; } };
            used.push(id);
            let to = (0..s.usize(0, 3)).map(|_| items[s.usize(0, items.len() - 1)].id).collect();
            groups.push((**s.pick(&[b"altr", b"ster", b"pymd", b"brst"]), id, to));
        }
    }
    // ---- contents of mdat and idat: pieces in random order with gaps
    let mut bodies: Vec<(Vec<u8>, BTreeMap<(usize, usize), usize>)> = vec![];
    for w in (0..n_mdat).map(Where::Mdat).chain([Where::Idat]) {
        let mut ps: Vec<(usize, usize)> = items.iter().enumerate().filter(|i| i.1.place == Some(w)).flat_map(|(i, it)| (0..it.extents.len()).map(move |e| (i, e))).collect();
        for i in (1..ps.len()).rev() { let j = s.usize(0, i); ps.swap(i, j); }
        let mut body = vec![]; let mut at = BTreeMap::new();
        let gaps = s.chance(1, 3);
        for p in ps { if gaps && s.bool() { let n = s.usize(1, 9); body.extend(s.blob(n)); } at.insert(p, body.len()); body.extend_from_slice(&items[p.0].extents[p.1]); }
        if gaps && s.bool() { let n = s.usize(1, 9); body.extend(s.blob(n)); }
        bodies.push((body, at));
    }
    // ---- movie with chunk offsets into the first mdat
    let moov = n_mdat > 0 && s.chance(1, 6);
    let (samples, co64) = if moov {
        ctx.label("HEIF: movie box");
        let k = if s.chance(1, 100) { s.usize(200, 600) } else { s.usize(0, 3) };
        let b = &mut bodies[0].0; let mut v = vec![];
        for _ in 0..k { v.push(b.len()); b.extend(s.blob(16)); }
        (v, s.bool())
    } else { (vec![], false) };
    let tracks = if moov { s.usize(1, 3) } else { 0 };
    let has_idat = !bodies[n_mdat].0.is_empty() || s.chance(1, 8);
    // ---- order of boxes
    #[derive(Clone, Copy, PartialEq, Debug)] enum T { Ftyp, Meta, Mdat(usize), Moov, Free(usize), Uuid, Other([u8; 4]) }
    let mut top: Vec<T> = vec![T::Meta];
    for m in 0..n_mdat { let i = if s.chance(1, 3) { s.usize(0, top.len()) } else { top.len() }; top.insert(i, T::Mdat(m)); }
    if moov { let i = s.usize(0, top.len()); top.insert(i, T::Moov); }
    if s.chance(1, 4) { let i = s.usize(0, top.len()); let n = s.usize(0, 12); top.insert(i, T::Free(n)); }
    if s.chance(1, 6) { let i = s.usize(0, top.len()); top.insert(i, T::Uuid); }
    let other = |s: &mut Src| *s.pick(&[*b"skip", *b"abcd", [0xa9, b'x', b'y', b'z'], [0; 4], *b"Exif", *b"META", [0xff, 0xff, 0xff, 0xff], *b"infe", *b"stco"]);
    if s.chance(1, 8) { let i = s.usize(0, top.len()); let n = other(s); top.insert(i, T::Other(n)); }
    if top[0] != T::Meta { ctx.label("HEIF: data before the meta box"); }
    top.insert(0, T::Ftyp);
    #[derive(Clone, Copy, PartialEq, Debug)] enum M { Hdlr, Pitm, Iloc, Iinf, Iref, Iprp, Idat, Dinf, Free, Grpl, Other([u8; 4]) }
    let mut mk: Vec<M> = vec![M::Pitm, M::Iloc, M::Iinf];
    let infe_v3 = max_id > 65_535;
    let mut refs: Vec<([u8; 4], u32, Vec<u32>)> = extra_refs;
    for it in items.iter().filter(|i| i.exif) { if s.chance(4, 5) { refs.push((*b"cdsc", it.id, vec![primary])); } }
    if s.chance(1, 3) && n_img > 1 { let f = items[0].id; let t: Vec<u32> = (1..n_img).map(|i| items[i].id).collect(); refs.push((**s.pick(&[b"dimg", b"thmb", b"auxl"]), f, t)); }
    for i in (1..refs.len()).rev() { let j = s.usize(0, i); refs.swap(i, j); }
    let has_iref = !refs.is_empty() || s.chance(1, 5);
    if has_iref { mk.push(M::Iref); } else { ctx.label("HEIF: no iref box"); }
    let has_iprp = s.chance(3, 4);
    if has_iprp { mk.push(M::Iprp); }
    if has_idat { mk.push(M::Idat); ctx.label("HEIF: idat box"); }
    if dinf { mk.push(M::Dinf); }
    if s.chance(1, 8) { mk.push(M::Free); }
    if !groups.is_empty() { mk.push(M::Grpl); }
    if s.chance(1, 8) { let n = other(s); mk.push(M::Other(n)); }
    if s.chance(1, 2) { for i in (1..mk.len()).rev() { let j = s.usize(0, i); mk.swap(i, j); } }
    mk.insert(0, M::Hdlr);
    // forms of the headers
    let last_is_mdat = matches!(top.last(), Some(T::Mdat(_)));
    let mforms: Vec<u8> = (0..n_mdat).map(|m| if last_is_mdat && top.last() == Some(&T::Mdat(m)) && s.chance(1, 6) { ctx.label("HEIF: open-ended mdat"); 2 } else if s.chance(1, 8) { ctx.label("HEIF: 64-bit mdat"); 1 } else { 0 }).collect();
    let meta_form = if s.chance(1, 12) { 1u8 } else { 0 };
    let sub_form = if s.chance(1, 12) { 1u8 } else { 0 };
    let iref_v = if max_id > 65_535 { 1 } else { s.draw(1) as u8 };
    let iinf_v = if crowd { 1 } else { s.draw(1) as u8 };
    let pitm_v = if primary > 65_535 || s.chance(1, 10) { 1 } else { 0 };
    let brand = *s.pick(&[b"heic", b"mif1", b"avif", b"heix", b"msf1", b"hevc", b"avis", b"heif"]);
    let minor = if s.chance(1, 8) { s.draw(u32::MAX as u64) as u32 } else { 0 };
    let brands = match s.weighted(&[12, 2, 1]) { 0 => 2, 1 => s.usize(0, 6), _ => s.usize(55, 70) };
    let ipma_v = if max_id > 65_535 { 1u8 } else { s.draw(1) as u8 }; let ipma_wide = s.chance(1, 4);
    let seedprops = s.draw(1000);
    // ---- base offsets per item are chosen once, relative to the smallest position
    let base_pick: Vec<u64> = items.iter().map(|_| s.draw(3)).collect();
    // ---- assemble with given positions; sizes do not depend on them
    let infe = |it: &Item| -> Vec<u8> {
        let mut d = vec![];
        let v = if it.old && !infe_v3 { it.flags as u8 & 1 } else if it.id > 65_535 || infe_v3 { 3 } else { 2 };
        put(&mut d, it.id as u64, if v == 3 { 4 } else { 2 }); put(&mut d, it.prot as u64, 2); if v >= 2 { d.extend_from_slice(&it.typ); } d.extend_from_slice(&it.name); d.push(0); if v >= 2 { d.extend_from_slice(&it.tail); } else { d.extend_from_slice(b"image/x\0"); }
        let mut o = vec![]; full(&mut o, b"infe", v, it.flags, &d, 0); o
    };
    let assemble = |mdat_at: &[usize]| -> (Vec<u8>, Vec<usize>) {
        let mut out = vec![]; let mut starts = vec![0usize; n_mdat];
        for t in &top {
            match t {
                T::Ftyp => { let mut d = brand.to_vec(); d.extend_from_slice(&minor.to_be_bytes()); for i in 0..brands { d.extend_from_slice([b"mif1", b"heic", b"miaf", b"MiHB", b"MA1B"][i % 5]); } boxed(&mut out, b"ftyp", &d, 0); }
                T::Free(n) => boxed(&mut out, b"free", &vec![0x5a; *n], 0),
                T::Other(n) => boxed(&mut out, n, b"other box\0\0\0", 0),
                T::Uuid => boxed(&mut out, b"uuid", b"0123456789abcdefExif\0\0II*\0", 0),
                T::Mdat(m) => { let h = if mforms[*m] == 1 { 16 } else { 8 }; starts[*m] = out.len() + h; boxed(&mut out, b"mdat", &bodies[*m].0, mforms[*m]); }
                T::Moov => {
                    let mut moov = vec![]; full(&mut moov, b"mvhd", 0, 0, &[0; 96], 0);
                  for track in 0..tracks {
                    let co64 = co64 ^ (track == 1);
                    let samples: Vec<usize> = samples.iter().skip(track * 2).copied().collect();
                    let mut st = vec![]; put(&mut st, samples.len() as u64, 4);
                    for x in &samples { put(&mut st, (mdat_at[0] + x) as u64, if co64 { 8 } else { 4 }); }
                    let mut stbl = vec![]; full(&mut stbl, b"stsd", 0, 0, &[0, 0, 0, 0], 0); full(&mut stbl, if co64 { b"co64" } else { b"stco" }, 0, 0, &st, 0);
                    let mut b = vec![]; boxed(&mut b, b"stbl", &stbl, 0);
                    for n in [b"minf", b"mdia"] { let mut o = vec![]; boxed(&mut o, n, &b, 0); b = o; }
                    let mut trak = vec![]; full(&mut trak, b"tkhd", 0, 3, &[0; 80], 0); trak.extend(b);
                    boxed(&mut moov, b"trak", &trak, if co64 && track > 0 { 1 } else { 0 });
                  }
                    boxed(&mut out, b"moov", &moov, 0);
                }
                T::Meta => {
                    let mut d = vec![];
                    for k in &mk {
                        match k {
                            M::Hdlr => full(&mut d, b"hdlr", 0, 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0", 0),
                            M::Other(n) => boxed(&mut d, n, b"other\0\0\0\x01", 0),
                            M::Free => boxed(&mut d, b"free", b"meta free", 0),
                            M::Grpl => { let mut x = vec![]; for (n, id, to) in &groups { let mut y = id.to_be_bytes().to_vec(); y.extend((to.len() as u32).to_be_bytes()); for i in to { y.extend(i.to_be_bytes()); } full(&mut x, n, 0, 0, &y, 0); } boxed(&mut d, b"grpl", &x, 0); }
                            M::Dinf => { let mut u = vec![]; full(&mut u, b"url ", 0, 0, b"other.heic\0", 0); let k = items.iter().filter_map(|i| i.external.as_ref()).map(|e| e.dref).max().unwrap_or(1).min(300) as u32; let mut r = k.to_be_bytes().to_vec(); for _ in 0..k { r.extend(&u); } let mut x = vec![]; full(&mut x, b"dref", 0, 0, &r, 0); boxed(&mut d, b"dinf", &x, 0); }
                            M::Pitm => { let mut x = vec![]; put(&mut x, primary as u64, if pitm_v == 1 { 4 } else { 2 }); full(&mut d, b"pitm", pitm_v, 0, &x, 0); }
                            M::Idat => boxed(&mut d, b"idat", &bodies[n_mdat].0, sub_form),
                            M::Iinf => { let mut x = vec![]; put(&mut x, items.len() as u64, if iinf_v == 0 { 2 } else { 4 }); for i in &order { x.extend(infe(&items[*i])); } full(&mut d, b"iinf", iinf_v, 0, &x, sub_form); }
                            M::Iref => { let mut x = vec![]; let w = if iref_v == 0 { 2 } else { 4 }; for (t, f, to) in &refs { let mut y = vec![]; put(&mut y, *f as u64, w); put(&mut y, to.len() as u64, 2); for i in to { put(&mut y, *i as u64, w); } boxed(&mut x, t, &y, 0); } full(&mut d, b"iref", iref_v, 0, &x, 0); }
                            M::Iprp => {
                                let mut co = vec![]; full(&mut co, b"ispe", 0, 0, &[0, 0, 0, 64, 0, 0, 0, 48], 0); boxed(&mut co, b"irot", &[1], 0); boxed(&mut co, b"hvcC", &expand(seedprops, 20), 0);
                                let mut x = vec![]; boxed(&mut x, b"ipco", &co, 0);
                                let mut a = vec![]; put(&mut a, n_img as u64, 4);
                                for it in items.iter().take(n_img) { put(&mut a, it.id as u64, if ipma_v == 0 { 2 } else { 4 }); a.push(2); for p in [1u16, 3] { if ipma_wide { a.extend_from_slice(&(p | 0x8000).to_be_bytes()); } else { a.push(p as u8 | 0x80); } } }
                                full(&mut x, b"ipma", ipma_v, ipma_wide as u32, &a, 0);
                                boxed(&mut d, b"iprp", &x, 0);
                            }
                            M::Iloc => {
                                let mut x = vec![(off_w << 4 | len_w) as u8, (base_w << 4 | idx_w) as u8];
                                let located = |it: &Item| it.place.is_some() || it.refs_item.is_some() || it.external.is_some();
                                put(&mut x, items.iter().filter(|i| located(i)).count() as u64, if iloc_v < 2 { 2 } else { 4 });
                                for i in order.iter().rev() {
                                    let it = &items[*i];
                                    if !located(it) { continue; }
                                    put(&mut x, it.id as u64, if iloc_v < 2 { 2 } else { 4 });
                                    let method = if it.refs_item.is_some() { 2 } else if it.place == Some(Where::Idat) { 1 } else { 0 };
                                    if iloc_v > 0 { put(&mut x, method, 2); }
                                    put(&mut x, it.external.as_ref().map_or(0, |e| e.dref as u64), 2);
                                    let ex: Vec<(u64, u64, u64)> = if let Some((_, e)) = &it.refs_item { e.clone() } else if let Some(e) = &it.external { e.extents.clone() } else {
                                        it.extents.iter().enumerate().map(|(e, b)| { let o = match it.place { Some(Where::Mdat(m)) => mdat_at[m] + bodies[m].1[&(*i, e)], _ => bodies[n_mdat].1[&(*i, e)] }; (e as u64 + 1, o as u64, b.len() as u64) }).collect()
                                    };
                                    let mn = ex.iter().map(|e| e.1).min().unwrap_or(0);
                                    let base = if let Some(e) = &it.external { e.base } else if base_w == 0 || it.refs_item.is_some() { 0 } else if off_w == 0 { mn } else { match base_pick[*i] { 0 => 0, 1 => mn, 2 => mn / 2, _ => match it.place { Some(Where::Mdat(m)) => mdat_at[m].min(mn as usize) as u64, _ => 0 } } };
                                    put(&mut x, base, base_w);
                                    put(&mut x, ex.len() as u64, 2);
                                    for (ix, o, l) in ex { put(&mut x, if idx_w > 0 { ix } else { 0 }, idx_w); put(&mut x, if it.external.is_some() { o } else { o - base }, off_w); put(&mut x, l, len_w); }
                                }
                                full(&mut d, b"iloc", iloc_v, 0, &x, sub_form);
                            }
                        }
                    }
                    full(&mut out, b"meta", 0, 0, &d, meta_form);
                }
            }
        }
        (out, starts)
    };
    let (_, starts) = assemble(&vec![0; n_mdat]);
    assemble(&starts).0
}

// ------------------------------------------------------------------ parser
#[derive(Debug, Clone)]
pub struct Loc { pub method: u16, pub dref: u16, pub base: u64, pub extents: Vec<(u64, u64, u64)> }
pub struct Info { pub typ: [u8; 4], pub raw: Vec<u8> }
pub struct Parsed {
    pub items: BTreeMap<u32, Info>,
    pub order: Vec<u32>,
    pub locs: BTreeMap<u32, Loc>,
    pub refs: Vec<([u8; 4], u32, Vec<u32>)>,
    pub primary: Option<u32>,
    pub idat: Option<(usize, usize)>,
    pub view: View,
    pub exif_ids: Vec<u32>,
    pub exif_raw: Vec<Vec<u8>>,
}
struct B { name: [u8; 4], data: (usize, usize), raw: (usize, usize) }
fn boxes(b: &[u8], from: usize, to: usize, what: &str) -> Result<Vec<B>, String> {
    let mut i = from; let mut v = vec![];
    while i < to {
        if i + 8 > to { return Err(format!("{what}: {} stray bytes at {i}", to - i)); }
        let sz = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as u64;
        let (h, end) = match sz { 0 if what == "file" => (8, to as u64), 1 => { if i + 16 > to { return Err("64-bit size".into()); } (16, (i as u64).checked_add(u64::from_be_bytes(b[i + 8..i + 16].try_into().unwrap())).ok_or("size")?) } n => (8, i as u64 + n) };
        if end > to as u64 || end < (i + h) as u64 { return Err(format!("{what}: box {} at {i} ends at {end}, available {to}", String::from_utf8_lossy(&b[i + 4..i + 8]))); }
        v.push(B { name: b[i + 4..i + 8].try_into().unwrap(), data: (i + h, end as usize), raw: (i, end as usize) });
        i = end as usize;
    }
    Ok(v)
}
struct R<'a> { b: &'a [u8], i: usize, end: usize, what: &'static str }
impl R<'_> {
    fn n(&mut self, w: usize) -> Result<u64, String> { if self.i + w > self.end { return Err(format!("{} is too short", self.what)); } let mut v = 0u64; for k in 0..w { v = v << 8 | self.b[self.i + k] as u64; } self.i += w; Ok(v) }
    fn done(&self) -> Result<(), String> { if self.i == self.end { Ok(()) } else { Err(format!("{} has {} extra bytes", self.what, self.end - self.i)) } }
}
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let top = boxes(b, 0, b.len(), "file")?;
    if top.first().map(|t| t.name) != Some(*b"ftyp") { return Err("no ftyp box".into()); }
    let meta = top.iter().find(|t| &t.name == b"meta").ok_or("no meta box")?;
    if meta.data.1 < meta.data.0 + 4 { return Err("meta box".into()); }
    let sub = boxes(b, meta.data.0 + 4, meta.data.1, "meta")?;
    let mut p = Parsed { items: BTreeMap::new(), order: vec![], locs: BTreeMap::new(), refs: vec![], primary: None, idat: None, view: View::default(), exif_ids: vec![], exif_raw: vec![] };
    let mut seen: Vec<[u8; 4]> = vec![];
    for x in &sub {
        let (d0, d1) = x.data;
        if matches!(&x.name, b"iloc" | b"iinf" | b"iref" | b"pitm" | b"idat") { if seen.contains(&x.name) { return Err(format!("second {} box", String::from_utf8_lossy(&x.name))); } seen.push(x.name); }
        match &x.name {
            b"idat" => p.idat = Some(x.data),
            b"pitm" => { let mut r = R { b, i: d0, end: d1, what: "pitm" }; let v = r.n(1)?; r.n(3)?; p.primary = Some(r.n(if v == 0 { 2 } else { 4 })? as u32); r.done()?; }
            b"iinf" => {
                let mut r = R { b, i: d0, end: d1, what: "iinf" };
                let v = r.n(1)?; r.n(3)?; let n = r.n(if v == 0 { 2 } else { 4 })?;
                let es = boxes(b, r.i, d1, "iinf")?;
                if es.len() as u64 != n { return Err(format!("iinf states {n} entries and has {}", es.len())); }
                for e in es {
                    if &e.name != b"infe" { return Err("iinf entry".into()); }
                    let mut r = R { b, i: e.data.0, end: e.data.1, what: "infe" };
                    let v = r.n(1)?; let f = r.n(3)?; if v > 3 { return Err("infe version".into()); }
                    let id = r.n(if v < 3 { 2 } else { 4 })? as u32; let prot = r.n(2)?; let typ = if v < 2 { *b"none" } else { (r.n(4)? as u32).to_be_bytes() };
                    let rest = b[r.i..r.end].to_vec();
                    if !rest.contains(&0) { return Err(format!("name of item {id} is not terminated")); }
                    let mut raw = vec![f as u8]; if v < 2 { raw.push(v as u8); } raw.extend_from_slice(&(prot as u16).to_be_bytes()); raw.extend(rest);
                    if p.items.insert(id, Info { typ, raw }).is_some() { return Err(format!("item {id} twice in iinf")); }
                    p.order.push(id);
                }
            }
            b"iref" => {
                let v = b[d0];
                for e in boxes(b, d0 + 4, d1, "iref")? {
                    let w = if v == 0 { 2 } else { 4 };
                    let mut r = R { b, i: e.data.0, end: e.data.1, what: "reference" };
                    let f = r.n(w)? as u32; let n = r.n(2)?; let mut to = vec![]; for _ in 0..n { to.push(r.n(w)? as u32); } r.done()?;
                    p.refs.push((e.name, f, to));
                }
            }
            b"iloc" => {
                let mut r = R { b, i: d0, end: d1, what: "iloc" };
                let v = r.n(1)?; r.n(3)?; if v > 2 { return Err("iloc version".into()); }
                let a = r.n(1)? as usize; let c = r.n(1)? as usize;
                let (ow, lw, bw, iw) = (a >> 4, a & 15, c >> 4, if v > 0 { c & 15 } else { 0 });
                for w in [ow, lw, bw, iw] { if ![0, 4, 8].contains(&w) { return Err("iloc field width".into()); } }
                for _ in 0..r.n(if v < 2 { 2 } else { 4 })? {
                    let id = r.n(if v < 2 { 2 } else { 4 })? as u32;
                    let method = if v > 0 { r.n(2)? as u16 & 15 } else { 0 };
                    let dref = r.n(2)? as u16; let base = r.n(bw)?;
                    let mut extents = vec![];
                    for _ in 0..r.n(2)? { let ix = r.n(iw)?; let o = r.n(ow)?; let l = r.n(lw)?; extents.push((ix, o, l)); }
                    if p.locs.insert(id, Loc { method, dref, base, extents }).is_some() { return Err(format!("item {id} twice in iloc")); }
                }
                r.done()?;
            }
            _ => {}
        }
    }
    // ---- resolve
    let mut exif_ranges: Vec<(usize, usize)> = vec![];
    let mut parts: Vec<(String, Vec<u8>)> = vec![];
    let ids: Vec<u32> = p.items.keys().copied().collect();
    for id in &ids {
        let typ = p.items[id].typ;
        let r = resolve(b, &p, *id, 0)?;
        if &typ == b"Exif" {
            let Some(rs) = r else { return Err("Exif item in another file".into()) };
            let d: Vec<u8> = rs.iter().flat_map(|x| b[x.0..x.1].to_vec()).collect();
            let off = u32::from_be_bytes(d.get(..4).ok_or(format!("Exif item {id} has {} bytes", d.len()))?.try_into().unwrap()) as usize;
            p.view.exif.push(d.get(4 + off..).ok_or("TIFF header offset outside the Exif item")?.to_vec());
            p.exif_ids.push(*id); p.exif_raw.push(d);
            exif_ranges.extend(rs);
        } else {
            let what = format!("item {id} {}", String::from_utf8_lossy(&typ));
            let mut d = p.items[id].raw.clone(); d.extend_from_slice(b"//");
            match r { Some(rs) => for x in rs { d.extend_from_slice(&b[x.0..x.1]); }, None => d.extend(format!("{:?}", p.locs[id]).bytes()) }
            parts.push((what, d));
        }
    }
    for g in sub.iter().filter(|x| &x.name == b"grpl") {
        for e in boxes(b, g.data.0, g.data.1, "grpl")? {
            let mut r = R { b, i: e.data.0 + 4, end: e.data.1, what: "entity group" };
            let id = r.n(4)? as u32;
            if p.items.contains_key(&id) { return Err(format!("{id} is the number of an item and of an entity group")); }
        }
    }
    for id in p.locs.keys() { if !p.items.contains_key(id) { return Err(format!("item {id} is located but not described")); } }
    parts.push(("order of items".into(), format!("{:?}", p.order.iter().filter(|i| &p.items[i].typ != b"Exif").collect::<Vec<_>>()).into_bytes()));
    parts.push(("references".into(), format!("{:?}", p.refs.iter().filter(|r| !p.exif_ids.contains(&r.1)).collect::<Vec<_>>()).into_bytes()));
    parts.push(("primary item".into(), format!("{:?}", p.primary).into_bytes()));
    for x in &sub { if !matches!(&x.name, b"iloc" | b"iinf" | b"iref" | b"pitm" | b"idat") { parts.push((format!("meta/{}", String::from_utf8_lossy(&x.name)), b[x.raw.0..x.raw.1].to_vec())); } }
    if let Some(r) = p.idat { let d = minus(b, r, &exif_ranges); if !d.is_empty() { parts.push(("idat".into(), d)); } }
    for t in &top {
        let name = String::from_utf8_lossy(&t.name).into_owned();
        match &t.name {
            b"mdat" => { let d = minus(b, t.data, &exif_ranges); if !d.is_empty() { parts.push((name, d)); } }
            b"meta" => parts.push((name, vec![])),
            b"moov" => { let mut o = vec![]; movie(b, t.data, &mut o)?; parts.push((name, o)); }
            _ => parts.push((name, b[t.raw.0..t.raw.1].to_vec())),
        }
    }
    p.view.parts = parts;
    Ok(p)
}
fn minus(b: &[u8], r: (usize, usize), cut: &[(usize, usize)]) -> Vec<u8> { (r.0..r.1).filter(|i| !cut.iter().any(|c| c.0 <= *i && *i < c.1)).map(|i| b[i]).collect() }
/// the movie with every chunk offset replaced by the 16 bytes it points to
fn movie(b: &[u8], r: (usize, usize), o: &mut Vec<u8>) -> Result<(), String> {
    for x in boxes(b, r.0, r.1, "moov")? {
        o.extend_from_slice(&x.name);
        match &x.name {
            b"trak" | b"mdia" | b"minf" | b"stbl" => movie(b, x.data, o)?,
            b"stco" | b"co64" => {
                let w = if &x.name == b"stco" { 4 } else { 8 };
                let mut r = R { b, i: x.data.0 + 4, end: x.data.1, what: "chunk offsets" };
                for _ in 0..r.n(4)? { let p = r.n(w)? as usize; o.extend_from_slice(b.get(p..p + 16).ok_or(format!("chunk offset {p} outside the file"))?); }
                r.done()?;
            }
            _ => o.extend_from_slice(&b[x.data.0..x.data.1]),
        }
    }
    Ok(())
}
/// the ranges of the file an item consists of; None if it lies in another file
fn resolve(b: &[u8], p: &Parsed, id: u32, depth: u32) -> Result<Option<Vec<(usize, usize)>>, String> {
    if depth > 4 { return Err("items refer to each other".into()); }
    let Some(l) = p.locs.get(&id) else { return Ok(Some(vec![])) };
    if l.dref != 0 { return Ok(None); }
    let mut out = vec![];
    match l.method {
        0 | 1 => {
            let (start, end) = if l.method == 0 { (0u64, b.len() as u64) } else if l.extents.is_empty() { (0, 0) } else { let r = p.idat.ok_or(format!("item {id} lies in an idat box that does not exist"))?; (r.0 as u64, r.1 as u64) };
            for (_, o, n) in &l.extents {
                let a = start.checked_add(l.base).and_then(|x| x.checked_add(*o)).ok_or("offset")?;
                let e = a.checked_add(*n).ok_or("length")?;
                if e > end { return Err(format!("item {id} [{a}..{e}) lies outside [{start}..{end})")); }
                out.push((a as usize, e as usize));
            }
        }
        2 => {
            for (ix, o, n) in &l.extents {
                let k = (*ix).max(1) as usize - 1;
                let to: Vec<u32> = p.refs.iter().filter(|r| &r.0 == b"iloc" && r.1 == id).flat_map(|r| r.2.clone()).collect();
                let t = *to.get(k).ok_or(format!("item {id} refers to missing item"))?;
                let Some(rs) = resolve(b, p, t, depth + 1)? else { return Ok(None) };
                let flat: Vec<usize> = rs.iter().flat_map(|r| r.0..r.1).collect();
                let a = (l.base + o) as usize; let e = a + *n as usize;
                let f = flat.get(a..e).ok_or(format!("item {id} refers outside item {t}"))?;
                for i in f { out.push((*i, *i + 1)); }
            }
        }
        m => return Err(format!("construction method {m}")),
    }
    Ok(Some(out))
}
pub fn view(b: &[u8]) -> Result<View, String> { parse(b).map(|p| p.view) }

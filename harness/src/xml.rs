//! A small well-formedness-checking XML reader (no DTD processing), the model
//! of "remove what has the exif prefix", and a generator of XMP packets.
use crate::engine::*;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    /// text, whether it directly follows a removed element
    Text(String, bool),
    Comment(String),
    Pi(String),
    Decl(String),
    Doctype(String),
    Elem(String, Vec<(String, String)>, Vec<Node>),
}
fn unescape(t: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut r = t;
    while let Some(i) = r.find('&') {
        o.push_str(&r[..i]);
        let e = r[i..].find(';').ok_or("entity without ;")? + i;
        let n = &r[i + 1..e];
        match n {
            "lt" => o.push('<'), "gt" => o.push('>'), "amp" => o.push('&'), "apos" => o.push('\''), "quot" => o.push('"'),
            _ if n.starts_with("#x") => o.push(u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or("bad reference")?),
            _ if n.starts_with('#') => o.push(n[1..].parse().ok().and_then(char::from_u32).ok_or("bad reference")?),
            _ => return Err(format!("unknown entity {n}")),
        }
        r = &r[e + 1..];
    }
    o.push_str(r);
    Ok(o)
}
fn is_name(n: &str) -> bool { !n.is_empty() && n.chars().enumerate().all(|(i, c)| c.is_alphabetic() || c == '_' || c == ':' || (i > 0 && (c.is_ascii_digit() || c == '-' || c == '.' || c == '\u{b7}'))) }
fn push_text(v: &mut Vec<Node>, t: String) {
    if t.is_empty() { return; }
    v.push(Node::Text(t, false));
}
pub fn parse(b: &[u8]) -> Result<Vec<Node>, String> {
    let t = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Node>)> = vec![(String::new(), vec![], vec![])];
    let mut i = 0;
    while i < t.len() {
        let r = &t[i..];
        let top = &mut stack.last_mut().unwrap().2;
        if !r.starts_with('<') {
            let e = r.find('<').unwrap_or(r.len());
            if r[..e].contains("]]>") { return Err("]]> in text".into()); }
            push_text(top, unescape(&r[..e])?); i += e; continue;
        }
        if let Some(x) = r.strip_prefix("<!--") { let e = x.find("-->").ok_or("comment not closed")?; if x[..e].contains("--") { return Err("-- in comment".into()); } top.push(Node::Comment(x[..e].into())); i += e + 7; continue; }
        if let Some(x) = r.strip_prefix("<![CDATA[") { let e = x.find("]]>").ok_or("CDATA not closed")?; if e > 0 { top.push(Node::Text(x[..e].to_string(), false)); } i += e + 12; continue; }
        if let Some(x) = r.strip_prefix("<!DOCTYPE") { let e = x.find('>').ok_or("doctype not closed")?; top.push(Node::Doctype(x[..e].trim().into())); i += e + 10; continue; }
        if let Some(x) = r.strip_prefix("<?") { let e = x.find("?>").ok_or("processing instruction not closed")?; let n = if x.starts_with("xml ") { Node::Decl(x[..e].into()) } else { Node::Pi(x[..e].into()) }; top.push(n); i += e + 4; continue; }
        if let Some(x) = r.strip_prefix("</") {
            let e = x.find('>').ok_or("end tag not closed")?;
            let n = x[..e].trim_end();
            let (name, a, c) = stack.pop().unwrap();
            if stack.is_empty() || name != n { return Err(format!("end tag {n} for {name}")); }
            stack.last_mut().unwrap().2.push(Node::Elem(name, a, c)); i += e + 3; continue;
        }
        // start tag
        let mut j = 1;
        let b = r.as_bytes();
        while j < b.len() && !matches!(b[j], b' ' | b'\t' | b'\n' | b'\r' | b'/' | b'>') { j += 1; }
        let name = r[1..j].to_string();
        if !is_name(&name) { return Err(format!("bad element name {name:?}")); }
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let ws = j;
            while j < b.len() && matches!(b[j], b' ' | b'\t' | b'\n' | b'\r') { j += 1; }
            match b.get(j) {
                Some(b'>') => { j += 1; stack.push((name, attrs, vec![])); break; }
                Some(b'/') => { if b.get(j + 1) != Some(&b'>') { return Err("stray /".into()); } j += 2; stack.last_mut().unwrap().2.push(Node::Elem(name, attrs, vec![])); break; }
                None => return Err("tag not closed".into()),
                _ => {}
            }
            if ws == j { return Err("no space before attribute".into()); }
            let k = j;
            while j < b.len() && !matches!(b[j], b' ' | b'\t' | b'\n' | b'\r' | b'=' | b'>' | b'/' | b'<' | b'"') { j += 1; }
            let an = r[k..j].to_string();
            while j < b.len() && matches!(b[j], b' ' | b'\t' | b'\n' | b'\r') { j += 1; }
            if b.get(j) != Some(&b'=') || !is_name(&an) { return Err(format!("bad attribute {an:?}")); }
            j += 1;
            while j < b.len() && matches!(b[j], b' ' | b'\t' | b'\n' | b'\r') { j += 1; }
            let q = match b.get(j) { Some(b'"') => '"', Some(b'\'') => '\'', _ => return Err("attribute value not quoted".into()) };
            let e = r[j + 1..].find(q).ok_or("attribute value not closed")? + j + 1;
            let v = &r[j + 1..e];
            if v.contains('<') { return Err("< in attribute value".into()); }
            if attrs.iter().any(|a| a.0 == an) { return Err(format!("attribute {an} twice")); }
            attrs.push((an, unescape(v)?));
            j = e + 1;
        }
        i += j;
    }
    if stack.len() != 1 { return Err(format!("element {} not closed", stack.last().unwrap().0)); }
    Ok(stack.pop().unwrap().2)
}
fn is_exif(n: &str) -> bool { n.starts_with("exif:") }
/// The infoset without what has the exif prefix. Text directly behind a
/// removed element is marked.
pub fn filter(v: &[Node]) -> Vec<Node> {
    let mut o: Vec<Node> = vec![];
    let mut after = false;
    for n in v {
        match n {
            Node::Elem(name, _, _) if is_exif(name) => { after = true; continue; }
            Node::Elem(name, a, c) => o.push(Node::Elem(name.clone(), a.iter().filter(|x| !is_exif(&x.0)).cloned().collect(), filter(c))),
            Node::Text(t, _) => o.push(Node::Text(t.clone(), after && t.trim().is_empty())),
            x => o.push(x.clone()),
        }
        after = false;
    }
    o
}
pub fn has_exif(v: &[Node]) -> bool { v.iter().any(|n| match n { Node::Elem(name, a, c) => is_exif(name) || a.iter().any(|x| is_exif(&x.0)) || has_exif(c), _ => false }) }
fn text_match(pieces: &[(String, bool)], got: &str) -> bool {
    match pieces.split_first() {
        None => got.is_empty(),
        Some(((t, opt), r)) => got.strip_prefix(t.as_str()).is_some_and(|g| text_match(r, g)) || (*opt && text_match(r, got)),
    }
}
/// Compares the filtered expectation with what was found.
pub fn matches(exp: &[Node], got: &[Node]) -> Result<(), String> {
    let (mut i, mut j) = (0, 0);
    loop {
        let mut pieces = vec![];
        while let Some(Node::Text(t, o)) = exp.get(i) { pieces.push((t.clone(), *o)); i += 1; }
        let mut text = String::new();
        while let Some(Node::Text(t, _)) = got.get(j) { text.push_str(t); j += 1; }
        if !text_match(&pieces, &text) { return Err(format!("text {:?} became {text:?}", pieces.iter().map(|p| p.0.as_str()).collect::<String>())); }
        match (exp.get(i), got.get(j)) {
            (None, None) => return Ok(()),
            (Some(Node::Elem(n, a, c)), Some(Node::Elem(n2, a2, c2))) => {
                if n != n2 { return Err(format!("element {n} became {n2}")); }
                let (mut x, mut y) = (a.clone(), a2.clone()); x.sort(); y.sort();
                if x != y { return Err(format!("attributes of {n} were {a:?} and are {a2:?}")); }
                matches(c, c2).map_err(|e| format!("in {n}: {e}"))?;
            }
            (Some(x), Some(y)) if x == y => {}
            (x, y) => return Err(format!("expected {x:?}, found {y:?}")),
        }
        i += 1; j += 1;
    }
}

// ------------------------------------------------------------------ generator
pub struct Gx { pub exif: bool, pub ascii: bool }
fn text(s: &mut Src, g: &Gx) -> String {
    let n = s.small(12);
    (0..n).map(|_| match s.weighted(&[5, 2, 2, 1]) {
        0 => ((b'a' + s.draw(25) as u8) as char).to_string(),
        1 => s.pick(&[" ", "\n", "\t", "\n ", "exif:", "</exif", "=", "'", "\""]).replace('<', "&lt;"),
        2 => s.pick(&["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x42;", "&#10;"]).to_string(),
        _ => if g.ascii { "x".into() } else { s.pick(&["ä", "中", "😀", "\u{a0}", "é"]).to_string() },
    }).collect()
}
fn name(s: &mut Src, g: &Gx, exif_ok: bool) -> String {
    let locals = ["Description", "li", "Seq", "a", "Flash", "exif", "Make", "x-1", "Fired"];
    let p = if exif_ok && g.exif && s.chance(1, 3) { "exif:" } else { *s.pick(&["rdf:", "dc:", "tiff:", "exifEX:", "xmp:", "", "Exif:", "x:", "aux:", "xexif:", "crs:"]) };
    format!("{p}{}", s.pick(&locals))
}
/// a long value, such as an embedded thumbnail
fn long(s: &mut Src, o: &mut String) { let n = s.big_size(300_000); for b in s.blob(n) { o.push(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[b as usize % 64] as char); } }
fn ws(s: &mut Src) -> &'static str { *s.pick(&[" ", "\n", "  ", "\n   ", "\t", "\r\n"]) }
fn elem(s: &mut Src, g: &Gx, depth: u32, o: &mut String) {
    let n = name(s, g, true);
    o.push('<'); o.push_str(&n);
    let mut seen: Vec<String> = vec![];
    let many = s.chance(1, 800);
    for i in 0..if many { s.int(20, 200) } else { s.small(5) } {
        let a = if s.chance(1, 6) { s.pick(&["xmlns:exif", "xmlns:dc", "xml:lang", "rdf:about"]).to_string() } else { name(s, g, true) };
        let a = if many { format!("{a}{i}") } else { a };
        if seen.contains(&a) { continue; }
        seen.push(a.clone());
        o.push_str(ws(s)); o.push_str(&a);
        if s.chance(1, 8) { o.push(' '); } o.push('='); if s.chance(1, 8) { o.push(' '); }
        let q = if s.chance(1, 3) { '\'' } else { '"' };
        let t: String = text(s, g).chars().filter(|c| *c != q && *c != '<').collect();
        o.push(q); o.push_str(&t); if s.chance(1, 2000) { long(s, o); } o.push(q);
    }
    if s.chance(1, 8) { o.push_str(ws(s)); }
    if s.chance(1, 3) { o.push_str("/>"); return; }
    o.push('>');
    if depth < 5 { content(s, g, depth, o); } else { o.push_str(&text(s, g)); }
    o.push_str("</"); o.push_str(&n); if s.chance(1, 12) { o.push(' '); } o.push('>');
}
fn content(s: &mut Src, g: &Gx, depth: u32, o: &mut String) {
    if s.chance(1, 1500) {
        // deep nesting
        let v: Vec<String> = (0..s.int(3, 120)).map(|_| { let rare = s.chance(1, 6); name(s, g, rare) }).collect();
        for n in &v { o.push('<'); o.push_str(n); o.push('>'); }
        o.push_str(&text(s, g));
        for n in v.iter().rev() { o.push_str("</"); o.push_str(n); o.push('>'); if s.chance(1, 4) { o.push_str(ws(s)); } }
    }
    let many = if depth < 2 && s.chance(1, 1500) { s.int(20, 150) } else { 0 };
    for _ in 0..s.weighted(&[2, 3, 3, 2, 1]) as u64 + many {
        match s.weighted(&[5, 3, 3, 1, 1, 1]) {
            0 => elem(s, g, depth + 1, o),
            1 => o.push_str(ws(s)),
            2 => { o.push_str(&text(s, g)); if s.chance(1, 2000) { long(s, o); } }
            3 => { o.push_str("<!--"); o.push_str(&text(s, g).replace('-', "")); o.push_str("-->"); }
            4 => { o.push_str("<![CDATA["); o.push_str(*s.pick(&["<exif:a>", "a & b", "x ] y", "", "\n"])); o.push_str("]]>"); }
            _ => { o.push_str("<?p "); o.push_str(*s.pick(&["exif:x", "a='b'", "<q>"])); o.push_str("?>"); }
        }
    }
}
/// A well-formed packet.
pub fn gen(s: &mut Src, g: &Gx) -> String {
    let mut o = String::new();
    if s.chance(1, 3) { o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"); if s.bool() { o.push('\n'); } }
    if s.chance(1, 2) { o.push_str("<?xpacket begin=\""); if !g.ascii && s.bool() { o.push('\u{feff}'); } o.push_str("\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n"); }
    if s.chance(1, 10) { o.push_str("<!-- head -->"); }
    o.push_str("<x:xmpmeta xmlns:x=\"adobe:ns:meta/\">");
    for _ in 0..s.int(1, 3) { if s.bool() { o.push_str(ws(s)); } elem(s, g, 0, &mut o); }
    o.push_str("</x:xmpmeta>");
    if s.chance(1, 2) { o.push_str("\n"); for _ in 0..if s.chance(1, 10) { 40 } else { s.draw(3) } { o.push_str("                                                                                                   \n"); } o.push_str("<?xpacket end=\"w\"?>"); }
    o
}
/// A packet that is not well-formed: cut, or with a missing part.
pub fn damage(s: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    match s.draw(4) {
        0 => { let n = s.usize(1, v.len()); v.truncate(v.len() - n); }
        1 => { if let Some(i) = pick_pos(s, &v, '>') { v.remove(i); } }
        2 => { if let Some(i) = pick_pos(s, &v, '/') { v.remove(i); } }
        3 => { if let Some(i) = pick_pos(s, &v, '"') { v.remove(i); } }
        _ => { if let Some(i) = pick_pos(s, &v, '<') { v.insert(i, '<'); } }
    }
    v.into_iter().collect()
}
fn pick_pos(s: &mut Src, v: &[char], c: char) -> Option<usize> {
    let p: Vec<usize> = v.iter().enumerate().filter(|x| *x.1 == c).map(|x| x.0).collect();
    if p.is_empty() { None } else { Some(*s.pick(&p)) }
}

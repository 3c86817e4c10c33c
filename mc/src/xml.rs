//! Independent strict XML 1.0 + Namespaces parser and canonical form.
//! It shares no code with the library under test (which uses quick-xml).
use std::collections::BTreeMap;
use std::fmt::Write;

pub const MC: &str = "http://schemas.openxmlformats.org/markup-compatibility/2006";
pub const XMLNS: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Name {
    pub ns: String,
    pub local: String,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    E(Elem),
    T(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem {
    pub name: Name,
    pub attrs: BTreeMap<Name, String>,
    pub kids: Vec<Node>,
}

impl Elem {
    pub fn local(&self) -> &str {
        &self.name.local
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| match k {
            Node::E(e) => Some(e),
            _ => None,
        })
    }
    /// attribute without namespace
    pub fn at(&self, local: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(k, _)| k.ns.is_empty() && k.local == local)
            .map(|(_, v)| v.as_str())
    }
    pub fn at_ns(&self, ns: &str, local: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(k, _)| k.ns == ns && k.local == local)
            .map(|(_, v)| v.as_str())
    }
    pub fn kid(&self, local: &str) -> Option<&Elem> {
        self.elems().find(|e| e.name.local == local)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Node::T(t) = k {
                s.push_str(t)
            }
        }
        s
    }
    pub fn deep_text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::T(t) => s.push_str(t),
                Node::E(e) => s.push_str(&e.deep_text()),
            }
        }
        s
    }
    pub fn has_elems(&self) -> bool {
        self.elems().next().is_some()
    }
    /// Canonical text. White-space-only text beside child elements (or in an element that the
    /// caller declares to be element-only) is not information; all other text is.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, s: &mut String) {
        let _ = write!(s, "<{{{}}}{}", self.name.ns, self.name.local);
        for (k, v) in &self.attrs {
            let _ = write!(s, " {{{}}}{}={:?}", k.ns, k.local, v);
        }
        s.push('>');
        let he = self.has_elems();
        for k in &self.kids {
            match k {
                Node::E(e) => e.canon_into(s),
                Node::T(t) => {
                    if !(he && t.chars().all(is_ws)) {
                        let _ = write!(s, "{t:?}");
                    }
                }
            }
        }
        s.push_str("</>");
    }
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | 'a'..='z' | '_' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}
fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

struct P<'a> {
    s: &'a str,
    p: usize,
    /// namespace rules are not enforced: an undeclared prefix stands for itself
    lenient: bool,
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches(is_ws).len();
        self.p += n;
        n > 0
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let mut a = self.p.saturating_sub(30);
        while !self.s.is_char_boundary(a) {
            a -= 1
        }
        let mut b = (self.p + 30).min(self.s.len());
        while !self.s.is_char_boundary(b) {
            b += 1
        }
        Err(format!("xml: {m} at byte {} near {:?}", self.p, &self.s[a..b]))
    }
    fn name(&mut self) -> Result<&'a str, String> {
        let st = self.p;
        let odd = |c: char| self.lenient && !is_ws(c) && !"<>/=\"'&".contains(c);
        match self.peek() {
            Some(c) if name_start(c) || odd(c) => self.p += c.len_utf8(),
            _ => return self.err("name expected"),
        }
        while let Some(c) = self.s[self.p..].chars().next() {
            if name_char(c) || c == ':' || odd(c) {
                self.p += c.len_utf8()
            } else {
                break;
            }
        }
        let n = &self.s[st..self.p];
        if self.lenient {
            return Ok(n);
        }
        let mut it = n.split(':');
        let (a, b, c) = (it.next(), it.next(), it.next());
        if c.is_some() || a == Some("") || b == Some("") || !b.map_or(true, |b| b.starts_with(name_start)) {
            return self.err("not a qualified name");
        }
        Ok(n)
    }
    fn until(&mut self, end: &str) -> Result<&'a str, String> {
        match self.rest().find(end) {
            Some(i) => {
                let r = &self.rest()[..i];
                self.p += i + end.len();
                Ok(r)
            }
            None => self.err(&format!("{end:?} missing")),
        }
    }
    fn reference(&mut self) -> Result<char, String> {
        // after '&'
        let r = self.until(";")?;
        let c = match r {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return self.err("bad reference");
                    }
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        return self.err("bad reference");
                    }
                    d.parse().ok()
                } else {
                    return self.err(&format!("undefined entity {r:?}"));
                };
                match n.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) || self.lenient => c,
                    _ => return self.err("reference to a character XML does not allow"),
                }
            }
        };
        Ok(c)
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.eat("<!--") {
                self.comment()?;
            } else if self.rest().starts_with("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> Result<(), String> {
        let b = self.until("--")?;
        let _ = b;
        if !self.eat(">") {
            return self.err("-- in comment");
        }
        Ok(())
    }
    fn pi(&mut self) -> Result<(), String> {
        self.eat("<?");
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("xml declaration not at the start");
        }
        self.until("?>")?;
        Ok(())
    }
}

type Scope = Vec<(String, String)>;
fn lookup<'a>(sc: &'a Scope, p: &str) -> Option<&'a str> {
    if p == "xml" {
        return Some(XMLNS);
    }
    sc.iter().rev().find(|(k, _)| k == p).map(|(_, v)| v.as_str())
}

/// What can be told of a text that breaks rules without making its information ambiguous: whatever is
/// wrong in comments, instructions and declarations, undeclared prefixes, odd names and characters, `<` in
/// attribute values, missing white space.
pub fn parse_lenient(bytes: &[u8]) -> Result<Elem, String> {
    parse_as(&strip(bytes).ok_or("xml: unfinished markup")?, true)
}
/// Without comments, instructions and the declaration.
pub fn strip(bytes: &[u8]) -> Option<Vec<u8>> {
    let mut v = vec![];
    let b = bytes.strip_prefix(&[0xef, 0xbb, 0xbf]).unwrap_or(bytes);
    let mut i = 0;
    let find = |from: usize, t: &[u8]| b[from..].windows(t.len()).position(|w| w == t).map(|p| from + p + t.len());
    while i < b.len() {
        let r = &b[i..];
        let end = if r.starts_with(b"<!--") {
            find(i + 4, b"-->")
        } else if r.starts_with(b"<?") {
            find(i + 2, b"?>")
        } else if r.starts_with(b"<![CDATA[") {
            match find(i, b"]]>") {
                Some(e) => {
                    v.extend_from_slice(&b[i..e]);
                    i = e;
                    continue;
                }
                None => None,
            }
        } else if r.starts_with(b"<!DOCTYPE") {
            match find(i, b">") {
                Some(e) if b[i..e].contains(&b'[') => find(i, b"]").and_then(|e| find(e, b">")),
                e => e,
            }
        } else {
            v.push(b[i]);
            i += 1;
            continue;
        };
        match end {
            Some(e) => i = e,
            None => return None,
        }
    }
    Some(v)
}
pub fn parse(bytes: &[u8]) -> Result<Elem, String> {
    parse_as(bytes, false)
}
fn parse_as(bytes: &[u8], lenient: bool) -> Result<Elem, String> {
    let s = std::str::from_utf8(bytes).map_err(|_| "xml: not utf-8".to_string())?;
    let s = s.strip_prefix('\u{FEFF}').unwrap_or(s);
    if let Some(c) = s.chars().find(|c| !lenient && !is_xml_char(*c)) {
        return Err(format!("xml: character {c:?} is not allowed in XML"));
    }
    // line end normalisation
    let norm;
    let s = if s.contains('\r') {
        norm = s.replace("\r\n", "\n").replace('\r', "\n");
        norm.as_str()
    } else {
        s
    };
    let mut p = P { s, p: 0, lenient };
    if s.starts_with("<?xml") && s[5..].starts_with(is_ws) {
        let d = p.until("?>")?;
        let lower = d.to_ascii_lowercase();
        if let Some(i) = lower.find("encoding") {
            if !lower[i..].contains("utf-8") {
                return Err("xml: declared encoding is not utf-8".into());
            }
        }
        if !d.contains("version") {
            return Err("xml: declaration without version".into());
        }
    }
    p.misc()?;
    if p.rest().starts_with("<!DOCTYPE") {
        return p.err("document type declaration");
    }
    if p.peek() != Some('<') {
        return p.err("root element expected");
    }
    let mut scope: Scope = vec![];
    let e = element(&mut p, &mut scope, 0)?;
    p.misc()?;
    if p.p != s.len() {
        return p.err("content after the root element");
    }
    Ok(e)
}

fn element(p: &mut P, scope: &mut Scope, depth: usize) -> Result<Elem, String> {
    if depth > 400 {
        return p.err("nested too deeply");
    }
    if !p.eat("<") {
        return p.err("'<' expected");
    }
    let raw = p.name()?;
    let mut attrs: Vec<(&str, String)> = vec![];
    let empty;
    loop {
        let had = p.ws();
        if p.eat("/>") {
            empty = true;
            break;
        }
        if p.eat(">") {
            empty = false;
            break;
        }
        if !had && !p.lenient {
            return p.err("white space expected between attributes");
        }
        let n = p.name()?;
        p.ws();
        if !p.eat("=") {
            return p.err("'=' expected");
        }
        p.ws();
        let q = match p.peek() {
            Some(c @ ('"' | '\'')) => c,
            _ => return p.err("quote expected"),
        };
        p.p += 1;
        let mut v = String::new();
        loop {
            match p.peek() {
                None => return p.err("attribute not closed"),
                Some(c) if c == q => {
                    p.p += 1;
                    break;
                }
                Some('<') if !p.lenient => return p.err("'<' in attribute"),
                Some('&') => {
                    p.p += 1;
                    v.push(p.reference()?)
                }
                Some(c) => {
                    p.p += c.len_utf8();
                    v.push(if is_ws(c) { ' ' } else { c })
                }
            }
        }
        if attrs.iter().any(|(k, _)| *k == n) {
            return p.err(&format!("attribute {n} twice"));
        }
        attrs.push((n, v));
    }
    let mark = scope.len();
    for (k, v) in &attrs {
        if *k == "xmlns" {
            scope.push((String::new(), v.clone()));
        } else if let Some(pf) = k.strip_prefix("xmlns:") {
            if p.lenient && pf.is_empty() {
                continue;
            }
            if !p.lenient && (v.is_empty() || pf == "xmlns") || !p.lenient && (pf == "xml") != (v == XMLNS) {
                return p.err("bad namespace declaration");
            }
            scope.push((pf.to_string(), v.clone()));
        }
    }
    let lenient = p.lenient;
    let resolve = |n: &str, elem: bool, scope: &Scope| -> Result<Name, String> {
        match n.split_once(':') {
            Some((pf, l)) => match lookup(scope, pf) {
                Some(u) => Ok(Name { ns: u.to_string(), local: l.to_string() }),
                None if lenient => Ok(Name { ns: format!("?{pf}"), local: l.to_string() }),
                None => Err(format!("xml: prefix {pf:?} is not declared (in {n:?})")),
            },
            None => Ok(Name {
                ns: if elem { lookup(scope, "").unwrap_or("").to_string() } else { String::new() },
                local: n.to_string(),
            }),
        }
    };
    let name = resolve(raw, true, scope)?;
    let mut map = BTreeMap::new();
    for (k, v) in &attrs {
        if *k == "xmlns" || k.starts_with("xmlns:") {
            continue;
        }
        let n = resolve(k, false, scope)?;
        // Values that are lists of prefixes mean the namespaces, not the prefixes.
        let v = if (n.ns == MC && matches!(n.local.as_str(), "Ignorable" | "MustUnderstand"))
            || (name.ns == MC && name.local == "Choice" && n.ns.is_empty() && n.local == "Requires")
        {
            let mut l = vec![];
            for pf in v.split_whitespace() {
                match lookup(scope, pf) {
                    Some(u) => l.push(format!("{{{u}}}")),
                    None if lenient => l.push(format!("?{pf}")),
                    None => return Err(format!("xml: prefix {pf:?} in {k} is not declared")),
                }
            }
            l.sort();
            l.join(" ")
        } else {
            v.clone()
        };
        if map.insert(n, v).is_some() {
            return p.err("attribute twice (by namespace)");
        }
    }
    let mut e = Elem { name, attrs: map, kids: vec![] };
    if !empty {
        let mut text = String::new();
        loop {
            let rest = p.rest();
            if rest.is_empty() {
                return p.err(&format!("element {raw} not closed"));
            }
            if rest.starts_with("</") {
                p.p += 2;
                let n = p.name()?;
                if n != raw {
                    return p.err(&format!("</{n}> closes <{raw}>"));
                }
                p.ws();
                if !p.eat(">") {
                    return p.err("'>' expected");
                }
                break;
            } else if p.eat("<!--") {
                p.comment()?;
            } else if p.eat("<![CDATA[") {
                let t = p.until("]]>")?;
                text.push_str(t);
            } else if rest.starts_with("<?") {
                p.pi()?;
            } else if rest.starts_with('<') {
                if !text.is_empty() {
                    e.kids.push(Node::T(std::mem::take(&mut text)));
                }
                let c = element(p, scope, depth + 1)?;
                e.kids.push(Node::E(c));
            } else if p.eat("&") {
                text.push(p.reference()?);
            } else {
                let i = rest.find(['<', '&']).unwrap_or(rest.len());
                if rest[..i].contains("]]>") && !p.lenient {
                    return p.err("']]>' in text");
                }
                text.push_str(&rest[..i]);
                p.p += i;
            }
        }
        if !text.is_empty() {
            e.kids.push(Node::T(text));
        }
    }
    scope.truncate(mark);
    Ok(e)
}

pub fn esc_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
pub fn esc_attr(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\t' => o.push_str("&#9;"),
            '\n' => o.push_str("&#10;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

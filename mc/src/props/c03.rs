//! XML information is preserved when a part is parsed and written back.
use super::common::*;
use std::sync::Arc;

/// (attributes as written, description is the text itself)
const ATTRS: &[&str] = &[
    "",
    " k=\"v\"",
    " k='v'",
    " k=\"\"",
    " k=\" v  w \"",
    " k=\"a&amp;b\"",
    " k=\"&lt;&gt;\"",
    " k=\"&quot;&apos;\"",
    " k='\"'",
    " k=\"'\"",
    " k=\"a>b\"",
    " k=\"&#9;\"",
    " k=\"&#10;x\"",
    " k=\"&#13;\"",
    " k=\"&#x41;&#66;\"",
    " k=\"a\tb\nc\"",
    " k=\"é𝄞&#x1D11E;\"",
    " k=\"&amp;amp;\"",
    " b=\"1\" a=\"2\" k=\"&amp;\"",
    " dc:k=\"v\" k=\"w\"",
    " xml:space=\"preserve\"",
    " xml:lang=\"en\"",
    " xmlns:n=\"urn:n\" n:k=\"v\"",
    " xmlns:n=\"urn:&amp;n\" n:k=\"v\"",
    "  k = \"v\" ",
    " key=\"1\" KEY=\"2\" Key=\"3\"",
    " n1:k=\"1\" N1:k=\"2\" xmlns:n1=\"urn:1\" xmlns:N1=\"urn:2\"",
    " xmlnsx=\"1\" k-1.b_=\"2\" _k=\"3\"",
    " k=\"a\rb\r\nc\"",
    " l·l=\"1\" e\u{301}=\"2\" x\u{203f}y=\"3\" \u{210c}=\"4\" \u{200d}a=\"5\"",
];
/// element (start name) with the declarations it needs
const NAMES: &[(&str, &str)] = &[
    ("cp:a", ""),
    ("dc:b", ""),
    ("c", " xmlns=\"urn:d\""),
    ("q:d", " xmlns:q=\"urn:q\""),
    ("dc:e", " xmlns:dc=\"urn:other\""),
    ("cp:a.b-c_1", ""),
    ("cp:é", ""),
    ("cp:l·l", ""),
];
const TEXTS: &[&str] = &[
    "t",
    " t",
    "t ",
    "  ",
    "\n\t t \n",
    "&amp;",
    "&lt;b&gt;",
    "&amp;amp;",
    "]]&gt;",
    "&#13;",
    "a&#13;&#10;b",
    "a\r\nb",
    "&#x9;",
    "&#x20;",
    "é𝄞\u{FFFD}",
    "<![CDATA[x]]>",
    "<![CDATA[<&>]]>",
    "a<![CDATA[b]]>c",
    "<![CDATA[]]>",
    "<![CDATA[ ]]>",
    "a<!--c-->b",
    "<!-- c -->t",
    "t<?pi d?>",
    " <!-- c --> ",
    "\"'",
    "0",
    "a&#160;b",
    "a  b",
    "\n",
    "\t",
    "\r",
    "\r\n",
    "a\rb",
    "\r\rx\n\r",
    "&#10;",
    "&#13;&#10;",
];

fn content(i: usize) -> String {
    // handled by leaf(): 0 self-closed, 1 empty pair, then texts, then child forms
    match i {
        0 | 1 => String::new(),
        i if i < 2 + TEXTS.len() => TEXTS[i - 2].to_string(),
        i => CHILDREN[i - 2 - TEXTS.len()].to_string(),
    }
}
const CHILDREN: &[&str] = &[
    "<cp:z/>",
    "<cp:z/><cp:z/>",
    "\n  <cp:z/>\n  <cp:y>1</cp:y>\n",
    "<cp:y>1</cp:y><cp:z/><cp:y>2</cp:y>",
    "<!-- c --><cp:z/><!-- d -->",
    "<cp:z><cp:y><cp:x> </cp:x></cp:y></cp:z>",
    "<z xmlns=\"urn:e\"><y/></z><w xmlns=\"urn:f\"/>",
    "<p:z xmlns:p=\"urn:1\"><p:y xmlns:p=\"urn:2\"/></p:z><p:z xmlns:p=\"urn:3\"/>",
    "<z xmlns=\"urn:e\"><y xmlns=\"\"/></z>",
    "<p:z xmlns:p=\"urn:1\"/><r:z xmlns:r=\"urn:1\"/>",
    "t<cp:z/>",
    "<cp:z/>t",
    "a <cp:z/> b <cp:y>c</cp:y> d",
    "a<cp:z> b <cp:y/> c<!-- c -->d</cp:z>e",
    "<cp:z/>&lt;&amp;<![CDATA[<x>]]>&#13;t<cp:z/>",
    "<cp:z>1</cp:z><cp:z>2</cp:z>t<cp:z/>",
];
fn elem(name: usize, attr: usize, cont: usize) -> String {
    let (n, d) = NAMES[name];
    let c = content(cont);
    let d2 = format!("{d}{}", ATTRS[attr]);
    if cont == 0 {
        format!("<{n}{d2}/>")
    } else {
        format!("<{n}{d2}>{c}</{n}>")
    }
}
const N_CONT: usize = 2 + TEXTS.len() + CHILDREN.len();

const CORE_NS: &str = "xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"";
const TAIL: &str = "<dcterms:created xsi:type=\"dcterms:W3CDTF\">2001-02-03T04:05:06Z</dcterms:created><dcterms:modified xsi:type=\"dcterms:W3CDTF\">2002-02-03T04:05:06Z</dcterms:modified>";

fn core_with(frag: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<cp:coreProperties {CORE_NS}>{frag}{TAIL}</cp:coreProperties>")
}
fn norm_core(b: &[u8]) -> Result<Elem, String> {
    let mut e = xml::parse(b)?;
    blank(&mut e, "modified");
    Ok(e)
}

/// Sends a core-properties part through Word (even) or PowerPoint (odd) and compares.
fn via_core(core: &str, kind: DocKind, sc: &Scratch, o: &mut Out) {
    let pkg = fx::doc_pkg(kind == DocKind::Word, Some(core)).zip();
    let before = norm_core(core.as_bytes()).expect("harness: fixture xml");
    o.transitions += 2;
    o.states.push(h64(&before.canon()));
    match resave(kind, Some(&pkg), sc) {
        Res::Ok(b) => {
            o.outcome = h64(&before.canon());
            match Package::read(&b).and_then(|p| p.parts.get("docProps/core.xml").cloned().ok_or("core part gone".into())) {
                Err(e) => o.bad(format!("core properties unreadable: {e}")),
                Ok(c) => match norm_core(&c) {
                    Err(e) => o.bad(format!("core properties not well-formed after saving: {e}")),
                    Ok(after) => {
                        if let Some(d) = diff(&before, &after) {
                            o.bad(format!("core properties changed: {d}"));
                        }
                    }
                },
            }
        }
        r => o.bad(format!("open and save of a well-formed part: {}", r.show())),
    }
}

/// The same fragment as extension content of a worksheet that is opened and closed.
fn via_sheet(frag: &str, sc: &Scratch, o: &mut Out) {
    via_sheet_of("", frag, sc, o)
}
/// The same below roots that carry further declarations.
fn via_sheet_of(root: &str, frag: &str, sc: &Scratch, o: &mut Out) {
    let ns = "xmlns:cp=\"urn:cp\" xmlns:dc=\"urn:dc\"";
    let body = format!("<sheetData/><extLst {ns}><ext uri=\"u\">{frag}</ext></extLst>");
    let mut w = Wb::new(&["S"]);
    w.sheets[0].2 = fx::sheet(&body).replacen("<worksheet ", &format!("<worksheet{root} "), 1);
    w.wb_attrs = format!("{root} {ns}");
    w.post = format!("<extLst><ext uri=\"u\">{frag}</ext></extLst>");
    let src = w.zip();
    let before = Book::read(&src).expect("harness: fixture");
    let p = sc.put("xlsx", &src);
    o.transitions += 3;
    let mut x = match open(Some(&p)) {
        Res::Ok(x) => x,
        r => return o.bad(format!("open: {}", r.show())),
    };
    match x.get("S") {
        Res::Ok(w) => {
            if let Some(p) = ws_drop(w) {
                o.bad(p)
            }
        }
        r => return o.bad(format!("get sheet: {}", r.show())),
    }
    match x.save_bytes(sc) {
        Res::Ok(b) => match Book::read(&b) {
            Err(e) => o.bad(format!("saved workbook unreadable: {e}")),
            Ok(after) => {
                let pick = |e: &Elem| e.kid("extLst").cloned();
                for (what, a, b) in [
                    ("sheet", pick(&before.sheets[0].xml), after.sheets.first().and_then(|s| pick(&s.xml))),
                    ("workbook", pick(&before.wb), pick(&after.wb)),
                ] {
                    match (a, b) {
                        (Some(a), Some(b)) => {
                            o.outcome ^= h64(&b.canon());
                            if let Some(d) = diff(&a, &b) {
                                o.bad(format!("{what} extension content changed: {d}"));
                            }
                        }
                        _ => o.bad(format!("{what} extension list lost")),
                    }
                }
            }
        },
        r => o.bad(format!("save: {}", r.show())),
    }
    o.states.push(h64(frag));
}

// ---- shapes: all ordered trees with n nodes, as parent vectors in preorder
fn shapes(n: usize) -> Vec<Vec<usize>> {
    // depth sequences: d[0]=0, d[i] in 1..=d[i-1]+1
    let mut out = vec![vec![0usize]];
    for _ in 1..n {
        let mut nx = vec![];
        for s in &out {
            let l = *s.last().unwrap();
            for d in 1..=l + 1 {
                let mut t = s.clone();
                t.push(d);
                nx.push(t);
            }
        }
        out = nx;
    }
    out
}
fn render_shape(depths: &[usize], labels: &[usize], leafs: usize) -> String {
    // label: element name and attribute choice; leafs: form of the leaves
    const L: &[(&str, &str)] = &[("cp:a", ""), ("dc:b", " k=\"&amp;\""), ("e", " xmlns=\"urn:e\""), ("p:f", " xmlns:p=\"urn:p\" p:k=\" v\"")];
    const LEAF: &[&str] = &["\u{0}", "", "x", " y "];
    fn go(i: &mut usize, d: &[usize], lab: &[usize], leafs: usize, out: &mut String) {
        let me = *i;
        let (n, a) = L[lab[me]];
        *i += 1;
        let leaf = *i >= d.len() || d[*i] <= d[me];
        if leaf {
            let f = LEAF[(leafs + me) % LEAF.len()];
            if f == "\u{0}" {
                out.push_str(&format!("<{n}{a}/>"));
            } else {
                out.push_str(&format!("<{n}{a}>{f}</{n}>"));
            }
            return;
        }
        out.push_str(&format!("<{n}{a}>"));
        while *i < d.len() && d[*i] == d[me] + 1 {
            go(i, d, lab, leafs, out);
        }
        out.push_str(&format!("</{n}>"));
    }
    let mut s = String::new();
    let mut i = 0;
    go(&mut i, depths, labels, leafs, &mut s);
    s
}

/// The tree with text at those of its 2n-1 inner places that are in the set.
fn render_mixed(depths: &[usize], set: u64, odd: bool) -> String {
    let mut s = String::new();
    let mut place = 0;
    let mut text = |s: &mut String| {
        if set >> place & 1 == 1 {
            if odd {
                s.push_str(&format!(" &lt;t{place}<![CDATA[&]]>&amp; "));
            } else {
                s.push_str(&format!("t{place}"));
            }
        }
        place += 1;
    };
    let mut open: Vec<usize> = vec![];
    for (i, d) in depths.iter().enumerate() {
        while open.len() > *d {
            open.pop();
            s.push_str("</cp:m>");
            text(&mut s);
        }
        open.push(i);
        s.push_str("<cp:m>");
        text(&mut s);
    }
    while let Some(_) = open.pop() {
        s.push_str("</cp:m>");
        if !open.is_empty() {
            text(&mut s);
        }
    }
    s
}

const PROLOGS: &[&str] = &[
    "",
    "<?xml version=\"1.0\"?>",
    "<?xml version='1.0' encoding='utf-8'?>",
    "\u{FEFF}<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?><!-- before -->",
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<?pi x?>\r\n",
    "<!-- a --><!-- b -->\n",
];
const EPILOGS: &[&str] = &["", "\n", "<!-- after -->", "\n<?pi y?>\n<!-- z -->\n"];
const ROOTS: &[&str] = &[
    "<cp:coreProperties NS/>",
    "<cp:coreProperties NS></cp:coreProperties>",
    "<cp:coreProperties NS>\n</cp:coreProperties>",
    "<cp:coreProperties NS k=\"v&amp;w\">TAIL</cp:coreProperties>",
    "<cp:coreProperties  k='1'\n NS >TAIL\n</cp:coreProperties >",
    "<cp:coreProperties NS>TAIL<cp:revision>7</cp:revision></cp:coreProperties>",
    "<cp:coreProperties NS xmlns=\"urn:def\"><unprefixed/>TAIL</cp:coreProperties>",
    "<cp:coreProperties NS xmlns:u=\"urn:&amp;&lt;\"><u:x/>TAIL</cp:coreProperties>",
    "<cp:coreProperties NS xmlns:xml=\"http://www.w3.org/XML/1998/namespace\" xml:lang=\"de\">TAIL</cp:coreProperties>",
    "<cp:coreProperties NS xmlns:dvmo=\"urn:own\"><dvmo:x dvmo:y=\"1\"/>TAIL</cp:coreProperties>",
    "<cp:coreProperties NS xmlns:dvmo=\"http://schemas.draviavemal.com/openxml-office\" dvmo:y=\"1\">TAIL</cp:coreProperties>",
    "<cp:coreProperties NS xmlns:xmlnsx=\"urn:own\" xmlnsx:xmlns=\"1\">TAIL</cp:coreProperties>",
];
fn doc_text(i: u64) -> String {
    let mut d = Dig(i);
    let (p, e, r) = (d.take(PROLOGS.len()), d.take(EPILOGS.len()), d.take(ROOTS.len()));
    format!("{}{}{}", PROLOGS[p], ROOTS[r].replace("NS", CORE_NS).replace("TAIL", TAIL), EPILOGS[e])
}

/// the first and last characters of every range a name may start with, then those it may contain
const NAME_START: &[u32] = &[
    0x41, 0x5A, 0x61, 0x7A, 0x5F, 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x905, 0x1FFF, 0x200C, 0x200D, 0x2070, 0x2102, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0x8AB2, 0xD7FF, 0xF900,
    0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0x1D11E, 0xEFFFF,
];
const NAME_MORE: &[u32] = &[0x2D, 0x2E, 0x30, 0x39, 0xB7, 0x300, 0x36F, 0x203F, 0x2040];
/// A name character in every role a name has.
fn named(i: u64) -> String {
    let mut d = Dig(i);
    let (role, k) = (d.take(8), d.take(NAME_START.len() + NAME_MORE.len()));
    let c = NAME_START.iter().chain(NAME_MORE).nth(k).and_then(|c| char::from_u32(*c)).unwrap();
    let first = k < NAME_START.len();
    let n = if first && role % 2 == 0 { format!("{c}") } else { format!("n{c}x{c}") };
    match role / 2 {
        0 => format!("<cp:{n}>t</cp:{n}>"),
        1 => format!("<{n}:a xmlns:{n}=\"urn:n\" {n}:k=\"v\"><{n}:b/></{n}:a>"),
        2 => format!("<cp:a {n}=\"v&amp;\"/>"),
        _ => format!("<{n} xmlns=\"urn:e\"><cp:c/>t<{n}/></{n}>"),
    }
}

/// Many of one thing: siblings, attributes, levels, characters, references, declarations.
const BIG: usize = 14;
fn big(k: usize, form: usize) -> String {
    let each = |f: &dyn Fn(usize) -> String| (0..k).map(f).collect::<String>();
    match form {
        0 => each(&|i| format!("<cp:a{}/>", i % 7)),
        1 => each(&|i| format!("<cp:a k=\"{i}\">{i}</cp:a>")),
        2 => format!("<cp:a{}/>", each(&|i| format!(" k{i}=\"{i}\""))),
        3 => {
            let d = k.min(390);
            format!("{}x{}", "<cp:a>".repeat(d), "</cp:a>".repeat(d))
        }
        4 => format!("<cp:a>{}</cp:a>", "x".repeat(k)),
        5 => format!("<cp:a> {}é&amp; </cp:a>", "é".repeat(k)),
        6 => format!("<cp:a k=\" {}&lt;𝄞 \"/>", "𝄞".repeat(k)),
        7 => format!("<cp:a>{}</cp:a>", " ".repeat(k)),
        8 => format!("<cp:a>{}</cp:a>", each(&|i| ["&amp;", "<![CDATA[<]]>", "&#x41;", "t", "<!-- c -->"][i % 5].to_string())),
        9 => format!("<cp:a{}/>", each(&|i| format!(" xmlns:n{i}=\"urn:{i}\" n{i}:k=\"v\""))),
        10 => format!("<cp:{0}>t</cp:{0}>", "n".repeat(k)),
        11 => each(&|i| format!("t{i}<cp:a/>")),
        12 => format!("<!--{}--><cp:a/><?pi {}?><cp:b/>", "c".repeat(k), "d".repeat(k)),
        _ => each(&|i| format!("<n{i}:a xmlns:n{i}=\"urn:{i}\"><b xmlns=\"urn:{}\"/></n{i}:a>", i % 3)),
    }
}
/// What is spelled with several characters, each of its characters at every distance from a block's end.
const EDGE: &[&str] = &[
    "<cp:a k=\"é&amp;\r\n𝄞\" dc:b='&#x41;'>é\r\n&#x41;<![CDATA[<x>]]>]]&gt; 𝄞 </cp:a>",
    "<!-- c --><cp:a> <cp:b/>t&lt;<cp:b/> </cp:a><?pi d?>",
];
const BLOCKS: &[usize] = &[1024, 4096, 8192, 16_384, 32_768, 65_536, 131_072];
const SHIFTS: usize = 96;
fn edge(i: u64) -> String {
    let mut d = Dig(i);
    let (s, b, f, at) = (d.take(SHIFTS), BLOCKS[d.take(BLOCKS.len())], EDGE[d.take(EDGE.len())], d.take(2));
    // the fragment begins s characters before the end of the block, counted from the start of the part
    let head = core_with("").find("<dcterms").expect("harness: core");
    let (open, close) = [("<!--", "-->"), ("<cp:p k=\"", "\"/>")][at];
    let n = (b - s).saturating_sub(head + open.len() + close.len());
    format!("{open}{}{close}{f}", "p".repeat(n))
}

/// Declarations at the root and at an element below it, and the prefixes used there: prefixes that
/// share a namespace, hide one another, are declared again or taken back.
const SCOPE_ROOT: usize = 3;
fn scopes(i: u64, main: &str, deep: bool) -> (String, String) {
    let uri = |k: usize| [main, "urn:1", "urn:2"][k];
    let (defaults, ps, qs) = if deep { (5, 4, 4) } else { (3, 3, 3) };
    let mut d = Dig(i);
    let mut root = String::new();
    let mut bound = std::collections::BTreeMap::new();
    for p in ["p", "q", "s"] {
        let k = d.take(SCOPE_ROOT);
        if k > 0 {
            root.push_str(&format!(" xmlns:{p}=\"{}\"", uri(k - 1)));
            bound.insert(p, ());
        }
    }
    let mut own = String::new();
    match d.take(defaults) {
        0 => {}
        1 => own.push_str(" xmlns=\"\""),
        k => own.push_str(&format!(" xmlns=\"{}\"", uri([1, 0, 2][k - 2]))),
    }
    for (p, n) in [("p", ps), ("q", qs)] {
        let k = d.take(n);
        if k > 0 {
            own.push_str(&format!(" xmlns:{p}=\"{}\"", uri(k - 1)));
            bound.insert(p, ());
        }
    }
    let mut used = |d: &mut Dig| -> String {
        let p = ["", "p", "q", "s"][d.take(4)];
        if bound.contains_key(p) { format!("{p}:") } else { String::new() }
    };
    let (outer, inner, attr) = (used(&mut d), used(&mut d), used(&mut d));
    (root, format!("<{outer}m{own} {attr}k=\"v\"><{inner}n {attr}k=\"w\"/></{outer}m><cp:after/>"))
}
fn n_scopes(deep: bool) -> u64 {
    27 * 64 * if deep { 5 * 4 * 4 } else { 27 }
}

pub fn check(deep: bool) -> Check {
    let n1 = (NAMES.len() * ATTRS.len() * N_CONT) as u64;
    let single = |i: u64| {
        let mut d = Dig(i);
        let c = d.take(N_CONT);
        let a = d.take(ATTRS.len());
        elem(d.take(NAMES.len()), a, c)
    };
    let mut spaces = vec![
        Space::new(
            "element",
            "one element: every name x attribute set x content of the alphabets, through core properties",
            n1,
            single,
            move |i, sc| {
                let mut o = Out { nontrivial: true, ..Default::default() };
                via_core(&core_with(&single(i)), if i % 2 == 0 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
                o
            },
        ),
        Space::new(
            "extension",
            "the same elements as extension content of a worksheet and a workbook that are opened and saved",
            n1,
            single,
            move |i, sc| {
                let mut o = Out { nontrivial: true, ..Default::default() };
                via_sheet(&single(i), sc, &mut o);
                o
            },
        ),
        Space::new(
            "names",
            "the first and last character of every range of name characters, in every role of a name",
            8 * (NAME_START.len() + NAME_MORE.len()) as u64,
            named,
            move |i, sc| {
                let mut o = Out { nontrivial: true, ..Default::default() };
                let f = named(i);
                via_core(&core_with(&f), if i % 2 == 0 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
                via_sheet(&f, sc, &mut o);
                o
            },
        ),
        Space::new(
            "scopes",
            "every choice of namespaces of three prefixes at the root, of the default and two prefixes at an element below it, and of the prefixes used; through core properties, and as extension content of a worksheet and a workbook",
            n_scopes(deep),
            move |i| { let (r, f) = scopes(i, "urn:main", deep); format!("{r} {f}") },
            move |i, sc| {
                let mut o = Out { nontrivial: true, ..Default::default() };
                let (root, frag) = scopes(i, "http://schemas.openxmlformats.org/package/2006/metadata/core-properties", deep);
                let core = core_with(&frag).replacen("<cp:coreProperties ", &format!("<cp:coreProperties{root} "), 1);
                via_core(&core, if i % 2 == 0 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
                let (root, frag) = scopes(i, wb::X, deep);
                via_sheet_of(&root, &frag, sc, &mut o);
                o
            },
        ),
        Space::new(
            "document",
            "every prolog x epilog x root form",
            (PROLOGS.len() * EPILOGS.len() * ROOTS.len()) as u64,
            doc_text,
            |i, sc| {
                let mut o = Out { nontrivial: true, ..Default::default() };
                let t = doc_text(i);
                // C17 decides what happens to the times; here they are ignored.
                let strip = |e: &mut Elem| e.kids.retain(|k| !matches!(k, Node::E(x) if matches!(x.local(), "modified" | "created")));
                let pkg = fx::doc_pkg(true, Some(&t)).zip();
                o.transitions = 2;
                let mut before = xml::parse(t.as_bytes()).expect("harness: fixture xml");
                strip(&mut before);
                o.states.push(h64(&before.canon()));
                match resave(DocKind::Word, Some(&pkg), sc) {
                    Res::Ok(b) => match Package::read(&b).and_then(|p| xml::parse(p.parts.get("docProps/core.xml").ok_or("core part gone")?)) {
                        Err(e) => o.bad(format!("core properties after saving: {e}")),
                        Ok(mut after) => {
                            strip(&mut after);
                            o.outcome = h64(&after.canon());
                            if before.elems().next().is_none() {
                                before.kids.clear();
                                if after.elems().next().is_none() { after.kids.clear(); }
                            }
                            if let Some(d) = diff(&before, &after) {
                                o.bad(format!("core properties changed: {d}"));
                            }
                        }
                    },
                    r => o.bad(format!("open and save of a well-formed part: {}", r.show())),
                }
                o
            },
        ),
    ];
    // shapes
    let maxn = if deep { 6 } else { 5 };
    let mut all: Vec<Vec<usize>> = vec![];
    for n in 1..=maxn {
        all.extend(shapes(n));
    }
    let mut offs = vec![0u64];
    for s in &all {
        offs.push(offs.last().unwrap() + 4u64.pow(s.len() as u32));
    }
    let total = *offs.last().unwrap();
    let all = Arc::new((all, offs));
    let dec = {
        let all = all.clone();
        move |i: u64| {
            let k = all.1.partition_point(|o| *o <= i) - 1;
            let mut d = Dig(i - all.1[k]);
            let s = &all.0[k];
            let lab: Vec<usize> = s.iter().map(|_| d.take(4)).collect();
            render_shape(s, &lab, i as usize % 4)
        }
    };
    let dec2 = dec.clone();
    spaces.push(Space::new(
        "shape",
        &format!("every ordered tree of up to {maxn} elements x every labelling by 4 element kinds, leaf forms rotating"),
        total,
        dec,
        move |i, sc| {
            let mut o = Out { nontrivial: true, ..Default::default() };
            via_core(&core_with(&dec2(i)), if i % 2 == 0 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
            o
        },
    ));
    // text beside elements: every shape, every set of places filled
    let maxm = if deep { 5 } else { 4 };
    let mut ms: Vec<Vec<usize>> = vec![];
    for n in 2..=maxm {
        ms.extend(shapes(n));
    }
    let mut mo = vec![0u64];
    for s in &ms {
        mo.push(mo.last().unwrap() + 2 * (1u64 << (2 * s.len() - 1)));
    }
    let mt = *mo.last().unwrap();
    let md = {
        let m = Arc::new((ms, mo));
        move |i: u64| {
            let k = m.1.partition_point(|o| *o <= i) - 1;
            let r = i - m.1[k];
            render_mixed(&m.0[k], r >> 1, r & 1 == 1)
        }
    };
    let md2 = md.clone();
    spaces.push(Space::new(
        "mixed",
        &format!("every ordered tree of 2 to {maxm} elements x every set of the places before, between and behind its tags filled with text, plain and with references; through core properties, and as extension content of a worksheet and a workbook"),
        mt,
        md,
        move |i, sc| {
            let mut o = Out { nontrivial: true, ..Default::default() };
            let f = md2(i);
            via_core(&core_with(&f), if i % 4 < 2 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
            via_sheet(&f, sc, &mut o);
            o
        },
    ));
    // two adjacent siblings and nested pairs from the element alphabet: interference between elements
    let nn = NAMES.len();
    let na = if deep { ATTRS.len() } else { 5 };
    let pick_attr: Vec<usize> = if deep { (0..ATTRS.len()).collect() } else { vec![0, 1, 5, 22, 23, 25] };
    let kid = |i: usize| 2 + TEXTS.len() + i;
    let conts: Vec<usize> = vec![0, 2, 4, 17, kid(6), kid(7), kid(13)];
    let ne = (nn * na * conts.len()) as u64;
    let pair = move |i: u64| {
        let mut d = Dig(i);
        let mut one = || {
            let c = conts[d.take(conts.len())];
            let a = pick_attr[d.take(na)];
            elem(d.take(nn), a, c)
        };
        let a = one();
        let b = one();
        format!("{a}{b}")
    };
    let pair2 = pair.clone();
    spaces.push(Space::new("siblings", "every ordered pair of elements from a reduced element alphabet side by side", ne * ne, pair, move |i, sc| {
        let mut o = Out { nontrivial: true, ..Default::default() };
        via_core(&core_with(&pair2(i)), if i % 2 == 0 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
        o
    }));
    let sizes = Arc::new(super::scale::sizes(if deep { 65_536 } else { 4_097 }));
    let z2 = sizes.clone();
    spaces.push(Space::new(
        "sizes",
        &format!("{BIG} forms of many siblings, attributes, levels, characters, references and declarations by {} sizes, through core properties, and as extension content of a worksheet and a workbook", sizes.len()),
        (BIG * sizes.len()) as u64,
        move |i| format!("form {}, size {}", i as usize % BIG, z2[i as usize / BIG]),
        move |i, sc| {
            let mut o = Out { nontrivial: true, ..Default::default() };
            let f = big(sizes[i as usize / BIG], i as usize % BIG);
            via_core(&core_with(&f), if i % 4 < 2 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
            via_sheet(&f, sc, &mut o);
            o
        },
    ));
    spaces.push(Space::new(
        "block-edges",
        &format!("{} fragments at {SHIFTS} distances from the end of {} blocks, behind a comment or an attribute", EDGE.len(), BLOCKS.len()),
        (SHIFTS * BLOCKS.len() * EDGE.len() * 2) as u64,
        |i| format!("{:?} (distance, block, fragment, filler)", {
            let mut d = Dig(i);
            (d.take(SHIFTS), BLOCKS[d.take(BLOCKS.len())], d.take(EDGE.len()), d.take(2))
        }),
        |i, sc| {
            let mut o = Out { nontrivial: true, ..Default::default() };
            via_core(&core_with(&edge(i)), if i % 2 == 0 { DocKind::Word } else { DocKind::Ppt }, sc, &mut o);
            o
        },
    ));
    Check {
        id: "C03",
        level: "exploration",
        rule: "a case is a well-formed XML fragment put into a part the library parses and rewrites; the information content read by an independent parser before and after must be equal; every case exercises parse and rewrite, so every case is non-trivial; distinct by its text",
        assumptions: vec!["the harness's own XML parser defines information content", "white-space-only text beside child elements is no information"],
        spaces,
    }
}

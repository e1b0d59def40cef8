//! Client side of HTTP/1.1, and the parser of the pages the server renders.

#[derive(Clone, Debug, PartialEq)]
pub struct Response {
    pub status: u16,
    pub ctype: String,
    pub body: Vec<u8>,
}

/// Parses a complete response out of `b`; None if it is not complete yet.
pub fn parse_response(b: &[u8], eof: bool) -> Result<Option<Response>, String> {
    let Some(he) = find(b, b"\r\n\r\n") else { return Ok(None) };
    let head = String::from_utf8_lossy(&b[..he]).into_owned();
    let mut lines = head.split("\r\n");
    let sl = lines.next().unwrap_or("");
    let status: u16 = sl.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("bad status line {:?}", sl))?;
    let (mut len, mut chunked, mut ctype) = (None, false, String::new());
    for l in lines {
        let Some((k, v)) = l.split_once(':') else { continue };
        match k.to_ascii_lowercase().as_str() {
            "content-length" => len = Some(v.trim().parse::<usize>().map_err(|e| e.to_string())?),
            "transfer-encoding" => chunked = v.to_ascii_lowercase().contains("chunked"),
            "content-type" => ctype = v.trim().to_string(),
            _ => {}
        }
    }
    let rest = &b[he + 4..];
    let body = if chunked {
        let mut out = Vec::new();
        let mut p = 0;
        loop {
            let Some(e) = find(&rest[p..], b"\r\n") else { return Ok(None) };
            let n = usize::from_str_radix(String::from_utf8_lossy(&rest[p..p + e]).trim(), 16).map_err(|e| e.to_string())?;
            p += e + 2;
            if rest.len() < p + n + 2 {
                return Ok(None);
            }
            out.extend_from_slice(&rest[p..p + n]);
            p += n + 2;
            if n == 0 {
                break;
            }
        }
        out
    } else if let Some(n) = len {
        if rest.len() < n {
            return Ok(None);
        }
        rest[..n].to_vec()
    } else if eof {
        rest.to_vec()
    } else {
        return Ok(None);
    };
    Ok(Some(Response { status, ctype, body }))
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

pub fn urlencode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"-_.~/".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{:02X}", b));
        }
    }
    o
}

pub fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#039;", "'").replace("&#39;", "'").replace("&#x27;", "'").replace("&amp;", "&")
}

#[derive(Clone, Debug, PartialEq)]
pub struct PageRow {
    pub id: String,
    pub file: String,
    pub name: String,
    pub old: Option<u128>,
    pub new: Option<u128>,
    pub kind: String,
    pub warn: bool,
    pub scope: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Page {
    pub cached: Option<bool>,
    pub rows: Vec<PageRow>,
    pub errors: Vec<String>,
    pub warnings: Vec<String>,
    /// What the controls show: the part of their id after the first underscore, and the value.
    pub controls: Vec<(String, String)>,
}

fn tags_off(s: &str) -> String {
    let mut o = String::new();
    let mut inside = false;
    for c in s.chars() {
        match c {
            '<' => inside = true,
            '>' if inside => inside = false,
            c if !inside => o.push(c),
            _ => {}
        }
    }
    unescape(o.trim())
}

fn between<'a>(s: &'a str, a: &str, b: &str) -> Option<&'a str> {
    let i = s.find(a)? + a.len();
    let j = s[i..].find(b)?;
    Some(&s[i..i + j])
}

/// The attributes of the tag that starts at `s` (without its `<`), and what follows it.
fn tag(s: &str) -> (&str, &str) {
    let mut quote = None;
    for (i, c) in s.char_indices() {
        match (quote, c) {
            (None, '>') => return (&s[..i], &s[i + 1..]),
            // Only a quote that follows a `=` is one.
            (None, '"' | '\'') if s[..i].trim_end().ends_with('=') => quote = Some(c),
            (Some(q), c) if q == c => quote = None,
            _ => {}
        }
    }
    (s, "")
}

fn attribute(tag: &str, name: &str) -> Option<String> {
    let i = tag.find(&format!(" {}=", name)).or_else(|| tag.find(&format!("\n{}=", name))).or_else(|| tag.find(&format!("\t{}=", name)))? + name.len() + 2;
    let v = &tag[i..];
    Some(unescape(match v.chars().next()? {
        q @ ('"' | '\'') => v[1..].split(q).next()?,
        _ => v.split_whitespace().next()?,
    }))
}

/// Every element of a kind: its tag and everything behind it.
fn elements<'a>(html: &'a str, kind: &str) -> Vec<(&'a str, &'a str)> {
    let open = format!("<{}", kind);
    let mut v = Vec::new();
    let mut rest = html;
    while let Some(i) = rest.find(&open) {
        rest = &rest[i + open.len()..];
        if rest.starts_with(|c: char| c == '>' || c == '/' || c.is_whitespace()) {
            let (t, r) = tag(rest);
            v.push((t, r));
            rest = r;
        }
    }
    v
}

/// The content of the element with that id; `kind` must not contain itself.
fn by_id<'a>(html: &'a str, kind: &str, id: &str) -> Option<&'a str> {
    let (_, r) = elements(html, kind).into_iter().find(|e| attribute(e.0, "id").as_deref() == Some(id))?;
    Some(r.split(&format!("</{}", kind)).next().unwrap_or(""))
}

/// Cells of the rows of a table: attributes and content; and the attributes of the rows.
fn cells(table: &str) -> Vec<(String, Vec<(String, String)>)> {
    let mut v = Vec::new();
    for (row, rest) in elements(table, "tr") {
        let end = [rest.find("</tr"), rest.find("<tr")].into_iter().flatten().min().unwrap_or(rest.len());
        let c: Vec<(String, String)> = elements(&rest[..end], "td").into_iter().map(|(t, r)| (t.to_string(), r.split("</td").next().unwrap_or("").to_string())).collect();
        if !c.is_empty() {
            v.push((row.to_string(), c));
        }
    }
    v
}

fn without(s: &str, kind: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(&format!("<{}", kind)) {
        o.push_str(&rest[..i]);
        rest = rest[i..].split_once(&format!("</{}>", kind)).map_or("", |x| x.1);
    }
    o + rest
}

fn controls(conf: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let tag = |s: &str| s.split('>').next().unwrap_or("").trim_end_matches('/').to_string() + " ";
    for part in conf.split("<input").skip(1) {
        let t = tag(part);
        let Some(id) = attribute(&t, "id") else { continue };
        match id.split_once('_') {
            Some(("checkbox", n)) => v.push((n.into(), (t.contains(" checked ") || t.contains(" checked=")).to_string())),
            Some((_, n)) => v.push((n.into(), attribute(&t, "value").unwrap_or_default())),
            None => {}
        }
    }
    for part in conf.split("<select").skip(1) {
        let Some((_, n)) = attribute(&tag(part), "id").and_then(|x| x.split_once('_').map(|y| (y.0.to_string(), y.1.to_string()))) else { continue };
        let opts: Vec<String> = part.split("</select").next().unwrap_or("").split("<option").skip(1).map(|o| tag(o)).collect();
        if let Some(o) = opts.iter().rfind(|o| o.contains(" selected ") || o.contains(" selected=")).or(opts.first()) {
            v.push((n, attribute(o, "value").unwrap_or_default()));
        }
    }
    v
}

/// Parses the page of a successful comparison.
pub fn parse_page(html: &str) -> Result<Page, String> {
    let conf = by_id(html, "table", "config_table").ok_or("no configuration table")?;
    let squeeze = |s: &str| tags_off(s).split_whitespace().collect::<Vec<_>>().join(" ").to_lowercase();
    let cached = cells(conf).iter().filter(|r| r.1.len() > 1).find(|r| squeeze(&r.1[0].1).starts_with("cache") && squeeze(&r.1[0].1).ends_with("hit")).and_then(|r| match squeeze(&r.1[1].1).as_str() {
        "yes" => Some(true),
        "no" => Some(false),
        _ => None,
    });
    let list = |id: &str| -> Vec<String> {
        by_id(html, "div", id)
            // Its only child.
            .and_then(|s| elements(html, "div").into_iter().find(|e| e.1.as_ptr() > s.as_ptr()))
            .map(|e| e.1.split("</div").next().unwrap_or("").replace("<br/>", "<br>").replace("<br />", "<br>"))
            .map(|s| s.split("<br>").map(|l| unescape(l.trim())).filter(|l| !l.is_empty()).collect())
            .unwrap_or_default()
    };
    let tab = by_id(html, "table", "sort_me").ok_or("no table")?;
    let tb = elements(tab, "tbody").first().ok_or("no table body")?.1;
    let mut rows = Vec::new();
    for (row, cells) in cells(tb) {
        let Some(id) = attribute(&row, "id") else { continue };
        if cells.len() < 9 {
            return Err(format!("row {:?} has {} cells", id, cells.len()));
        }
        let val = |c: &(String, String)| -> Result<Option<u128>, String> {
            let order = attribute(&c.0, "data-order").ok_or("cell without order")?;
            let v: u128 = order.trim().parse().map_err(|_| format!("bad value {:?}", order))?;
            if tags_off(&c.1) == "-" {
                if v != 0 {
                    return Err("value shown as absent".into());
                }
                Ok(None)
            } else {
                Ok(Some(v))
            }
        };
        let kind = tags_off(&cells[4].1);
        rows.push(PageRow {
            id,
            file: tags_off(&cells[0].1),
            name: tags_off(&without(&cells[1].1, "sup")),
            old: val(&cells[2])?,
            new: val(&cells[3])?,
            kind: match kind.as_str() {
                "Unchanged" | "Added" | "Removed" => kind,
                _ => "Changed".into(),
            },
            warn: cells[1].0.contains("text-warning"),
            scope: tags_off(&cells[8].1),
        });
    }
    Ok(Page { cached, rows, errors: list("collapseErrors"), warnings: list("collapseWarns"), controls: controls(conf) })
}

pub fn error_message(html: &str) -> String {
    between(html, "<h2>", "</h2>").map(unescape).unwrap_or_else(|| html.chars().take(400).collect())
}

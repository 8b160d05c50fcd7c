//! C40: downloading release files.
use crate::net::{Page, Site};
use crate::p_boot::Scratch;
use github_helpers::{Release, ReleaseAsset};
use std::fs::{self, File, OpenOptions};
use vkit::*;

fn body(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[1, 8, 3, 1]) {
        0 => vec![],
        1 => {
            let n = s.size(500);
            s.blob(n)
        }
        2 => {
            let n = s.urange(4000, 70_000);
            let m = s.urange(1, 255);
            (0..n).map(|k| (k * m / 7 % 251) as u8).collect()
        }
        _ => {
            let n = s.urange(200_000, 900_000);
            let m = s.urange(1, 255);
            (0..n).map(|k| (k * m / 7 % 251) as u8).collect()
        }
    }
}
/// cut bytes into pieces that are sent one after the other
fn pieces(s: &mut Src, all: Vec<u8>) -> Page {
    let mut at: Vec<usize> = (0..s.below(4)).map(|_| s.below(all.len() + 1)).collect();
    at.sort_unstable();
    at.push(all.len());
    let mut out = vec![];
    let mut from = 0;
    for a in at {
        out.push(all[from..a].to_vec());
        from = a;
    }
    Page(out)
}
struct Plan {
    page: Page,
    /// what the file holds in the end, or else an error
    want: Option<Vec<u8>>,
    what: String,
    plain: bool,
}
fn plan(s: &mut Src) -> Plan {
    let data = body(s);
    let n = data.len();
    let code = *s.pick(&[200, 200, 200, 200, 201, 404, 403, 400, 429, 500, 502, 503]);
    let mut out = format!("HTTP/1.1 {code} X\r\nConnection: close\r\n").into_bytes();
    let framing = s.below(3);
    let cut = s.chance(1, 4);
    let mut complete = true;
    let mut what = format!("{code}, {n} bytes");
    match framing {
        0 => {
            out.extend(format!("Content-Length: {n}\r\n\r\n").bytes());
            let head = out.len();
            out.extend(&data);
            if cut && n > 0 {
                let keep = s.below(n);
                out.truncate(head + keep);
                complete = false;
                what += &format!(" of which {keep} come");
            }
        }
        1 => {
            out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            let head = out.len();
            let mut rest = &data[..];
            while !rest.is_empty() {
                let k = if s.flag() { rest.len() } else { 1 + s.below(rest.len()) };
                out.extend(format!("{k:x}\r\n").bytes());
                out.extend(&rest[..k]);
                out.extend(b"\r\n");
                rest = &rest[k..];
            }
            let before_end = out.len();
            out.extend(b"0\r\n\r\n");
            what += " in chunks";
            if cut {
                let keep = s.below(before_end + 1 - head);
                out.truncate(head + keep);
                complete = false;
                what += &format!(" of which {keep} bytes come");
            }
        }
        _ => {
            // the end of the connection is the end of the file
            out.extend(b"X-Other: 1\r\n\r\n");
            out.extend(&data);
            what += " until the end";
        }
    }
    let ok = code < 300 && complete;
    Plan { page: pieces(s, out), want: ok.then_some(data), what, plain: code == 200 && complete && framing == 0 }
}
fn fetch(url: &str, name: &str, f: &mut File) -> Result<Result<(), String>, Fail> {
    let a = ReleaseAsset { name: name.to_string(), browser_download_url: url.to_string() };
    match guarded(|| a.download(f).map_err(|e| e.to_string())) {
        Ok(r) => Ok(r),
        Err((_, m)) => fail("panic", format!("panic: {m}")),
    }
}

fn download(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let site = Site::new();
    let p = plan(s);
    site.put("file", p.page.clone());
    // redirects on the way
    let hops = s.weighted(&[6, 2, 1, 1]);
    for h in 0..hops {
        let next = if h + 1 == hops { "file".to_string() } else { format!("hop{}", h + 1) };
        let to = if s.flag() { site.url(&next) } else { site.local(&next) };
        let code = *s.pick(&[301, 302, 303, 307, 308]);
        site.put(&format!("hop{h}"), Page(vec![format!("HTTP/1.1 {code} X\r\nLocation: {to}\r\nConnection: close\r\nContent-Length: 5\r\n\r\nhello").into_bytes()]));
    }
    let start = if hops == 0 { "file" } else { "hop0" };
    s.note(format!("{}, {hops} redirects", p.what));
    if !p.plain || hops > 0 {
        s.nontrivial();
    }
    s.class(if p.want.is_some() { "complete" } else { "failing" });
    let path = sc.dir.join("file.bin");
    let mut f = OpenOptions::new().create(true).write(true).read(true).truncate(true).open(&path).unwrap();
    let r = fetch(&site.url(start), "file.bin", &mut f)?;
    drop(f);
    match &p.want {
        Some(d) => {
            ensure!(s, r.is_ok(), "download: error", "failed: {r:?}");
            let got = fs::read(&path).unwrap();
            ensure!(s, got == *d, "download: content", "{}", bytediff(&got, d));
        }
        None => {
            ensure!(s, r.is_err(), "download: reported", "success, and the file has {} bytes", fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
        }
    }
    // the service refuses requests that do not say who is asking
    let hits = site.hits(start);
    ensure!(s, !hits.is_empty(), "download: asked", "nothing was asked for");
    for h in &hits {
        let agent = h.lines().filter_map(|l| l.split_once(':')).find(|(k, _)| k.eq_ignore_ascii_case("user-agent")).map(|(_, v)| v.trim().to_string());
        ensure!(s, h.starts_with("GET "), "download: method", "request {h:?}");
        ensure!(s, agent.is_some_and(|a| !a.is_empty()), "download: agent", "request {h:?}");
    }
    ensure_eq!(s, fs::read_dir(&sc.dir).unwrap().count(), 1, "download: elsewhere", "files in the directory");
    Ok(())
}

/// what cannot be fetched or stored is reported
fn failing(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let site = Site::new();
    let path = sc.dir.join("f");
    fs::write(&path, b"").unwrap();
    let data = {
        let mut d = body(s);
        d.push(1);
        d
    };
    let mut page = format!("HTTP/1.1 200 X\r\nConnection: close\r\nContent-Length: {}\r\n\r\n", data.len()).into_bytes();
    page.extend(&data);
    s.nontrivial();
    let (url, mut f, what) = match s.below(6) {
        0 => {
            site.put("f", pieces(s, page));
            (site.url("f"), OpenOptions::new().write(true).open("/dev/full").unwrap(), "a full disk")
        }
        1 => {
            site.put("f", pieces(s, page));
            (site.url("f"), File::open(&path).unwrap(), "a file that is not open for writing")
        }
        2 => {
            // ends within the head, or before it
            let head = page.len() - data.len();
            let n = s.below(head - 1);
            page.truncate(n);
            site.put("f", Page(vec![page]));
            (site.url("f"), OpenOptions::new().write(true).open(&path).unwrap(), "a head that is cut off")
        }
        3 => {
            site.put("f", Page(vec![format!("HTTP/1.1 302 X\r\nLocation: {}\r\nConnection: close\r\nContent-Length: 0\r\n\r\n", site.local("f")).into_bytes()]));
            (site.url("f"), OpenOptions::new().write(true).open(&path).unwrap(), "redirects that never end")
        }
        4 => {
            let n = s.urange(1, 40);
            site.put("f", Page(vec![s.blob(n)]));
            (site.url("f"), OpenOptions::new().write(true).open(&path).unwrap(), "an answer that is none")
        }
        _ => {
            let u = s.pick(&["", "x", "http://", "ftp://127.0.0.1/x", "/a/b", "http://127.0.0.1:1/x", "http://[::1"]).to_string();
            (u, OpenOptions::new().write(true).open(&path).unwrap(), "no such place")
        }
    };
    s.note(format!("{what}: {url:?}").replace(|c: char| c.is_ascii_digit(), "#"));
    s.class(what);
    let r = fetch(&url, "f", &mut f)?;
    ensure!(s, r.is_err(), "failing: reported", "success");
    Ok(())
}

/// the description of a release
fn describe(s: &mut Src) -> Res {
    let n = s.size(5);
    let assets: Vec<(String, String)> = (0..n).map(|_| (s.text(8), s.text(12))).collect();
    let mut list = vec![];
    for (a, u) in &assets {
        let mut o = serde_json::json!({"name": a, "browser_download_url": u});
        if s.flag() {
            o["size"] = serde_json::json!(s.u32v());
            o["url"] = serde_json::json!("https://example/other");
            o["uploader"] = serde_json::json!({"name": "x", "browser_download_url": "y"});
        }
        list.push(o);
    }
    let mut r = serde_json::json!({"assets": list});
    if s.flag() {
        r["name"] = serde_json::json!("v1");
        r["tag_name"] = serde_json::json!(s.text(4));
        r["assets_url"] = serde_json::json!("u");
        r["author"] = serde_json::Value::Null;
    }
    let miss = s.chance(1, 4);
    let mut valid = true;
    if miss {
        match s.below(3) {
            0 => {
                r.as_object_mut().unwrap().remove("assets");
                valid = false;
            }
            1 if n > 0 => {
                let k = s.below(n);
                let field = *s.pick(&["name", "browser_download_url"]);
                r["assets"][k].as_object_mut().unwrap().remove(field);
                valid = false;
            }
            _ => {
                r["assets"] = serde_json::json!("none");
                valid = false;
            }
        }
    }
    let text = r.to_string();
    s.note(&text);
    if n > 1 || !valid {
        s.nontrivial();
    }
    s.class(if valid { "valid" } else { "invalid" });
    match serde_json::from_str::<Release>(&text) {
        Ok(got) => {
            ensure!(s, valid, "describe: refused", "{text} was taken");
            let got: Vec<(String, String)> = got.assets.into_iter().map(|a| (a.name, a.browser_download_url)).collect();
            ensure_eq!(s, got, assets, "describe: same", "assets");
        }
        Err(e) => {
            ensure!(s, !valid, "describe: error", "{e}");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C40",
        rule: "anything but one plain answer; a fault is present; two or more files or a malformed description",
        assumptions: &["the server is a loopback stand-in; the address of the release description is fixed in the code and not reached"],
        facets: vec![
            Facet { name: "download", quick: 3_000, thorough: 60_000, run: download },
            Facet { name: "failing", quick: 1_500, thorough: 30_000, run: failing },
            Facet { name: "describe", quick: 3_000, thorough: 50_000, run: describe },
        ],
    }]
}

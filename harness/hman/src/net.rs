//! A small web server on the loopback network. What it serves is set per case.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Page {
    Data(Vec<u8>),
    Status(u16, Vec<u8>),
    /// the connection ends before all of it was sent
    Cut(Vec<u8>),
    /// the connection ends without an answer
    Hangup,
}
impl Page {
    pub fn show(&self) -> String {
        let t = |b: &Vec<u8>| String::from_utf8_lossy(b).into_owned();
        match self {
            Page::Data(d) => format!("200 {}", t(d)),
            Page::Status(c, d) => format!("{c} {}", t(d)),
            Page::Cut(d) => format!("cut {}", t(d)),
            Page::Hangup => "hang up".into(),
        }
    }
}
struct Server {
    ports: Vec<u16>,
    pages: Mutex<HashMap<String, Page>>,
    hits: Mutex<HashMap<u64, Vec<String>>>,
}
static SERVER: OnceLock<Server> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(1);

fn server() -> &'static Server {
    SERVER.get_or_init(|| {
        let mut ports = vec![];
        for _ in 0..16 {
            let l = TcpListener::bind("127.0.0.1:0").expect("listen on the loopback network");
            ports.push(l.local_addr().unwrap().port());
            std::thread::spawn(move || {
                for c in l.incoming().flatten() {
                    std::thread::spawn(move || {
                        let _ = answer(c);
                    });
                }
            });
        }
        Server { ports, pages: Mutex::new(HashMap::new()), hits: Mutex::new(HashMap::new()) }
    })
}
/// a site stops answering with content after this many requests, so that endless loops end
pub const LIMIT: usize = 400;

fn answer(mut c: TcpStream) -> std::io::Result<()> {
    let mut req = vec![];
    let mut buf = [0u8; 2048];
    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        req.extend(&buf[..n]);
    }
    let line = String::from_utf8_lossy(&req);
    let path = line.split(' ').nth(1).unwrap_or("/").to_string();
    let s = SERVER.get().unwrap();
    let site: u64 = path.split('/').nth(1).and_then(|e| e.parse().ok()).unwrap_or(0);
    let many = {
        let mut h = s.hits.lock().unwrap();
        match h.get_mut(&site) {
            Some(l) => {
                l.push(path.clone());
                l.len() > LIMIT
            }
            None => true,
        }
    };
    let page = s.pages.lock().unwrap().get(&path).cloned();
    let page = if many { Some(Page::Status(503, vec![])) } else { page };
    let mut out = vec![];
    let mut head = |out: &mut Vec<u8>, code: u16, len: usize| {
        write!(out, "HTTP/1.1 {code} X\r\nContent-Length: {len}\r\nConnection: close\r\n\r\n").unwrap();
    };
    match page {
        None => head(&mut out, 404, 0),
        Some(Page::Data(d)) => {
            head(&mut out, 200, d.len());
            out.extend(d);
        }
        Some(Page::Status(code, d)) => {
            head(&mut out, code, d.len());
            out.extend(d);
        }
        Some(Page::Cut(d)) => {
            head(&mut out, 200, d.len() + 10);
            out.extend(d);
        }
        Some(Page::Hangup) => return Ok(()),
    }
    c.write_all(&out)?;
    c.flush()
}

/// the pages of one case
pub struct Site(u64);
impl Site {
    pub fn new() -> Site {
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        server().hits.lock().unwrap().insert(id, vec![]);
        Site(id)
    }
    fn path(&self, name: &str) -> String {
        format!("/{}/{name}", self.0)
    }
    pub fn url(&self, name: &str) -> String {
        let s = server();
        format!("http://127.0.0.1:{}{}", s.ports[self.0 as usize % s.ports.len()], self.path(name))
    }
    pub fn put(&self, name: &str, p: Page) {
        server().pages.lock().unwrap().insert(self.path(name), p);
    }
    pub fn hits(&self) -> Vec<String> {
        let pre = self.path("");
        let h = server().hits.lock().unwrap();
        h[&self.0].iter().map(|e| e.strip_prefix(&pre).unwrap_or(e).to_string()).collect()
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        let s = server();
        s.hits.lock().unwrap().remove(&self.0);
        let pre = self.path("");
        s.pages.lock().unwrap().retain(|k, _| !k.starts_with(&pre));
    }
}

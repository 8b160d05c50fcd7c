//! A small web server on the loopback network. What it serves is set per case.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

/// the exact bytes of an answer, in pieces, after which the connection ends
#[derive(Clone, Debug, Default)]
pub struct Page(pub Vec<Vec<u8>>);

struct Server {
    port: u16,
    pages: Mutex<HashMap<String, Page>>,
    /// requests by path: the whole head
    hits: Mutex<HashMap<String, Vec<String>>>,
}
static SERVER: OnceLock<Server> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(1);

fn server() -> &'static Server {
    SERVER.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("listen on the loopback network");
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = answer(c);
                });
            }
        });
        Server { port, pages: Mutex::new(HashMap::new()), hits: Mutex::new(HashMap::new()) }
    })
}
fn answer(mut c: TcpStream) -> std::io::Result<()> {
    c.set_nodelay(true).ok();
    let mut req = vec![];
    let mut buf = [0u8; 2048];
    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        req.extend(&buf[..n]);
    }
    let head = String::from_utf8_lossy(&req).into_owned();
    let path = head.split(' ').nth(1).unwrap_or("/").to_string();
    let s = SERVER.get().unwrap();
    s.hits.lock().unwrap().entry(path.clone()).or_default().push(head);
    let page = s.pages.lock().unwrap().get(&path).cloned().unwrap_or_default();
    for p in &page.0 {
        c.write_all(p)?;
        c.flush()?;
    }
    c.shutdown(Shutdown::Write)?;
    // let the other side take what was sent before the connection goes away
    while c.read(&mut buf).unwrap_or(0) > 0 {}
    Ok(())
}

/// the pages of one case
pub struct Site(u64);
impl Site {
    pub fn new() -> Site {
        server();
        Site(NEXT.fetch_add(1, Ordering::Relaxed))
    }
    fn path(&self, name: &str) -> String {
        format!("/{}/{name}", self.0)
    }
    pub fn url(&self, name: &str) -> String {
        format!("http://127.0.0.1:{}{}", server().port, self.path(name))
    }
    /// without the host
    pub fn local(&self, name: &str) -> String {
        self.path(name)
    }
    pub fn put(&self, name: &str, p: Page) {
        server().pages.lock().unwrap().insert(self.path(name), p);
    }
    pub fn hits(&self, name: &str) -> Vec<String> {
        server().hits.lock().unwrap().get(&self.path(name)).cloned().unwrap_or_default()
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        let s = server();
        let pre = self.path("");
        s.hits.lock().unwrap().retain(|k, _| !k.starts_with(&pre));
        s.pages.lock().unwrap().retain(|k, _| !k.starts_with(&pre));
    }
}

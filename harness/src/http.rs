//! A scripted HTTP/1.1 server on the loopback interface that records what it is sent.
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub struct Req {pub method: String, pub target: String, pub headers: Vec<(String, Vec<u8>)>, pub body: Vec<u8>}
impl Req {
    pub fn all(&self, n: &str) -> Vec<String> {self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| String::from_utf8_lossy(v).into_owned()).collect()}
}
pub trait Both: Read + Write {}
impl<T: Read + Write> Both for T {}
pub type Handler = Box<dyn Fn(&Req) -> Vec<u8> + Send>;
/// A listener that lives as long as the program; ports are not used up by the cases.
struct Inner {addr: SocketAddr, log: Arc<Mutex<Vec<Req>>>, handler: Arc<Mutex<Option<Handler>>>, tls: bool}
static POOL: Mutex<Vec<Inner>> = Mutex::new(Vec::new());
pub struct Server {pub addr: SocketAddr, pub log: Arc<Mutex<Vec<Req>>>, inner: Option<Inner>}
pub fn read_req(s: &mut dyn Read) -> Option<Req> {
    let mut buf = Vec::new();
    let mut chunk = [0u8; 4096];
    let head = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {break i;}
        match s.read(&mut chunk) {Ok(0) | Err(_) => return None, Ok(n) => buf.extend_from_slice(&chunk[..n])}
    };
    let text = buf[..head].to_vec();
    let mut body = buf[head + 4..].to_vec();
    let mut lines = text.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next()?).into_owned();
    let mut w = first.split(' ');
    let (method, target) = (w.next()?.to_string(), w.next()?.to_string());
    let headers: Vec<(String, Vec<u8>)> = lines.filter_map(|l| {let i = l.iter().position(|b| *b == b':')?; Some((String::from_utf8_lossy(&l[..i]).to_lowercase(), l[i + 1..].strip_prefix(b" ").unwrap_or(&l[i + 1..]).to_vec()))}).collect();
    let len: usize = headers.iter().find(|(k, _)| k == "content-length").and_then(|(_, v)| std::str::from_utf8(v).ok()?.parse().ok()).unwrap_or(0);
    while body.len() < len {match s.read(&mut chunk) {Ok(0) | Err(_) => return None, Ok(n) => body.extend_from_slice(&chunk[..n])}}
    Some(Req {method, target, headers, body})
}
impl Inner {
    fn new(tls: bool) -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("harness/src: loopback listener");
        let addr = l.local_addr().expect("harness/src: loopback address");
        let (log, handler) = (Arc::new(Mutex::new(Vec::new())), Arc::new(Mutex::new(None::<Handler>)));
        let (lg, hd) = (log.clone(), handler.clone());
        let acceptor = tls.then(|| {
            let id = native_tls::Identity::from_pkcs8(include_bytes!("../tls/cert.pem"), include_bytes!("../tls/key.pem")).expect("harness/src: identity");
            native_tls::TlsAcceptor::new(id).expect("harness/src: acceptor")
        });
        std::thread::spawn(move || for c in l.incoming() {
            let Ok(c) = c else {continue};
            let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
            let raw = c.try_clone();
            let mut c: Box<dyn Both> = match &acceptor {None => Box::new(c), Some(t) => match t.accept(c) {Ok(c) => Box::new(c), Err(_) => continue}};
            if let Some(r) = read_req(&mut c) {
                let Some(out) = hd.lock().expect("harness/src: handler").as_ref().map(|h| h(&r)) else {continue};
                lg.lock().expect("harness/src: log").push(r);
                let _ = c.write_all(&out);
                let _ = c.flush();
                if let Ok(raw) = raw {let _ = raw.shutdown(Shutdown::Write);}
                // Until the other side is done, so that the answer is not cut off by a reset.
                let mut rest = [0u8; 1024]; while matches!(c.read(&mut rest), Ok(n) if n > 0) {}
            }
        });
        Self {addr, log, handler, tls}
    }
}
impl Server {
    pub fn new(handler: Handler) -> Self {Self::with(handler, false)}
    /// With the certificate in tls/, which nobody trusts.
    pub fn tls(handler: Handler) -> Self {Self::with(handler, true)}
    fn with(handler: Handler, tls: bool) -> Self {
        let inner = {let mut p = POOL.lock().expect("harness/src: pool"); p.iter().position(|x| x.tls == tls).map(|i| p.remove(i))};
        let inner = inner.unwrap_or_else(|| Inner::new(tls));
        *inner.handler.lock().expect("harness/src: handler") = Some(handler);
        inner.log.lock().expect("harness/src: log").clear();
        Self {addr: inner.addr, log: inner.log.clone(), inner: Some(inner)}
    }
    pub fn url(&self, path: &str) -> String {format!("http://{}{path}", self.addr)}
    pub fn taken(&self) -> Vec<Req> {std::mem::take(&mut *self.log.lock().expect("harness/src: log"))}
}
impl Drop for Server {
    fn drop(&mut self) {
        if let Some(i) = self.inner.take() {
            if let Ok(mut h) = i.handler.lock() {*h = None;}
            if !std::thread::panicking() && let Ok(mut p) = POOL.lock() {p.push(i);}
        }
    }
}
pub fn answer(status: u16, headers: &[(String, Vec<u8>)], body: &[u8]) -> Vec<u8> {
    let mut o = format!("HTTP/1.1 {status} X\r\n").into_bytes();
    for (k, v) in headers {o.extend_from_slice(k.as_bytes()); o.extend_from_slice(b": "); o.extend_from_slice(v); o.extend_from_slice(b"\r\n");}
    if !headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("content-length")) {o.extend_from_slice(format!("content-length: {}\r\n", body.len()).as_bytes());}
    o.extend_from_slice(b"connection: close\r\n\r\n");
    o.extend_from_slice(body);
    o
}

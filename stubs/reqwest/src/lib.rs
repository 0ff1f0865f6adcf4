//! Simulated stand-in for `reqwest` 0.11 (blocking).  Every request is answered by the handler the
//! simulator registers; nothing here touches a socket or a clock.
use std::fmt;
use std::time::Duration;

/// What the simulator sees of a request.
#[derive(Debug, Clone)]
pub struct SimRequest {
    pub method: String,
    pub url: String,
    pub timeout: Option<Duration>,
}
/// What the simulator answers to the head of a request.
#[derive(Debug)]
pub struct SimHead {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub content_length: Option<u64>,
    /// Opaque ticket handed back when the body is read.
    pub ticket: u64,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SimErr { Builder, Connect, Timeout, Body, Decode, Status(u16), Redirect }

pub trait SimNet: Sync {
    fn request(&self, r: &SimRequest) -> Result<SimHead, SimErr>;
    /// Next piece of the body (empty = end).
    fn body(&self, ticket: u64, max: usize) -> Result<Vec<u8>, SimErr>;
}
static mut NET: Option<&'static dyn SimNet> = None;
/// # Safety
/// Call once, before any request.
pub unsafe fn sim_set_net(n: &'static dyn SimNet) { unsafe { NET = Some(n) } }
fn net() -> &'static dyn SimNet { unsafe { (*std::ptr::addr_of!(NET)).expect("no simulated network") } }

pub struct Error { kind: SimErr, url: Option<String> }
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl Error {
    fn new(kind: SimErr, url: &str) -> Self { Error { kind, url: Some(url.to_owned()) } }
    pub fn is_builder(&self) -> bool { self.kind == SimErr::Builder }
    pub fn is_redirect(&self) -> bool { self.kind == SimErr::Redirect }
    pub fn is_status(&self) -> bool { matches!(self.kind, SimErr::Status(_)) }
    pub fn is_timeout(&self) -> bool { self.kind == SimErr::Timeout }
    pub fn is_request(&self) -> bool { matches!(self.kind, SimErr::Connect | SimErr::Timeout) }
    pub fn is_connect(&self) -> bool { self.kind == SimErr::Connect }
    pub fn is_body(&self) -> bool { self.kind == SimErr::Body }
    pub fn is_decode(&self) -> bool { self.kind == SimErr::Decode }
    pub fn status(&self) -> Option<StatusCode> { if let SimErr::Status(s) = self.kind { Some(StatusCode(s)) } else { None } }
    pub fn without_url(mut self) -> Self { self.url = None; self }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "reqwest::Error {{ kind: {:?}, url: {:?} }}", self.kind, self.url) }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "simulated request error {:?}", self.kind) }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_MODIFIED: StatusCode = StatusCode(304);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const TOO_MANY_REQUESTS: StatusCode = StatusCode(429);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn as_str(&self) -> String { self.0.to_string() }
    pub fn is_success(&self) -> bool { (200..300).contains(&self.0) }
    pub fn is_redirection(&self) -> bool { (300..400).contains(&self.0) }
    pub fn is_client_error(&self) -> bool { (400..500).contains(&self.0) }
    pub fn is_server_error(&self) -> bool { (500..600).contains(&self.0) }
    pub fn is_informational(&self) -> bool { (100..200).contains(&self.0) }
}
impl fmt::Debug for StatusCode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> bool { self.0 == *o } }

pub trait IntoUrl { fn into_sim_url(self) -> String; }
impl IntoUrl for &str { fn into_sim_url(self) -> String { self.to_owned() } }
impl IntoUrl for String { fn into_sim_url(self) -> String { self } }
impl IntoUrl for &String { fn into_sim_url(self) -> String { self.clone() } }

pub mod blocking {
    use super::*;
    use std::io::{self, Read, Write};

    pub fn get<T: IntoUrl>(url: T) -> Result<Response> { Client::new().get(url).send() }

    #[derive(Debug, Clone, Default)]
    pub struct Client { timeout: Option<Duration> }
    impl Client {
        pub fn new() -> Self { Client { timeout: Some(Duration::from_secs(30)) } }
        pub fn builder() -> ClientBuilder { ClientBuilder { timeout: Some(Duration::from_secs(30)) } }
        fn req<U: IntoUrl>(&self, m: &str, u: U) -> RequestBuilder {
            RequestBuilder(SimRequest { method: m.into(), url: u.into_sim_url(), timeout: self.timeout })
        }
        pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.req("GET", u) }
        pub fn head<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.req("HEAD", u) }
    }
    #[derive(Debug, Default)]
    pub struct ClientBuilder { timeout: Option<Duration> }
    impl ClientBuilder {
        pub fn new() -> Self { Client::builder() }
        pub fn timeout<T: Into<Option<Duration>>>(mut self, t: T) -> Self { self.timeout = t.into(); self }
        pub fn connect_timeout<T: Into<Option<Duration>>>(self, _: T) -> Self { self }
        pub fn user_agent<V>(self, _: V) -> Self { self }
        pub fn gzip(self, _: bool) -> Self { self }
        pub fn https_only(self, _: bool) -> Self { self }
        pub fn build(self) -> Result<Client> { Ok(Client { timeout: self.timeout }) }
    }
    #[derive(Debug)]
    pub struct RequestBuilder(SimRequest);
    impl RequestBuilder {
        pub fn header<K, V>(self, _: K, _: V) -> Self { self }
        pub fn timeout(mut self, t: Duration) -> Self { self.0.timeout = Some(t); self }
        pub fn query<T: ?Sized>(self, _: &T) -> Self { self }
        pub fn send(self) -> Result<Response> {
            match net().request(&self.0) {
                Ok(head) => Ok(Response { head, url: self.0.url, buf: Vec::new(), done: false }),
                Err(k) => Err(Error::new(k, &self.0.url)),
            }
        }
    }
    #[derive(Debug)]
    pub struct Response { head: SimHead, url: String, buf: Vec<u8>, done: bool }
    impl Response {
        pub fn status(&self) -> StatusCode { StatusCode(self.head.status) }
        pub fn content_length(&self) -> Option<u64> { self.head.content_length }
        pub fn url_str(&self) -> &str { &self.url }
        fn all(&mut self) -> Result<Vec<u8>> {
            let mut out = std::mem::take(&mut self.buf);
            while !self.done {
                let b = net().body(self.head.ticket, usize::MAX).map_err(|k| Error::new(k, &self.url))?;
                if b.is_empty() { self.done = true } else { out.extend(b) }
            }
            Ok(out)
        }
        pub fn text(mut self) -> Result<String> {
            let b = self.all()?;
            let b = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(&b);
            Ok(String::from_utf8_lossy(b).into_owned())
        }
        pub fn text_with_charset(self, _: &str) -> Result<String> { self.text() }
        pub fn bytes(mut self) -> Result<Vec<u8>> { self.all() }
        pub fn json<T: serde::de::DeserializeOwned>(mut self) -> Result<T> {
            let b = self.all()?;
            serde_json::from_slice(&b).map_err(|_| Error::new(SimErr::Decode, &self.url))
        }
        pub fn copy_to<W: Write + ?Sized>(&mut self, w: &mut W) -> Result<u64> {
            io::copy(self, w).map_err(|_| Error::new(SimErr::Body, &self.url))
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.head.status >= 400 { Err(Error::new(SimErr::Status(self.head.status), &self.url)) } else { Ok(self) }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            if self.head.status >= 400 { Err(Error::new(SimErr::Status(self.head.status), &self.url)) } else { Ok(self) }
        }
    }
    impl Read for Response {
        fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
            if out.is_empty() { return Ok(0) }
            if self.buf.is_empty() && !self.done {
                self.buf = net().body(self.head.ticket, out.len()).map_err(|k| io::Error::new(io::ErrorKind::Other, Error::new(k, &self.url)))?;
                if self.buf.is_empty() { self.done = true }
            }
            let n = self.buf.len().min(out.len());
            out[..n].copy_from_slice(&self.buf[..n]);
            self.buf.drain(..n);
            Ok(n)
        }
    }
}

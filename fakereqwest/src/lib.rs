//! Recording stand-in for `reqwest`: same builder semantics (URL and header validation at build time),
//! no network; the harness installs a handler which receives each executed request.
use std::sync::{Arc, Mutex};
use std::time::Duration;
pub use http::{header, Method, StatusCode, Version};
pub use url::Url;
pub mod redirect {
    pub struct Policy;
    impl Policy {
        pub fn none() -> Self { Policy }
        pub fn limited(_: usize) -> Self { Policy }
    }
}
#[derive(Debug)]
pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Error {
    pub fn is_timeout(&self) -> bool { self.0.contains("timeout") }
    pub fn is_connect(&self) -> bool { self.0.contains("connect") }
    pub fn is_status(&self) -> bool { self.0.contains("status") }
    pub fn is_builder(&self) -> bool { self.0.contains("builder") }
    pub fn is_request(&self) -> bool { self.0.contains("execute") }
    pub fn is_body(&self) -> bool { self.0.contains("body") }
    pub fn is_decode(&self) -> bool { self.0.contains("decode") }
    pub fn status(&self) -> Option<StatusCode> { None }
    pub fn url(&self) -> Option<&Url> { None }
    pub fn without_url(self) -> Self { self }
}
#[derive(Clone, Debug)]
pub struct Body(Vec<u8>);
impl Body { pub fn as_bytes(&self) -> Option<&[u8]> { Some(&self.0) } }
impl From<String> for Body { fn from(s: String) -> Self { Body(s.into_bytes()) } }
impl From<&'static str> for Body { fn from(s: &'static str) -> Self { Body(s.as_bytes().to_vec()) } }
impl From<Vec<u8>> for Body { fn from(s: Vec<u8>) -> Self { Body(s) } }
impl From<&'static [u8]> for Body { fn from(s: &'static [u8]) -> Self { Body(s.to_vec()) } }
impl From<bytes::Bytes> for Body { fn from(s: bytes::Bytes) -> Self { Body(s.to_vec()) } }
pub trait IntoUrl { fn into_url(self) -> Result<Url>; fn as_str(&self) -> &str; }
fn parse(s: &str) -> Result<Url> {
    let u = Url::parse(s).map_err(|e| Error(format!("builder error: {e}")))?;
    if u.has_host() { Ok(u) } else { Err(Error("builder error: URL scheme is not allowed".into())) }
}
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { if self.has_host() { Ok(self) } else { Err(Error("builder error".into())) } } fn as_str(&self) -> &str { self.as_ref() } }
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { parse(self) } fn as_str(&self) -> &str { self } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { parse(self) } fn as_str(&self) -> &str { self } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { parse(&self) } fn as_str(&self) -> &str { self } }
#[derive(Clone, Debug)]
pub struct Request { method: Method, url: Url, headers: header::HeaderMap, body: Option<Body> }
impl Request {
    pub fn new(method: Method, url: Url) -> Self { Request { method, url, headers: Default::default(), body: None } }
    pub fn method(&self) -> &Method { &self.method }
    pub fn method_mut(&mut self) -> &mut Method { &mut self.method }
    pub fn url(&self) -> &Url { &self.url }
    pub fn url_mut(&mut self) -> &mut Url { &mut self.url }
    pub fn headers(&self) -> &header::HeaderMap { &self.headers }
    pub fn headers_mut(&mut self) -> &mut header::HeaderMap { &mut self.headers }
    pub fn body(&self) -> Option<&Body> { self.body.as_ref() }
    pub fn body_mut(&mut self) -> &mut Option<Body> { &mut self.body }
    pub fn timeout_mut(&mut self) -> Box<Option<Duration>> { Box::new(None) }
    pub fn try_clone(&self) -> Option<Request> { Some(self.clone()) }
}
#[derive(Clone, Debug, Default)]
pub struct Reply { pub status: u16, pub body: Vec<u8>, pub body_err: bool, pub exec_err: bool }
type Handler = Arc<dyn Fn(&Request) -> Reply + Send + Sync>;
static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);
pub fn __set_handler(h: Option<Handler>) { *HANDLER.lock().unwrap() = h; }
#[derive(Debug)]
pub struct Response { status: StatusCode, url: Url, headers: header::HeaderMap, body: Vec<u8>, err: bool }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn version(&self) -> Version { Version::HTTP_11 }
    pub fn headers(&self) -> &header::HeaderMap { &self.headers }
    pub fn url(&self) -> &Url { &self.url }
    pub fn content_length(&self) -> Option<u64> { Some(self.body.len() as u64) }
    pub async fn text(self) -> Result<String> { self.bytes().await.map(|b| String::from_utf8_lossy(&b).into_owned()) }
    pub async fn bytes(self) -> Result<bytes::Bytes> { yield_once().await; if self.err { Err(Error("body error".into())) } else { Ok(self.body.into()) } }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { let b = self.bytes().await?; serde_json::from_slice(&b).map_err(|e| Error(format!("decode error: {e}"))) }
    pub fn error_for_status(self) -> Result<Self> { if self.status.is_client_error() || self.status.is_server_error() { Err(Error("status error".into())) } else { Ok(self) } }
    pub fn error_for_status_ref(&self) -> Result<&Self> { if self.status.is_client_error() || self.status.is_server_error() { Err(Error("status error".into())) } else { Ok(self) } }
}
async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(move |cx| { if done { std::task::Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); std::task::Poll::Pending } }).await
}
#[derive(Clone, Debug, Default)]
pub struct Client;
#[derive(Debug, Default)]
pub struct ClientBuilder;
macro_rules! noop { ($($n:ident($($t:ty),*);)*) => { $(pub fn $n(self $(, _: $t)*) -> Self { self })* } }
impl ClientBuilder {
    pub fn new() -> Self { ClientBuilder }
    noop! { timeout(Duration); connect_timeout(Duration); redirect(redirect::Policy); no_proxy(); default_headers(header::HeaderMap); use_rustls_tls(); https_only(bool); pool_max_idle_per_host(usize); }
    pub fn user_agent<V>(self, _: V) -> Self { self }
    pub fn build(self) -> Result<Client> { Ok(Client) }
}
impl Client {
    pub fn new() -> Self { Client }
    pub fn builder() -> ClientBuilder { ClientBuilder }
    pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::GET, u) }
    pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::POST, u) }
    pub fn put<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::PUT, u) }
    pub fn head<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::HEAD, u) }
    pub fn delete<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::DELETE, u) }
    pub fn patch<U: IntoUrl>(&self, u: U) -> RequestBuilder { self.request(Method::PATCH, u) }
    pub fn request<U: IntoUrl>(&self, method: Method, u: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), request: u.into_url().map(|u| Request::new(method, u)) }
    }
    pub async fn execute(&self, request: Request) -> Result<Response> {
        yield_once().await;
        let h = HANDLER.lock().unwrap().clone();
        let r = match h { Some(h) => h(&request), None => Reply { exec_err: true, ..Default::default() } };
        yield_once().await;
        if r.exec_err { return Err(Error("execute error: connection refused".into())); }
        Ok(Response { status: StatusCode::from_u16(r.status).unwrap(), url: request.url, headers: Default::default(), body: r.body, err: r.body_err })
    }
}
#[derive(Debug)]
pub struct RequestBuilder { client: Client, request: Result<Request> }
impl RequestBuilder {
    pub fn from_parts(client: Client, request: Request) -> Self { RequestBuilder { client, request: Ok(request) } }
    pub fn header<K, V>(mut self, key: K, value: V) -> Self
    where header::HeaderName: TryFrom<K>, <header::HeaderName as TryFrom<K>>::Error: Into<http::Error>,
          header::HeaderValue: TryFrom<V>, <header::HeaderValue as TryFrom<V>>::Error: Into<http::Error> {
        let mut err = None;
        if let Ok(r) = self.request.as_mut() {
            match <header::HeaderName as TryFrom<K>>::try_from(key) {
                Ok(k) => match <header::HeaderValue as TryFrom<V>>::try_from(value) {
                    Ok(v) => { if r.headers.try_append(k, v).is_err() { err = Some("builder error: headers".to_string()); } }
                    Err(e) => err = Some(format!("builder error: {}", e.into())),
                },
                Err(e) => err = Some(format!("builder error: {}", e.into())),
            }
        }
        if let Some(e) = err { self.request = Err(Error(e)); }
        self
    }
    pub fn headers(mut self, h: header::HeaderMap) -> Self {
        if let Ok(r) = self.request.as_mut() {
            let mut last = None;
            for (k, v) in h {
                if let Some(k) = k { r.headers.insert(k.clone(), v); last = Some(k); } else if let Some(k) = last.clone() { r.headers.append(k, v); }
            }
        }
        self
    }
    pub fn bearer_auth<T: std::fmt::Display>(self, token: T) -> Self {
        let v = header::HeaderValue::from_str(&format!("Bearer {token}"));
        match v { Ok(v) => self.header(header::AUTHORIZATION, v), Err(e) => RequestBuilder { client: self.client, request: self.request.and(Err(Error(format!("builder error: {e}")))) } }
    }
    pub fn body<T: Into<Body>>(mut self, b: T) -> Self { if let Ok(r) = self.request.as_mut() { r.body = Some(b.into()); } self }
    pub fn timeout(self, _: Duration) -> Self { self }
    pub fn version(self, _: Version) -> Self { self }
    pub fn query<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
        if let Ok(r) = self.request.as_mut() {
            if let Ok(s) = serde_urlencoded::to_string(q) {
                let n = match r.url.query() { Some(o) if !o.is_empty() => format!("{o}&{s}"), _ => s };
                r.url.set_query(if n.is_empty() { None } else { Some(&n) });
            }
        }
        self
    }
    pub fn form<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
        if let Ok(r) = self.request.as_mut() {
            r.headers.insert(header::CONTENT_TYPE, header::HeaderValue::from_static("application/x-www-form-urlencoded"));
            r.body = serde_urlencoded::to_string(q).ok().map(Body::from);
        }
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
        if let Ok(r) = self.request.as_mut() {
            r.headers.entry(header::CONTENT_TYPE).or_insert(header::HeaderValue::from_static("application/json"));
            r.body = serde_json::to_vec(q).ok().map(Body);
        }
        self
    }
    pub fn build(self) -> Result<Request> { self.request }
    pub fn build_split(self) -> (Client, Result<Request>) { (self.client, self.request) }
    pub async fn send(self) -> Result<Response> { let r = self.request?; self.client.execute(r).await }
    pub fn try_clone(&self) -> Option<RequestBuilder> { self.request.as_ref().ok().map(|r| RequestBuilder { client: self.client.clone(), request: Ok(r.clone()) }) }
}
pub async fn get<U: IntoUrl>(u: U) -> Result<Response> { Client::new().get(u).send().await }

//! Stand-in for the HTTP client: requests are recorded, and answered when and as `harness::answer`
//! says. Used in both builds, there is no network.
use serde::{de::DeserializeOwned, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
pub use url::Url;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &Url {
    fn into_url(self) -> Result<Url> {
        Ok(self.clone())
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error(e.to_string()))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
#[derive(Debug, Clone, Default)]
pub struct Client(());
#[derive(Debug, Default)]
pub struct ClientBuilder(());
impl ClientBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client(()))
    }
}
impl Client {
    pub fn new() -> Self {
        Self(())
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder(())
    }
    pub fn get(&self, url: impl IntoUrl) -> RequestBuilder {
        RequestBuilder(url.into_url())
    }
}
pub struct RequestBuilder(Result<Url>);
impl RequestBuilder {
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn query<T: Serialize + ?Sized>(mut self, q: &T) -> Self {
        if let Ok(url) = &mut self.0 {
            let ok = {
                let mut pairs = url.query_pairs_mut();
                q.serialize(serde_urlencoded::Serializer::new(&mut pairs)).is_ok()
            };
            if !ok {
                self.0 = Err(Error("query".into()));
            } else if let Some("") = url.query() {
                url.set_query(None);
            }
        }
        self
    }
    pub fn send(self) -> Pending {
        Pending(Some(self.0), None)
    }
}
#[derive(Default)]
struct Slot {
    url: String,
    answer: Option<std::result::Result<(u16, Vec<u8>), ()>>,
    waker: Option<Waker>,
}
static SLOTS: Mutex<Vec<Arc<Mutex<Slot>>>> = Mutex::new(Vec::new());
pub struct Pending(Option<Result<Url>>, Option<Arc<Mutex<Slot>>>);
impl Future for Pending {
    type Output = Result<Response>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Response>> {
        match self.0.take() {
            Some(Err(e)) => return Poll::Ready(Err(e)),
            Some(Ok(url)) => {
                let s = Arc::new(Mutex::new(Slot { url: url.into(), ..Default::default() }));
                SLOTS.lock().unwrap().push(s.clone());
                self.1 = Some(s);
            }
            None => {}
        }
        let mut s = self.1.as_ref().unwrap().lock().unwrap();
        match s.answer.take() {
            Some(Ok((status, body))) => Poll::Ready(Ok(Response { status, body })),
            Some(Err(())) => Poll::Ready(Err(Error("no connection".into()))),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: Self = Self(200);
    pub fn is_success(&self) -> bool {
        self.0 / 100 == 2
    }
    pub fn as_u16(&self) -> u16 {
        self.0
    }
}
pub struct Response {
    status: u16,
    body: Vec<u8>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.status)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status().is_success() {
            Ok(self)
        } else {
            Err(Error("status".into()))
        }
    }
    pub async fn text(self) -> Result<String> {
        String::from_utf8(self.body).map_err(|_| Error("text".into()))
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body)
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.body).map_err(|e| Error(e.to_string()))
    }
}
pub async fn get(url: impl IntoUrl) -> Result<Response> {
    Client::new().get(url).send().await
}
/// the other end
pub mod harness {
    use super::*;
    pub fn reset() {
        SLOTS.lock().unwrap().clear();
    }
    /// the addresses asked for so far
    pub fn requests() -> Vec<String> {
        SLOTS.lock().unwrap().iter().map(|s| s.lock().unwrap().url.clone()).collect()
    }
    /// answers the i-th request: status and body, or no connection
    pub fn answer(i: usize, a: std::result::Result<(u16, Vec<u8>), ()>) {
        let s = SLOTS.lock().unwrap()[i].clone();
        let w = {
            let mut s = s.lock().unwrap();
            s.answer = Some(a);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

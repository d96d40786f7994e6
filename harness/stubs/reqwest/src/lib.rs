//! Stand-in for reqwest: requests are answered from a script, never from a network.
//! Either the harness sets a handler, or STUB_NET names a file
//! {"routes": [{"url": .., "status": .., "text": .., "error": .., "pause": ..}], "log": file}.
use serde::{de::DeserializeOwned, Serialize};
use std::future::{poll_fn, Future};
use std::sync::Mutex;
use std::task::Poll;

#[derive(Debug, Clone)]
pub struct Request {
    pub method: String,
    pub url: String,
    pub body: Option<serde_json::Value>,
}
#[derive(Debug, Clone)]
pub struct Answer {
    pub status: u16,
    /// what arrives, and whether the connection breaks afterwards
    pub text: String,
    pub broken: bool,
    pub pause: usize,
}
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
type Handler = Box<dyn Fn(&Request) -> std::result::Result<Answer, String> + Send + Sync>;
static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);
pub fn handler(h: Handler) {
    *HANDLER.lock().unwrap() = Some(h);
}
fn script(r: &Request) -> std::result::Result<Answer, String> {
    let s: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(std::env::var("STUB_NET").expect("HARNESS no script")).unwrap()).unwrap();
    let out = s["routes"].as_array().unwrap().iter().find(|x| x["url"] == r.url.as_str());
    use std::io::Write;
    let log = std::fs::OpenOptions::new().append(true).create(true).open(s["log"].as_str().unwrap());
    if let Ok(mut f) = log {
        let line = serde_json::json!({"method": r.method, "url": r.url, "body": r.body}).to_string() + "\n";
        let _ = f.write_all(line.as_bytes());
    }
    let o = out.ok_or("no such host")?;
    match o["error"].as_str() {
        Some(e) => Err(e.into()),
        None => Ok(Answer { status: o["status"].as_u64().unwrap() as u16, text: o["text"].as_str().unwrap().into(), broken: o["broken"] == true, pause: o["pause"].as_u64().unwrap_or(0) as usize }),
    }
}
async fn pause(mut n: usize) {
    poll_fn(|cx| {
        if n == 0 {
            return Poll::Ready(());
        }
        n -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}
async fn perform(r: Request) -> Result<Response> {
    let a = {
        let h = HANDLER.lock().unwrap();
        match &*h {
            Some(h) => h(&r),
            None => script(&r),
        }
    };
    match a {
        Ok(a) => {
            pause(a.pause).await;
            Ok(Response(r.url, a))
        }
        Err(e) => {
            pause(1).await;
            Err(Error(e))
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}
impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
#[derive(Debug)]
pub struct Response(String, Answer);
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.1.status)
    }
    pub fn url(&self) -> &str {
        &self.0
    }
    pub fn error_for_status(self) -> Result<Response> {
        match self.1.status {
            400..=599 => Err(Error(format!("HTTP status {} for {}", self.1.status, self.0))),
            _ => Ok(self),
        }
    }
    pub async fn text(self) -> Result<String> {
        pause(1).await;
        if self.1.broken {
            return Err(Error("connection broken".into()));
        }
        Ok(self.1.text)
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.text().await?.into_bytes())
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_str(&self.text().await?).map_err(|e| Error(e.to_string()))
    }
}
#[derive(Clone, Debug, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn post<U: Into<String>>(&self, url: U) -> RequestBuilder {
        RequestBuilder(Request { method: "POST".into(), url: url.into(), body: None })
    }
    pub fn get<U: Into<String>>(&self, url: U) -> RequestBuilder {
        RequestBuilder(Request { method: "GET".into(), url: url.into(), body: None })
    }
}
pub struct RequestBuilder(Request);
impl RequestBuilder {
    pub fn json<T: Serialize + ?Sized>(mut self, v: &T) -> Self {
        self.0.body = Some(serde_json::to_value(v).unwrap());
        self
    }
    pub fn header<A, B>(self, _: A, _: B) -> Self {
        self
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> + Send {
        perform(self.0)
    }
}
pub fn get<U: Into<String>>(url: U) -> impl Future<Output = Result<Response>> + Send {
    Client.get(url).send()
}

//! fetch, answered by whatever was registered for the url
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub struct Answer {
    pub status: u16,
    pub body: Vec<u8>,
}
/// range header (if any) -> response, or a failure of the network
pub type Server = Arc<dyn Fn(Option<&str>) -> Result<Answer, String> + Send + Sync>;
pub fn servers() -> &'static Mutex<HashMap<String, Server>> {
    static S: OnceLock<Mutex<HashMap<String, Server>>> = OnceLock::new();
    S.get_or_init(Default::default)
}

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub mod http {
    use super::*;
    pub struct RequestBuilder {
        url: String,
        range: Option<String>,
    }
    impl RequestBuilder {
        pub fn new(url: &str) -> Self {
            RequestBuilder { url: url.to_string(), range: None }
        }
        pub fn header(mut self, k: &str, v: &str) -> Self {
            if k.eq_ignore_ascii_case("range") {
                self.range = Some(v.to_string());
            }
            self
        }
        pub async fn send(self) -> Result<Response, Error> {
            let s = servers().lock().unwrap().get(&self.url).cloned();
            let s = s.ok_or_else(|| Error("no such host".into()))?;
            s(self.range.as_deref()).map(Response).map_err(Error)
        }
    }
    pub struct Response(Answer);
    impl Response {
        pub fn ok(&self) -> bool {
            (200..300).contains(&self.0.status)
        }
        pub fn status(&self) -> u16 {
            self.0.status
        }
        pub async fn binary(&self) -> Result<Vec<u8>, Error> {
            Ok(self.0.body.clone())
        }
        pub fn headers(&self) -> Headers {
            Headers
        }
    }
    pub struct Headers;
    impl Headers {
        pub fn get(&self, _: &str) -> Option<String> {
            None
        }
    }
}

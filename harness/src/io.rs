//! Environment models: byte sources and sinks whose chunking, faults and truncation the
//! specification leaves nondeterministic and a job pins down, and an HTTP range client.
use bytes::Bytes;
use http_range_client::AsyncHttpRangeClient;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
pub struct Env {
    pub chunk: usize,          // 0: unlimited
    pub fail_at: Option<u64>,  // byte position from which every access fails
    pub fail_once: bool,
    pub fail_flush: bool,      // sink: flushing fails once fail_at bytes were taken
    pub interrupt: usize,      // every n-th call returns Interrupted (0: never)
}

pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    pub env: Env,
    pub calls: usize,
    pub failed: bool,
    pub max_pos: Arc<Mutex<u64>>,
    pub hits: Arc<Mutex<u64>>, // injected faults so far
    pub accesses: Arc<Mutex<u64>>,
    pub touched: Option<Arc<Mutex<Vec<(u64, u64)>>>>, // runs of bytes read
}

impl Src {
    pub fn new(data: Arc<Vec<u8>>, env: Env) -> Self {
        Src { data, pos: 0, env, calls: 0, failed: false, max_pos: Arc::new(Mutex::new(0)), hits: Arc::new(Mutex::new(0)), accesses: Arc::new(Mutex::new(0)), touched: None }
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        *self.accesses.lock().unwrap() += 1;
        if self.env.interrupt > 0 && self.calls % self.env.interrupt == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len();
        if self.env.chunk > 0 {
            n = n.min(self.env.chunk);
        }
        if let Some(f) = self.env.fail_at {
            if n > 0 && !(self.env.fail_once && self.failed) {
                if self.pos >= f {
                    self.failed = true;
                    *self.hits.lock().unwrap() += 1;
                    return Err(io::Error::new(io::ErrorKind::Other, "injected read fault"));
                }
                n = n.min((f - self.pos) as usize);
            }
        }
        let len = self.data.len() as u64;
        if self.pos >= len {
            return Ok(0);
        }
        n = n.min((len - self.pos) as usize);
        buf[..n].copy_from_slice(&self.data[self.pos as usize..self.pos as usize + n]);
        if let (Some(t), true) = (&self.touched, n > 0) {
            let mut t = t.lock().unwrap();
            match t.last_mut() {
                Some(l) if l.1 == self.pos => l.1 += n as u64,
                _ => t.push((self.pos, self.pos + n as u64)),
            }
        }
        self.pos += n as u64;
        let mut m = self.max_pos.lock().unwrap();
        *m = (*m).max(self.pos);
        Ok(n)
    }
}

impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

#[derive(Clone)]
pub struct Sink {
    pub data: Arc<Mutex<Vec<u8>>>,
    pub env: Env,
    pub calls: usize,
    pub hits: Arc<Mutex<u64>>,
}

impl Sink {
    pub fn new(env: Env) -> Self {
        Sink { data: Arc::new(Mutex::new(Vec::new())), env, calls: 0, hits: Arc::new(Mutex::new(0)) }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.env.interrupt > 0 && self.calls % self.env.interrupt == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut d = self.data.lock().unwrap();
        let mut n = buf.len();
        if self.env.chunk > 0 {
            n = n.min(self.env.chunk);
        }
        if let Some(f) = self.env.fail_at {
            if n > 0 {
                if d.len() as u64 >= f {
                    *self.hits.lock().unwrap() += 1;
                    return Err(io::Error::new(io::ErrorKind::Other, "injected write fault"));
                }
                n = n.min((f - d.len() as u64) as usize);
            }
        }
        d.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let (Some(f), true) = (self.env.fail_at, self.env.fail_flush) {
            if self.data.lock().unwrap().len() as u64 >= f {
                *self.hits.lock().unwrap() += 1;
                return Err(io::Error::new(io::ErrorKind::Other, "injected flush fault"));
            }
        }
        Ok(())
    }
}

#[derive(Clone, Default, Debug)]
pub struct HttpEnv {
    pub fault_at: Option<usize>, // request number (0-based)
    pub kind: String,            // err | short | empty
    pub sticky: bool,            // the fault persists for every later request
    pub short_to: usize,
}

/// A range server over a byte vector (RFC 9110: the end of the range is clipped to the
/// representation, a first position past the end is 416).
#[derive(Debug)]
pub struct HttpSrc {
    pub data: Arc<Vec<u8>>,
    pub log: Arc<Mutex<Vec<(u64, u64, String)>>>,
    pub env: HttpEnv,
}

#[async_trait::async_trait]
impl AsyncHttpRangeClient for HttpSrc {
    async fn get_range(&self, _url: &str, range: &str) -> http_range_client::Result<Bytes> {
        use http_range_client::HttpError;
        let spec = range.strip_prefix("bytes=").unwrap_or("");
        let parts: Vec<&str> = spec.split('-').collect();
        let parsed = if parts.len() == 2 {
            match (parts[0].parse::<u64>(), parts[1].parse::<u64>()) {
                (Ok(a), Ok(b)) => Some((a, b)),
                _ => None,
            }
        } else {
            None
        };
        let mut log = self.log.lock().unwrap();
        let k = log.len();
        let Some((a, b)) = parsed else {
            log.push((0, 0, format!("malformed {range}")));
            return Err(HttpError::HttpStatus(400));
        };
        if b < a {
            log.push((a, b, "inverted".to_string()));
            return Err(HttpError::HttpStatus(400));
        }
        let len = self.data.len() as u64;
        let hit = match self.env.fault_at {
            Some(f) => k == f || (self.env.sticky && k > f),
            None => false,
        };
        if hit && self.env.kind == "err" {
            log.push((a, b, "fault".to_string()));
            return Err(HttpError::HttpStatus(503));
        }
        if hit && self.env.kind == "empty" {
            log.push((a, b, "empty".to_string()));
            return Ok(Bytes::new());
        }
        if a >= len {
            log.push((a, b, "416".to_string()));
            return Err(HttpError::HttpStatus(416));
        }
        let mut e = (b + 1).min(len);
        let short = a + self.env.short_to as u64;
        if hit && self.env.kind == "short" && short < e {
            e = short;
            log.push((a, b, "short".to_string()));
        } else {
            log.push((a, b, "ok".to_string()));
        }
        Ok(Bytes::copy_from_slice(&self.data[a as usize..e as usize]))
    }
    async fn head_response_header(
        &self,
        _url: &str,
        _header: &str,
    ) -> http_range_client::Result<Option<String>> {
        Ok(None)
    }
}

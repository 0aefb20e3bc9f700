//! A simulated object store: ranged reads and multipart uploads that take their time, complete in
//! any order and fail as planned.

use std::collections::BTreeMap;
use std::fmt;
use std::ops::Range;
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::{self, BoxStream};
use futures::{FutureExt, StreamExt};
use object_store::path::Path;
use object_store::{
    Error, GetOptions, GetRange, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta, ObjectStore,
    PutMultipartOpts, PutOptions, PutPayload, PutResult, Result, UploadPart,
};

use crate::ev;
use crate::io::FAULT_MARK;
use crate::world::{self, fault, latency, probe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GetFault {
    /// the request fails
    Error,
    /// it fails after a long wait
    Timeout,
    /// the object is said not to exist
    NotFound,
    /// access is refused
    Denied,
    /// the response has fewer bytes than asked for
    Short(usize),
    /// the response has more bytes than asked for
    Long(usize),
}

impl GetFault {
    fn name(self) -> &'static str {
        match self {
            GetFault::Error => "get_error",
            GetFault::Timeout => "get_timeout",
            GetFault::NotFound => "get_not_found",
            GetFault::Denied => "get_denied",
            GetFault::Short(_) => "short_response",
            GetFault::Long(_) => "oversized_response",
        }
    }
}

fn generic() -> Error {
    Error::Generic { store: "simulated", source: FAULT_MARK.into() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PutFault {
    /// this part of the upload fails
    Part(u64),
    /// the request that completes the upload fails
    Complete,
    /// the upload cannot be started
    Start,
}

#[derive(Default)]
pub struct ObjState {
    pub objects: BTreeMap<String, Bytes>,
    pub gets: u64,
    pub heads: u64,
    pub get_faults: BTreeMap<u64, GetFault>,
    /// every read request from this one on fails
    pub dead_from: Option<u64>,
    pub head_faults: BTreeMap<u64, GetFault>,
    pub put_faults: Vec<PutFault>,
    pub fired: u64,
    pub parts: u64,
    pub parts_done: Vec<u64>,
    pub completes: u64,
    pub aborts: u64,
    pub inflight: u64,
    pub max_inflight: u64,
    pub out_of_bounds: Option<Range<usize>>,
    completions: Vec<u64>,
}

#[derive(Clone)]
pub struct SimObjects {
    pub state: Arc<Mutex<ObjState>>,
    /// the store refuses to complete an upload some part of which is missing (as cloud stores do);
    /// otherwise the missing part is a hole (as in a local directory)
    pub strict: bool,
}

impl SimObjects {
    pub fn new(strict: bool) -> Self {
        Self { state: Arc::new(Mutex::new(ObjState::default())), strict }
    }
    pub fn with(self, path: &str, data: Bytes) -> Self {
        self.state.lock().unwrap().objects.insert(path.to_string(), data);
        self
    }
    pub fn get_now(&self, path: &str) -> Option<Bytes> {
        self.state.lock().unwrap().objects.get(path).cloned()
    }
    pub fn arc(&self) -> Arc<dyn ObjectStore> {
        Arc::new(self.clone())
    }
    pub fn fired(&self) -> u64 {
        self.state.lock().unwrap().fired
    }
    pub fn clear_faults(&self) {
        let mut s = self.state.lock().unwrap();
        s.get_faults.clear();
        s.head_faults.clear();
        s.put_faults.clear();
        s.dead_from = None;
        s.fired = 0;
    }

    async fn fail(&self, f: GetFault, location: &Path) -> Error {
        if f == GetFault::Timeout {
            world::delay(world::with(|w| w.max_delay) * 3 + 1).await;
        }
        self.state.lock().unwrap().fired += 1;
        fault(f.name());
        let path = location.to_string();
        match f {
            GetFault::NotFound => Error::NotFound { path, source: FAULT_MARK.into() },
            GetFault::Denied => Error::PermissionDenied { path, source: FAULT_MARK.into() },
            _ => generic(),
        }
    }

    async fn fetch(&self, location: &Path, range: Range<usize>) -> Result<Bytes> {
        let (idx, f) = {
            let mut s = self.state.lock().unwrap();
            let idx = s.gets;
            s.gets += 1;
            s.inflight += 1;
            s.max_inflight = s.max_inflight.max(s.inflight);
            let f = s.get_faults.get(&idx).copied().or(match s.dead_from {
                Some(d) if idx >= d => Some(GetFault::Error),
                _ => None,
            });
            (idx, f)
        };
        let _guard = Inflight(self.state.clone());
        ev!("get#{idx} {location} {range:?}");
        latency().await;
        match f {
            None | Some(GetFault::Short(_)) | Some(GetFault::Long(_)) => {}
            Some(f) => return Err(self.fail(f, location).await),
        }
        let Some(data) = self.get_now(location.as_ref()) else {
            return Err(Error::NotFound { path: location.to_string(), source: "no such object".into() });
        };
        if range.end > data.len() || range.start > range.end {
            self.state.lock().unwrap().out_of_bounds = Some(range.clone());
            if range.start >= data.len() {
                return Err(Error::Generic { store: "simulated", source: "range starts beyond the object".into() });
            }
            // like a cloud store: what there is of the range
            return Ok(data.slice(range.start..data.len().max(range.start)));
        }
        let out = data.slice(range.clone());
        let out = match f {
            Some(GetFault::Short(k)) if !out.is_empty() => {
                self.state.lock().unwrap().fired += 1;
                fault("short_response");
                out.slice(..out.len() - 1 - k % out.len())
            }
            Some(GetFault::Long(k)) => {
                self.state.lock().unwrap().fired += 1;
                fault("oversized_response");
                let mut b = out.to_vec();
                b.extend(std::iter::repeat(0x5b).take(1 + k % 64));
                Bytes::from(b)
            }
            _ => out,
        };
        let mut s = self.state.lock().unwrap();
        if s.completions.last().map(|l| *l > idx).unwrap_or(false) {
            probe("reads_completed_out_of_order");
        }
        s.completions.push(idx);
        drop(s);
        ev!("get#{idx} done");
        Ok(out)
    }
}

struct Inflight(Arc<Mutex<ObjState>>);
impl Drop for Inflight {
    fn drop(&mut self) {
        if let Ok(mut s) = self.0.lock() {
            s.inflight -= 1;
        }
    }
}

impl fmt::Debug for SimObjects {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimObjects")
    }
}
impl fmt::Display for SimObjects {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimObjects")
    }
}

fn meta(location: &Path, size: usize) -> ObjectMeta {
    ObjectMeta { location: location.clone(), last_modified: Default::default(), size, e_tag: None, version: None }
}

#[async_trait]
impl ObjectStore for SimObjects {
    async fn put_opts(&self, location: &Path, payload: PutPayload, _: PutOptions) -> Result<PutResult> {
        latency().await;
        self.state.lock().unwrap().objects.insert(location.to_string(), Bytes::from(payload));
        Ok(PutResult { e_tag: None, version: None })
    }

    async fn put_multipart_opts(&self, location: &Path, _: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        latency().await;
        let mut s = self.state.lock().unwrap();
        if s.put_faults.contains(&PutFault::Start) {
            s.fired += 1;
            drop(s);
            fault("upload_not_started");
            return Err(generic());
        }
        Ok(Box::new(SimUpload {
            store: self.clone(),
            location: location.to_string(),
            next: 0,
            parts: Arc::default(),
            done: false,
        }))
    }

    async fn get_opts(&self, location: &Path, options: GetOptions) -> Result<GetResult> {
        if options.head {
            let m = self.head(location).await?;
            let size = m.size;
            return Ok(GetResult {
                payload: GetResultPayload::Stream(stream::empty().boxed()),
                meta: m,
                range: 0..size,
                attributes: Default::default(),
            });
        }
        let size = self.get_now(location.as_ref()).map(|d| d.len()).unwrap_or(0);
        let range = match options.range {
            None => 0..size,
            Some(GetRange::Bounded(r)) => r,
            Some(GetRange::Offset(o)) => o..size,
            Some(GetRange::Suffix(n)) => size.saturating_sub(n)..size,
        };
        let b = self.fetch(location, range.clone()).await?;
        Ok(GetResult {
            payload: GetResultPayload::Stream(stream::once(async move { Ok(b) }).boxed()),
            meta: meta(location, size),
            range,
            attributes: Default::default(),
        })
    }

    async fn get_range(&self, location: &Path, range: Range<usize>) -> Result<Bytes> {
        self.fetch(location, range).await
    }

    async fn head(&self, location: &Path) -> Result<ObjectMeta> {
        let f = {
            let mut s = self.state.lock().unwrap();
            let i = s.heads;
            s.heads += 1;
            s.head_faults.get(&i).copied()
        };
        ev!("head {location}");
        latency().await;
        if let Some(f) = f {
            return Err(self.fail(f, location).await);
        }
        match self.get_now(location.as_ref()) {
            Some(d) => Ok(meta(location, d.len())),
            None => Err(Error::NotFound { path: location.to_string(), source: "no such object".into() }),
        }
    }

    async fn delete(&self, location: &Path) -> Result<()> {
        self.state.lock().unwrap().objects.remove(location.as_ref());
        Ok(())
    }

    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let p = prefix.map(|p| p.to_string()).unwrap_or_default();
        let all: Vec<_> = self
            .state
            .lock()
            .unwrap()
            .objects
            .iter()
            .filter(|(k, _)| k.starts_with(&p))
            .map(|(k, d)| Ok(meta(&Path::from(k.as_str()), d.len())))
            .collect();
        stream::iter(all).boxed()
    }

    async fn list_with_delimiter(&self, _: Option<&Path>) -> Result<ListResult> {
        Err(Error::NotImplemented)
    }
    async fn copy(&self, _: &Path, _: &Path) -> Result<()> {
        Err(Error::NotImplemented)
    }
    async fn copy_if_not_exists(&self, _: &Path, _: &Path) -> Result<()> {
        Err(Error::NotImplemented)
    }
}

struct SimUpload {
    store: SimObjects,
    location: String,
    next: u64,
    parts: Arc<Mutex<BTreeMap<u64, (usize, Option<Bytes>)>>>,
    done: bool,
}

impl fmt::Debug for SimUpload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimUpload")
    }
}

#[async_trait]
impl MultipartUpload for SimUpload {
    fn put_part(&mut self, data: PutPayload) -> UploadPart {
        let i = self.next;
        self.next += 1;
        let len = data.content_length();
        self.parts.lock().unwrap().insert(i, (len, None));
        let parts = self.parts.clone();
        let store = self.store.clone();
        {
            let mut s = store.state.lock().unwrap();
            s.parts += 1;
            s.inflight += 1;
            s.max_inflight = s.max_inflight.max(s.inflight);
        }
        ev!("part#{i} of {len} bytes");
        let guard = Inflight(store.state.clone());
        async move {
            let _guard = guard;
            latency().await;
            if store.state.lock().unwrap().put_faults.contains(&PutFault::Part(i)) {
                store.state.lock().unwrap().fired += 1;
                fault("part_failed");
                return Err(generic());
            }
            parts.lock().unwrap().insert(i, (len, Some(Bytes::from(data))));
            let mut s = store.state.lock().unwrap();
            if s.parts_done.last().map(|l| *l > i).unwrap_or(false) {
                probe("parts_completed_out_of_order");
            }
            s.parts_done.push(i);
            drop(s);
            ev!("part#{i} stored");
            Ok(())
        }
        .boxed()
    }

    async fn complete(&mut self) -> Result<PutResult> {
        latency().await;
        ev!("complete");
        self.store.state.lock().unwrap().completes += 1;
        if self.done {
            return Err(Error::Generic { store: "simulated", source: "the upload is over".into() });
        }
        if self.store.state.lock().unwrap().put_faults.contains(&PutFault::Complete) {
            self.store.state.lock().unwrap().fired += 1;
            fault("complete_failed");
            return Err(generic());
        }
        let mut all = Vec::new();
        for (len, p) in self.parts.lock().unwrap().values() {
            match p {
                Some(p) => all.extend_from_slice(p),
                None if self.store.strict => {
                    return Err(Error::Generic { store: "simulated", source: "missing part".into() });
                }
                None => all.extend(std::iter::repeat(0u8).take(*len)),
            }
        }
        self.done = true;
        self.store.state.lock().unwrap().objects.insert(self.location.clone(), Bytes::from(all));
        Ok(PutResult { e_tag: None, version: None })
    }

    async fn abort(&mut self) -> Result<()> {
        latency().await;
        ev!("abort");
        self.done = true;
        self.store.state.lock().unwrap().aborts += 1;
        Ok(())
    }
}

//! What the storage and metadata monitors share: a scratch directory, the real meta
//! state machine behind a small HTTP server (the real client of /repo talks to it), the
//! real storage engine on top, and a reader that turns its answers into plain rows.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

pub mod engine;
pub mod metasrv;
pub mod ping;
pub use engine::*;
pub use metasrv::*;

static RT: OnceLock<Arc<tokio::runtime::Runtime>> = OnceLock::new();

/// one runtime for the process (the engine keeps an Arc of it: it must never be dropped
/// inside an async context)
pub fn rt() -> Arc<tokio::runtime::Runtime> {
    RT.get_or_init(|| Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap())).clone()
}

/// a directory that goes away with the value
pub struct Scratch(pub PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("verif-{tag}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn sub(&self, n: &str) -> PathBuf {
        let p = self.0.join(n);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn copy_dir(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), t)?;
        }
    }
    Ok(())
}

type Look = Vec<(PathBuf, u64, std::time::SystemTime)>;
fn look(dir: &Path) -> Option<Look> {
    files(dir)
        .into_iter()
        .map(|p| {
            let m = std::fs::metadata(&p).ok()?;
            Some((p, m.len(), m.modified().ok()?))
        })
        .collect()
}

/// What a crash at some moment would leave: a copy during which no file changed. Buffers the
/// process has not written yet are lost.
pub async fn crash_copy(from: &Path, to: &Path) {
    for _ in 0..2000 {
        let a = look(from);
        // any later change gets a later modification time
        tokio::time::sleep(std::time::Duration::from_millis(10)).await;
        let _ = std::fs::remove_dir_all(to);
        let ok = copy_dir(from, to).is_ok();
        if ok && a.is_some() && a == look(from) {
            return;
        }
    }
    panic!("harness: the files never rest");
}

pub fn files(dir: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                v.extend(files(&p));
            } else {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}

//! Scratch directories: everything the code under test writes goes below one of these; removed at the end.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static DIRS: Mutex<Vec<PathBuf>> = Mutex::new(vec![]);
static N: AtomicUsize = AtomicUsize::new(0);

/// A new empty directory, removed when the check ends
pub fn scratch() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && std::env::var("VH_NO_SHM").is_err() { "/dev/shm" } else { "/tmp" };
    let k = N.fetch_add(1, Ordering::Relaxed);
    let mk = |b: &str| {
        let p = PathBuf::from(format!("{b}/vh-{}-{k}", std::process::id()));
        std::fs::create_dir(&p).map(|_| p)
    };
    let p = mk(base).or_else(|_| mk("/tmp")).expect("cannot create a scratch directory");
    DIRS.lock().unwrap().push(p.clone());
    p
}
pub fn cleanup() {
    for d in DIRS.lock().unwrap().drain(..) {
        let _ = std::fs::remove_dir_all(d);
    }
}
/// All files and directories below, with contents (directories: None), sorted by path relative to `root`
pub fn tree(root: &Path) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
    fn rec(root: &Path, p: &Path, m: &mut std::collections::BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let q = e.path();
                let name = q.strip_prefix(root).unwrap().to_string_lossy().into_owned();
                if q.is_dir() {
                    m.insert(name, None);
                    rec(root, &q, m);
                } else {
                    m.insert(name, Some(std::fs::read(&q).unwrap_or_default()));
                }
            }
        }
    }
    let mut m = Default::default();
    rec(root, root, &mut m);
    m
}

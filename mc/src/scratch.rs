//! Scratch directories, used without privileges so that nothing outside of them can change.

use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

const NOBODY: u32 = 65534;

/// Runs `f` with the file system identity of an unprivileged user in this thread.
pub fn as_nobody<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            unsafe {
                libc::setfsuid(0);
                libc::setfsgid(0);
            }
        }
    }
    let root = unsafe { libc::geteuid() } == 0;
    if !root {
        return f();
    }
    unsafe {
        // The groups of this thread only: the C library would change all.
        libc::syscall(libc::SYS_setgroups, 0usize, std::ptr::null::<libc::gid_t>());
        libc::setfsgid(NOBODY);
        libc::setfsuid(NOBODY);
        let now = libc::setfsuid(u32::MAX);
        assert_eq!(NOBODY, now as u32, "Cannot drop privileges");
    }
    let _back = Back;
    f()
}

/// A directory that disappears when dropped.
pub struct Scratch(PathBuf);

static COUNT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new() -> Self {
        let n = COUNT.fetch_add(1, Ordering::Relaxed);
        for base in ["/dev/shm", "/tmp"] {
            let p = PathBuf::from(format!("{}/mc-scratch-{}-{}", base, std::process::id(), n));
            if fs::create_dir(&p).is_ok() {
                return Scratch(p);
            }
        }
        panic!("Cannot create a scratch directory");
    }

    pub fn root(&self) -> &Path {
        &self.0
    }

    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_owned()
    }

    /// The files of a directory, if it exists.
    pub fn list(&self, dir: &str) -> Option<BTreeMap<String, Vec<u8>>> {
        let mut m = BTreeMap::new();
        for e in fs::read_dir(dir).ok()? {
            let e = e.unwrap();
            let c = match e.file_type().unwrap().is_file() {
                true => fs::read(e.path()).unwrap(),
                false => b"<not a file>".to_vec(),
            };
            m.insert(e.file_name().to_string_lossy().into_owned(), c);
        }
        Some(m)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

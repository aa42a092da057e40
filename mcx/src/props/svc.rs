//! A model of the file sharing service, with faults.

use async_trait::async_trait;
use endbasic_client::{GetFilesResponse, LoginResponse, Service, SignupRequest};
use endbasic_std::storage::FileAcls;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::rc::Rc;

pub const DOWN: &str = "the-service-is-down";

#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
pub struct World {
    /// Contents and readers by owner and name.
    pub files: BTreeMap<(String, String), (Vec<u8>, BTreeSet<String>)>,
    pub session: Option<String>,
    pub signups: Vec<String>,
    pub motd: Vec<String>,
    pub requests: usize,
    /// Number of the request that fails, and whether it has had its effect.
    pub fail: Option<(usize, bool)>,
    pub log: Vec<String>,
}

impl World {
    pub fn visible(&self, k: &(String, String)) -> bool {
        match self.files.get(k) {
            None => false,
            Some((_, readers)) => {
                self.session.as_ref() == Some(&k.0)
                    || readers.iter().any(|r| r.to_lowercase() == "public" || Some(r) == self.session.as_ref())
            }
        }
    }

    pub fn password(user: &str) -> Option<&'static str> {
        match user {
            "alice" => Some("pa"),
            "bob" => Some("pb"),
            _ => None,
        }
    }

    /// What the next request does: fail, and have its effect.
    fn next(&mut self) -> (bool, bool) {
        let n = self.requests;
        self.requests += 1;
        match self.fail {
            Some((k, applied)) if k == n => (true, applied),
            _ => (false, true),
        }
    }

    /// Changes something in the service, if `op` permits it.
    pub fn request<T>(&mut self, op: impl FnOnce(&mut Self) -> io::Result<T>) -> io::Result<T> {
        let (fails, applied) = self.next();
        let r = if applied { Some(op(self)) } else { None };
        if fails {
            return Err(io::Error::other(DOWN));
        }
        r.expect("either it fails or it is done")
    }

    fn owned(&self, user: &str) -> io::Result<()> {
        if self.session.as_deref() == Some(user) { Ok(()) } else { Err(denied()) }
    }
}

fn denied() -> io::Error {
    io::Error::new(io::ErrorKind::PermissionDenied, "denied")
}

fn missing() -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, "missing")
}

pub struct Svc {
    pub w: Rc<RefCell<World>>,
    session: Option<String>,
}

impl Svc {
    pub fn new(w: Rc<RefCell<World>>) -> Self {
        Self { w, session: None }
    }
}

fn key(u: &str, f: &str) -> (String, String) {
    (u.to_owned(), f.to_owned())
}

#[async_trait(?Send)]
impl Service for Svc {
    async fn signup(&mut self, request: &SignupRequest) -> io::Result<()> {
        let v = serde_json::to_value(request).unwrap();
        let text = format!(
            "{} {} {} {}",
            v["username"].as_str().unwrap(),
            v["password"].as_str().unwrap(),
            v["email"].as_str().unwrap(),
            v["promotional_email"].as_bool().unwrap()
        );
        self.w.borrow_mut().request(|w| {
            w.signups.push(text);
            Ok(())
        })
    }

    async fn login(&mut self, username: &str, password: &str) -> io::Result<LoginResponse> {
        let mut w = self.w.borrow_mut();
        w.log.push(format!("login {} {}", username, password));
        let motd = w.motd.clone();
        w.request(|_| {
            if World::password(username) == Some(password) { Ok(()) } else { Err(denied()) }
        })?;
        w.session = Some(username.to_owned());
        self.session = w.session.clone();
        Ok(serde_json::from_value::<LoginResponse>(json!({"access_token": "t", "motd": motd})).unwrap())
    }

    async fn logout(&mut self) -> io::Result<()> {
        if self.session.is_none() {
            return Err(denied());
        }
        let mut w = self.w.borrow_mut();
        w.log.push("logout".to_owned());
        w.request(|_| Ok(()))?;
        w.session = None;
        self.session = None;
        Ok(())
    }

    fn is_logged_in(&self) -> bool {
        self.session.is_some()
    }

    fn logged_in_username(&self) -> Option<String> {
        self.session.clone()
    }

    async fn get_files(&mut self, username: &str) -> io::Result<GetFilesResponse> {
        let mut w = self.w.borrow_mut();
        w.log.push(format!("dir {}", username));
        let l = w.request(|w| {
            let mut v = vec![];
            for (k, (c, _)) in &w.files {
                if k.0 == username && w.visible(k) {
                    v.push(json!({"filename": k.1, "mtime": 1_600_000_000u64, "length": c.len()}));
                }
            }
            Ok(v)
        })?;
        Ok(serde_json::from_value(json!({"files": l, "disk_quota": null, "disk_free": null})).unwrap())
    }

    async fn get_file(&mut self, username: &str, filename: &str) -> io::Result<Vec<u8>> {
        let mut w = self.w.borrow_mut();
        w.log.push(format!("get {} {}", username, filename));
        w.request(|w| {
            let k = key(username, filename);
            if w.visible(&k) { Ok(w.files[&k].0.clone()) } else { Err(missing()) }
        })
    }

    async fn get_file_acls(&mut self, username: &str, filename: &str) -> io::Result<FileAcls> {
        let mut w = self.w.borrow_mut();
        w.log.push(format!("get_acls {} {}", username, filename));
        w.request(|w| {
            let k = key(username, filename);
            w.owned(username)?;
            match w.files.get(&k) {
                None => Err(missing()),
                Some((_, r)) => Ok(FileAcls::default().with_readers(r.iter().cloned().collect::<Vec<_>>())),
            }
        })
    }

    async fn patch_file_content(&mut self, username: &str, filename: &str, content: Vec<u8>) -> io::Result<()> {
        let mut w = self.w.borrow_mut();
        w.log.push(format!("put {} {}", username, filename));
        w.request(|w| {
            w.owned(username)?;
            w.files.entry(key(username, filename)).or_default().0 = content;
            Ok(())
        })
    }

    async fn patch_file_acls(
        &mut self,
        username: &str,
        filename: &str,
        add: &FileAcls,
        remove: &FileAcls,
    ) -> io::Result<()> {
        let mut w = self.w.borrow_mut();
        w.log.push(format!(
            "put_acls {} {} +{} -{}",
            username,
            filename,
            add.readers().join(","),
            remove.readers().join(",")
        ));
        w.request(|w| {
            w.owned(username)?;
            match w.files.get_mut(&key(username, filename)) {
                None => Err(missing()),
                Some((_, r)) => {
                    for x in remove.readers() {
                        r.remove(x);
                    }
                    for x in add.readers() {
                        r.insert(x.clone());
                    }
                    Ok(())
                }
            }
        })
    }

    async fn delete_file(&mut self, username: &str, filename: &str) -> io::Result<()> {
        let mut w = self.w.borrow_mut();
        w.log.push(format!("delete {} {}", username, filename));
        w.request(|w| {
            w.owned(username)?;
            match w.files.remove(&key(username, filename)) {
                None => Err(missing()),
                Some(_) => Ok(()),
            }
        })
    }
}

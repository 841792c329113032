//! Stand-in for kdr-aus/divvy (not available offline): the parts ogma uses.
use std::borrow::Borrow;
use std::fmt;
use std::ops::Deref;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

/// A shared on/off flag.
#[derive(Clone, Debug, Default)]
pub struct Switch(Arc<AtomicBool>);
impl Switch {
    pub fn off() -> Self {
        Switch(Arc::new(AtomicBool::new(false)))
    }
    pub fn on() -> Self {
        Switch(Arc::new(AtomicBool::new(true)))
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
    pub fn flip_on(&self) {
        self.0.store(true, Ordering::SeqCst)
    }
    pub fn flip_off(&self) {
        self.0.store(false, Ordering::SeqCst)
    }
}

/// Where progress goes; can be cancelled from the other side.
#[derive(Clone)]
pub struct ProgressTx {
    cancel: Switch,
    sink: Option<Arc<dyn Fn(Option<f32>, String) + Send + Sync>>,
}
impl ProgressTx {
    pub fn dummy() -> Self {
        ProgressTx { cancel: Switch::off(), sink: None }
    }
    /// (stand-in only) reports to `f`, cancelled through `cancel`
    pub fn with<F: Fn(Option<f32>, String) + Send + Sync + 'static>(cancel: Switch, f: F) -> Self {
        ProgressTx { cancel, sink: Some(Arc::new(f)) }
    }
    pub fn cancelled(&self) -> bool {
        self.cancel.get()
    }
    pub fn send<S: Into<String>>(&self, per: Option<f32>, msg: S) {
        if let Some(f) = &self.sink {
            f(per, msg.into())
        }
    }
}

/// An immutable, cheaply cloned string.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Str(Arc<String>);
impl Str {
    pub fn new<S: AsRef<str>>(s: S) -> Self {
        Str(Arc::new(s.as_ref().to_string()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    /// The string, made this one's own first if it is shared.
    pub fn to_mut(&mut self) -> &mut String {
        Arc::make_mut(&mut self.0)
    }
}
impl Default for Str {
    fn default() -> Self {
        Str::new("")
    }
}
impl std::hash::Hash for Str {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.as_str().hash(h)
    }
}
impl Deref for Str {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for Str {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl AsRef<std::path::Path> for Str {
    fn as_ref(&self) -> &std::path::Path {
        std::path::Path::new(self.as_str())
    }
}
impl Borrow<str> for Str {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Str {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&*self.0, f)
    }
}
impl fmt::Debug for Str {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&*self.0, f)
    }
}
impl From<&str> for Str {
    fn from(s: &str) -> Self {
        Str::new(s)
    }
}
impl From<String> for Str {
    fn from(s: String) -> Self {
        Str::new(s)
    }
}
impl From<&Str> for Str {
    fn from(s: &Str) -> Self {
        s.clone()
    }
}
impl From<Str> for String {
    fn from(s: Str) -> Self {
        s.0.to_string()
    }
}
impl PartialEq<str> for Str {
    fn eq(&self, o: &str) -> bool {
        self.as_str() == o
    }
}
impl<'a> PartialEq<&'a str> for Str {
    fn eq(&self, o: &&'a str) -> bool {
        self.as_str() == *o
    }
}
impl PartialEq<Str> for str {
    fn eq(&self, o: &Str) -> bool {
        self == o.as_str()
    }
}
impl PartialEq<String> for Str {
    fn eq(&self, o: &String) -> bool {
        self.as_str() == o.as_str()
    }
}
impl PartialOrd<str> for Str {
    fn partial_cmp(&self, o: &str) -> Option<std::cmp::Ordering> {
        self.as_str().partial_cmp(o)
    }
}
impl From<char> for Str {
    fn from(c: char) -> Self {
        Str(Arc::new(c.into()))
    }
}
impl From<&String> for Str {
    fn from(s: &String) -> Self {
        Str::new(s)
    }
}
impl FromIterator<char> for Str {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        Str(Arc::new(i.into_iter().collect()))
    }
}

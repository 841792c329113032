//! Stand-in for the notify crate: change notices are handed in by the test driver through `inject`.
use std::path::{Path, PathBuf};
use std::sync::{mpsc::Sender, Mutex};
use std::time::Duration;
#[derive(Debug, Clone)]
pub enum DebouncedEvent {
    NoticeWrite(PathBuf),
    NoticeRemove(PathBuf),
    Create(PathBuf),
    Write(PathBuf),
    Chmod(PathBuf),
    Remove(PathBuf),
    Rename(PathBuf, PathBuf),
    Rescan,
}
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
static WATCHERS: Mutex<Vec<(PathBuf, Sender<DebouncedEvent>)>> = Mutex::new(vec![]);
/// Tells every watcher of a directory the path is in.
pub fn inject(ev: DebouncedEvent) {
    WATCHERS.lock().unwrap().retain(|(_, tx)| tx.send(ev.clone()).is_ok());
}
/// How many watches there are, and on what.
pub fn watched() -> Vec<PathBuf> {
    WATCHERS.lock().unwrap().iter().map(|x| x.0.clone()).collect()
}
pub struct RecommendedWatcher(Sender<DebouncedEvent>);
pub trait Watcher {
    fn watch<P: AsRef<Path>>(&mut self, p: P, m: RecursiveMode) -> Result<(), String>;
}
pub fn watcher(tx: Sender<DebouncedEvent>, _: Duration) -> Result<RecommendedWatcher, String> {
    Ok(RecommendedWatcher(tx))
}
impl Watcher for RecommendedWatcher {
    fn watch<P: AsRef<Path>>(&mut self, p: P, _: RecursiveMode) -> Result<(), String> {
        WATCHERS.lock().unwrap().push((p.as_ref().into(), self.0.clone()));
        Ok(())
    }
}

//! Stand-in for the glob crate: plain paths and `*` in the last component.
use std::path::PathBuf;
pub fn glob(p: &str) -> Result<std::vec::IntoIter<Result<PathBuf, String>>, String> {
    let path = PathBuf::from(p);
    let name = path.file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
    let mut v = vec![];
    if let Some((a, b)) = name.split_once('*') {
        let dir = path.parent().filter(|x| !x.as_os_str().is_empty()).map(|x| x.to_path_buf());
        for e in std::fs::read_dir(dir.clone().unwrap_or(".".into())).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n.len() >= a.len() + b.len() && n.starts_with(a) && n.ends_with(b) {
                v.push(dir.clone().map(|d| d.join(&n)).unwrap_or(n.into()));
            }
        }
        v.sort();
    } else if path.exists() {
        v.push(path);
    }
    Ok(v.into_iter().map(Ok).collect::<Vec<_>>().into_iter())
}

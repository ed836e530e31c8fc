use std::path::{Path, PathBuf};
pub fn find_file(name: &str) -> Option<PathBuf> {
    let mut dirs: Vec<PathBuf> = vec![];
    if let Ok(d) = std::env::var("BPF_OUT_DIR") { dirs.push(d.into()); }
    if let Ok(d) = std::env::var("SBF_OUT_DIR") { dirs.push(d.into()); }
    dirs.push("/repo/programs/mango-v4/resources/test".into());
    dirs.push("/repo/programs/mango-v4".into()); dirs.push(".".into());
    dirs.into_iter().map(|d| d.join(name)).find(|p| p.exists())
}
pub fn read_file<P: AsRef<Path>>(p: P) -> Vec<u8> { std::fs::read(p).unwrap() }

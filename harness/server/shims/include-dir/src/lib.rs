//! Stand-in for include_dir: a small template.
use stdx::path::Path;
pub struct Dir; pub struct File(pub &'static str, pub &'static [u8]);
pub static FILES: &[File] = &[File("Cargo.toml_", b"[package]\nname = \"my_app\"\nversion = \"0.1.0\"\n"), File("src/lib.rs", b"#[main]\nfn render() {}\n"), File("src/index.css", b"body {}\n")];
#[macro_export] macro_rules! include_dir { ($t:tt) => { $crate::Dir } }
impl Dir {
    pub fn extract(&self, p: impl AsRef<Path>) -> std::io::Result<()> { for f in FILES { if let Some(i) = f.0.rfind('/') { stdx::fs::create_dir_all(p.as_ref().join(&f.0[..i]))?; } stdx::fs::write(p.as_ref().join(f.0), f.1)?; } Ok(()) }
    pub fn get_file(&self, n: &str) -> Option<&'static File> { FILES.iter().find(|f| f.0 == n) }
    pub fn files(&self) -> std::slice::Iter<'static, File> { FILES.iter() }
}
impl File { pub fn contents_utf8(&self) -> Option<&'static str> { std::str::from_utf8(self.1).ok() } pub fn contents(&self) -> &'static [u8] { self.1 } pub fn path(&self) -> &Path { Path::new(self.0) } }

//! `vertigo new`.
use crate::cargo::below;
use crate::new::{run, NewOpts};
use symrt::*;
use world::world;

#[no_mangle]
pub extern "C" fn h_new(n: usize) {
    world(|w| w.cwd = "/h".into());
    let name = word("name", n, b"am_-"); let dest = ["./", "sub/dir", "/abs"][choice("dest", 3)]; let dir = format!("{dest}/{name}");
    let there = choice("there", 5); let k = world::place(&dir); let (base, parent) = (world::place(dest), world::place("other"));
    world(|w| { w.files.push((if parent.is_empty() { "keep".into() } else { format!("{parent}/keep") }, b"k".to_vec()));
        match there { 1 => w.dirs.push(k.clone()), 2 => w.files.push((format!("{k}/mine.txt"), b"mine".to_vec())), 3 => w.dirs.push(format!("{k}/.git")), 4 => w.read_only.push(base), _ => {} } });
    let blocked = there == 4;
    let before = world(|w| { let mut f = w.files.clone(); f.sort(); f });
    let r = run(NewOpts { package_name: name.clone(), dest_dir: dest.into() });
    let after = world(|w| { let mut f = w.files.clone(); f.sort(); f });
    if there == 2 || there == 3 || blocked { check(r.is_err(), "a directory with files is taken for a new package"); check(before == after, "files change although no package is created"); reach(if blocked { "read only" } else { "occupied" }); return; }
    check(r.is_ok(), "a new package cannot be created");
    let toml = String::from_utf8_lossy(include_dir::FILES[0].1).replace("my_app", &name).into_bytes();
    let mut want: Vec<(String, Vec<u8>)> = include_dir::FILES[1..].iter().map(|f| (f.0.to_string(), f.1.to_vec())).collect(); want.push(("Cargo.toml".into(), toml)); want.sort();
    check(below(&dir) == want, "the new package is not the template under its name");
    check(before.iter().all(|f| after.contains(f)) && after.len() == before.len() + want.len(), "files elsewhere change"); reach("created"); trace(after.len() as u64);
}

//! Histories of runs in one place, against a model of the file tree.
use corries::prelude::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vh::*;

type Tree = BTreeMap<String, Option<Vec<u8>>>;

#[derive(Clone, Debug)]
struct R {
    c: C,
    /// folder below the root, file name, vector?, csv?, precision, clear?, metadata?
    streams: Vec<(&'static str, &'static str, bool, bool, usize, bool, bool)>,
}
fn runs() -> Vec<R> {
    let c = |n: usize| C { ph: Ph::Iso, s: 6, rk: Rk::RK1, t_end: 0.02, outputs: n, ..C::default() };
    let fails = |n: usize| C { iter_max: 2, ..c(n) };
    let invalid = |n: usize| C { iter_max: 0, ..c(n) };
    let r = |c: C, streams: &[(&'static str, &'static str, bool, bool, usize, bool, bool)]| R { c, streams: streams.to_vec() };
    vec![
        r(c(5), &[("x", "o", false, true, 17, false, true)]),
        r(c(1), &[("x", "o", false, true, 3, false, false)]),
        r(c(2), &[("x", "o", true, true, 17, false, false)]),
        r(c(12), &[("x", "o", true, true, 2, false, true)]),
        r(c(1), &[("x", "o", false, true, 9, true, false)]),
        r(c(3), &[("x/", "o", true, false, 9, true, true)]),
        r(c(2), &[("x/sub", "o", true, true, 5, true, false), ("x", "o", false, true, 5, false, true)]),
        r(c(2), &[("x/sub", "o", false, true, 5, false, true), ("x", "p", true, true, 5, true, false)]),
        r(c(1), &[("y/deep/er", "o", false, true, 6, false, true), ("x", "o", true, true, 6, false, false)]),
        r(fails(5), &[("x", "o", false, true, 8, false, false), ("x", "o", true, true, 8, false, false)]),
        r(fails(12), &[("x", "o", true, true, 17, true, true)]),
        r(c(2), &[("x", "o", false, true, 4, true, false), ("x", "o", false, false, 4, true, false), ("x/sub/x", "o", true, false, 4, true, false)]),
        // folders and files that share names or parts of names
        r(c(1), &[("o/x", "o", true, true, 4, true, false)]),
        r(c(2), &[("x/o", "o", false, true, 4, true, true)]),
        r(c(1), &[("x/o/sub", "o", true, true, 4, true, false), ("x/o", "p", false, true, 4, false, false)]),
        r(c(3), &[("x/x", "x", false, true, 4, true, false), ("o", "x", true, true, 4, true, true)]),
        r(c(1), &[("x", "o_0", true, true, 11, false, false), ("x", "o_", false, true, 3, false, true)]),
        r(c(1), &[("./x", "o.csv", true, false, 4, false, true), ("x//y", "o.0", false, false, 4, false, false)]),
        r(c(11), &[("x.csv", "a b", true, true, 1, true, false), ("x", "O", false, true, 4, false, true)]),
        // clearing asked for by a stream that does not write there
        r(c(1), &[("<y", "q", true, true, 4, true, true), ("y", "o", true, true, 4, false, true)]),
        // the same sizes as above, other values
        r(C { t_end: 0.03, ..c(2) }, &[("x", "o", true, true, 17, false, false)]),
        r(C { t_end: 0.03, ..c(5) }, &[("x", "o", false, true, 17, false, true)]),
        r(invalid(2), &[("x", "o", false, true, 4, true, true), ("y", "o", true, true, 4, true, false)]),
        r(invalid(2), &[("o/x", "o", true, true, 4, true, true), ("new", "o", true, true, 4, false, true)]),
    ]
}
fn cfg(r: &R, root: &Path) -> CorriesConfig {
    let v = r
        .streams
        .iter()
        .map(|(f, n, vector, csv, p, clear, meta)| {
            let mut names = vec![DataName::T, DataName::Iter, DataName::DtKind];
            if *vector {
                names.push(DataName::Prim(0));
            }
            let mut o = file_stream(root, n, names);
            if let Some(f) = f.strip_prefix('<') {
                o.folder_name = format!("{}/{f}", root.display());
                o.stream_mode = StreamMode::Stdout;
            } else {
                o.folder_name = format!("{}/{f}", root.display());
            }
            o.string_conversion_mode = if *vector { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar };
            o.formatting_mode = if *csv { FormattingMode::CSV } else { FormattingMode::TSV };
            o.precision = *p;
            o.should_clear_out_folder = *clear;
            o.should_print_metadata = *meta;
            o
        })
        .collect();
    r.c.config_with(v)
}
fn run(r: &R, root: &Path) -> CaseResult {
    let init = Init::uniform(Ph::Iso, 6, (1.0, 0.5, 1.0), 1.0);
    let s = make_cfg(r.c.ph, r.c.s, &cfg(r, root), &init);
    if r.c.iter_max == 0 {
        return if s.is_ok() { Err("init_corries accepted iter_max = 0".into()) } else { Ok(()) };
    }
    let mut s = s.map_err(|e| format!("init_corries failed: {e:#}"))?;
    let res = s.run();
    if res.is_ok() != (r.c.iter_max > 2) {
        return Err(format!("unexpected result of the run: {res:?}"));
    }
    Ok(())
}
fn wipe(root: &Path) {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root).unwrap();
}
fn put(root: &Path, t: &Tree) {
    for (n, c) in t {
        let p = root.join(n);
        match c {
            None => std::fs::create_dir_all(&p).unwrap(),
            Some(c) => std::fs::write(&p, c).unwrap(),
        }
    }
}
fn starts() -> Vec<Tree> {
    let f = |l: &[(&str, &str)]| -> Tree {
        let mut t = Tree::new();
        for (n, c) in l {
            let parts: Vec<&str> = n.split('/').collect();
            for k in 1..parts.len() {
                t.insert(parts[..k].join("/"), None);
            }
            t.insert(n.to_string(), Some(c.as_bytes().to_vec()));
        }
        t
    };
    let long = "old,old,old\n".repeat(500);
    vec![
        Tree::new(),
        f(&[("keep.txt", "k"), ("x/notes.txt", "n"), ("x/sub/data.bin", "d"), ("xx/o.csv", "not mine"), ("y/o.csv", "other"), ("x2/sub/o", "p")]),
        f(&[
            ("x/o.csv", &long), ("x/o_0.csv", &long), ("x/o_00.csv", &long), ("x/o_07.csv", &long), ("x/o_9.csv", &long), ("x/o_0.tsv", &long),
            ("x/o__metadata.json", &long), ("x/o_metadata.json", &long), ("x/p_0.csv", &long), ("x/sub/o_0.csv", &long), ("x/sub/o.csv", &long),
            ("y/deep/er/o.csv", &long), ("o.csv", &long),
        ]),
        f(&[
            ("o/other/file", "1"), ("o/o.csv", "2"), ("x/o/o.csv", &long), ("x/o/x/o_0.csv", "3"), ("x/x.csv", "4"), ("x/x/x.csv", &long), ("o/x/x_1.csv", &long),
            ("x/o_0_0.csv", &long), ("x/o_.csv", &long), ("x/o_0.csv", &long), ("x.csv/a b_00.csv", "5"), ("x.csv/old", "6"), ("x/O.csv", &long), ("x/o.csv_1.tsv", &long),
            ("x/sub/keep", "7"), ("x/p/o_1.csv", &long), ("x/p/gone", "8"), ("y/gone_not", "9"), ("new/o_0.csv", "10"), ("x/o_1.csv2/dir", "11"),
        ]),
    ]
}
/// Path without the parts that mean nothing
fn normal(f: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for p in f.split('/') {
        match p {
            "" | "." => (),
            ".." => {
                v.pop();
            },
            p => v.push(p),
        }
    }
    v.join("/")
}
/// What one run does to a tree, given what it produces in an empty place
fn model(t: &Tree, r: &R, fresh: &Tree) -> Tree {
    let mut t = t.clone();
    for (f, _, _, _, _, clear, _) in &r.streams {
        if *clear && r.c.iter_max > 0 && !f.starts_with('<') {
            let f = format!("{}/", normal(f));
            t.retain(|n, _| !format!("{n}/").starts_with(&f));
        }
    }
    t.extend(fresh.iter().map(|(a, b)| (a.clone(), b.clone())));
    t
}
fn diff(a: &Tree, b: &Tree) -> String {
    let show = |x: Option<&Option<Vec<u8>>>| match x {
        None => "absent".to_string(),
        Some(None) => "folder".to_string(),
        Some(Some(c)) => format!("{} bytes {:?}", c.len(), String::from_utf8_lossy(&c[..c.len().min(200)])),
    };
    let mut s = String::new();
    for n in a.keys().chain(b.keys()) {
        if a.get(n) != b.get(n) && !s.contains(&format!("\n{n}:")) {
            s += &format!("\n{n}: {}, expected {}", show(a.get(n)), show(b.get(n)));
        }
    }
    s
}

fn main() {
    vh::run("C10", |ctx| {
        let rs = runs();
        let n = rs.len();
        let st = starts();
        let base = scratch();
        // (root of the explored tree, result of every run in an empty place)
        let mk = || -> (PathBuf, PathBuf, Vec<Result<Tree, String>>) {
            let d = base.join(format!("w{:?}", std::thread::current().id()));
            let root = d.join("root");
            let outside = d.join("outside");
            std::fs::create_dir_all(&outside).unwrap();
            std::fs::write(outside.join("precious"), "precious").unwrap();
            let fresh = rs
                .iter()
                .map(|r| {
                    wipe(&root);
                    guard(|| run(r, &root)).and_then(|x| x).map(|_| tree(&root))
                })
                .collect();
            (root, outside, fresh)
        };
        let depth = ctx.pick(3u32, 4);
        let mut total = 0;
        for d in 1..=depth {
            total += n.pow(d);
        }
        ctx.note("history_length", depth);
        ctx.group_w("histories", total * st.len(), mk, |(root, outside, fresh), k, t| {
            let mut x = Radix(k);
            let s = x.of(&st).clone();
            let mut d = 1;
            while x.0 >= n.pow(d) {
                x.0 -= n.pow(d);
                d += 1;
            }
            let hist: Vec<usize> = (0..d).map(|_| x.take(n)).collect();
            wipe(root);
            put(root, &s);
            // a link to a place outside the output folder
            let link = !s.is_empty() && k % 2 == 0;
            if link {
                let _ = std::os::unix::fs::symlink(&*outside, root.join("x/link"));
            }
            let no_link = |mut t: Tree| {
                t.retain(|n, _| n != "x/link" && !n.starts_with("x/link/"));
                t
            };
            let mut want = s;
            for (q, h) in hist.iter().enumerate() {
                let show = || format!("history {:?}, run {q}: {:?}", hist, rs[*h]);
                let f = fresh[*h].as_ref().map_err(|e| format!("in an empty place: {e}\n{}", show()))?;
                want = model(&want, &rs[*h], f);
                run(&rs[*h], root).map_err(|e| format!("{e}\n{}", show()))?;
                t.transitions += 1;
                t.states += 1;
                let have = no_link(tree(root));
                if have != want {
                    return Err(format!("the files differ from those the history must leave:{}\n{}", diff(&have, &want), show()));
                }
                if std::fs::read(outside.join("precious")).ok().as_deref() != Some(b"precious") {
                    return Err(format!("a file outside of the output folder was removed or changed\n{}", show()));
                }
            }
            t.traces += 1;
            t.sample(|| format!("history {hist:?} from start {}", k % 3));
            Ok(())
        });
    })
}

//! What every output stream contains, against a model of the streams.
use corries::prelude::*;
use std::path::Path;
use vh::capture::Capture;
use vh::outmodel::*;
use vh::*;

const VALS: [f64; 16] = [
    1.0, -1.0, 0.0, -0.0, 1.5e-300, -2.5e300, 9.999999999999995, 9.5, 1e-5, -123456789.123, 0.1, 2.5, f64::NAN, f64::INFINITY,
    f64::NEG_INFINITY, 4.9e-324,
];
/// Different values in every place
fn scribble(s: &mut dyn Sim, k: usize) {
    let v = s.vars(D::C);
    let (e, n) = v.prim.dim();
    for i in 0..n {
        for j in 0..e {
            v.prim[[j, i]] = VALS[(i + 5 * j + k) % 16] * (1.0 + 0.01 * (i + 37 * j) as f64);
            v.cons[[j, i]] = -VALS[(2 * i + 3 * j + k + 1) % 16] * (1.0 + 0.013 * (i + 41 * j) as f64);
        }
        v.cs[i] = VALS[(3 * i + k + 7) % 16] * (1.0 + 0.017 * i as f64);
    }
    for d in [D::W, D::E] {
        let v = s.vars(d);
        v.prim.fill(7.7e77);
        v.cons.fill(7.7e77);
    }
    let t = s.ts();
    t.t = VALS[(k + 10) % 16];
    t.dt = VALS[(k + 9) % 16] * 1.1;
    t.iter = [0, 1, 17, 123456789, usize::MAX][k % 5];
    t.dt_kind = [DtKind::Init, DtKind::Cfl, DtKind::ErrorDump][k % 3];
}
fn names(ph: Ph) -> Vec<DataName> {
    let mut v = vec![DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind, DataName::XiCent, DataName::XiWest, DataName::XiEast, DataName::CSound];
    for j in 0..ph.e() {
        v.push(DataName::Prim(j));
        v.push(DataName::Cons(j));
    }
    v
}
/// Column selections: all single ones, all ordered pairs, everything forwards and backwards, duplicates
fn selections(ph: Ph, scalar: bool) -> Vec<Vec<DataName>> {
    let all: Vec<_> = names(ph).into_iter().take(if scalar { 4 } else { 99 }).collect();
    let mut v: Vec<Vec<DataName>> = all.iter().map(|a| vec![*a]).collect();
    for a in &all {
        for b in &all {
            v.push(vec![*a, *b]);
            if scalar {
                for c in &all {
                    v.push(vec![*a, *b, *c]);
                }
            }
        }
    }
    v.push(all.clone());
    v.push(all.iter().rev().cloned().collect());
    v.push(all.iter().chain(all.iter()).cloned().collect());
    v
}
fn stream(dir: &Path, name: &str, m: usize, csv: bool, ghosts: bool, precision: usize, sel: &[DataName]) -> OutputConfig {
    let mut o = file_stream(dir, name, sel.to_vec());
    o.string_conversion_mode = [ToStringConversionMode::Scalar, ToStringConversionMode::Vector][m];
    o.formatting_mode = if csv { FormattingMode::CSV } else { FormattingMode::TSV };
    o.should_print_ghostcells = ghosts;
    o.precision = precision;
    o
}
fn build(c: &C, o: Vec<OutputConfig>) -> Result<Box<dyn Sim>, String> {
    let init = Init::uniform(c.ph, c.s, (1.0, 0.5, 1.0), 1.0);
    make_cfg(c.ph, c.s, &c.config_with(o), &init).map_err(|e| format!("init_corries: {e:#}\n{c:?}"))
}
fn fresh(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
}

fn main() {
    vh::run("C09", |ctx| {
        let root = scratch();
        let mk = || {
            let d = root.join(format!("w{:?}", std::thread::current().id()));
            fresh(&d);
            d
        };
        let precs = [17, 0, 1, 3, 7, 12, 16, 25, 33, 60, 5];
        let np = precs.len();
        let mut cases = vec![];
        for ph in [Ph::Adi, Ph::Iso] {
            for m in 0..2 {
                for sel in selections(ph, m == 0) {
                    cases.push((ph, m, sel));
                }
            }
        }
        ctx.group_w("columns", cases.len() * 2 * 2 * np, mk, |dir, k, t| {
            let mut r = Radix(k);
            let (ph, m, sel) = r.of(&cases).clone();
            let (csv, ghosts) = (r.take(2) == 0, r.take(2) == 0);
            let o = stream(dir, "out", m, csv, ghosts, precs[r.take(np)], &sel);
            let c = C { ph, s: [6, 8, 12][k % 3], outputs: 3, ..C::default() };
            fresh(dir);
            let mut s = build(&c, vec![o.clone()])?;
            let mut snaps = vec![];
            for n in 0..3 {
                scribble(s.as_mut(), k % 16 + n * 3);
                snaps.push(snap(s.as_mut()));
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{o:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            t.sample(|| format!("{o:?}"));
            check_folder(&o, 3, &snaps, &tree(dir)).map_err(|e| format!("{e}\n{o:?}\n{c:?}"))
        });
        // numbers of outputs around powers of ten
        let maxs = [0usize, 1, 2, 8, 9, 10, 11, 99, 100, 101, 999, 1000, 1001];
        ctx.group_w("counters", maxs.len() * 2 * 2 * 2, mk, |dir, k, t| {
            let mut r = Radix(k);
            let max = *r.of(&maxs);
            let o = stream(dir, "out", r.take(2), r.take(2) == 0, r.take(2) == 0, 17, &[DataName::T, DataName::Iter]);
            let c = C { ph: Ph::Iso, s: 6, outputs: max, ..C::default() };
            fresh(dir);
            let mut s = build(&c, vec![o.clone()])?;
            let mut snaps = vec![];
            for n in 0..max + 2 {
                s.ts().t = n as f64 * 0.1;
                s.ts().iter = n;
                snaps.push(snap(s.as_mut()));
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{o:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            check_folder(&o, max, &snaps, &tree(dir)).map_err(|e| format!("{e}\n{o:?}\n{c:?}"))
        });
        // numbers of outputs far beyond what can be written here: only some of the files
        let far: Vec<usize> = (1..=12).flat_map(|e| [10usize.pow(e) - 1, 10usize.pow(e), 10usize.pow(e) + 1]).chain([2, 12345, 1 << 20, 1 << 32, 1 << 40]).collect();
        ctx.group_w("far counters", far.len() * 2 * 2, mk, |dir, k, t| {
            let mut r = Radix(k);
            let max = *r.of(&far);
            let (csv, ghosts) = (r.take(2) == 0, r.take(2) == 0);
            let o = stream(dir, "out", 1, csv, ghosts, 7, &[DataName::T, DataName::Prim(0)]);
            let c = C { ph: Ph::Iso, s: 6, outputs: max, ..C::default() };
            fresh(dir);
            let mut s = build(&c, vec![o.clone()])?;
            let mut want: Vec<String> = vec![];
            let mut at: Vec<usize> = (0..16).map(|e| 10usize.pow(e)).flat_map(|x| [x - 1, x]).chain([3, 77, 1005, max / 2, max - 1, max]).filter(|x| *x <= max).collect();
            at.sort();
            at.dedup();
            for n in at {
                s.writer().output_counter = n;
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{o:?}"))?;
                t.transitions += 1;
                let digits = max.to_string().len();
                want.push(format!("out_{n:0digits$}.{}", if csv { "csv" } else { "tsv" }));
            }
            t.states += 1;
            t.traces += 1;
            want.sort();
            let have: Vec<String> = tree(dir).into_keys().collect();
            if have != want {
                return Err(format!("the files are {have:?}\nexpected {want:?} (output_counter_max = {max})\n{o:?}"));
            }
            Ok(())
        });
        // spellings of folders and names; relative to the working directory as well
        let folders = ["a", "a/", "a//", "./a", "n/e/s/t", "n/e/s/t/", "with blank", "ü/ñ", ".hidden", "a.b.c"];
        let fnames = ["out", "a.b", "n_0001", "ü ñ", "-x", "out.csv", "_"];
        let wd = scratch();
        std::env::set_current_dir(&wd).unwrap();
        ctx.group_seq("names", folders.len() * fnames.len() * 2 * 2 * 2, |k, t| {
            let mut r = Radix(k);
            let (fo, fi) = (*r.of(&folders), *r.of(&fnames));
            let m = r.take(2);
            let csv = r.take(2) == 0;
            let rel = r.take(2) == 1;
            fresh(&wd.join("x"));
            let folder = if rel { format!("x/{fo}") } else { format!("{}/x/{fo}", wd.display()) };
            let mut o = stream(Path::new(""), fi, m, csv, false, 12, &[DataName::Iter, DataName::Dt]);
            o.folder_name = folder;
            let c = C { ph: Ph::Iso, s: 6, outputs: 12, ..C::default() };
            let mut s = build(&c, vec![o.clone()])?;
            let mut snaps = vec![];
            for n in 0..3 {
                s.ts().iter = n;
                snaps.push(snap(s.as_mut()));
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{o:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            // everything below x: only the folders on the way and the files
            let have = tree(&wd.join("x"));
            let base: String = fo.trim_start_matches("./").trim_end_matches('/').into();
            let mut inner = std::collections::BTreeMap::new();
            for (n, c) in have {
                match n.strip_prefix(&format!("{base}/")) {
                    Some(x) => {
                        inner.insert(x.to_string(), c);
                    }
                    None if c.is_none() && format!("{base}/").starts_with(&format!("{n}/")) => {}
                    None => return Err(format!("{n} was created\n{o:?}")),
                }
            }
            check_folder(&o, 12, &snaps, &inner).map_err(|e| format!("{e}\n{o:?}"))
        });
        // standard output, alone and together with files
        let so: Vec<(Ph, usize, Vec<DataName>)> =
            cases.iter().filter(|(_, m, sel)| sel.len() != 2 || *m == 0 || sel[0].data_type() != sel[1].data_type()).cloned().collect();
        let cap = Capture::start();
        let dir = root.join("stdout");
        ctx.group_seq("stdout", so.len() * 2 * 2 * ctx.pick(2, 4), |k, t| {
            let mut r = Radix(k);
            let (ph, m, sel) = r.of(&so).clone();
            let (csv, ghosts) = (r.take(2) == 0, r.take(2) == 0);
            let mut o = stream(&dir, "out", m, csv, ghosts, precs[r.take(4)], &sel);
            o.stream_mode = StreamMode::Stdout;
            if k % 3 == 0 {
                o.folder_name.clear();
                o.file_name.clear();
            }
            let other = stream(&dir, "other", 1 - m, !csv, !ghosts, 5, &[DataName::T, DataName::Iter]);
            let with = k % 4 == 0;
            let c = C { ph, s: 8, outputs: 3, ..C::default() };
            fresh(&dir);
            let mut v = vec![o.clone()];
            if with {
                v.insert(k % 2, other.clone());
            }
            let _ = cap.take();
            let mut s = build(&c, v)?;
            let mut snaps = vec![];
            for n in 0..3 {
                scribble(s.as_mut(), k % 16 + n * 3);
                snaps.push(snap(s.as_mut()));
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{o:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            let text = String::from_utf8(cap.take()).map_err(|_| "stdout is not text".to_string())?;
            let recs: Vec<_> = snaps.iter().enumerate().map(|(n, s)| (m == 1 || n == 0, s)).collect();
            check_text(&o, &text, &recs).map_err(|e| format!("{e}\n{o:?}"))?;
            if with {
                check_folder(&other, 3, &snaps, &tree(&dir)).map_err(|e| format!("{e}\n{other:?}"))
            } else if !tree(&dir).is_empty() {
                Err(format!("a stdout stream created files\n{o:?}"))
            } else {
                Ok(())
            }
        });
        drop(cap);
        // several streams in one folder
        ctx.group_w("streams", 16 * 16 * 4, mk, |dir, k, t| {
            let mut r = Radix(k);
            let mut v = vec![];
            for n in 0..2 {
                let x = r.take(16);
                let m = x & 1;
                let sel: Vec<_> = if m == 0 { vec![DataName::Iter, DataName::T] } else { vec![DataName::Prim(x >> 3), DataName::XiCent, DataName::CSound] };
                v.push(stream(&dir.join(["p", "q"][n]), "o", m, x & 2 == 0, x & 4 == 0, [3, 17][x >> 3], &sel));
            }
            let third = r.take(4);
            if third > 0 {
                v.push(stream(&dir.join("z"), "o", third % 2, third == 1, third == 2, 9, &[DataName::Dt, DataName::DtKind]));
            }
            let c = C { ph: Ph::Adi, s: 7, outputs: 10, ..C::default() };
            fresh(dir);
            let mut s = build(&c, v.clone())?;
            let mut snaps = vec![];
            for n in 0..3 {
                scribble(s.as_mut(), k % 16 + n * 3);
                snaps.push(snap(s.as_mut()));
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{v:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            for o in &v {
                check_folder(o, 10, &snaps, &tree(Path::new(&o.folder_name))).map_err(|e| format!("{e}\n{o:?}"))?;
            }
            let n = tree(dir).values().filter(|x| x.is_none()).count();
            if n != v.len() {
                return Err(format!("{n} folders instead of {}", v.len()));
            }
            Ok(())
        });
        // a physics that the user defined, with one more equation
        let more: Vec<(Ph, Vec<DataName>)> = [Ph::Adi, Ph::Iso]
            .into_iter()
            .flat_map(|ph| {
                let all: Vec<_> = (0..=ph.e()).flat_map(|j| [DataName::Prim(j), DataName::Cons(j)]).chain([DataName::CSound, DataName::XiCent, DataName::T]).collect();
                let mut v = vec![all.clone(), all.iter().rev().cloned().collect()];
                for a in &all {
                    v.extend(all.iter().map(|b| vec![*a, *b]));
                }
                v.into_iter().map(move |x| (ph, x))
            })
            .collect();
        ctx.group_w("more equations", more.len() * 2 * 2 * 2, mk, |dir, k, t| {
            let mut r = Radix(k);
            let (ph, sel) = r.of(&more).clone();
            let o = stream(dir, "out", 1, r.take(2) == 0, r.take(2) == 0, [17, 4][r.take(2)], &sel);
            let c = C { ph, s: [9, 36][k % 2], outputs: 3, ..C::default() };
            fresh(dir);
            let init = Init::uniform(ph, c.s, (1.0, 0.5, 1.0), 1.0);
            let mut s = dye::make_dye_with(&c, &init, &vec![0.25; c.s], Bm::NoGradients, vec![o.clone()]).map_err(|e| format!("init_corries: {e:#}\n{o:?}"))?;
            let mut snaps = vec![];
            for n in 0..3 {
                scribble(s.as_mut(), k % 16 + n * 3);
                snaps.push(snap(s.as_mut()));
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{o:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            check_folder(&o, 3, &snaps, &tree(dir)).map_err(|e| format!("{e}\n{o:?}\n{c:?}"))
        });
        // all mesh sizes
        let sizes: Vec<usize> = SIZES.into_iter().chain([BIG]).collect();
        ctx.group_w("sizes", sizes.len() * 2 * 2 * 2 * 2, mk, |dir, k, t| {
            let mut r = Radix(k);
            let s = *r.of(&sizes);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let o = stream(dir, "out", 1, r.take(2) == 0, r.take(2) == 0, [17, 6][r.take(2)], &names(ph));
            let c = C { ph, s, outputs: 3, ..C::default() };
            fresh(dir);
            let mut sim = build(&c, vec![o.clone()])?;
            let mut snaps = vec![];
            for n in 0..2 {
                scribble(sim.as_mut(), k % 16 + n * 3);
                snaps.push(snap(sim.as_mut()));
                sim.output().map_err(|e| format!("output {n} failed: {e:#}\n{o:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            check_folder(&o, 3, &snaps, &tree(dir)).map_err(|e| format!("{e}\n{o:?}\n{c:?}"))
        });
        // up to a dozen streams that share one folder
        let most = ctx.pick(12, 24);
        ctx.group_w("many streams", most * 4 * 3, mk, |dir, k, t| {
            let mut r = Radix(k);
            let n = r.take(most) + 1;
            let (turn, f) = (r.take(4), r.take(3));
            let all = names(Ph::Adi);
            let v: Vec<_> = (0..n)
                .map(|i| {
                    let m = (i >> (turn & 1)) & 1;
                    // as many columns in each, or a different number
                    let sel: Vec<_> = match (m, f) {
                        (0, 0) => vec![all[i % 4], all[(i + 1) % 4]],
                        (0, _) => all[..1 + i % 4].to_vec(),
                        (_, 0) => vec![all[4 + i % 10], all[4 + (i + turn) % 10]],
                        (_, 1) => all[i % 5..].to_vec(),
                        (_, _) => all[i % 14..=i % 14].to_vec(),
                    };
                    stream(dir, &format!("o{i}x"), m, i % 3 == 0, (i + turn) % 2 == 0, [3, 17, 8, 1][(i + turn) % 4], &sel)
                })
                .collect();
            let c = C { ph: Ph::Adi, s: [7, 9, 16][k % 3], outputs: 10, ..C::default() };
            fresh(dir);
            let mut s = build(&c, v.clone())?;
            let mut snaps = vec![];
            for n in 0..3 {
                scribble(s.as_mut(), k % 16 + n * 3);
                snaps.push(snap(s.as_mut()));
                s.output().map_err(|e| format!("output {n} failed: {e:#}\n{v:?}"))?;
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
            let have = tree(dir);
            for (i, o) in v.iter().enumerate() {
                let own = have.iter().filter(|(n, _)| n.starts_with(&format!("o{i}x"))).map(|(a, b)| (a.clone(), b.clone())).collect();
                check_folder(o, 10, &snaps, &own).map_err(|e| format!("{e}\n{o:?}\nwith {} other streams", v.len() - 1))?;
            }
            let want: usize = v.iter().map(|o| if o.string_conversion_mode == ToStringConversionMode::Scalar { 1 } else { 3 }).sum();
            if have.len() != want {
                return Err(format!("{} files instead of {want}: {:?}", have.len(), have.keys()));
            }
            Ok(())
        });
        // whole runs: every record holds what a run stepped by hand has at that iteration
        ctx.group_w("runs", 2 * 3 * 4 * 3 * 2 * 2, mk, |dir, k, t| {
            let mut r = Radix(k);
            let ph = [Ph::Adi, Ph::Iso][r.take(2)];
            let rk = [Rk::RK1, Rk::SSPRK3, Rk::RKF45][r.take(3)];
            let n = [1, 2, 5, 12][r.take(4)];
            let p = [17, 3, 8][r.take(3)];
            let csv = r.take(2) == 0;
            let fail = r.take(2) == 1;
            let fl = [Fl::Hll, Fl::Kt(Lim::MinMod)][k % 2];
            let c = C { ph, rk, fl, s: 12, t_end: 0.2, t0: 0.05, outputs: n, iter_max: if fail { 4 } else { 10000 }, ..C::default() };
            let cells: Vec<_> = (0..8).map(|i| if i < 4 { (1.0, 0.2, 1.0) } else { (0.5, -0.1, 0.3) }).collect();
            let init = Init::interior(ph, &cells, 0.8);
            let all = names(ph);
            let v = vec![
                stream(&dir.join("s"), "s", 0, csv, false, p, &all[..4]),
                stream(&dir.join("v"), "v", 1, !csv, false, p, &all),
                stream(&dir.join("g"), "g", 1, csv, true, p, &all),
            ];
            fresh(dir);
            let mut a = make_cfg(ph, 12, &c.config_with(v.clone()), &init).map_err(|e| format!("{e:#}"))?;
            let res = a.run();
            if res.is_ok() == fail {
                return Err(format!("unexpected result of the run: {res:?}\n{c:?}"));
            }
            // by hand
            let mut b = made(&c, &init)?;
            let mut snaps = vec![];
            loop {
                let ts = b.ts();
                if ts.t >= ts.t_next_output - ts.dt_min {
                    let k = snaps.len() as f64 + 1.0;
                    let tn = (c.t0 + (c.t_end - c.t0) * k / n as f64).min(c.t_end);
                    b.ts().t_next_output = if snaps.len() + 1 >= n { c.t_end.max(if snaps.len() < n { 0.0 } else { 1e9 }) } else { tn };
                    snaps.push(snap(b.as_mut()));
                }
                if b.ts().t >= c.t_end - 1e-14 {
                    break;
                }
                if b.step().is_err() {
                    b.ts().dt_kind = DtKind::ErrorDump;
                    snaps.push(snap(b.as_mut()));
                    break;
                }
            }
            t.states += 1;
            t.transitions += b.ts().iter as u64;
            t.traces += 1;
            t.sample(|| format!("{c:?}: {} records", snaps.len()));
            for o in &v {
                let have = tree(Path::new(&o.folder_name));
                // output times are only determined up to rounding: compare with the run's own values where exact
                check_close(o, n, &snaps, &have).map_err(|e| format!("{e}\n{o:?}\n{c:?}"))?;
            }
            Ok(())
        });
    })
}

/// In whole runs the times are only fixed up to rounding; values are therefore compared with a tolerance
fn check_close(
    o: &OutputConfig,
    max: usize,
    snaps: &[Snap],
    have: &std::collections::BTreeMap<String, Option<Vec<u8>>>,
) -> Result<(), String> {
    let want = files(o, max, snaps);
    let (a, b): (Vec<_>, Vec<_>) = (want.keys().collect(), have.keys().collect());
    if a != b {
        return Err(format!("files {b:?}, expected {a:?}"));
    }
    for (n, recs) in &want {
        let text = String::from_utf8(have[n].clone().unwrap_or_default()).unwrap_or_default();
        let mut lines = text.lines();
        for (k, (h, s)) in recs.iter().enumerate() {
            if *h {
                lines.next();
            }
            for (i, row) in rows(o, s).iter().enumerate() {
                let l = lines.next().ok_or(format!("{n}: record {k} row {i} is missing"))?;
                let toks: Vec<String> = match o.formatting_mode {
                    FormattingMode::CSV => l.split(',').map(|x| x.trim().to_string()).collect(),
                    FormattingMode::TSV => l.split_whitespace().map(|x| x.to_string()).collect(),
                };
                if toks.len() != row.len() {
                    return Err(format!("{n}: record {k} row {i}: {l:?}"));
                }
                for (w, x) in row.iter().zip(&toks) {
                    let ok = match w {
                        Tok::S(s) => s == x,
                        Tok::F(v) => x.parse::<f64>().is_ok_and(|y| (y - v).abs() <= (1e-11 + 0.6 * 10f64.powi(-(o.precision as i32))) * (1e-10 + v.abs())),
                    };
                    if !ok {
                        return Err(format!("{n}: record {k} row {i}: {x} instead of {w:?} in {l:?}"));
                    }
                }
            }
        }
        if lines.next().is_some() {
            return Err(format!("{n}: surplus lines"));
        }
    }
    Ok(())
}

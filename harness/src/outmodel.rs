//! Model of the output streams.
use crate::sim::Sim;
use corries::prelude::*;
use std::collections::BTreeMap;

/// Everything an output record can show
#[derive(Clone, Debug)]
pub struct Snap {
    pub xi: [Vec<f64>; 3],
    pub prim: Vec<Vec<f64>>,
    pub cons: Vec<Vec<f64>>,
    pub cs: Vec<f64>,
    pub t: f64,
    pub iter: usize,
    pub dt: f64,
    pub kind: String,
}
pub fn snap(s: &mut dyn Sim) -> Snap {
    let m = |a: &ndarray::Array2<f64>| a.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>();
    let xi = s.xi().map(|x| x.to_vec());
    let (prim, cons, cs) = (m(s.prim()), m(s.cons()), s.cs().to_vec());
    let t = s.ts();
    let kind = match t.dt_kind {
        DtKind::Init => "init",
        DtKind::Cfl => "cfl",
        DtKind::ErrorDump => "err",
    };
    Snap { xi, prim, cons, cs, t: t.t, iter: t.iter, dt: t.dt, kind: kind.to_string() }
}
#[derive(Clone, Debug)]
pub enum Tok {
    F(f64),
    S(String),
}
pub fn column_name(n: &DataName) -> String {
    match n {
        DataName::XiCent => "xi_cent".into(),
        DataName::XiWest => "xi_west".into(),
        DataName::XiEast => "xi_east".into(),
        DataName::Prim(j) => format!("prim_{j}"),
        DataName::Cons(j) => format!("cons_{j}"),
        DataName::CSound => "c_sound".into(),
        DataName::T => "t".into(),
        DataName::Iter => "iter".into(),
        DataName::Dt => "dt".into(),
        DataName::DtKind => "dt_kind".into(),
    }
}
fn tok(n: &DataName, s: &Snap, i: usize) -> Tok {
    match n {
        DataName::XiCent => Tok::F(s.xi[0][i]),
        DataName::XiWest => Tok::F(s.xi[1][i]),
        DataName::XiEast => Tok::F(s.xi[2][i]),
        DataName::Prim(j) => Tok::F(s.prim[*j][i]),
        DataName::Cons(j) => Tok::F(s.cons[*j][i]),
        DataName::CSound => Tok::F(s.cs[i]),
        DataName::T => Tok::F(s.t),
        DataName::Dt => Tok::F(s.dt),
        DataName::Iter => Tok::S(s.iter.to_string()),
        DataName::DtKind => Tok::S(s.kind.clone()),
    }
}
pub fn rows(o: &OutputConfig, s: &Snap) -> Vec<Vec<Tok>> {
    let n = s.cs.len();
    let cells: Vec<usize> = match (o.string_conversion_mode, o.should_print_ghostcells) {
        (ToStringConversionMode::Scalar, _) => vec![0],
        (_, true) => (0..n).collect(),
        (_, false) => (2..n - 2).collect(),
    };
    cells.into_iter().map(|i| o.data_names.iter().map(|d| tok(d, s, i)).collect()).collect()
}
fn tok_ok(want: &Tok, have: &str, precision: usize) -> bool {
    match want {
        Tok::S(s) => s == have,
        Tok::F(x) => {
            let e = format!("{:.*e}", precision, x);
            if e == have {
                return true;
            }
            let Ok(v) = have.parse::<f64>() else { return false };
            let digits = have.split(['e', 'E']).next().and_then(|m| m.split('.').nth(1)).map_or(0, |f| f.len());
            v.to_bits() == e.parse::<f64>().unwrap().to_bits() && digits == precision
        }
    }
}
fn split(o: &OutputConfig, line: &str) -> Vec<String> {
    match o.formatting_mode {
        FormattingMode::CSV => line.split(',').map(|x| x.trim().to_string()).collect(),
        FormattingMode::TSV => line.split_whitespace().map(|x| x.to_string()).collect(),
    }
}
/// Compares the text of one stream (or file) with the records it must hold; `header` per record
pub fn check_text(o: &OutputConfig, text: &str, recs: &[(bool, &Snap)]) -> Result<(), String> {
    if !text.is_empty() && !text.ends_with('\n') {
        return Err(format!("the text does not end with a line break: {text:?}"));
    }
    let mut lines = text.lines();
    for (k, (header, s)) in recs.iter().enumerate() {
        if *header {
            let l = lines.next().ok_or(format!("record {k}: header is missing in {text:?}"))?;
            let l = match o.formatting_mode {
                FormattingMode::TSV => l.strip_prefix('#').ok_or(format!("record {k}: {l:?} is not a commented header"))?,
                FormattingMode::CSV => l,
            };
            let have = split(o, l);
            let want: Vec<_> = o.data_names.iter().map(column_name).collect();
            if have != want {
                return Err(format!("record {k}: header {have:?}, expected {want:?}"));
            }
        }
        for (n, want) in rows(o, s).iter().enumerate() {
            let l = lines.next().ok_or(format!("record {k}: row {n} is missing in {text:?}"))?;
            let have = split(o, l);
            if have.len() != want.len() || want.iter().zip(&have).any(|(w, h)| !tok_ok(w, h, o.precision)) {
                return Err(format!("record {k}, row {n}: {l:?}, expected {want:?} with {} digits", o.precision));
            }
        }
    }
    match lines.next() {
        None => Ok(()),
        Some(l) => Err(format!("surplus line {l:?} after {} records", recs.len())),
    }
}
/// Names of the files below the folder and the records each holds (header flag included)
pub fn files<'a>(o: &OutputConfig, counter_max: usize, snaps: &'a [Snap]) -> BTreeMap<String, Vec<(bool, &'a Snap)>> {
    let ending = match o.formatting_mode {
        FormattingMode::CSV => "csv",
        FormattingMode::TSV => "tsv",
    };
    let mut m = BTreeMap::new();
    if snaps.is_empty() {
        return m;
    }
    match o.string_conversion_mode {
        ToStringConversionMode::Scalar => {
            m.insert(format!("{}.{ending}", o.file_name), snaps.iter().enumerate().map(|(k, s)| (k == 0, s)).collect());
        }
        ToStringConversionMode::Vector => {
            let w = counter_max.max(1).to_string().len();
            for (k, s) in snaps.iter().enumerate() {
                m.insert(format!("{}_{k:0w$}.{ending}", o.file_name), vec![(true, s)]);
            }
        }
    }
    m
}
/// A whole folder that holds this stream only
pub fn check_folder(o: &OutputConfig, counter_max: usize, snaps: &[Snap], have: &BTreeMap<String, Option<Vec<u8>>>) -> Result<(), String> {
    let want = files(o, counter_max, snaps);
    let (a, b): (Vec<_>, Vec<_>) = (want.keys().collect(), have.keys().collect());
    if a != b {
        return Err(format!("files {b:?}, expected {a:?}"));
    }
    for (n, recs) in &want {
        let c = have[n].as_ref().ok_or(format!("{n} is a folder"))?;
        let c = std::str::from_utf8(c).map_err(|_| format!("{n} is not text"))?;
        check_text(o, c, recs).map_err(|e| format!("{n}: {e}"))?;
    }
    Ok(())
}

//! Judging a finished run against the reference model.
use crate::client::*;
use crate::decode;
use crate::disk::Bytes;
use crate::plan::*;
use std::collections::BTreeMap;

/// A finding that is recorded rather than repaired has an exact signature; see known_findings.json.
pub const SNAPPY_SIG: &str = "snappy-column-discarded";
pub const BLOCK_INDEX_SIG: &str = "block-index-not-stored";

pub fn file_names(seg: &Seg) -> (String, String) {
    let n = base64::encode_config(unhex(&seg.id), base64::URL_SAFE_NO_PAD);
    let dir = crate::disk::absolute(&seg.dir);
    (format!("{dir}/{n}.dat"), format!("{dir}/{n}.idx"))
}

pub struct Image<'a> {
    pub dat: Option<Bytes<'a>>,
    pub idx: Option<Vec<u8>>,
}

fn show(r: &Option<Vec<u8>>) -> String {
    match r {
        None => "null".into(),
        Some(v) if v.len() > 12 => format!("{} bytes {:02x?}..", v.len(), &v[..12]),
        Some(v) => format!("{v:02x?}"),
    }
}

pub fn block_cuts(c: &ColObs) -> Vec<(u64, u64)> {
    let mut a = c.start;
    c.entries
        .iter()
        .map(|e| {
            let x = (a, e.1);
            a = e.1;
            x
        })
        .collect()
}

fn bad(out: &mut Vec<Viol>, kind: &'static str, msg: String) {
    if out.len() < 20 {
        out.push(Viol { kind, msg });
    }
}

/// The block index of a column against its extent (and its rows, when it was closed).
pub fn check_index(what: &str, plan: &Col, c: &ColObs, out: &mut Vec<Viol>) {
    let shown = &c.entries[..c.entries.len().min(10)];
    let rows = expected_len(plan, c.batches) as i64;
    let mut pos = c.start;
    let mut row: i64 = -1;
    for (i, (r, e)) in c.entries.iter().enumerate() {
        if *e <= pos {
            return bad(out, "index", format!("{what}: block {i} ends at {e}, not after {pos}: {shown:?}"));
        }
        if *r as i64 <= row {
            return bad(out, "index", format!("{what}: block {i} ends with row {r}, not after row {row}: {shown:?}"));
        }
        pos = *e;
        row = *r as i64;
    }
    if pos != c.end {
        return bad(out, "index", format!("{what}: last block ends at {pos}, the column at {}: {shown:?}", c.end));
    }
    if c.closed && row + 1 != rows {
        bad(out, "index", format!("{what}: the index covers {} rows, {rows} were appended: {shown:?}", row + 1));
    }
}

/// meerkat's own validity decoder must agree with ours.
fn own_decoder(what: &str, block: usize, enc: &[u8], rows: &decode::Rows, out: &mut Vec<Viol>) {
    let want: Vec<u32> = rows.iter().enumerate().filter(|(_, r)| r.is_some()).map(|(i, _)| i as u32).collect();
    let mut got = vec![0u32; want.len()];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| meerkat_store::decode_validity(enc, &mut got)));
    if r.is_err() || got != want {
        bad(out, "rows", format!("{what}: block {block}: meerkat decodes its validity differently"));
    }
}

/// Decode a column from the data file's bytes and compare it with the rows appended.
pub fn check_rows(what: &str, plan: &Col, c: &ColObs, dat: Bytes, out: &mut Vec<Viol>) {
    if dat.lacks(c.start, c.end) {
        return; // the simulated disk did not keep it
    }
    let want = expected_rows(plan, c.batches);
    if plan.encoding == SNAPPY {
        if want.is_empty() {
            return;
        }
        let area = dat.get(c.start, c.end).unwrap_or(&[]);
        if area == b"snappy".repeat(c.batches) {
            bad(out, "rows", format!("[{SNAPPY_SIG}] {what}: {} rows accepted, only the literal \"snappy\" is stored", want.len()));
        } else {
            bad(out, "rows", format!("{what}: snappy column of {} rows stored as {} unreadable bytes", want.len(), area.len()));
        }
        return;
    }
    let mut row = 0usize;
    let mut prev = 0usize;
    for (i, (a, b)) in block_cuts(c).iter().enumerate() {
        let Some(bytes) = dat.get(*a, *b) else {
            return bad(out, "rows", format!("{what}: block {i} at {a}..{b} lies outside the file of {} bytes", dat.len()));
        };
        let last = c.entries[i].0 as usize;
        if last + 1 <= prev || last >= 1 << 24 {
            return bad(out, "rows", format!("{what}: block {i} has last row id {last} after {prev} rows"));
        }
        let n = last + 1 - prev;
        prev = last + 1;
        let readings = match decode::block(bytes, plan.ty, plan.nullable, n) {
            Ok(r) => r,
            Err(e) => {
                bad(out, "index", format!("{what}: entry {i} ({a}..{b}, {n} rows) is not a block: {e}"));
                return bad(out, "rows", format!("{what}: block {i} ({} bytes, {n} rows) does not decode: {e}", bytes.len()));
            }
        };
        let expect = want.get(row..(row + n).min(want.len())).unwrap_or(&[]);
        if let Some(r) = readings.iter().find(|r| r.0 == expect) {
            row += n;
            if plan.nullable {
                if decode::empty_frame(&r.1) {
                    bad(out, "index", format!("{what}: entry {i} ({a}..{b}, {n} rows) is more than one block"));
                }
                own_decoder(what, i, &r.1, &r.0, out);
            }
            continue;
        }
        let got = &readings[0].0;
        let k = got.iter().zip(expect).position(|(x, y)| x != y).unwrap_or(expect.len().min(got.len()));
        return bad(
            out,
            "rows",
            format!(
                "{what}: block {i}, row {}: read back {}, appended {}",
                row + k,
                got.get(k).map_or("nothing".into(), show),
                expect.get(k).map_or("nothing".into(), show)
            ),
        );
    }
    if row != want.len() {
        bad(out, "rows", format!("{what}: {row} rows read back, {} were appended", want.len()));
    }
}

/// Everything that must hold of a segment both of whose close (and sync) succeeded.
pub fn check_segment(seg: &Seg, ob: &SegObs, img: &Image, out: &mut Vec<Viol>) {
    let what = format!("segment {} (task {}, attempt {})", seg.id, ob.task, ob.attempt);
    let (Some(dat), Some(idx)) = (&img.dat, &img.idx) else {
        return bad(
            out,
            "missing-file",
            format!("{what}: data file {}, index file {}", pres(&img.dat), pres(&img.idx)),
        );
    };
    if dat.get(0, 13) != Some(b"MEERKAT_DATA1") {
        bad(out, "signature", format!("{what}: the data file does not start with its signature"));
    }
    for c in ob.cols.iter().filter(|c| c.closed && !c.dirty) {
        let w = format!("{what}, column {}", c.col);
        check_index(&w, &seg.cols[c.col], c, out);
        check_rows(&w, &seg.cols[c.col], c, *dat, out);
    }
    if dat.len() != ob.data_pos {
        bad(out, "length", format!("{what}: data file has {} bytes, the writer was at {}", dat.len(), ob.data_pos));
    }
    let m = match decode::index_file(idx) {
        Ok(m) => m,
        Err(e) => return bad(out, "metadata", format!("{what}: index file: {e}")),
    };
    let want_head = (unhex(&seg.id), seg.db.as_bytes(), seg.table.as_bytes(), seg.shard as u64, seg.num_rows as u64);
    if (m.id.clone(), &m.db[..], &m.table[..], m.shard, m.num_rows) != want_head {
        bad(
            out,
            "metadata",
            format!(
                "{what}: metadata has id {:02x?} db {:?} table {:?} shard {} rows {}, created with db {:?} table {:?} shard {} rows {}",
                m.id, String::from_utf8_lossy(&m.db), String::from_utf8_lossy(&m.table), m.shard, m.num_rows,
                seg.db, seg.table, seg.shard, seg.num_rows
            ),
        );
    }
    let mut want: Vec<decode::MetaCol> = vec![];
    let mut lay: Vec<(String, u32)> = vec![];
    // a column whose closing was given up half-way may be listed or not
    let name = |c: &ColObs| &seg.cols[c.col].name;
    let other = |c: &ColObs| ob.cols.iter().any(|x| x.closed && name(x) == name(c));
    let listed = |c: &ColObs| c.closed || (c.maybe && !other(c) && m.cols.iter().any(|x| x.key == *name(c)));
    for c in ob.cols.iter().filter(|c| listed(c)) {
        let p = &seg.cols[c.col];
        want.push(decode::MetaCol {
            key: p.name.clone(),
            name: p.name.clone(),
            column_type: p.column_type as u64,
            nullable: p.nullable as u64,
            encoding: p.encoding as u64,
            index_type: p.index_type as u64,
        });
        lay.push((p.name.clone(), if p.encoding == SNAPPY { 6 } else { 4 }));
    }
    want.sort();
    lay.sort();
    if m.cols != want {
        bad(out, "metadata", format!("{what}: metadata lists columns {:?}, closed columns are {:?}", brief(&m.cols), brief(&want)));
    }
    let got: Vec<(String, u32)> = m.layouts.iter().map(|l| (l.key.clone(), l.encoder)).collect();
    if got != lay {
        bad(out, "metadata", format!("{what}: layouts {:?}, expected {:?}", trunc(&got), trunc(&lay)));
    }
    for c in ob.cols.iter().filter(|c| c.closed && !c.dirty) {
        let p = &seg.cols[c.col];
        let Some(l) = m.layouts.iter().find(|l| l.key == p.name) else { continue };
        let w = format!("{what}, column {}", c.col);
        match (&p.index, c.index) {
            (Some(plan), Some(no)) => {
                let r = o().indexes[no].range;
                if l.column_index != 2 || l.column_index_range != Some(r) {
                    bad(out, "colindex", format!("{w}: its index reported {r:?}, the layout has kind {} range {:?}", l.column_index, l.column_index_range));
                }
                let want = index_image(p.uid, plan);
                let got = idx.get(r.0 as usize..r.1 as usize);
                if r.1 > m.pos || got != Some(&want[..]) {
                    bad(out, "colindex", format!("{w}: the {} bytes its index wrote are not at {r:?} of the index file", want.len()));
                }
            }
            _ if l.column_index == 2 => bad(out, "colindex", format!("{w} has no index, but its layout has one at {:?}", l.column_index_range)),
            _ => {}
        }
    }
    for l in &m.layouts {
        match l.block_index {
            None => bad(out, "metadata", format!("{what}: no block index layout for {:?}", l.key)),
            Some((0, 0)) => bad(
                out,
                "index",
                format!("[{BLOCK_INDEX_SIG}] {what}: the layout of a column places its block index at 0..0 of the index file"),
            ),
            Some((a, b)) => {
                if a < 12 || b < a || b > m.pos {
                    bad(out, "index", format!("{what}: block index at {a}..{b}, metadata starts at {}", m.pos));
                }
            }
        }
    }
}
fn brief(c: &[decode::MetaCol]) -> Vec<(String, u64, u64, u64, u64)> {
    c.iter().map(|c| (c.name.chars().take(20).collect(), c.column_type, c.nullable, c.encoding, c.index_type)).collect()
}
fn trunc(c: &[(String, u32)]) -> Vec<(String, u32)> {
    c.iter().map(|c| (c.0.chars().take(20).collect(), c.1)).collect()
}
fn pres<T>(x: &Option<T>) -> &'static str {
    if x.is_some() {
        "present"
    } else {
        "missing"
    }
}

/// A block file written by an encoder pipeline.
pub fn check_pipe(p: &Pipe, ob: &SegObs, dat: Option<Bytes>, out: &mut Vec<Viol>) {
    let what = format!("file {}", p.path);
    let Some(dat) = dat else {
        return bad(out, "missing-file", format!("{what} is missing"));
    };
    for c in ob.cols.iter().filter(|c| c.closed) {
        let w = format!("{what}, column {} ({:?}, blocks of {})", c.col, p.cols[c.col].ty, p.block_size);
        check_index(&w, &p.cols[c.col], c, out);
        check_rows(&w, &p.cols[c.col], c, dat, out);
    }
    if dat.len() != ob.data_pos {
        bad(out, "length", format!("{what}: {} bytes, the writer was at {}", dat.len(), ob.data_pos));
    }
}

/// Which kinds of failure contradict which property.
pub fn kinds(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["missing-file", "rows", "readback", "length", "signature", "metadata"],
        "C02" => &["missing-file", "refused", "rows", "readback", "error", "panic", "hang", "abort"],
        "C03" => &["missing-file", "rows", "readback", "length", "signature", "metadata"],
        "C04" => &["error", "rows", "readback", "diff", "read-bytes", "read-err", "batch", "length", "metadata", "panic", "hang", "abort"],
        "C05" => &["read-bytes", "read-ok", "read-err", "panic", "hang", "abort"],
        "C06" => &["batch", "read-bytes", "read-ok", "read-err", "panic", "hang", "abort"],
        "C07" => &["index", "length", "pos"],
        "C08" => &["missing-file", "refused", "rows", "readback", "length", "signature", "metadata", "error", "panic"],
        "C09" => &["missing-file", "refused", "rows", "readback", "length", "signature", "metadata", "error"],
        "C10" => &["missing-file", "refused", "signature", "metadata"],
        "C11" => &["read-bytes", "read-ok", "read-err", "read-len", "panic", "hang", "abort"],
        "C12" => &["hang", "panic", "abort", "bound"],
        "C13" => &["fd-leak", "missing-file", "rows", "readback", "length", "read-bytes", "read-err", "batch", "error", "panic", "hang"],
        "C14" => &["readahead"],
        "C15" => &["raw"],
        "C20" => &["colindex", "metadata", "panic", "hang"],
        "C21" => &["memory"],
        _ => &[],
    }
}

/// Files of a data directory, for comparing two runs of the same plan: index files are decoded,
/// because the order of map entries in the metadata is not fixed.
pub fn snapshot(disk: &crate::disk::Disk) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let paths = [DIR, DIR2].iter().flat_map(|d| disk.list(d).into_iter().map(move |n| format!("{d}/{n}")));
    for path in paths {
        let Some(d) = disk.contents(&path) else { continue };
        let v = if path.ends_with(".idx") {
            match decode::index_file(d) {
                Ok(x) => format!("{} bytes: {x:?}", d.len()),
                Err(e) => format!("{} bytes: {e}", d.len()),
            }
        } else {
            let mut h = 0u64;
            for b in d.iter() {
                h = crate::rng::mix(h ^ *b as u64);
            }
            format!("{} bytes, hash {h:016x}", d.len())
        };
        m.insert(path, v);
    }
    m
}

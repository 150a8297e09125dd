//! Independent decoders of the documented file formats: blocks, validity, footer and metadata.
use crate::plan::Ty;
use bitpacking::{BitPacker, BitPacker4x};

type R<T> = Result<T, String>;

pub fn varint(b: &[u8], at: &mut usize) -> R<u64> {
    let mut v = 0u64;
    let mut shift = 0;
    loop {
        let x = *b.get(*at).ok_or("truncated varint")?;
        *at += 1;
        if shift >= 64 {
            return Err("overlong varint".into());
        }
        v |= ((x & 0x7f) as u64) << shift;
        if x & 0x80 == 0 {
            return Ok(v);
        }
        shift += 7;
    }
}

/// byte-aligned RLE: header len<<1|literal, then `len` literal bytes or one repeated byte
fn rle(b: &[u8], max: usize) -> R<Vec<bool>> {
    let mut at = 0;
    let mut bits = vec![];
    let mut byte = |x: u8, n: usize| -> R<()> {
        if n > max || bits.len() + n * 8 > max {
            return Err(format!("validity of more than {max} bits"));
        }
        for _ in 0..n {
            for k in 0..8 {
                bits.push(x >> k & 1 == 1);
            }
        }
        Ok(())
    };
    while at < b.len() {
        let h = varint(b, &mut at)?;
        let n = (h >> 1) as usize;
        if h & 1 == 1 {
            let lit = b.get(at..at.checked_add(n).ok_or("overflow")?).ok_or("truncated literal")?;
            for x in lit {
                byte(*x, 1)?;
            }
            at += n;
        } else {
            byte(*b.get(at).ok_or("truncated run")?, n)?;
            at += 1;
        }
    }
    Ok(bits)
}

/// A frame without bytes is nothing the encoder writes; more likely two blocks were taken for one.
pub fn empty_frame(b: &[u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let Ok(h) = varint(b, &mut at) else { return false };
        if h >> 1 == 0 {
            return true;
        }
        at += if h & 1 == 1 { (h >> 1) as usize } else { 1 };
    }
    false
}

/// how many bytes and how many set bits the frames stand for, without expanding them
fn rle_size(b: &[u8], max: usize) -> R<(usize, usize)> {
    let (mut at, mut bytes, mut ones) = (0, 0usize, 0usize);
    while at < b.len() {
        let h = varint(b, &mut at)?;
        let n = (h >> 1) as usize;
        if n > max || bytes + n > max {
            return Err(format!("validity of more than {max} bytes"));
        }
        if h & 1 == 1 {
            let lit = b.get(at..at + n).ok_or("truncated literal")?;
            ones += lit.iter().map(|x| x.count_ones() as usize).sum::<usize>();
            at += n;
        } else {
            ones += n * b.get(at).ok_or("truncated run")?.count_ones() as usize;
            at += 1;
        }
        bytes += n;
    }
    Ok((bytes, ones))
}

/// the validity of a block of `rows` rows; `vals` non-null values
fn validity(b: &[u8], rows: usize) -> R<Vec<bool>> {
    let bits = rle(b, rows.div_ceil(8) * 8)?;
    if bits.len() != rows.div_ceil(8) * 8 {
        return Err(format!("validity of {} bits for {rows} rows", bits.len()));
    }
    if bits[rows..].iter().any(|x| *x) {
        return Err("validity bit set beyond the last row".into());
    }
    Ok(bits[..rows].to_vec())
}

pub type Rows = Vec<Option<Vec<u8>>>;

/// Decode one block of `rows` rows. More than one reading may be possible when trailing empty
/// strings make the number of lengths ambiguous: all are returned.
pub fn block(b: &[u8], ty: Ty, nullable: bool, rows: usize) -> R<Vec<(Rows, Vec<u8>)>> {
    let mut at = 0;
    let size = varint(b, &mut at)? as usize;
    let data = b.get(at..at.checked_add(size).ok_or("overflow")?).ok_or_else(|| format!("block data length {size} exceeds the block"))?;
    at += size;
    let w = match ty {
        Ty::Binary => 0,
        Ty::I32 => 4,
        _ => 8,
    };
    if w > 0 {
        if size % w != 0 {
            return Err(format!("data length {size} is not a multiple of {w}"));
        }
        let vals = size / w;
        let rest = &b[at..];
        let valid = if nullable {
            validity(rest, rows)?
        } else {
            if !rest.is_empty() {
                return Err(format!("{} stray bytes after the data", rest.len()));
            }
            vec![true; rows]
        };
        if valid.iter().filter(|x| **x).count() != vals {
            return Err(format!("{vals} values for {} valid of {rows} rows", valid.iter().filter(|x| **x).count()));
        }
        let mut it = data.chunks(w);
        let r = valid.iter().map(|v| if *v { Some(it.next().unwrap().to_vec()) } else { None }).collect();
        return Ok(vec![(r, if nullable { rest.to_vec() } else { vec![] })]);
    }
    let num_bits = *b.get(at).ok_or("no room for the bit width")?;
    at += 1;
    if num_bits > 32 {
        return Err(format!("bit width {num_bits}"));
    }
    let packer = BitPacker4x::new();
    let chunk_bytes = 16 * num_bits as usize;
    let mut out = vec![];
    let mut last_err = String::from("no consistent reading");
    let mut lens: Vec<u32> = vec![];
    for k in 0..=rows.div_ceil(128) {
        let off_len = k * chunk_bytes;
        if at + off_len > b.len() {
            break;
        }
        if k > 0 {
            let mut buf = [0u32; 128];
            packer.decompress(&b[at + (k - 1) * chunk_bytes..at + off_len], &mut buf, num_bits);
            lens.extend_from_slice(&buf);
        }
        let rest = &b[at + off_len..];
        let valid = if nullable {
            // cheaply rule out what cannot be it
            match rle_size(rest, rows.div_ceil(8)) {
                Ok((n, ones)) if n == rows.div_ceil(8) && ones.div_ceil(128) == k => {}
                Ok((n, ones)) => {
                    last_err = format!("validity of {n} bytes with {ones} values for {rows} rows and {} lengths", lens.len());
                    continue;
                }
                Err(e) => {
                    last_err = e;
                    continue;
                }
            }
            match validity(rest, rows) {
                Ok(v) => v,
                Err(e) => {
                    last_err = e;
                    continue;
                }
            }
        } else {
            if !rest.is_empty() {
                last_err = format!("{} stray bytes after the lengths", rest.len());
                continue;
            }
            vec![true; rows]
        };
        let vals = valid.iter().filter(|x| **x).count();
        if vals.div_ceil(128) != k {
            last_err = format!("{k} groups of lengths for {vals} values");
            continue;
        }
        let sum: u64 = lens[..vals].iter().map(|x| *x as u64).sum();
        if sum != size as u64 {
            last_err = format!("lengths add up to {sum}, data has {size} bytes");
            continue;
        }
        let mut p = 0;
        let mut it = lens.iter();
        let r: Rows = valid
            .iter()
            .map(|v| {
                v.then(|| {
                    let n = *it.next().unwrap() as usize;
                    p += n;
                    data[p - n..p].to_vec()
                })
            })
            .collect();
        out.push((r, if nullable { rest.to_vec() } else { vec![] }));
    }
    if out.is_empty() {
        return Err(last_err);
    }
    Ok(out)
}

// ---------------------------------------------------------------- protobuf wire format
#[derive(Clone, Debug, PartialEq)]
pub enum Field {
    Int(u64),
    Bytes(Vec<u8>),
}
pub fn fields(b: &[u8]) -> R<Vec<(u32, Field)>> {
    let mut at = 0;
    let mut v = vec![];
    while at < b.len() {
        let key = varint(b, &mut at)?;
        let n = (key >> 3) as u32;
        match key & 7 {
            0 => v.push((n, Field::Int(varint(b, &mut at)?))),
            2 => {
                let len = varint(b, &mut at)? as usize;
                let x = b.get(at..at.checked_add(len).ok_or("overflow")?).ok_or("truncated field")?;
                at += len;
                v.push((n, Field::Bytes(x.to_vec())));
            }
            t => return Err(format!("unexpected wire type {t}")),
        }
    }
    Ok(v)
}
fn int(f: &[(u32, Field)], n: u32) -> u64 {
    f.iter().rev().find(|x| x.0 == n).map_or(0, |x| if let Field::Int(v) = x.1 { v } else { u64::MAX })
}
fn bytes(f: &[(u32, Field)], n: u32) -> Vec<u8> {
    f.iter().rev().find(|x| x.0 == n).map_or(vec![], |x| if let Field::Bytes(v) = &x.1 { v.clone() } else { b"<int>".to_vec() })
}
fn sub(f: &[(u32, Field)], n: u32) -> R<Option<Vec<(u32, Field)>>> {
    match f.iter().rev().find(|x| x.0 == n) {
        None => Ok(None),
        Some((_, Field::Bytes(b))) => fields(b).map(Some),
        _ => Err(format!("field {n} is not a message")),
    }
}

#[derive(Clone, Debug, PartialEq, Default, Eq, PartialOrd, Ord)]
pub struct MetaCol {
    pub key: String,
    pub name: String,
    pub column_type: u64,
    pub nullable: u64,
    pub encoding: u64,
    pub index_type: u64,
}
#[derive(Clone, Debug, PartialEq, Default, Eq, PartialOrd, Ord)]
pub struct Layout {
    pub key: String,
    /// field number of the encoder layout (4 plain, 6 snappy)
    pub encoder: u32,
    pub column_index: u32,
    pub column_index_range: Option<(u64, u64)>,
    pub block_index: Option<(u64, u64)>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Meta {
    pub id: Vec<u8>,
    pub db: Vec<u8>,
    pub table: Vec<u8>,
    pub shard: u64,
    pub num_rows: u64,
    pub cols: Vec<MetaCol>,
    pub layouts: Vec<Layout>,
    pub pos: u64,
}

/// Decode an index file: signature, footer, metadata.
pub fn index_file(b: &[u8]) -> R<Meta> {
    if !b.starts_with(b"MEERKAT_IDX1") {
        return Err("index signature missing".into());
    }
    if b.len() < 12 + 8 {
        return Err("index file too short".into());
    }
    let pos = u64::from_le_bytes(b[b.len() - 8..].try_into().unwrap());
    let end = b.len() as u64 - 8;
    if pos < 12 || pos > end {
        return Err(format!("footer points to {pos}, metadata must lie in 12..{end}"));
    }
    let top = fields(&b[pos as usize..end as usize]).map_err(|e| format!("metadata does not decode: {e}"))?;
    let sm = sub(&top, 1)?.ok_or("no segment metadata")?;
    let mut m = Meta {
        id: bytes(&sm, 1),
        db: bytes(&sm, 2),
        table: bytes(&sm, 3),
        shard: int(&sm, 4),
        num_rows: int(&sm, 7),
        pos,
        ..Default::default()
    };
    for (n, f) in &sm {
        if let (8, Field::Bytes(e)) = (n, f) {
            let e = fields(e)?;
            let c = sub(&e, 2)?.unwrap_or_default();
            m.cols.push(MetaCol {
                key: String::from_utf8_lossy(&bytes(&e, 1)).into(),
                name: String::from_utf8_lossy(&bytes(&c, 1)).into(),
                column_type: int(&c, 2),
                nullable: int(&c, 3),
                encoding: int(&c, 4),
                index_type: int(&c, 5),
            });
        }
    }
    for (n, f) in &top {
        if let (2, Field::Bytes(e)) = (n, f) {
            let e = fields(e)?;
            let l = sub(&e, 2)?.unwrap_or_default();
            let block_index = match sub(&l, 3)? {
                None => None,
                Some(bi) => {
                    let r = sub(&bi, 1)?.unwrap_or_default();
                    Some((int(&r, 1), int(&r, 2)))
                }
            };
            let column_index_range = match sub(&l, 2)? {
                None => None,
                Some(ci) => {
                    let r = sub(&ci, 1)?.unwrap_or_default();
                    Some((int(&r, 1), int(&r, 2)))
                }
            };
            m.layouts.push(Layout {
                column_index_range,
                key: String::from_utf8_lossy(&bytes(&e, 1)).into(),
                encoder: l.iter().rev().find(|x| (4..=6).contains(&x.0)).map_or(0, |x| x.0),
                column_index: l.iter().rev().find(|x| x.0 == 1 || x.0 == 2).map_or(0, |x| x.0),
                block_index,
            });
        }
    }
    m.cols.sort();
    m.layouts.sort();
    Ok(m)
}

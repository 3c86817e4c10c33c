//! Independent, strict reader and minimal writer for zip archives (no zip64, no encryption).
use std::io::Read;

pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
}

pub fn crc32(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[i as usize] = c;
        }
        t
    });
    let mut c = 0xFFFF_FFFFu32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xFF) as usize] ^ (c >> 8);
    }
    !c
}

fn u16at(b: &[u8], p: usize) -> Result<usize, String> {
    b.get(p..p + 2)
        .map(|s| u16::from_le_bytes([s[0], s[1]]) as usize)
        .ok_or_else(|| "zip: truncated".to_string())
}
fn u32at(b: &[u8], p: usize) -> Result<usize, String> {
    b.get(p..p + 4)
        .map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize)
        .ok_or_else(|| "zip: truncated".to_string())
}

/// Reads all entries in central-directory order, verifying headers, sizes and checksums.
/// Duplicate names are kept (the caller reports them).
pub fn read_zip(b: &[u8]) -> Result<Vec<Entry>, String> {
    if b.len() < 22 {
        return Err(format!("zip: only {} bytes", b.len()));
    }
    let eocd = b.len() - 22;
    if b[eocd..eocd + 4] != [0x50, 0x4b, 5, 6] {
        return Err("zip: no end of central directory at the end of the file".into());
    }
    let n = u16at(b, eocd + 10)?;
    let cd_size = u32at(b, eocd + 12)?;
    let cd_off = u32at(b, eocd + 16)?;
    if cd_off + cd_size != eocd {
        return Err("zip: central directory does not end where it should".into());
    }
    let mut p = cd_off;
    let mut out = Vec::new();
    let mut ranges: Vec<(usize, usize)> = Vec::new();
    for _ in 0..n {
        if b.get(p..p + 4) != Some(&[0x50, 0x4b, 1, 2]) {
            return Err("zip: bad central directory entry".into());
        }
        let flags = u16at(b, p + 8)?;
        let method = u16at(b, p + 10)?;
        let crc = u32at(b, p + 16)? as u32;
        let csize = u32at(b, p + 20)?;
        let usize_ = u32at(b, p + 24)?;
        let nlen = u16at(b, p + 28)?;
        let xlen = u16at(b, p + 30)?;
        let clen = u16at(b, p + 32)?;
        let off = u32at(b, p + 42)?;
        let name = std::str::from_utf8(b.get(p + 46..p + 46 + nlen).ok_or("zip: truncated")?)
            .map_err(|_| "zip: entry name is not utf-8".to_string())?
            .to_string();
        p += 46 + nlen + xlen + clen;
        if flags & 1 != 0 {
            return Err(format!("zip: {name} is encrypted"));
        }
        if b.get(off..off + 4) != Some(&[0x50, 0x4b, 3, 4]) {
            return Err(format!("zip: no local header for {name}"));
        }
        let lmethod = u16at(b, off + 8)?;
        let lnlen = u16at(b, off + 26)?;
        let lxlen = u16at(b, off + 28)?;
        if lmethod != method || b.get(off + 30..off + 30 + lnlen) != Some(name.as_bytes()) {
            return Err(format!("zip: local header of {name} disagrees"));
        }
        let ds = off + 30 + lnlen + lxlen;
        let raw = b.get(ds..ds + csize).ok_or("zip: truncated data")?;
        ranges.push((off, ds + csize));
        let data = match method {
            0 => raw.to_vec(),
            8 => {
                let mut v = Vec::with_capacity(usize_);
                flate2::read::DeflateDecoder::new(raw)
                    .read_to_end(&mut v)
                    .map_err(|e| format!("zip: {name}: {e}"))?;
                v
            }
            m => return Err(format!("zip: {name}: method {m}")),
        };
        if data.len() != usize_ {
            return Err(format!("zip: {name}: size differs"));
        }
        if crc32(&data) != crc {
            return Err(format!("zip: {name}: checksum differs"));
        }
        out.push(Entry { name, data });
    }
    if p != eocd {
        return Err("zip: central directory has extra bytes".into());
    }
    ranges.sort();
    for w in ranges.windows(2) {
        if w[0].1 > w[1].0 {
            return Err("zip: entries overlap".into());
        }
    }
    Ok(out)
}

/// Writes a stored (uncompressed) archive.
pub fn write_zip(entries: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let mut cd: Vec<u8> = Vec::new();
    for (name, data) in entries {
        let off = out.len() as u32;
        let crc = crc32(data);
        let n = data.len() as u32;
        let common = |v: &mut Vec<u8>| {
            v.extend_from_slice(&20u16.to_le_bytes());
            v.extend_from_slice(&0x0800u16.to_le_bytes());
            v.extend_from_slice(&0u16.to_le_bytes());
            v.extend_from_slice(&0u16.to_le_bytes());
            v.extend_from_slice(&0x21u16.to_le_bytes());
            v.extend_from_slice(&crc.to_le_bytes());
            v.extend_from_slice(&n.to_le_bytes());
            v.extend_from_slice(&n.to_le_bytes());
            v.extend_from_slice(&(name.len() as u16).to_le_bytes());
            v.extend_from_slice(&0u16.to_le_bytes());
        };
        out.extend_from_slice(&[0x50, 0x4b, 3, 4]);
        common(&mut out);
        out.extend_from_slice(name.as_bytes());
        out.extend_from_slice(data);
        cd.extend_from_slice(&[0x50, 0x4b, 1, 2]);
        cd.extend_from_slice(&20u16.to_le_bytes());
        common(&mut cd);
        cd.extend_from_slice(&[0u8; 2 + 2 + 2 + 4]);
        cd.extend_from_slice(&off.to_le_bytes());
        cd.extend_from_slice(name.as_bytes());
    }
    let cd_off = out.len() as u32;
    let cd_len = cd.len() as u32;
    out.extend_from_slice(&cd);
    out.extend_from_slice(&[0x50, 0x4b, 5, 6, 0, 0, 0, 0]);
    out.extend_from_slice(&(entries.len() as u16).to_le_bytes());
    out.extend_from_slice(&(entries.len() as u16).to_le_bytes());
    out.extend_from_slice(&cd_len.to_le_bytes());
    out.extend_from_slice(&cd_off.to_le_bytes());
    out.extend_from_slice(&0u16.to_le_bytes());
    out
}

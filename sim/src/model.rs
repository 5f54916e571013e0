//! Reference models, written from the format, sharing no code with the library.

/// What a compressed file carries, taken apart.
#[derive(Debug, PartialEq, Clone)]
pub struct Parts {
    /// the command stream and the literal stream
    pub streams: [Vec<u8>; 2],
    /// bytes of the whole file
    pub len: usize,
    pub frames: usize,
}

pub const HEADER: usize = 16;
pub const TRAILER: usize = 8;

/// Takes the frames after the header apart, up to the end marker.
pub fn frames(b: &[u8]) -> Result<(Parts, usize), String> {
    let mut p = Parts { streams: [Vec::new(), Vec::new()], len: 0, frames: 0 };
    let mut at = 0;
    loop {
        let c = *b.get(at).ok_or("ends between frames")?;
        if c == 0xff {
            if b.get(at..at + 3) != Some(&[0xff, 0xfe, 0xff]) {
                return Err("bad end marker".into());
            }
            p.len = at + 3;
            return Ok((p, at + 3));
        }
        let n;
        if c < 16 {
            let h = b.get(at + 1..at + 3).ok_or("ends in a frame header")?;
            n = 1 + h[0] as usize + ((h[1] as usize) << 8);
            at += 3;
        } else {
            n = match c >> 4 {
                1 => 4096,
                2 => 16384,
                3 => 65536,
                k => return Err(format!("frame of unknown size class {}", k)),
            };
            at += 1;
        }
        let body = b.get(at..at + n).ok_or("ends in a frame")?;
        p.streams[(c & 1) as usize].extend_from_slice(body);
        p.frames += 1;
        at += n;
    }
}

/// Takes a whole file apart and checks its trailer.
pub fn file(b: &[u8]) -> Result<Parts, String> {
    if b.len() < HEADER + TRAILER {
        return Err("too short".into());
    }
    if b[..4] != [0xff, 0xe5, 0x8c, 0x9f] {
        return Err("bad magic number".into());
    }
    let (mut p, n) = frames(&b[HEADER..])?;
    let end = HEADER + n;
    let t = b.get(end..end + TRAILER).ok_or("ends in the trailer")?;
    let crc = crc32c(&b[..end]);
    if t[..4] != crc.to_le_bytes() || &t[4..] != b"ans~" {
        return Err("bad trailer".into());
    }
    p.len = end + TRAILER;
    Ok(p)
}

/// CRC-32C, bit by bit.
pub fn crc32c(b: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = !0u32;
    for x in b {
        c = (c >> 8) ^ t[((c ^ *x as u32) & 255) as usize];
    }
    !c
}

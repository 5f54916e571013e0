//! The multithreaded decoder.
use super::*;

// C01: the multithreaded decoder gives what the serial one gives
pub fn c01() -> Res<()> {
    let val = valid(30_000, true)?;
    let f = front();
    let mut bytes = val.bytes.clone();
    let damaged = choice::chance(F, 1, 4);
    if damaged {
        hostile::or_damage(&mut bytes)?;
    }
    let s = Slicing::draw().tame(val.data.len());
    let limit = if damaged { 200_000 } else { RUNAWAY };
    let o = decode(f, false, true, 10, &bytes, &s, limit)?;
    if !damaged {
        expect_data("multithreaded decoder", &o, &val.data, bytes.len())?;
    } else {
        let serial = decode(f, false, false, 100, &bytes, &Slicing::whole(1 << 16), limit)?;
        match (&o.end, &serial.end) {
            (End::Enough, _) | (_, End::Enough) => {},
            (End::Done(a), End::Done(b)) => if a != b || o.out != serial.out {
                return v("differs", format!("damaged stream: multithreaded ends at {}, serial at {}; {}", a, b, diff(&o.out, &serial.out)));
            },
            (End::Done(_), x) => return v("differs", format!("damaged stream: multithreaded succeeds, serial {:?}", x)),
            (x, End::Done(_)) => return v("differs", format!("damaged stream: serial succeeds, multithreaded {:?}", x)),
            _ => {
                let n = o.out.len().min(serial.out.len());
                if o.out[..n] != serial.out[..n] {
                    return v("differs", format!("damaged stream: different bytes before the failure: {}", diff(&o.out, &serial.out)));
                }
            },
        }
    }
    note::nontrivial();
    Ok(())
}
// C02: the multithreaded decoder always comes to an end
pub fn c02() -> Res<()> {
    let val = valid(12_000, true)?;
    let mut bytes = val.bytes.clone();
    hostile::or_damage(&mut bytes)?;
    let f = front();
    let ca = calloc_for(f);
    let skip = choice::chance(P, 1, 3);
    let s = Slicing::draw().tame(val.data.len());
    let mut d = entry::dec(f, skip, true, 10, ca);
    let _ = decompress_with(&mut *d, &bytes, &s, 1 << 22)?;
    d.free();
    note::nontrivial();
    Ok(())
}
// C03: giving up at any point
pub fn c03() -> Res<()> {
    let val = valid(12_000, true)?;
    let mut bytes = val.bytes.clone();
    if choice::chance(F, 1, 5) {
        hostile::or_damage(&mut bytes)?;
    }
    let f = front();
    let ca = calloc_for(f);
    let s = Slicing::draw().tame(val.data.len());
    let mut d = entry::dec(f, false, true, 10, ca);
    let max = choice::size(F, 0, 300);
    let _ = decompress_cb(&mut *d, &bytes, &s, RUNAWAY, max, &mut || {})?;
    d.free();
    if let Some(w) = sched::quiesce() {
        return v("worker-left", w);
    }
    let l = alloc::take();
    if !l.outstanding().is_empty() || !l.wrong.is_empty() || !l.dropped.is_empty() {
        return v("memory", format!("{:?} {:?} {:?}", l.outstanding(), l.wrong, l.dropped));
    }
    note::nontrivial();
    Ok(())
}

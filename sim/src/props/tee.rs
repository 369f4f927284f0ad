//! C19: the tee to standard output.
use super::*;
use crate::io::*;
use crate::sys::OutPlan;
use crate::{check, vio};
use multipart::mock::StdoutTee;
use std::io::{ErrorKind, IoSlice, Write};

fn take() -> OutPlan {
    with(|s| s.fs.out.take()).unwrap_or_default()
}

pub fn c19(_: &Arc<Ctx>) {
    let stdout = std::io::stdout();
    let (w, h) = sink();
    lk(&h).draw_soft();
    let total = draw(if draw(4) == 0 { 20_000 } else { 300 }) as usize;
    let mut r = Rng::new(draw(1 << 12) as u64);
    let data: Vec<u8> = (0..total).map(|_| b"abcdefgh\n\r-"[r.below(11) as usize]).collect();
    let mut out = OutPlan { short: pick(&[0u32, 0, 2]), eintr: pick(&[0u32, 0, 3]), ..OutPlan::default() };
    let hard = draw(4);
    match hard {
        1 => out.fail_at = Some((draw(total as u32 + 1) as usize, pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN]))),
        2 => {
            let k = pick(&super::read::KINDS[1..]);
            lk(&h).fail = Some((draw(total as u32 + 1) as usize, if draw(4) == 0 { WBad::Zero } else { WBad::Err(k) }, u32::MAX));
        }
        3 => lk(&h).flush_fail = Some((1 + draw(2) as u64, pick(&super::read::KINDS[1..]))),
        _ => {}
    }
    with(|s| s.fs.out = Some(out));
    sample(|| format!("{} bytes, {:?}, {:?}", total, with(|s| s.fs.out.clone()), lk(&h)));
    let by = draw(5);
    let mut acc = 0usize;
    let mut err = None;
    {
        let mut tee = StdoutTee::new(w, &stdout);
        let mut left = 300;
        let r = (|| -> std::io::Result<()> {
            match by {
                0 => {
                    // write_all in pieces
                    while acc < total {
                        let n = (1 + draw(5000) as usize).min(total - acc);
                        let n = if left == 0 { total - acc } else { n };
                        left -= 1.min(left);
                        tee.write_all(&data[acc..acc + n])?;
                        acc += n;
                        if draw(4) == 3 {
                            tee.flush()?;
                        }
                    }
                }
                1 | 3 => {
                    // single writes, the caller goes on after what was accepted
                    let mut idle = 0;
                    while acc < total {
                        let n = (1 + draw(5000) as usize).min(total - acc);
                        let n = if left == 0 { total - acc } else { n };
                        left -= 1.min(left);
                        let r = if by == 3 {
                            let m = n / 2;
                            tee.write_vectored(&[IoSlice::new(&[]), IoSlice::new(&data[acc..acc + m]), IoSlice::new(&data[acc + m..acc + n])])
                        } else {
                            tee.write(&data[acc..acc + n])
                        };
                        match r {
                            Ok(0) => {
                                idle += 1;
                                if idle > 20 {
                                    return Err(ErrorKind::WriteZero.into());
                                }
                            }
                            Ok(k) => {
                                check!(k <= n, "C19/count", "{} of {} bytes accepted", k, n);
                                acc += k;
                            }
                            Err(e) if e.kind() == ErrorKind::Interrupted => {}
                            Err(e) => return Err(e),
                        }
                    }
                }
                4 => {
                    probe("copied");
                    std::io::copy(&mut &data[..], &mut tee)?;
                    acc = total;
                }
                _ => {
                    tee.write_all(&data)?;
                    acc = total;
                }
            }
            Ok(())
        })();
        let f = match r {
            Ok(()) => tee.flush(),
            e => e,
        };
        if let Err(e) = f {
            err = Some(e);
        }
    }
    // whatever is left in the process's line buffer
    let clean = with(|s| {
        let o = s.fs.out.as_mut().unwrap();
        let failed = o.failed;
        o.fail_at = None;
        o.short = 0;
        o.eintr = 0;
        failed == 0
    });
    let _ = std::io::stdout().lock().flush();
    let o = take();
    let inner = lk(&h);
    let inner_ok = inner.fails == 0;
    match &err {
        None => {
            check!(clean && inner_ok, "C19/hidden", "writing succeeded although {} failed", if clean { "the inner writer" } else { "standard output" });
            check!(inner.buf == data, "C19/inner", "inner writer: {}", diff(&inner.buf, &data));
            check!(o.buf == data, "C19/stdout", "standard output: {}", diff(&o.buf, &data));
            check!(inner.flushes > 0, "C19/flush", "flush did not reach the inner writer");
            probe("complete");
        }
        Some(e) => {
            if clean && inner_ok {
                vio!("C19/invented", "writing failed with {:?} although neither side did", e);
            }
            check!(e.kind() != ErrorKind::Interrupted, "C19/interrupted", "an interruption was reported by write_all or flush");
            check!(data.starts_with(&inner.buf) || inner.buf.len() > total, "C19/inner", "inner writer: {}", diff(&inner.buf, &data));
            check!(inner.buf.len() <= total, "C19/inner", "inner writer got {} of {} bytes", inner.buf.len(), total);
            // up to the failure both got the same
            let n = o.buf.len().min(inner.buf.len());
            check!(o.buf[..n] == inner.buf[..n], "C19/stdout", "standard output: {}", diff(&o.buf, &inner.buf));
            probe("failed");
        }
    }
}

//! Reads cases from standard input and writes each one's outcome and pixels
//! to standard output. Run on other targets (under Miri), its answers are
//! compared with the native ones.
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut all = vec![];
    std::io::stdin().read_to_end(&mut all).expect("cases");
    let mut at = 0;
    let stdout = std::io::stdout();
    while at + 32 <= all.len() {
        let f: Vec<u32> = (0..8)
            .map(|i| u32::from_le_bytes([all[at + 4 * i], all[at + 4 * i + 1], all[at + 4 * i + 2], all[at + 4 * i + 3]]))
            .collect();
        at += 32;
        let n = f[7] as usize;
        let data = &all[at..at + n];
        at += n;
        let mut img = vec![0xdead_beefu32; f[6] as usize];
        let r = t2d_shim::call(f[0], f[1] != 0, f[2] as usize, f[3] as usize, data, f[4] as usize, f[5] as usize, &mut img);
        let mut out: Vec<u8> = Vec::with_capacity(1 + 4 * img.len());
        out.push(r as u8);
        for p in img {
            out.extend_from_slice(&p.to_le_bytes());
        }
        // one by one, so that a case that ends the process is known
        let mut l = stdout.lock();
        l.write_all(&out).and_then(|_| l.flush()).expect("answers");
    }
}

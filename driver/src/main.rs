//! `driver FILE`: runs every script in FILE (u32 length, bytes), by the Rust and the C interface in turn; for Miri.
//! With a fourth argument the transcripts go to that file (u32 length, bytes).
//! With `threads` as the fourth, every three scripts run in three threads at once, which then read one position together.
//! Progress goes to standard output: the index of each script begun.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&a[1]).unwrap();
    let (first, last) = (a.get(2).map_or(0, |s| s.parse().unwrap()), a.get(3).map_or(usize::MAX, |s| s.parse().unwrap()));
    if a.get(4).is_some_and(|m| m == "threads") {
        return threads(&data, first, last);
    }
    let mut out = a.get(4).map(|_| Vec::new());
    let (mut i, mut k) = (0, 0);
    while i < data.len() {
        let n = u32::from_le_bytes(data[i..i + 4].try_into().unwrap()) as usize;
        let s = &data[i + 4..i + 4 + n];
        i += 4 + n;
        if k >= first && k < last {
            println!("script {k}");
            // one of the two interfaces each
            let (t, bad) = driver::run_checked(s, &[], k % 2 == 1);
            if let Some(m) = bad {
                println!("invalid {k} op {m}");
                std::process::exit(3);
            }
            if let Some(o) = out.as_mut() {
                o.extend_from_slice(&(t.len() as u32).to_le_bytes());
                o.extend_from_slice(&t);
            }
        }
        k += 1;
    }
    if let Some(o) = out {
        std::fs::write(&a[4], o).unwrap();
    }
    println!("done {k}");
}

struct Shared<T>(T);
// whether the types may be shared is judged elsewhere
unsafe impl<T> Sync for Shared<T> {}

fn threads(data: &[u8], first: usize, last: usize) {
    use shogi_core::*;
    let mut scripts = vec![];
    let mut i = 0;
    while i < data.len() {
        let n = u32::from_le_bytes(data[i..i + 4].try_into().unwrap()) as usize;
        scripts.push(&data[i + 4..i + 4 + n]);
        i += 4 + n;
    }
    for k in first..last.min(scripts.len()) {
        println!("script {k}");
        let three: Vec<&[u8]> = (0..3).map(|j| scripts[(k + j) % scripts.len()]).collect();
        let alone: Vec<Vec<u8>> = three.iter().enumerate().map(|(j, s)| driver::run(s, &[], j == 1)).collect();
        let together: Vec<Vec<u8>> = std::thread::scope(|sc| {
            let h: Vec<_> = three.iter().enumerate().map(|(j, s)| sc.spawn(move || driver::run(s, &[], j == 1))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if alone != together {
            println!("invalid {k} op 0: another transcript beside other threads than alone");
            std::process::exit(3);
        }
        // one position for all
        let mut p = PartialPosition::startpos();
        for c in three[0].chunks_exact(8).take(12) {
            let s = Square::from_u8(c[1] % 81 + 1).unwrap();
            p.piece_set(s, if c[3] % 29 == 28 { None } else { Some(driver::piece(c[3])) });
        }
        let mut q = Position::arbitrary_position(p.clone());
        for c in three[0].chunks_exact(8).take(40) {
            let (from, to) = (Square::from_u8(c[1] % 81 + 1).unwrap(), Square::from_u8(c[2] % 81 + 1).unwrap());
            let _ = q.make_move(Move::Normal { from, to, promote: false });
        }
        let both = Shared((p, q));
        let want = [driver::read_all(&both.0 .1, &both.0 .0, false, true), driver::read_all(&both.0 .1, &both.0 .0, true, true)];
        let both = &both;
        let got: Vec<Vec<u8>> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..2)
                .map(|j| {
                    sc.spawn(move || {
                        let both: &Shared<_> = both;
                        driver::read_all(&both.0 .1, &both.0 .0, j == 1, true)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if got[0] != want[0] || got[1] != want[1] {
            println!("invalid {k} op 0: a position read by several threads at once reads otherwise than by one");
            std::process::exit(3);
        }
    }
    println!("done {}", scripts.len());
}

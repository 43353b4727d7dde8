//! C05: LazyString runs its initialiser once and gives every reader the same text.
use crate::Scn;
use std::sync::Arc;
use trading_engine::LazyString;
use vsched::{check, thread, Tracked};

fn share(threads: usize, reads: usize, by_json: bool) {
    let calls = Arc::new(vsched::sync::AtomicUsize::new(0));
    let side = Arc::new(Tracked::new(0u32));
    let (c, s) = (calls.clone(), side.clone());
    let l = Arc::new(LazyString::new(move || {
        let n = c.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        s.with_mut(|x| *x += 1);
        thread::yield_now(); // a slow initialiser
        format!("text {n}")
    }));
    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let (l, side) = (l.clone(), side.clone());
            thread::spawn(move || {
                (0..reads)
                    .map(|_| {
                        let t = if by_json && k == 0 { serde_json::to_string(&*l).unwrap().trim_matches('"').to_string() } else { l.as_str().to_string() };
                        // whoever has the text is ordered after the initialiser
                        check(side.with(|x| *x) == 1, "once", || "the initialiser ran more than once".into());
                        (t, l.as_ptr() as usize)
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        all.extend(h.join().unwrap_or_else(|e| vsched::fail("panic", format!("{:?}", e.downcast_ref::<String>()))));
    }
    let p = l.as_ptr() as usize;
    check(all.iter().all(|t| t.0 == "text 0" && t.1 == p), "text", || format!("readers saw {all:?}"));
    check(calls.load(std::sync::atomic::Ordering::SeqCst) == 1, "once", || "the initialiser did not run exactly once".into());
    vsched::outcome(format!("{threads} readers, one text"));
}

fn unread() {
    let calls = Arc::new(vsched::sync::AtomicUsize::new(0));
    let c = calls.clone();
    let l = LazyString::new(move || {
        c.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        "é\"x\n".to_string()
    });
    check(calls.load(std::sync::atomic::Ordering::SeqCst) == 0, "lazy", || "the initialiser ran before anyone read".into());
    let j = serde_json::to_string(&l).unwrap();
    check(j == serde_json::to_string("é\"x\n").unwrap(), "json", || j.clone());
    let back: LazyString = serde_json::from_str(&j).unwrap();
    check(*back == "é\"x\n", "json", || "text changed by serialization".into());
    check(*back == *l, "json", || "text changed by serialization".into());
    check(calls.load(std::sync::atomic::Ordering::SeqCst) == 1, "once", || "the initialiser ran again".into());
    vsched::outcome("serialized".into());
}

pub fn scenarios(thorough: bool) -> Vec<Scn> {
    let mut v = vec![Scn::new("unread", Some(0), unread)];
    for (t, r) in if thorough { vec![(2, 1), (2, 2), (3, 1), (3, 2), (4, 1)] } else { vec![(2, 1), (2, 2), (3, 1)] } {
        for j in [false, true] {
            v.push(Scn::new(format!("{t} readers x{r} json {j}"), None, move || share(t, r, j)));
        }
    }
    v
}

//! C01: one producer hands data to workers through DataSpinQueue.
use crate::Scn;
use std::sync::Arc;
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};
use vsched::{check, thread, Tracked};

#[derive(Debug, Clone, Default)]
struct Data {
    a: Tracked<u64>,
    b: Tracked<u64>,
}

fn read(p: *const Data) -> (u64, u64) {
    unsafe { ((*p).a.with(|x| *x), (*p).b.with(|x| *x)) }
}

/// `slow`: index of a worker that never reports its work as done.
fn hand_off(ids: &[u16], rounds: u64, slow: Option<usize>, peek: bool, twice: bool) {
    let w: Vec<WorkerId> = ids.iter().map(|&i| WorkerId::new(i).unwrap()).collect();
    let q = Arc::new(DataSpinQueue::new(Data::default(), w.clone()).unwrap());
    let mut hs = vec![];
    for (k, id) in w.iter().cloned().enumerate() {
        let q = q.clone();
        let rounds = if slow.is_some() { 1 } else { rounds };
        hs.push(thread::spawn(move || {
            let mut got = vec![];
            while (got.len() as u64) < rounds {
                vsched::await_point();
                if peek && !q.ready_to_work(&id) {
                    continue;
                }
                match q.get(&id) {
                    Some(p) => {
                        let v = read(p);
                        check(v.1 == v.0 * 10, "torn", || format!("worker {k} saw a half-written update {v:?}"));
                        got.push(v.0);
                        if slow == Some(k) {
                            return got;
                        }
                        q.work_done(&id);
                        // a second report of the last update clears nobody's bit either
                        if twice && got.len() as u64 == rounds {
                            q.work_done(&id);
                        }
                    }
                    None => {
                        check(!peek, "lost", || format!("worker {k} was told there is work but got none"));
                    }
                }
            }
            got
        }));
    }
    let write = |r: u64| match q.get_mut() {
        Some(p) => {
            unsafe {
                (*p).a.with_mut(|x| *x = r);
                (*p).b.with_mut(|x| *x = 10 * r);
            }
            q.notify_all_workers();
            true
        }
        None => false,
    };
    let last = if slow.is_some() { 1 } else { rounds };
    for r in 1..=last {
        loop {
            vsched::await_point();
            if write(r) {
                break;
            }
        }
    }
    let want: Vec<u64> = (1..=last).collect();
    for (k, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(got) => check(got == want, "updates", || format!("worker {k} saw updates {got:?} instead of {want:?}")),
            Err(e) => vsched::fail("panic", format!("worker {k} panicked: {:?}", e.downcast_ref::<String>())),
        }
    }
    match slow {
        None => {
            check(q.get_mut().is_some() && q.ready_to_update(), "idle", || "all workers are done but the producer is not let in".into());
            for (k, id) in w.iter().enumerate() {
                check(q.get(id).is_none() && !q.ready_to_work(id), "idle", || format!("worker {k} is given an update twice"));
            }
        }
        Some(s) => {
            check(q.get_mut().is_none() && !q.ready_to_update(), "overwrite", || format!("worker {s} still works but the producer is let in"));
            check(q.get(&w[s]).is_some(), "lost", || format!("worker {s} lost its update"));
        }
    }
    vsched::outcome(format!("{} workers, {} updates: all seen", ids.len(), last));
}

fn sequential() {
    for id in 0..=40u16 {
        let w = WorkerId::new(id);
        check(w.is_ok() == (id <= 15), "bound", || format!("WorkerId::new({id}) is {w:?}"));
        if let Ok(w) = w {
            check(w.id == id && w.id_bit == 1 << id && w.work_done_mask() == !(1u16 << id), "mask", || format!("{w:?}"));
        }
    }
    // every pair and triple: duplicates are refused, and a round of hand-off touches exactly the registered workers
    for a in 0..16u16 {
        for b in 0..16u16 {
            for c in 0..16u16 {
                let w: Vec<WorkerId> = [a, b, c].iter().map(|&i| WorkerId::new(i).unwrap()).collect();
                let q = DataSpinQueue::new(7u64, w.clone());
                let dup = a == b || b == c || a == c;
                check(q.is_err() == dup, "duplicates", || format!("workers {a},{b},{c}: {:?}", q.is_err()));
                let Ok(q) = q else { continue };
                check(q.ready_to_update(), "new", || "a new queue has work in it".into());
                let p = q.get_mut().unwrap();
                check(unsafe { *p } == 7, "new", || "initial data lost".into());
                unsafe { *p = 8 };
                q.notify_all_workers();
                let mut left: Vec<u16> = vec![a, b, c];
                for k in 0..4 {
                    for i in 0..16u16 {
                        let id = WorkerId::new(i).unwrap();
                        let want = left.contains(&i);
                        let got = q.get(&id).map(|p| unsafe { *p });
                        check(q.ready_to_work(&id) == want && got == want.then_some(8), "bits", || format!("workers {a},{b},{c}, {k} done: worker {i} gets {got:?}"));
                    }
                    check(q.ready_to_update() == left.is_empty() && q.get_mut().is_some() == left.is_empty(), "bits", || format!("workers {a},{b},{c}, {k} done"));
                    // a report of someone without work clears nothing
                    for i in (0..16u16).filter(|i| !left.contains(i)) {
                        q.work_done(&WorkerId::new(i).unwrap());
                    }
                    for &i in &left {
                        check(q.ready_to_work(&WorkerId::new(i).unwrap()), "bits", || format!("workers {a},{b},{c}, {k} done: a report without work took worker {i}'s update"));
                    }
                    check(q.ready_to_update() == left.is_empty(), "bits", || format!("workers {a},{b},{c}, {k} done, then reports without work"));
                    if let Some(i) = left.pop() {
                        q.work_done(&WorkerId::new(i).unwrap());
                    }
                }
            }
        }
    }
    vsched::outcome("worker ids and duplicates".into());
}

fn defaults() {
    // a default queue owns default data, gives it to the producer, and can be dropped
    let q: DataSpinQueue<Vec<String>> = DataSpinQueue::default();
    check(q.ready_to_update(), "default", || "a default queue has work in it".into());
    let p = q.get_mut().unwrap();
    check(!p.is_null(), "default", || "a default queue hands out a null pointer".into());
    unsafe { (*p).push("x".into()) };
    drop(q);
    let none: DataSpinQueue<Vec<String>> = DataSpinQueue::new(vec!["a".into()], vec![]).unwrap();
    none.notify_all_workers();
    check(none.ready_to_update(), "none", || "without workers the producer waits for nobody".into());
    vsched::outcome("default queue".into());
}

pub fn scenarios(thorough: bool) -> Vec<Scn> {
    let mut v = vec![Scn::new("ids and duplicates", Some(0), sequential), Scn::new("default", Some(0), defaults)];
    let mut add = |ids: &'static [u16], rounds: u64, bound: Option<u32>, peek: bool| {
        v.push(Scn::new(format!("workers {ids:?} rounds {rounds} peek {peek}"), bound, move || hand_off(ids, rounds, None, peek, false)));
    };
    for peek in [false, true] {
        add(&[0], 1, None, peek);
        add(&[15], 2, None, peek);
        add(&[7], 4, None, peek);
        add(&[0, 1], 1, None, peek);
        add(&[3, 15], 2, None, peek);
        add(&[0, 7], 3, None, peek);
        add(&[0, 1, 2], 1, None, peek);
        if !peek || thorough {
            add(&[2, 9], 4, None, peek);
            add(&[1, 8, 15], 2, None, peek);
            add(&[0, 5, 10, 15], 1, None, peek);
        }
    }
    if thorough {
        add(&[0, 15], 6, None, false);
        add(&[0, 1, 2], 3, None, false);
        add(&[0, 3, 6, 9, 12], 1, None, false);
        add(&[1, 5, 9, 13], 2, Some(2), false);
    }
    for s in 0..2 {
        v.push(Scn::new(format!("slow worker {s}"), None, move || hand_off(&[4, 9], 2, Some(s), false, true)));
    }
    v.push(Scn::new("two reports of the last update", None, || hand_off(&[0, 7], 2, None, false, true)));
    v.push(Scn::new("two reports of the only update", None, || hand_off(&[0, 1, 2], 1, None, false, true)));
    v
}

//! T10: UDP messages arrive whole.
use std::net::{SocketAddr, UdpSocket};
use trading_engine::communication::udp_client::UdpClient;
use vcommon::Ctx;

/// Text of exactly n bytes; `kind` selects what it is made of.
fn text(n: usize, kind: usize) -> String {
    match kind {
        0 => (0..n).map(|i| (b'!' + (i % 90) as u8) as char).collect(),
        _ => {
            // multi-byte characters, shifted so that every length cuts between them somewhere
            let mut s = "x".repeat(n % 3);
            while s.len() < n {
                s.push('한');
            }
            s
        }
    }
}

pub fn t10(ctx: &Ctx) {
    let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
    let peer = UdpSocket::bind(any).expect("bind");
    peer.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
    let client = match UdpClient::new(any) {
        Ok(c) => c,
        Err(e) => return ctx.violation("new", format!("UdpClient::new: {e}")),
    };
    // the client's port is known to whoever it writes to
    if let Err(e) = client.send_message(peer.local_addr().unwrap(), "hello") {
        return ctx.violation("hello", format!("{e}"));
    }
    let mut buf = vec![0u8; 70_000];
    let Ok((n, client_addr)) = peer.recv_from(&mut buf) else {
        return ctx.violation("hello", "the first message did not arrive");
    };
    if &buf[..n] != b"hello" {
        return ctx.violation("hello", format!("{:?} arrived", &buf[..n]));
    }
    const MAX: usize = 65_507;
    let mut lens: Vec<usize> = if ctx.thorough() { (0..=MAX).collect() } else { (0..=4_200).chain((4_200..=MAX).step_by(61)).collect() };
    lens.push(MAX);
    for n in lens {
        for kind in 0..2 {
            if ctx.stopped() {
                return;
            }
            let t = text(n, kind);
            let key = format!("{n} bytes, kind {kind}");
            ctx.run(
                || key.clone(),
                || {
                    // out
                    if let Err(e) = client.send_message(peer.local_addr().unwrap(), &t) {
                        return ctx.violation(&key, format!("send: {e}"));
                    }
                    match peer.recv_from(&mut buf) {
                        Ok((m, from)) if from == client_addr && &buf[..m] == t.as_bytes() => {}
                        r => ctx.violation(&key, format!("sent {n} bytes, peer got {:?}", r.map(|x| x.0))),
                    }
                    // and back
                    peer.send_to(t.as_bytes(), client_addr).expect("loopback");
                    match client.receive_response() {
                        Ok(r) if r == t => {}
                        Ok(r) => ctx.violation(&key, format!("{n} bytes were sent to the client, it reports {} bytes", r.len())),
                        Err(e) => ctx.violation(&key, format!("receive: {e}")),
                    }
                },
            );
            ctx.cases(2);
        }
    }
    // every character, alone, first, last and in the middle
    let chars = (0..=0x24fu32).chain([0x300, 0x2028, 0xd55c, 0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff]).filter_map(char::from_u32);
    for c in chars {
        if ctx.stopped() {
            return;
        }
        for t in [format!("{c}"), format!("x{c}"), format!("{c}x"), format!("x{c}x"), format!("{c}{c}x{c}{c}")] {
            ctx.cases(2);
            let key = format!("{t:?}");
            ctx.run(
                || key.clone(),
                || {
                    if let Err(e) = client.send_message(peer.local_addr().unwrap(), &t) {
                        return ctx.violation(&key, format!("send: {e}"));
                    }
                    match peer.recv_from(&mut buf) {
                        Ok((m, from)) if from == client_addr && &buf[..m] == t.as_bytes() => {}
                        r => ctx.violation(&key, format!("sent {key}, peer got {:?}", r.map(|x| buf[..x.0].to_vec()))),
                    }
                    peer.send_to(t.as_bytes(), client_addr).expect("loopback");
                    match client.receive_response() {
                        Ok(r) if r == t => {}
                        r => ctx.violation(&key, format!("{key} was sent to the client, it reports {r:?}")),
                    }
                },
            );
        }
    }
    // queued messages stay separate and in order, to and from two peers
    let other = UdpSocket::bind(any).expect("bind");
    other.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
    let peers = [&peer, &other];
    let lens = [0usize, 1, 2, 1024, 20_000];
    for n in 2..=3usize {
        vcommon::product(&vec![lens.len() * 2; n], |ix| {
            if ctx.stopped() {
                return;
            }
            ctx.case();
            let msgs: Vec<(usize, String)> = ix.iter().enumerate().map(|(k, i)| (i % 2, text(lens[i / 2], k % 2))).collect();
            let key = || format!("lengths and peers {:?}", msgs.iter().map(|m| (m.1.len(), m.0)).collect::<Vec<_>>());
            ctx.run(key, || {
                for (p, t) in &msgs {
                    if let Err(e) = client.send_message(peers[*p].local_addr().unwrap(), t) {
                        return ctx.violation(&key(), format!("send: {e}"));
                    }
                }
                for q in 0..2 {
                    for (_, t) in msgs.iter().filter(|m| m.0 == q) {
                        match peers[q].recv_from(&mut buf) {
                            Ok((m, from)) if from == client_addr && &buf[..m] == t.as_bytes() => {}
                            r => return ctx.violation(&key(), format!("sent {} bytes, peer {q} got {:?}", t.len(), r.map(|x| x.0))),
                        }
                    }
                }
                for (p, t) in &msgs {
                    peers[*p].send_to(t.as_bytes(), client_addr).unwrap();
                }
                for (_, t) in &msgs {
                    match client.receive_response() {
                        Ok(r) if &r == t => {}
                        Ok(r) => return ctx.violation(&key(), format!("{} bytes sent to the client, {} reported", t.len(), r.len())),
                        Err(e) => return ctx.violation(&key(), format!("receive: {e}")),
                    }
                }
            });
        });
    }
    ctx.outcome("messages of every length delivered whole");
    ctx.assume("the loopback interface delivers a single datagram in flight");
}

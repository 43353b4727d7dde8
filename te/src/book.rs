//! T01 matching, T02 structural consistency, T03 snapshot synchronisation of the order book.
use crate::util::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Mutex;
use trading_engine::data::order::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::orderbook::half_book::HalfBook;
use trading_engine::orderbook::level::Level;
use trading_engine::orderbook::OrderBook;
use trading_engine::types::base::{LevelSnapshot, TradeHistory};
use trading_engine::types::enums::OrderSide;
use vcommon::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Limit(OrderSide, i64, u64),
    Add(OrderSide, i64, u64),
    Market(OrderSide, u64),
    Cancel(u64),
    Modify(u64, i64, u64),
    ChangeQty(u64, u64),
    ChangePrice(u64, i64),
    Remove(OrderSide, i64, u64),
    Snapshot(Vec<(i64, u64)>, Vec<(i64, u64)>, bool),
    Decompose(Vec<(i64, u64)>, Vec<(i64, u64)>),
    WrongId,
    Clear(OrderSide),
    /// empty the side and start it again from one order
    Restart(OrderSide, i64, u64),
}

/// The boring reference: per side a price-sorted map of FIFO queues.
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Side(pub BTreeMap<i64, Vec<(u64, u64)>>);

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Ref {
    pub asks: Side,
    pub bids: Side,
}

type Trades = Option<(Vec<(i64, u64)>, u64)>;

impl Side {
    fn total(&self) -> u64 {
        self.0.values().flatten().map(|o| o.1).sum()
    }
    fn take(&mut self, prices: Vec<i64>, mut qty: u64) -> (Vec<(i64, u64)>, u64) {
        let mut hist = vec![];
        for p in prices {
            if qty == 0 {
                break;
            }
            let q = self.0.get_mut(&p).unwrap();
            let before = qty;
            while qty > 0 && !q.is_empty() {
                if q[0].1 > qty {
                    q[0].1 -= qty;
                    qty = 0;
                } else {
                    qty -= q[0].1;
                    q.remove(0);
                }
            }
            if q.is_empty() {
                self.0.remove(&p);
            }
            hist.push((p, before - qty));
        }
        (hist, qty)
    }
    fn add(&mut self, id: u64, p: i64, q: u64) {
        self.0.entry(p).or_default().push((id, q));
    }
    fn find(&self, id: u64) -> Option<(i64, u64)> {
        self.0.iter().find_map(|(p, v)| v.iter().find(|o| o.0 == id).map(|o| (*p, o.1)))
    }
    fn cancel(&mut self, id: u64) -> Option<u64> {
        let (p, q) = self.find(id)?;
        let v = self.0.get_mut(&p).unwrap();
        v.retain(|o| o.0 != id);
        if v.is_empty() {
            self.0.remove(&p);
        }
        Some(q)
    }
    fn orders(&self) -> usize {
        self.0.values().map(|v| v.len()).sum()
    }
    fn levels(&self) -> Vec<(i64, u64)> {
        self.0.iter().map(|(p, v)| (*p, v.iter().map(|o| o.1).sum())).collect()
    }
}

impl Ref {
    pub fn side(&mut self, s: OrderSide) -> &mut Side {
        if s == OrderSide::Ask { &mut self.asks } else { &mut self.bids }
    }
    pub fn side_of(&self, id: u64) -> Option<OrderSide> {
        if self.asks.find(id).is_some() {
            Some(OrderSide::Ask)
        } else if self.bids.find(id).is_some() {
            Some(OrderSide::Bid)
        } else {
            None
        }
    }
    fn best_ask(&self) -> Option<i64> {
        self.asks.0.keys().next().copied()
    }
    fn best_bid(&self) -> Option<i64> {
        self.bids.0.keys().next_back().copied()
    }
    fn market(&mut self, s: OrderSide, q: u64) -> Trades {
        match s {
            OrderSide::Bid => {
                if self.asks.0.is_empty() {
                    return None;
                }
                let ps = self.asks.0.keys().copied().collect();
                Some(self.asks.take(ps, q))
            }
            _ => {
                if self.bids.0.is_empty() {
                    return None;
                }
                let ps = self.bids.0.keys().rev().copied().collect();
                Some(self.bids.take(ps, q))
            }
        }
    }
    pub fn limit(&mut self, id: u64, s: OrderSide, p: i64, q: u64) -> Trades {
        let ps: Vec<i64> = match s {
            OrderSide::Bid => self.asks.0.keys().copied().filter(|x| *x <= p).collect(),
            _ => self.bids.0.keys().rev().copied().filter(|x| *x >= p).collect(),
        };
        let res = if ps.is_empty() {
            None
        } else {
            Some(match s {
                OrderSide::Bid => self.asks.take(ps, q),
                _ => self.bids.take(ps, q),
            })
        };
        let rem = res.as_ref().map(|r| r.1).unwrap_or(q);
        if rem > 0 {
            self.side(s).add(id, p, rem);
        }
        res
    }
    /// Canonical form: order ids are renamed by position (behaviour does not depend on their values).
    pub fn key(&self) -> Vec<u8> {
        let mut k = vec![];
        for s in [&self.asks, &self.bids] {
            for (p, v) in &s.0 {
                k.push(*p as u8);
                for o in v {
                    k.push(100 + o.1 as u8);
                }
            }
            k.push(255);
        }
        k
    }
}

fn norm(t: Option<(TradeHistory, u64)>) -> Trades {
    t.map(|(h, r)| {
        let v: Vec<(i64, u64)> = (0..h.len()).map(|i| h[i]).collect();
        // the summary views of a trade history agree with its entries
        let q: u64 = v.iter().map(|x| x.1).sum();
        let avg = v.iter().map(|x| x.0 as f64 * x.1 as f64).sum::<f64>() / q as f64;
        if h.get_last_trade() != v.last().copied()
            || h.is_empty() != v.is_empty()
            || (q > 0 && (h.average_trade_price() - avg).abs() > 1e-9 * (1.0 + avg.abs()))
        {
            panic!("trade history {v:?}: last {:?}, average {}", h.get_last_trade(), h.average_trade_price());
        }
        (v, r)
    })
}

fn show(ops: &[Op]) -> String {
    let mut s = String::from("history:\n");
    for (i, o) in ops.iter().enumerate() {
        s.push_str(&format!("  {}: {:?}\n", i, o));
    }
    s
}

pub fn half_contents(h: &HalfBook) -> Side {
    Side(h.levels.iter().map(|(p, l)| (*p, l.orders.iter().copied().collect())).collect())
}

/// Everything derived from the resting orders has to agree with the orders themselves.
pub fn structure(h: &HalfBook, r: &Side, side: OrderSide) -> Result<(), String> {
    let name = if side == OrderSide::Ask { "ask" } else { "bid" };
    let mut ids = HashSet::new();
    for (p, l) in &h.levels {
        if l.book_price != *p {
            return Err(format!("{name}: level keyed {p} says its price is {}", l.book_price));
        }
        let s: u64 = l.orders.iter().map(|o| o.1).sum();
        if s != l.total_quantity {
            return Err(format!("{name}: level {p} total {} but its orders sum to {s}", l.total_quantity));
        }
        if l.orders.is_empty() {
            return Err(format!("{name}: level {p} has no order"));
        }
        for (id, q) in &l.orders {
            if *q == 0 {
                return Err(format!("{name}: order {id} rests with quantity 0"));
            }
            ids.insert(*id);
            if h.get_price(*id) != Some(*p) {
                return Err(format!("{name}: resting order {id} at {p} is indexed at {:?}", h.get_price(*id)));
            }
            match guarded(|| h.get_order(*id)) {
                Ok(Some(o)) if o.order_id == *id && o.price == *p && o.quantity == *q && o.order_side == side => {}
                x => return Err(format!("{name}: lookup of resting order {id} gives {:?}", x)),
            }
        }
        if h.aggregate_quantity_at_price(*p) != s {
            return Err(format!("{name}: quantity at {p} is {}", h.aggregate_quantity_at_price(*p)));
        }
    }
    for (id, p) in &h.cache {
        if !ids.contains(id) {
            return Err(format!("{name}: order {id} is indexed at {p} but does not rest in the book"));
        }
    }
    let total = r.total();
    if h.get_total_quantity() != total || h.aggregate_quantity() != total || !h.check_validity_quantity() {
        return Err(format!("{name}: total quantity {} but orders sum to {total}", h.get_total_quantity()));
    }
    let best = match side {
        OrderSide::Ask => h.levels.keys().next().copied().unwrap_or(i64::MAX),
        _ => h.levels.keys().next_back().copied().unwrap_or(i64::MIN),
    };
    if h.best_price != best {
        return Err(format!("{name}: best price {} but best level is {best}", h.best_price));
    }
    if h.is_empty() != h.levels.is_empty() || h.len() != h.levels.len() {
        return Err(format!("{name}: len/is_empty disagree with the levels"));
    }
    Ok(())
}

fn snapshots(b: &OrderBook, r: &Ref) -> Result<(), String> {
    for (name, snap, side) in [("ask", b.ask_level_snapshot(), &r.asks), ("bid", b.bid_level_snapshot(), &r.bids)] {
        let mut got: Vec<(i64, u64, u32)> =
            snap.iter().map(|l| (l.book_price, l.book_quantity, l.order_count.unwrap_or(0))).collect();
        got.sort();
        let want: Vec<(i64, u64, u32)> = side
            .0
            .iter()
            .map(|(p, v)| (*p, v.iter().map(|o| o.1).sum(), v.len() as u32))
            .collect();
        if got != want {
            return Err(format!("{name} level snapshot {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

/// The printed ladder shows every level exactly once, from the highest price down, with the right counts.
fn printed(b: &OrderBook, r: &Ref) -> Result<(), String> {
    let s = b.to_string();
    let mut got = vec![];
    for l in s.lines() {
        let c: Vec<&str> = l.split('|').map(|x| x.trim()).collect();
        if c.len() != 5 {
            continue;
        }
        if let Ok(p) = c[2].parse::<i64>() {
            got.push((p, c[0].to_string(), c[1].to_string(), c[3].to_string(), c[4].to_string()));
        }
    }
    let mut want = vec![];
    for (p, v) in r.asks.0.iter().rev() {
        let q: u64 = v.iter().map(|o| o.1).sum();
        want.push((*p, "".into(), "".into(), v.len().to_string(), q.to_string()));
    }
    for (p, v) in r.bids.0.iter().rev() {
        let q: u64 = v.iter().map(|o| o.1).sum();
        want.push((*p, q.to_string(), v.len().to_string(), "".into(), "".into()));
    }
    if got != want {
        return Err(format!("printed ladder {got:?}, expected {want:?}"));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Matching,
    Structure,
}

struct Node {
    book: OrderBook,
    model: Ref,
    hist: Vec<Op>,
    next_id: u64,
}

struct Space {
    prices: Vec<i64>,
    qtys: Vec<u64>,
    mkt: Vec<u64>,
    max_orders: usize,
    max_qty: u64,
    max_depth: usize,
    raw_ops: bool,
}

fn alphabet(sp: &Space, n: &Node) -> Vec<Op> {
    use OrderSide::*;
    let mut v = vec![];
    for s in [Bid, Ask] {
        for p in &sp.prices {
            for q in &sp.qtys {
                v.push(Op::Limit(s, *p, *q));
                if sp.raw_ops {
                    // direct insertion, for orders that do not cross
                    let ok = match s {
                        Bid => n.model.best_ask().map_or(true, |b| *p < b),
                        _ => n.model.best_bid().map_or(true, |b| *p > b),
                    };
                    if ok {
                        v.push(Op::Add(s, *p, *q));
                    }
                }
            }
        }
        for q in &sp.mkt {
            v.push(Op::Market(s, *q));
        }
    }
    let mut ids: Vec<u64> = n.model.asks.0.values().chain(n.model.bids.0.values()).flatten().map(|o| o.0).collect();
    ids.push(77); // an id that never existed
    for id in ids {
        v.push(Op::Cancel(id));
        for q in &sp.qtys {
            v.push(Op::ChangeQty(id, *q));
            for p in &sp.prices {
                v.push(Op::Modify(id, *p, *q));
            }
        }
        if sp.raw_ops {
            v.push(Op::ChangeQty(id, 0));
            for p in &sp.prices {
                let ok = match n.model.side_of(id) {
                    Some(Ask) => n.model.best_bid().map_or(true, |b| *p > b),
                    Some(Bid) => n.model.best_ask().map_or(true, |b| *p < b),
                    None => true,
                };
                if ok {
                    v.push(Op::ChangePrice(id, *p));
                }
            }
        }
    }
    for s in [Bid, Ask] {
        for p in &sp.prices {
            for q in &sp.mkt {
                v.push(Op::Remove(s, *p, *q));
            }
        }
        if sp.raw_ops {
            v.push(Op::Clear(s));
            let p = *if s == Bid { sp.prices.iter().min() } else { sp.prices.iter().max() }.unwrap();
            if if s == Bid { n.model.best_ask().is_none_or(|b| p < b) } else { n.model.best_bid().is_none_or(|b| p > b) } {
                v.push(Op::Restart(s, p, sp.qtys[0]));
            }
        }
    }
    v
}

#[derive(Debug, PartialEq)]
enum Out {
    Trades(Trades),
    Found(bool),
    Left(u64),
    Rejected(bool),
    None,
}

fn apply_model(m: &mut Ref, op: &Op, id: u64) -> Out {
    match op {
        Op::Limit(s, p, q) => Out::Trades(m.limit(id, *s, *p, *q)),
        Op::Add(s, p, q) => {
            m.side(*s).add(id, *p, *q);
            Out::Rejected(false)
        }
        Op::Market(s, q) => Out::Trades(m.market(*s, *q)),
        Op::Cancel(id) => Out::Found(m.asks.cancel(*id).or_else(|| m.bids.cancel(*id)).is_some()),
        Op::Modify(id, p, q) => match m.side_of(*id) {
            None => Out::Trades(None),
            Some(s) => {
                let (old, _) = m.side(s).find(*id).unwrap();
                if old == *p {
                    for o in m.side(s).0.get_mut(p).unwrap() {
                        if o.0 == *id {
                            o.1 = *q;
                        }
                    }
                    Out::Trades(None)
                } else {
                    m.side(s).cancel(*id);
                    Out::Trades(m.limit(*id, s, *p, *q))
                }
            }
        },
        Op::ChangeQty(id, q) => match m.side_of(*id) {
            None => Out::Found(false),
            Some(s) => {
                if *q == 0 {
                    m.side(s).cancel(*id);
                } else {
                    let (p, _) = m.side(s).find(*id).unwrap();
                    for o in m.side(s).0.get_mut(&p).unwrap() {
                        if o.0 == *id {
                            o.1 = *q;
                        }
                    }
                }
                Out::Found(true)
            }
        },
        Op::ChangePrice(id, p) => match m.side_of(*id) {
            None => Out::Found(false),
            Some(s) => {
                let q = m.side(s).cancel(*id).unwrap();
                m.side(s).add(*id, *p, q);
                Out::Found(true)
            }
        },
        Op::Remove(s, p, q) => {
            let side = m.side(*s);
            let mut left = *q;
            if let Some(v) = side.0.get_mut(p) {
                while left > 0 {
                    let Some(last) = v.last_mut() else { break };
                    if last.1 <= left {
                        left -= last.1;
                        v.pop();
                    } else {
                        last.1 -= left;
                        left = 0;
                    }
                }
                if v.is_empty() {
                    side.0.remove(p);
                }
            }
            Out::Left(left)
        }
        Op::Clear(s) => {
            *m.side(*s) = Side::default();
            Out::None
        }
        Op::Restart(s, p, q) => {
            *m.side(*s) = Side::default();
            m.side(*s).add(id, *p, *q);
            Out::None
        }
        _ => Out::None,
    }
}

fn apply_impl(b: &mut OrderBook, op: &Op, id: u64) -> Out {
    match op {
        Op::Limit(s, p, q) => Out::Trades(norm(b.process_limit_order(LimitOrder::new(*p, *q, *s, id)))),
        Op::Add(s, p, q) => Out::Rejected(b.add_limit_order(LimitOrder::new(*p, *q, *s, id)).is_err()),
        Op::Market(s, q) => Out::Trades(norm(b.process_market_order(&MarketOrder::new(*q, *s, id)))),
        Op::Cancel(id) => Out::Found(b.cancel_order(CancelOrder::new(*id)).is_some()),
        Op::Modify(id, p, q) => Out::Trades(norm(b.modify_order(ModifyOrder::new(*id, *p, *q)))),
        Op::ChangeQty(id, q) => Out::Found(b.change_quantity(*id, *q).is_some()),
        Op::ChangePrice(id, p) => {
            Out::Found(b.asks.change_price(*id, *p).is_some() || b.bids.change_price(*id, *p).is_some())
        }
        Op::Remove(s, p, q) => Out::Left(b.remove_order(RemoveAnyOrder::new(*p, *q, *s)).unwrap_or(u64::MAX)),
        Op::Clear(OrderSide::Ask) => {
            b.asks.clear();
            Out::None
        }
        Op::Clear(_) => {
            b.bids.clear();
            Out::None
        }
        Op::Restart(s, p, q) => {
            let h = HalfBook::initialize_with_limit_order(LimitOrder::new(*p, *q, *s, id));
            match s {
                OrderSide::Ask => b.asks = h,
                _ => b.bids = h,
            }
            Out::None
        }
        _ => Out::None,
    }
}

fn explore(ctx: &Ctx, mode: Mode, sp: &Space, no: usize) {
    let id = inst(b"KR4101V30001");
    let seen: Mutex<HashSet<Vec<u8>>> = Mutex::new(HashSet::new());
    let root = Node { book: OrderBook::initialize_with_id(id), model: Ref::default(), hist: vec![], next_id: 1000 };
    seen.lock().unwrap().insert(root.model.key());
    ctx.states_add(1);
    let mut frontier = vec![root];
    let mut depth = 0;
    while !frontier.is_empty() && depth < sp.max_depth && !ctx.stopped() {
        let next: Mutex<Vec<Node>> = Mutex::new(vec![]);
        let chunks: Vec<&[Node]> = frontier.chunks(64).collect();
        ctx.par_for(chunks.len(), |ci| {
            for n in chunks[ci] {
                let ops = alphabet(sp, n);
                for op in &ops {
                    if ctx.stopped() {
                        return;
                    }
                    let mut m = n.model.clone();
                    let want = apply_model(&mut m, op, n.next_id);
                    if m.asks.orders() + m.bids.orders() > sp.max_orders
                        || m.asks.0.values().chain(m.bids.0.values()).flatten().any(|o| o.1 > sp.max_qty)
                    {
                        continue;
                    }
                    ctx.trans_add(1);
                    let mut b = n.book.clone();
                    let hist = || {
                        let mut h = n.hist.clone();
                        h.push(op.clone());
                        h
                    };
                    ctx.begin(|| format!("{:?}", hist()));
                    let got = guarded(|| apply_impl(&mut b, op, n.next_id));
                    ctx.end();
                    let got = match got {
                        Ok(g) => g,
                        Err(e) => {
                            ctx.violation(&format!("{:?}", hist()), format!("{}{}", show(&hist()), e));
                            continue;
                        }
                    };
                    let err = match mode {
                        Mode::Matching => {
                            if got != want {
                                Err(format!("result {got:?}, price-time priority gives {want:?}"))
                            } else if half_contents(&b.asks) != m.asks {
                                Err(format!("resting asks {:?}, expected {:?}", half_contents(&b.asks), m.asks))
                            } else if half_contents(&b.bids) != m.bids {
                                Err(format!("resting bids {:?}, expected {:?}", half_contents(&b.bids), m.bids))
                            } else {
                                Ok(())
                            }
                        }
                        Mode::Structure => (|| {
                            let (ra, rb) = (half_contents(&b.asks), half_contents(&b.bids));
                            structure(&b.asks, &ra, OrderSide::Ask)?;
                            structure(&b.bids, &rb, OrderSide::Bid)?;
                            let r = Ref { asks: ra, bids: rb };
                            if !b.check_validity_quantity() {
                                return Err("check_validity_quantity is false".into());
                            }
                            snapshots(&b, &r)?;
                            printed(&b, &r)?;
                            if got == Out::Found(false) && r != n.model {
                                return Err("an operation on an unknown order changed the book".into());
                            }
                            Ok(())
                        })(),
                    };
                    if let Err(e) = err {
                        ctx.violation(&format!("{:?}", hist()), format!("{}{}", show(&hist()), e));
                        continue;
                    }
                    let k = m.key();
                    if seen.lock().unwrap().insert(k) {
                        ctx.states_add(1);
                        if ctx.want_sample() && n.hist.len() >= 3 {
                            ctx.sample(format!("{:?} -> {:?}", hist(), got));
                        }
                        let node = Node { book: b, model: m, hist: hist(), next_id: n.next_id + 1 };
                        next.lock().unwrap().push(node);
                    }
                }
            }
        });
        depth += 1;
        ctx.outcome_add(&format!("space {no}: new states at depth {depth:02}"), next.lock().unwrap().len() as u64);
        frontier = next.into_inner().unwrap();
    }
    ctx.traces_add(seen.lock().unwrap().len() as u64);
    if frontier.is_empty() {
        ctx.note(&format!("closure of space {no}"), "every state reachable within the bound on resting orders and quantities was visited");
    } else {
        ctx.note(&format!("closure of space {no}"), format!("depth bound {} completed", sp.max_depth));
    }
}

fn spaces(ctx: &Ctx, mode: Mode) -> Vec<Space> {
    let raw_ops = mode == Mode::Structure;
    let sp = |prices: Vec<i64>, qtys: Vec<u64>, mkt: Vec<u64>, max_orders: usize| Space {
        max_qty: *qtys.iter().max().unwrap(),
        prices,
        qtys,
        mkt,
        max_orders,
        max_depth: 60,
        raw_ops,
    };
    vec![
        // three or four prices, mixed sizes
        sp(ctx.pick(vec![10, 11, 12], vec![10, 11, 12, 13]), vec![1, 2, 3], vec![1, 4, 12], 5),
        // prices around zero (spread instruments quote negative prices)
        sp(vec![-1, 0, 1], vec![1, 2], vec![1, 3, 9], ctx.pick(3, 4)),
        // long queues at one price
        sp(vec![10, 11], vec![1, 2], vec![1, 2, 5, 20], ctx.pick(6, 7)),
        // wide ladders
        sp(vec![1, 2, 3, 4, 5, 6], vec![1], vec![1, 2, 3, 9], ctx.pick(5, 6)),
    ]
}

fn run_spaces(ctx: &Ctx, mode: Mode) {
    ctx.assume("order ids supplied by the caller are unique and new orders have a positive quantity");
    for (i, sp) in spaces(ctx, mode).iter().enumerate() {
        ctx.note(
            &format!("space {i}"),
            format!(
                "closure of all operation histories over prices {:?}, order sizes {:?}, sweep sizes {:?}, at most {} resting orders of at most {} lots{}",
                sp.prices, sp.qtys, sp.mkt, sp.max_orders, sp.max_qty,
                if sp.raw_ops { ", with direct insertion, repricing and resizing to zero" } else { "" }
            ),
        );
        explore(ctx, mode, sp, i);
    }
}

pub fn t01(ctx: &Ctx) {
    run_spaces(ctx, Mode::Matching)
}

/// A price level on its own: a queue of orders and their total.
fn level_alone(ctx: &Ctx) {
    const PRICE: i64 = 100;
    #[derive(Clone, Copy, Debug)]
    enum L {
        Add(u64),
        AddElsewhere,
        Cancel(usize),
        Change(usize, u64),
        Trade(u64),
        Clear,
    }
    let mut alphabet = vec![L::Add(1), L::Add(4), L::AddElsewhere, L::Clear];
    (0..4).for_each(|k| alphabet.extend([L::Cancel(k), L::Change(k, 2), L::Change(k, 7)]));
    [0, 1, 3, 5, 100].iter().for_each(|q| alphabet.push(L::Trade(*q)));
    let depth = ctx.pick(4, 5);
    let n = alphabet.len();
    ctx.note("levels alone", format!("all {n}^{depth} histories of {n} operations from an empty level and from one with an order"));
    ctx.par_for(n.pow(depth as u32) * 2, |k| {
        let mut code = k / 2;
        let ops: Vec<L> = (0..depth).map(|_| { let o = alphabet[code % n]; code /= n; o }).collect();
        let key = || format!("level {}, {ops:?}", if k % 2 == 0 { "empty" } else { "with an order of 3" });
        ctx.states_add(depth as u64);
        ctx.trans_add(depth as u64);
        ctx.traces_add(1);
        ctx.run(key, || {
            let mut next = 10u64;
            let mut q: Vec<(u64, u64)> = vec![];
            let mut l = Level::initialize(PRICE);
            if k % 2 == 1 {
                l = Level::initialize_with_order(LimitOrder::new(PRICE, 3, OrderSide::Bid, next));
                q.push((next, 3));
                next += 1;
            }
            for op in &ops {
                let total = |q: &Vec<(u64, u64)>| q.iter().map(|x| x.1).sum::<u64>();
                let id = |k: &usize| q.get(*k).map_or(5, |x| x.0);
                let ok = match op {
                    L::Add(x) => {
                        q.push((next, *x));
                        next += 1;
                        l.add_limit_order(LimitOrder::new(PRICE, *x, OrderSide::Bid, next - 1)).is_ok()
                    }
                    L::AddElsewhere => l.add_limit_order(LimitOrder::new(PRICE + 1, 1, OrderSide::Bid, 77)).is_err(),
                    L::Cancel(k) => {
                        let got = l.cancel_order(id(k));
                        let was = (*k < q.len()).then(|| q.remove(*k));
                        got == was.map(|w| (w.1, total(&q)))
                    }
                    L::Change(k, x) => {
                        let got = l.change_quantity(id(k), *x);
                        let was = q.get_mut(*k).map(|w| std::mem::replace(&mut w.1, *x));
                        got == was
                    }
                    L::Trade(x) => {
                        let mut left = *x;
                        let mut gone = vec![];
                        while left > 0 && !q.is_empty() {
                            let t = left.min(q[0].1);
                            left -= t;
                            q[0].1 -= t;
                            if q[0].1 == 0 {
                                gone.push(q.remove(0).0);
                            }
                        }
                        l.trade(*x) == (gone, left, total(&q))
                    }
                    L::Clear => {
                        q.clear();
                        l.clear();
                        true
                    }
                };
                let snap = l.to_level_snapshot();
                let agrees = l.orders.iter().copied().eq(q.iter().copied())
                    && l.aggregate_quantity() == total(&q)
                    && l.total_quantity == total(&q)
                    && l.order_count() == q.len()
                    && l.is_empty() == q.is_empty()
                    && (snap.book_price, snap.book_quantity, snap.order_count, snap.lp_quantity) == (PRICE, total(&q), Some(q.len() as u32), None)
                    && (5..next + 1).all(|i| {
                        let want = q.iter().find(|x| x.0 == i);
                        match (l.get_order(i, OrderSide::Bid), want) {
                            (None, None) => true,
                            (Some(o), Some(w)) => (o.order_id, o.price, o.quantity, o.order_side) == (w.0, PRICE, w.1, OrderSide::Bid),
                            _ => false,
                        }
                    });
                if !ok || !agrees {
                    return ctx.violation("level alone", format!("{}: after {op:?} {l:?}, expected the orders {q:?}", key()));
                }
            }
        });
    });
}

pub fn t02(ctx: &Ctx) {
    level_alone(ctx);
    run_spaces(ctx, Mode::Structure)
}

// ---------------------------------------------------------------- T03

fn side_menus(prices: &[i64], qtys: &[u64], max_levels: usize) -> Vec<Vec<(i64, u64)>> {
    // every subset of prices (best first as given) up to max_levels with every quantity assignment
    let mut out = vec![vec![]];
    fn rec(prices: &[i64], qtys: &[u64], left: usize, cur: &mut Vec<(i64, u64)>, out: &mut Vec<Vec<(i64, u64)>>) {
        if left == 0 {
            return;
        }
        for (i, p) in prices.iter().enumerate() {
            for q in qtys {
                cur.push((*p, *q));
                out.push(cur.clone());
                rec(&prices[i + 1..], qtys, left - 1, cur, out);
                cur.pop();
            }
        }
    }
    rec(prices, qtys, max_levels, &mut vec![], &mut out);
    out
}

fn lv(x: &(i64, u64)) -> LevelSnapshot {
    LevelSnapshot { order_count: Some(1), book_price: x.0, book_quantity: x.1, lp_quantity: None }
}

/// Quote buffer with `pad` slots; unused slots are either zeroed (as an exchange sends an empty level)
/// inside the level cut, or hold stale data beyond the level cut.
fn fill(v: &[(i64, u64)], pad: usize, stale: bool) -> Vec<LevelSnapshot> {
    let mut d: Vec<LevelSnapshot> = v.iter().map(lv).collect();
    while d.len() < pad {
        if stale {
            d.push(lv(&(500 + d.len() as i64, 7)));
        } else {
            d.push(LevelSnapshot::default());
        }
    }
    d
}

fn levels_of(h: &HalfBook) -> Vec<(i64, u64)> {
    h.levels.iter().map(|(p, l)| (*p, l.total_quantity)).collect()
}

fn sorted(v: &[(i64, u64)]) -> Vec<(i64, u64)> {
    let mut v: Vec<(i64, u64)> = v.iter().copied().filter(|x| x.1 > 0).collect();
    v.sort();
    v
}

pub fn t03(ctx: &Ctx) {
    let id = inst(b"KR4101V30001");
    let other = inst(b"KR4101V30009");
    let asks = side_menus(&[11, 12, 13], &[1, 3], 2);
    let bids = side_menus(&[10, 9, 8], &[1, 3], 2);
    let menu: Vec<(Vec<(i64, u64)>, Vec<(i64, u64)>)> = if ctx.thorough() {
        asks.iter().flat_map(|a| bids.iter().map(move |b| (a.clone(), b.clone()))).collect()
    } else {
        // every ask ladder with a few bid ladders and the other way round
        let mut m = vec![];
        for (i, a) in asks.iter().enumerate() {
            for (j, b) in bids.iter().enumerate() {
                if i % 5 == 1 || j % 5 == 1 || i == j {
                    m.push((a.clone(), b.clone()));
                }
            }
        }
        m
    };
    ctx.note("bound", format!("{} snapshots (0-2 levels per side of 3 prices, sizes 1/3), all ordered pairs, 4 delivery forms, each after every one of 9 intervening operations", menu.len()));
    ctx.assume("in-place snapshot updates are applied to books that hold one order per level (documented assumption of the code); the decomposition is checked on arbitrary books");

    let deliver = |b: &mut OrderBook, s: &(Vec<(i64, u64)>, Vec<(i64, u64)>), form: usize| -> anyhow::Result<()> {
        // 0: quote, exact; 1: quote, empty levels inside the cut + stale levels beyond it; 2/3: the same as trade+quote
        let n = s.0.len().max(s.1.len());
        let (pad, cut) = if form % 2 == 1 { (n + 3, n + 1) } else { (n, n) };
        let mk = |v: &[(i64, u64)]| {
            let mut d = fill(v, cut, false);
            while d.len() < pad {
                d.push(lv(&(500 + d.len() as i64, 7)));
            }
            d
        };
        if form < 2 {
            let mut q = QuoteSnapshot::with_quote_level(pad);
            q.id = id;
            q.quote_level_cut = cut;
            q.ask_quote_data = mk(&s.0);
            q.bid_quote_data = mk(&s.1);
            b.update_from_quote_snapshot(&q)
        } else {
            let mut q = TradeQuoteSnapshot::with_quote_level(pad);
            q.id = id;
            q.quote_level_cut = cut;
            q.ask_quote_data = mk(&s.0);
            q.bid_quote_data = mk(&s.1);
            b.update_from_trade_quote_snapshot(&q)
        }
    };
    let between: Vec<Op> = vec![
        Op::None_(),
        Op::Market(OrderSide::Bid, 1),
        Op::Market(OrderSide::Ask, 1),
        Op::Market(OrderSide::Bid, 9),
        Op::Market(OrderSide::Ask, 9),
        Op::Remove(OrderSide::Ask, 11, 1),
        Op::Remove(OrderSide::Bid, 10, 2),
        Op::Limit(OrderSide::Ask, 14, 2),
        Op::Limit(OrderSide::Bid, 7, 2),
    ];

    let check = |b: &OrderBook, s: &(Vec<(i64, u64)>, Vec<(i64, u64)>)| -> Result<(), String> {
        if levels_of(&b.asks) != sorted(&s.0) {
            return Err(format!("ask levels {:?}, snapshot says {:?}", levels_of(&b.asks), sorted(&s.0)));
        }
        if levels_of(&b.bids) != sorted(&s.1) {
            return Err(format!("bid levels {:?}, snapshot says {:?}", levels_of(&b.bids), sorted(&s.1)));
        }
        structure(&b.asks, &half_contents(&b.asks), OrderSide::Ask)?;
        structure(&b.bids, &half_contents(&b.bids), OrderSide::Bid)?;
        Ok(())
    };
    let distinct: Mutex<HashMap<Vec<u8>, u64>> = Mutex::new(HashMap::new());

    ctx.par_for(menu.len(), |i| {
        let s1 = &menu[i];
        for form in 0..4 {
            let mut b1 = OrderBook::initialize_with_id(id);
            let key = |s2: Option<&(Vec<(i64, u64)>, Vec<(i64, u64)>)>, op: &Op| {
                format!("form {form}: {:?} / {:?} / {:?}", s1, op, s2)
            };
            let r = ctx.run(|| key(None, &Op::WrongId), || deliver(&mut b1, s1, form).map_err(|e| e.to_string()));
            ctx.case();
            match r {
                None => continue,
                Some(Err(e)) => {
                    ctx.violation(&key(None, &Op::WrongId), format!("valid snapshot refused: {e}"));
                    continue;
                }
                Some(Ok(())) => {}
            }
            if let Err(e) = check(&b1, s1) {
                ctx.violation(&key(None, &Op::WrongId), format!("after the first snapshot: {e}"));
                continue;
            }
            // a snapshot of another instrument is refused and leaves the book alone
            let mut bad = QuoteSnapshot::with_quote_level(1);
            bad.id = other;
            bad.ask_quote_data = vec![lv(&(99, 9))];
            let before = (b1.asks.clone(), b1.bids.clone());
            let refused = b1.update_from_quote_snapshot(&bad).is_err();
            let mut bad2 = TradeQuoteSnapshot::with_quote_level(1);
            bad2.id = other;
            bad2.ask_quote_data = vec![lv(&(99, 9))];
            let refused2 = b1.update_from_trade_quote_snapshot(&bad2).is_err();
            if !refused || !refused2 || before != (b1.asks.clone(), b1.bids.clone()) {
                ctx.violation(&key(None, &Op::WrongId), "a snapshot of another instrument was applied");
                continue;
            }
            for op in &between {
                let mut b2 = b1.clone();
                let mut m2 = Ref { asks: half_contents(&b2.asks), bids: half_contents(&b2.bids) };
                let r = ctx.run(|| key(None, op), || {
                    let w = apply_model(&mut m2, op, 5000);
                    let g = apply_impl(&mut b2, op, 5000);
                    (w, g)
                });
                let Some((w, g)) = r else { continue };
                if w != g || m2.asks != half_contents(&b2.asks) || m2.bids != half_contents(&b2.bids) {
                    ctx.violation(&key(None, op), format!("after the snapshot the operation gives {g:?}, expected {w:?}"));
                    continue;
                }
                distinct.lock().unwrap().entry(m2.key()).or_insert(0);
                for s2 in &menu {
                    if ctx.stopped() {
                        return;
                    }
                    let mut b3 = b2.clone();
                    ctx.trans_add(1);
                    ctx.traces_add(1);
                    let r = ctx.run(|| key(Some(s2), op), || deliver(&mut b3, s2, form).map_err(|e| e.to_string()));
                    match r {
                        Some(Ok(())) => {}
                        Some(Err(e)) => {
                            ctx.violation(&key(Some(s2), op), format!("valid snapshot refused: {e}"));
                            continue;
                        }
                        None => continue,
                    }
                    if let Err(e) = check(&b3, s2) {
                        ctx.violation(&key(Some(s2), op), e);
                        continue;
                    }
                    // a book built from scratch from the same snapshot has the same levels (both directions)
                    if form == 0 {
                        let mut fresh = OrderBook::initialize_with_id(id);
                        let _ = deliver(&mut fresh, s2, 0);
                        if !fresh.eq_level(&b3) || !b3.eq_level(&fresh) {
                            ctx.violation(&key(Some(s2), op), "level comparison says the book differs from one built from the same snapshot");
                        }
                        if (s1.0.iter().any(|x| x.1 > 0) || s1.1.iter().any(|x| x.1 > 0))
                            && (sorted(&s1.0) != sorted(&s2.0) || sorted(&s1.1) != sorted(&s2.1))
                            && (b1.eq_level(&b3) || b3.eq_level(&b1))
                        {
                            ctx.violation(&key(Some(s2), op), "level comparison says two different books are equal");
                        }
                    }
                    // the same transition as a decomposition into single orders
                    if form == 0 {
                        decompose(ctx, &b2, s2, &|| key(Some(s2), op));
                    }
                }
            }
        }
    });
    // decomposition on books with several orders per level
    let queues: Vec<Vec<(u64, u64)>> = vec![vec![(1, 1)], vec![(1, 1), (2, 2)], vec![(1, 2), (2, 1), (3, 1)], vec![(1, 3), (2, 3)]];
    for a in &queues {
        for a2 in std::iter::once(&vec![]).chain(&queues) {
            for bq in &queues {
                let mut b = OrderBook::initialize_with_id(id);
                for (i, (p, side, q)) in [(11, OrderSide::Ask, a), (12, OrderSide::Ask, a2), (10, OrderSide::Bid, bq)].iter().enumerate() {
                    for o in q.iter() {
                        let _ = b.add_limit_order(LimitOrder::new(*p, o.1, *side, 1000 * (i as u64 + 1) + o.0));
                    }
                }
                for s2 in &menu {
                    ctx.case();
                    decompose(ctx, &b, s2, &|| format!("queues {a:?} {a2:?} {bq:?} then {s2:?}"));
                }
            }
        }
    }
    ctx.states_add(distinct.lock().unwrap().len() as u64);
    ctx.outcome_add("distinct books before the second snapshot", distinct.lock().unwrap().len() as u64);
    ctx.sample(format!("{:?} then {:?} then {:?}", menu[3], between[1], menu[menu.len() - 1]));
}

impl Op {
    #[allow(non_snake_case)]
    fn None_() -> Op {
        Op::Cancel(77)
    }
}

fn decompose(ctx: &Ctx, b: &OrderBook, s: &(Vec<(i64, u64)>, Vec<(i64, u64)>), key: &dyn Fn() -> String) {
    for zeros in [false, true] {
        let mut upd = b.clone();
        let n = s.0.len().max(s.1.len()) + if zeros { 1 } else { 0 };
        let (sa, sb) = if zeros { (fill(&s.0, n, false), fill(&s.1, n, false)) } else { (fill(&s.0, 0, false), fill(&s.1, 0, false)) };
        let r = ctx.run(|| format!("decompose: {}", key()), || upd.decomposed_orders_with_update(&sa, &sb).map_err(|e| e.to_string()));
        let Some(r) = r else { return };
        let k = || format!("decompose: {}", key());
        let orders = match r {
            Ok(o) => o,
            Err(e) => {
                ctx.violation(&k(), format!("refused: {e}"));
                return;
            }
        };
        if levels_of(&upd.asks) != sorted(&s.0) || levels_of(&upd.bids) != sorted(&s.1) {
            ctx.violation(&k(), format!("levels {:?}/{:?}, snapshot says {:?}/{:?}", levels_of(&upd.asks), levels_of(&upd.bids), sorted(&s.0), sorted(&s.1)));
            return;
        }
        let st = structure(&upd.asks, &half_contents(&upd.asks), OrderSide::Ask)
            .and_then(|_| structure(&upd.bids, &half_contents(&upd.bids), OrderSide::Bid));
        if let Err(e) = st {
            ctx.violation(&k(), e);
            return;
        }
        // minimal: exactly one order for each price whose quantity changed
        let mut want: BTreeMap<(bool, i64), i64> = BTreeMap::new();
        for (ask, old, new) in [(true, levels_of(&b.asks), sorted(&s.0)), (false, levels_of(&b.bids), sorted(&s.1))] {
            for (p, q) in &new {
                *want.entry((ask, *p)).or_insert(0) += *q as i64;
            }
            for (p, q) in &old {
                *want.entry((ask, *p)).or_insert(0) -= *q as i64;
            }
        }
        want.retain(|_, q| *q != 0);
        let mut got: BTreeMap<(bool, i64), i64> = BTreeMap::new();
        let mut replay = b.clone();
        for d in &orders {
            let (k2, q) = match &d.order {
                OrderEnum::LimitOrder(l) => {
                    let _ = replay.add_limit_order(LimitOrder { order_id: l.order_id + 900_000, ..l.clone() });
                    ((l.order_side == OrderSide::Ask, l.price), l.quantity as i64)
                }
                OrderEnum::RemoveAnyOrder(r) => {
                    replay.remove_order(r.clone());
                    ((r.order_side == OrderSide::Ask, r.price), -(r.quantity as i64))
                }
                x => {
                    ctx.violation(&k(), format!("unexpected order {x:?}"));
                    return;
                }
            };
            if got.insert(k2, q).is_some() {
                ctx.violation(&k(), format!("two orders for one price: {orders:?}"));
                return;
            }
        }
        if got != want {
            ctx.violation(&k(), format!("decomposition {got:?}, quantity changes are {want:?}"));
            return;
        }
        if levels_of(&replay.asks) != sorted(&s.0) || levels_of(&replay.bids) != sorted(&s.1) {
            ctx.violation(&k(), "replaying the decomposed orders does not reproduce the snapshot");
            return;
        }
    }
}

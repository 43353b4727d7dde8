//! T04: fixed-width numeric fields are decoded exactly.
use crate::util::*;
use trading_engine::data::krx::krx_converter::*;
use trading_engine::types::id::isin_code::IsinCode;
use trading_engine::utils::numeric_converter::*;
use vcommon::*;

#[derive(Clone, Copy)]
struct Cfg(NumReprCfg);

impl Cfg {
    fn kept(&self) -> usize {
        self.0.digit_length + if self.0.drop_decimal_point { 0 } else { self.0.decimal_point_length.saturating_sub(1) }
    }
    /// The field text: sign, unused characters, digits, point, decimals. `d` holds every digit, left to right.
    fn text(&self, neg: bool, d: &[u8], unused: u8) -> Vec<u8> {
        let c = &self.0;
        let mut v = vec![];
        if c.is_signed {
            v.push(if neg { b'-' } else { b'0' });
        }
        v.extend(std::iter::repeat(unused).take(c.unused_length));
        v.extend(d[..c.digit_length].iter().map(|x| x + b'0'));
        if c.decimal_point_length > 0 {
            v.push(b'.');
            v.extend(d[c.digit_length..].iter().map(|x| x + b'0'));
        }
        assert_eq!(v.len(), c.total_length);
        v
    }
    fn ndigits(&self) -> usize {
        self.0.digit_length + self.0.decimal_point_length.saturating_sub(1)
    }
    fn value(&self, d: &[u8]) -> u64 {
        d[..self.kept()].iter().fold(0u64, |a, x| a * 10 + *x as u64)
    }
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * (a.abs() + b.abs())
}

/// One field, decoded in every way the interface offers, with different bytes around it.
fn check_field(conv: &IntegerConverter, cfg: &Cfg, neg: bool, d: &[u8]) -> Result<(), String> {
    let want = cfg.value(d);
    let want_i = if neg { -(want as i64) } else { want as i64 };
    for (unused, before, after) in [(b'0', 0u8, 0u8), (b'9', b'7', b'9'), (b' ', 0xff, 0xff)] {
        let text = cfg.text(neg, d, unused);
        let mut buf = vec![before; 8];
        buf.extend(&text);
        buf.extend(std::iter::repeat(after).take(40));
        let f = &buf[8..8 + text.len()];
        let show = || format!("{:?} after {before:#x}, before {after:#x}", String::from_utf8_lossy(f));
        let u = conv.to_u64(f);
        if u != want {
            return Err(format!("{} decodes to {u}, expected {want}", show()));
        }
        let i = conv.to_i64(f);
        if i != want_i {
            return Err(format!("{} decodes to {i}, expected {want_i}", show()));
        }
        let n = cfg.kept();
        if !cfg.0.is_signed && (cfg.0.decimal_point_length == 0 || cfg.0.drop_decimal_point) && cfg.0.decimal_point_length != 1 {
            unsafe {
                if n <= 16 && (conv.to_u64_unchecked(f) != want || conv.to_nonnegative_i64_unchecked(f) != want as i64) {
                    return Err(format!("{} decodes unchecked to {}, expected {want}", show(), conv.to_u64_unchecked(f)));
                }
                if n <= 8 && conv.to_u32_unchecked(f) as u64 != want {
                    return Err(format!("{} decodes unchecked to {} as 32 bits, expected {want}", show(), conv.to_u32_unchecked(f)));
                }
                if n > 16 && conv.to_long_u64_unchecked(f) != want {
                    return Err(format!("{} decodes unchecked to {}, expected {want}", show(), conv.to_long_u64_unchecked(f)));
                }
            }
        }
    }
    // real values
    let dec = if cfg.0.drop_decimal_point { 0 } else { cfg.0.decimal_point_length.saturating_sub(1) };
    let scale = 10f64.powi(dec as i32);
    let fs = [conv.to_f64_from_i64(want_i), conv.to_f64_from_u64(want)];
    let ws = [want_i as f64 / scale, want as f64 / scale];
    let norm = 10f64.powi(cfg.0.float_normalizer.unwrap_or(0) + dec as i32);
    let ns = [conv.normalized_real_from_i64(want_i) as f64, conv.normalized_real_from_u64(want) as f64];
    let nw = [want_i as f64 / norm, want as f64 / norm];
    for k in 0..2 {
        if !close(fs[k], ws[k]) || !close(ns[k], nw[k]) {
            return Err(format!("{want_i}: real values {fs:?} {ns:?}, expected {ws:?} {nw:?}"));
        }
    }
    if want <= i32::MAX as u64 && (!close(conv.to_f64_from_u32(want as u32), ws[1]) || !close(conv.to_f64_from_i32(want_i as i32), ws[0])) {
        return Err(format!("{want_i}: 32-bit real values differ"));
    }
    Ok(())
}

/// Digit patterns of n places: all values for few places; otherwise every single digit in every place,
/// every pair of nines, runs, and the extremes.
fn patterns(n: usize, full: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if n <= full {
        for v in 0..10u64.pow(n as u32) {
            let mut d = vec![0; n];
            let mut x = v;
            for k in (0..n).rev() {
                d[k] = (x % 10) as u8;
                x /= 10;
            }
            out.push(d);
        }
        return out;
    }
    out.push(vec![0; n]);
    out.push(vec![9; n]);
    out.push((0..n).map(|i| ((i + 1) % 10) as u8).collect());
    out.push((0..n).map(|i| ((7 * i + 3) % 10) as u8).collect());
    for i in 0..n {
        for v in 1..=9 {
            let mut d = vec![0; n];
            d[i] = v;
            out.push(d);
        }
        for j in i + 1..n {
            let mut d = vec![0; n];
            d[i] = 9;
            d[j] = 9;
            out.push(d.clone());
            d[i] = 1;
            d[j] = 8;
            out.push(d);
            out.push((0..n).map(|k| if k >= i && k < j { 9 } else { 0 }).collect());
        }
    }
    out
}

fn layouts(ctx: &Ctx) -> Vec<Cfg> {
    let mut v = vec![];
    let norms: &[Option<i32>] = ctx.pick(&[None, Some(4)], &[None, Some(0), Some(1), Some(4), Some(8)]);
    for digit_length in 0..=18usize {
        for decimal_point_length in 0..=10usize {
            for is_signed in [false, true] {
                for unused_length in 0..=ctx.pick(3usize, 5) {
                    for drop_decimal_point in [false, true] {
                        let kept_chars = digit_length + if drop_decimal_point { 0 } else { decimal_point_length };
                        // nothing to decode: no digit at all
                        if kept_chars == 0 || (digit_length == 0 && (drop_decimal_point || decimal_point_length == 1)) {
                            continue;
                        }
                        if kept_chars > 18 || (drop_decimal_point && decimal_point_length == 0) {
                            continue;
                        }
                        for fnorm in norms {
                            if kept_chars + fnorm.unwrap_or(0) as usize > 18 {
                                continue;
                            }
                            v.push(Cfg(NumReprCfg {
                                digit_length,
                                decimal_point_length,
                                is_signed,
                                unused_length,
                                total_length: digit_length + decimal_point_length + unused_length + is_signed as usize,
                                float_normalizer: *fnorm,
                                drop_decimal_point,
                            }));
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn t04(ctx: &Ctx) {
    let cfgs = layouts(ctx);
    let full = ctx.pick(3, 5);
    ctx.note("layouts", format!("{} valid layouts (0-18 digits, 0-10 characters of decimals, sign, skipped characters, dropped decimals); all values up to {full} digits, else every digit in every place, every pair and run of nines", cfgs.len()));
    ctx.assume("a field is followed by at least 31 readable bytes (the decoder reads whole words); the real messages are checked as they are in T06");
    ctx.par_for(cfgs.len(), |i| {
        let c = cfgs[i];
        let key = || format!("{:?}", c.0);
        let Some(conv) = ctx.run(key, || IntegerConverter::new(c.0)) else { return };
        let conv = match conv {
            Ok(x) => x,
            Err(e) => return ctx.violation(&key(), format!("valid layout refused: {e}")),
        };
        // a converter restored from its serialized form, and a clone, decode alike
        let Some(conv2) = ctx.run(key, || {
            let s = serde_json::to_string(&conv).map_err(|e| e.to_string())?;
            serde_json::from_str::<IntegerConverter>(&s).map_err(|e| format!("{e}: {s}"))
        }) else {
            return;
        };
        let conv2 = match conv2 {
            Ok(x) => x,
            Err(e) => return ctx.violation(&key(), format!("not restored from its serialized form: {e}")),
        };
        let Some(conv3) = ctx.run(key, || conv.clone()) else { return };
        if *conv.get_config() != c.0 || *conv2.get_config() != c.0 || *conv3.get_config() != c.0 {
            return ctx.violation(&key(), "the layout changed");
        }
        let n = c.ndigits();
        for (k, d) in patterns(n, full).iter().enumerate() {
            for neg in [false, true] {
                if neg && !c.0.is_signed {
                    continue;
                }
                if ctx.stopped() {
                    return;
                }
                ctx.case();
                let key = || format!("{:?} digits {d:?} negative {neg}", c.0);
                let r = ctx.run(key, || {
                    check_field(&conv, &c, neg, d)?;
                    if k % 7 == 1 {
                        check_field(&conv2, &c, neg, d)?;
                        check_field(&conv3, &c, neg, d)?;
                    }
                    Ok::<(), String>(())
                });
                if let Some(Err(e)) = r {
                    ctx.violation(&key(), e);
                    return;
                }
            }
        }
        if i % 97 == 5 {
            ctx.sample(format!("{:?}: {:?}", c.0, String::from_utf8_lossy(&c.text(c.0.is_signed, &vec![3; n], b'0'))));
        }
    });
    // layouts that do not add up, or are too long, are refused
    product(&[12, 6, 2, 3, 24, 2], |ix| {
        let c = NumReprCfg {
            digit_length: if ix[0] == 11 { 19 } else { ix[0] },
            decimal_point_length: ix[1],
            is_signed: ix[2] == 1,
            unused_length: ix[3],
            total_length: ix[4],
            float_normalizer: None,
            drop_decimal_point: ix[5] == 1,
        };
        let sum = c.digit_length + ix[1] + ix[2] + ix[3];
        let chars = c.digit_length + if c.drop_decimal_point { 0 } else { ix[1] };
        ctx.case();
        let Some(r) = ctx.run(|| format!("{c:?}"), || (IntegerConverter::new(c).is_ok(), c.check_validity().is_ok())) else { return };
        let want = sum == c.total_length;
        if r.1 != want || r.0 != (want && chars <= 18) {
            ctx.violation(&format!("{c:?}"), format!("accepted: {r:?}, but the lengths {} and {chars} characters are to be decoded", if want { "add up" } else { "do not add up" }));
        }
    });
    // the digit helpers
    helpers(ctx);
    exchange(ctx);
}

fn pad(t: &str, b: u8) -> Vec<u8> {
    let mut v = t.as_bytes().to_vec();
    v.extend(std::iter::repeat(b).take(40));
    v
}

fn helpers(ctx: &Ctx) {
    for fill in [0u8, b'9', 0xff] {
        for x in 0..1000u32 {
            ctx.case();
            let t3 = pad(&format!("{x:03}"), fill);
            let t2 = pad(&format!("{:02}", x % 100), fill);
            let r = ctx.run(|| format!("digits of {x}"), || (parse_3digits(&t3), parse_2digits(&t2) as u32));
            if let Some(r) = r {
                if r != (x, x % 100) {
                    ctx.violation(&format!("digits of {x}"), format!("{r:?}"));
                }
            }
        }
        for s in 0..86_400u64 {
            ctx.case();
            let t = pad(&format!("{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60), fill);
            if let Some(r) = ctx.run(|| format!("time {s}"), || parse_hhmmss_to_nanos(&t)) {
                if r != s * 1_000_000_000 {
                    ctx.violation(&format!("time of second {s}"), format!("{r} ns"));
                }
            }
        }
        for n in 1..=32usize {
            for d in patterns(n, 2) {
                let t: String = d.iter().map(|x| (x + b'0') as char).collect();
                let b = pad(&t, fill);
                let want = d.iter().fold(0u128, |a, x| a.wrapping_mul(10).wrapping_add(*x as u128));
                ctx.case();
                let r = ctx.run(
                    || format!("parse {t}"),
                    || {
                        (n > 8 || parse_under8(&b, n) as u128 == want)
                            && (n > 16 || parse_under16(&b, n) == want)
                            && (n < 16 || parse_under32(&b, n) == want)
                    },
                );
                if r == Some(false) {
                    ctx.violation(&format!("parse {t}"), "wrong value");
                }
            }
        }
    }
}

/// The layouts the exchange uses, as documented, obtained through the public getters.
fn exchange(ctx: &Ctx) {
    let isin = |s: &[u8]| IsinCode::new(s).unwrap();
    let base = isin(b"KR4101V30001");
    let rf = isin(b"KR4169V30013");
    // digits, decimal characters, signed, unused, drop
    let l = |d, p, s: bool, u, drop, norm| {
        Cfg(NumReprCfg { digit_length: d, decimal_point_length: p, is_signed: s, unused_length: u, total_length: d + p + u + s as usize, float_normalizer: norm, drop_decimal_point: drop })
    };
    let mut list: Vec<(&str, &IntegerConverter, Cfg)> = vec![
        ("order count", &get_krx_base_order_counter().order_count, l(5, 0, false, 0, false, None)),
        ("stock price", &get_krx_stock_order_converter().price, l(9, 0, false, 2, false, None)),
        ("stock quantity", &get_krx_stock_order_converter().quantity, l(12, 0, false, 0, false, None)),
        ("bond price", &get_krx_base_bond_order_converter().price, l(7, 3, false, 1, false, None)),
        ("bond quantity", &get_krx_base_bond_order_converter().quantity, l(12, 0, false, 0, false, None)),
        ("repo price", &get_krx_repo_order_converter().price, l(6, 4, true, 0, false, None)),
        ("repo quantity", &get_krx_repo_order_converter().quantity, l(15, 0, false, 0, false, None)),
        ("yield", &get_krx_yield_converter().converter, l(5, 7, true, 0, false, None)),
        ("accumulated quantity", &get_krx_base_cum_qnt_converter().converter, l(12, 0, false, 0, false, Some(4))),
        ("bond accumulated quantity", &get_krx_bond_cum_qnt_converter().converter, l(15, 0, false, 0, false, Some(4))),
    ];
    let long = CumQntConverter::krx_cum_trd_value_converter();
    list.push(("accumulated value", &long.converter, l(18, 4, false, 0, true, Some(8))));
    for und in 1..=16u32 {
        let code = format!("A3{und:02}F");
        for i in [&base, &rf] {
            let c = get_krx_derivative_converter(code.as_bytes(), i);
            let want = match (und, i == &rf) {
                (4 | 5, _) => l(8, 0, true, 0, false, Some(1)),
                (10, _) => l(8, 0, true, 0, false, Some(1)),
                (_, true) => l(4, 4, true, 0, false, None),
                _ => l(5, 3, true, 0, false, None),
            };
            list.push(("derivative price", &c.price, want));
            list.push(("derivative quantity", &c.quantity, l(9, 0, false, 0, false, None)));
        }
    }
    for (name, conv, want) in list {
        for d in patterns(want.ndigits(), 2) {
            for neg in [false, true] {
                if neg && !want.0.is_signed {
                    continue;
                }
                ctx.case();
                let key = || format!("{name} {:?} negative {neg}", d);
                if let Some(Err(e)) = ctx.run(key, || check_field(conv, &want, neg, &d)) {
                    ctx.violation(&key(), e);
                }
            }
        }
    }
    // the wrappers hand the field to the right converter
    let c = get_krx_stock_order_converter();
    let p = pad("00123456789", b'9');
    let q = pad("123456789012", b'9');
    let _ = inst(b"KR4101V30001");
    let r = ctx.run(|| "wrappers".into(), || unsafe {
        (
            c.to_book_price(&p[..11]),
            c.to_book_price_unchecked(&p[..11]),
            c.to_book_quantity(&q[..12]),
            c.to_book_quantity_unchecked(&q[..12]),
            get_krx_base_order_counter().to_order_count(&q[..5]),
            get_krx_base_order_counter().to_order_count_unchecked(&q[..5]),
            get_krx_base_cum_qnt_converter().to_cum_qnt(&q[..12]),
            get_krx_base_cum_qnt_converter().to_cum_qnt_unchecked(&q[..12]),
            get_krx_yield_converter().to_yield(&pad("-00012.345678", b'9')[..13]),
        )
    });
    if let Some(r) = r {
        let want = (123456789, 123456789, 123456789012, 123456789012, 12345, 12345, 123456789012, 123456789012, -12345678);
        if r != want {
            ctx.violation("wrappers", format!("{r:?}, expected {want:?}"));
        }
    }
    let u = pad("123456789012345678.901", b'9');
    if let Some(r) = ctx.run(|| "long wrapper".into(), || unsafe { (long.to_cum_qnt(&u[..22]), long.to_long_cum_qnt_unchecked(&u[..22])) }) {
        if r != (123456789012345678, 123456789012345678) {
            ctx.violation("long wrapper", format!("{r:?}"));
        }
    }
}

mod book;
mod feat;
mod ids;
mod krx;
mod num;
mod stamp;
mod udp;
mod util;
fn main() {
    vcommon::main(&[
        ("Tbuild", |_| {}),
        ("T01", book::t01),
        ("T02", book::t02),
        ("T03", book::t03),
        ("T04", num::t04),
        ("T05", stamp::t05),
        ("T06", krx::t06),
        ("T07", stamp::t07),
        ("T08", feat::t08),
        ("T09", ids::t09),
        ("T10", udp::t10),
    ])
}

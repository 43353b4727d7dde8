mod cal;
mod curve;
mod data;
mod dates;
mod engine;
mod flows;
mod hol;
mod insts;
mod interp;
mod market;
mod pricers;
mod results;
mod sched;
mod vol;
mod util;
mod yields;
fn main() {
    vcommon::main(&[("Qbuild", |_| {}), ("Q01", cal::q01), ("Q02", cal::q02), ("Q03", dates::q03), ("Q04", dates::q04), ("Q05", sched::q05), ("Q06", interp::q06), ("Q07", curve::q07), ("Q08", market::q08), ("Q09", vol::q09), ("Q10", data::q10), ("Q11", flows::q11), ("Q12", insts::q12), ("Q13", engine::q13), ("Q14", engine::q14), ("Q15", pricers::q15), ("Q16", yields::q16), ("Q17", results::q17), ("Q18", interp::q18), ("Q19", engine::q19)])
}

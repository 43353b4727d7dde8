use trading_engine::types::id::{isin_code::IsinCode, InstId, Symbol};
use trading_engine::types::venue::Venue;
pub fn inst(isin: &[u8]) -> InstId {
    InstId::new(Symbol::Isin(IsinCode::new(isin).unwrap()), Venue::KRX)
}

SETUP = "./run.sh Tbuild && ./run.sh Cbuild && ./run.sh Qbuild"
BFS = "explicit-state search over the real code with a reference model compared after every transition"

prop("T01", "Matching: price-time priority, conservation, correct trades",
 "An incoming limit or market order trades against the opposite side from the best price outwards, at one price strictly in arrival order, and never beyond its limit price. What it trades, what it leaves unfilled (a limit order's remainder rests at its own price behind the orders already there; a market order's is reported back) and what it takes out of the book add up exactly, in both the reported trades and the book. Cancelling removes exactly the named order; changing quantity or price acts on exactly the named order, a re-priced order matching first if it crosses.",
 ["histories"], "every sequence of limit, market, cancel, modify, resize, reprice and remove operations on a book, with unique order ids and positive quantities for new orders",
 "The tests replay a handful of fixed histories; partial fills over several levels, queue positions after cancels and re-pricing need every history up to a bound.",
 [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs", TE+"orderbook/level.rs", TE+"types/base.rs"],
 [("matching", TE+"orderbook/half_book.rs ask_trade_*/bid_trade_*"), ("order handling", TE+"orderbook/mod.rs"), ("FIFO queue per price", TE+"orderbook/level.rs")],
 BFS,
 "Breadth-first search over all operation sequences on the real OrderBook from the empty book, deduplicated on the canonical book contents, closed under the bound on resting orders and quantities; each step's trades, result and full queue contents are compared with a BTreeMap-of-FIFO reference. Data values outside the small price/quantity alphabet are not covered.",
 ["OrderBook methods' results", "resting orders per level"])

prop("T02", "Order book internal consistency after every history",
 "After any history of operations, everything the book and each level of it reports agrees with the orders resting there: best bid and ask, quantity and order count per level, total quantity per side, lookup of an order by id, the level snapshots and the printed ladder. No level without orders and no order with zero quantity remains, and an id that left the book (filled, cancelled, replaced) can no longer be found.",
 ["histories"], "every sequence of public order-book operations, including snapshot updates and decompositions, from the empty book",
 "Totals, best prices and the id index are cached separately from the queues; the tests look at a few of them after a few histories.",
 [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs", TE+"orderbook/level.rs", TE+"data/quote.rs"],
 [("cached totals, best price, id index", TE+"orderbook/half_book.rs"), ("level snapshots", TE+"orderbook/mod.rs")],
 BFS,
 "Same exploration as T01 with more operations (raw inserts, removals, snapshots, wrong-id requests); in every state all derived data are recomputed from the reference contents and compared.")

prop("T03", "Snapshot synchronisation and order decomposition",
 "Applying a market-data snapshot (quote or trade-with-quote form) in place to a book kept from snapshots leaves a book whose levels are exactly the snapshot's, whatever levels it held before; a snapshot of another instrument is refused. Decomposing a snapshot yields one insertion or removal for each price whose quantity changed, and applying them brings any book to the snapshot's levels. Levels with zero quantity and levels beyond the configured number of levels never enter the book.",
 ["histories", "inputs"], "every pair of small snapshots, with any single intervening book operation, for quote and trade-with-quote snapshots, direct update and decomposition",
 "The tests replay a recorded feed that never shrinks, crosses or empties a side in most ways two snapshots can differ.",
 [TE+"orderbook/mod.rs", TE+"orderbook/half_book.rs", TE+"data/quote.rs", TE+"data/trade_quote.rs", TE+"types/base.rs"],
 [("in-place update", TE+"orderbook/half_book.rs update_l2_snapshot"), ("decomposition", TE+"orderbook/mod.rs decomposed_orders*")],
 "exhaustive enumeration of snapshot pairs and intervening operations on the real code against a reference model",
 "All ordered pairs from a menu of snapshots (0-2 levels a side over 3 prices, 2 sizes), in 4 delivery forms, each after each of 9 intervening operations. In-place updates assume one order per level, as the code documents.")

ENUM = "exhaustive enumeration of the stated input space on the real code against a reference model"

prop("T04", "Fixed-width numeric fields decode and encode exactly",
 "A numeric field of the exchange format (optional sign, unused leading characters, digits, optional decimal point and decimals, kept or dropped) decodes to exactly the integer its digits spell, whatever bytes stand before, after or in the unused positions, through the checked and the unchecked conversions and the digit parsers they are built on. Its normalized real value is that integer divided by the configured power of ten. Unusable layouts are refused, and a stored converter configuration reads back as the same converter.",
 ["inputs"], "every field layout up to 18 digits and every digit position in it, with arbitrary surrounding bytes",
 "The parsers are word-at-a-time bit tricks with one branch per length class; the tests try one or two numbers per class.",
 [TE+"utils/numeric_converter.rs", TE+"data/krx/krx_converter.rs"],
 [("digit parsers", TE+"utils/numeric_converter.rs parse_under8/16/32"), ("field layout", TE+"utils/numeric_converter.rs IntegerConverter")],
 ENUM,
 "All layouts (sign, unused, digits, decimals, dropped point) with every single-digit value, pairs of digits, all-nines, ascending patterns and all 1-6 digit numbers, each with three kinds of surrounding bytes. Numbers with more than two independent non-zero digits are covered by patterns only.")

prop("T05", "Exchange times of a feed become the right instants across midnight",
 "Replaying a feed whose messages carry only the local time of day, every message is stamped with the instant it happened: the feed's date, plus the configured offset, plus exactly the hours, minutes, seconds and microseconds of the text. When the time of day drops because midnight passed, the date moves on by exactly one day, and messages delivered out of order within a day do not move it. A date that lags behind the remembered stamp catches up by whole days.",
 ["histories", "inputs"], "every feed with silent gaps of at most nine hours, from any starting time of day, and every time of day to the microsecond digit",
 "The tests parse a few times of day with one roll-over; whether the date drifts depends on the whole history of gaps.",
 [TE+"utils/numeric_converter.rs", TE+"types/timestamp.rs"],
 [("roll-over rule", TE+"utils/numeric_converter.rs parse_hhmmssuuuuuu"), ("date generator", TE+"types/timestamp.rs DateUnixNanoGenerator")],
 ENUM,
 "All gap sequences of 5 (thorough 6) steps over 8 gap lengths from 12 starting times, out-of-order sequences, every second of a day with 16 microsecond values. Gaps longer than nine hours are outside the statement (the exchange text cannot tell them apart).",
 ["TimeStamp returned", "DateUnixNanoGenerator's date and previous stamp"])

prop("T06", "KRX messages decode to exactly the fields they carry",
 "Decoding a KRX quote, trade or trade-with-quote message yields exactly the instrument, time, trade and, for each requested level, the prices, quantities, order counts and liquidity-provider quantities at their place in the message, with the price notation of that market and instrument. Decoding into a reused buffer gives the same result whatever message it held before. Payloads of a wrong length, end marker or ISIN and buffers with too few levels are refused with an error and leave the buffer untouched.",
 ["inputs", "histories"], "every message kind, level cut, price notation and field value, every sequence of messages decoded into one buffer, every wrong length or end byte",
 "The decoders are unrolled by hand per level and duplicated for the buffer forms; the tests decode a few recorded messages, and the stock decoders are not tested at all.",
 [TE+"data/krx/derivative_quote.rs", TE+"data/krx/derivative_trade.rs", TE+"data/krx/stock_quote.rs", TE+"data/krx/unroll_macro.rs", TE+"data/krx/krx_converter.rs", TE+"data/checker.rs", TE+"data/krx/interface_map.rs"],
 [("unrolled level decoding", TE+"data/krx/unroll_macro.rs"), ("payload checks", TE+"data/checker.rs"), ("price notation", TE+"data/krx/krx_converter.rs get_krx_derivative_converter")],
 ENUM,
 "7 message kinds x all level cuts x price notations x value patterns, every single digit of every field, all ordered triples of messages through one buffer, all wrong lengths up to 40 bytes too long and all end bytes. Payloads of the right shape whose numeric fields are not digits are not covered.")

prop("T07", "Instants convert to the right calendar date, time text and differences",
 "A nanosecond instant converts to the calendar date and time of day, down to the nanosecond, that it has at the given whole-hour offset from UTC, on every day and across month, year and leap-year ends. The hour, minute, second and millisecond components agree with it, and the difference of two instants in any unit is exact.",
 ["inputs"], "every day the 64-bit nanosecond range can express, offsets from -12 to +14 hours, local times from 1970 on",
 "There is no test of the conversion at all; log files get their date from it.",
 [TE+"utils/timer.rs", TE+"types/timestamp.rs"],
 [("date and time text", TE+"utils/timer.rs convert_unix_nano_to_date_and_time"), ("differences", TE+"types/timestamp.rs diff_in_*")],
 ENUM,
 "Every one of the 213 503 days; all 27 offsets and 33 times of day around month ends, a third of the offsets and 3 times of day elsewhere; every second of one day.")

prop("T08", "Streaming features equal their definitions after every update",
 "After any sequence of updates an exponentially weighted average or sum equals its definition, every value weighted by its age in the configured time unit. Quote features built from a snapshot or updated in place hold exactly that snapshot's levels in normalized units, times and converter, with best, mid and volume-weighted prices computed from the levels that have quantity. Order-flow imbalances, plain and logarithmic, follow the price-up, same and down rule for each side and are always finite, and impossible levels are refused.",
 ["histories", "inputs"], "every sequence of updates and every pair of consecutive quotes",
 "The tests compute a few imbalances and a single weight; ageing over several updates and stale state after in-place updates need histories.",
 [TE+"feature/tick.rs", TE+"feature/weight.rs", TE+"feature/weighted_valuation.rs"],
 [("ageing", TE+"feature/weighted_valuation.rs update"), ("in-place update", TE+"feature/tick.rs update_*_snapshot"), ("imbalance", TE+"feature/tick.rs get_*_orderflow_imbalance")],
 ENUM,
 "All sequences of 4 (thorough 5) weighted updates over 20 value/interval pairs, 6 weights, 6 units; all pairs of two-level quotes from a menu of 24 per side, in both snapshot forms and three price notations. The volume-weighted price is claimed only when the ask side has quantity.")

prop("T09", "Identifiers and small value types keep what they were given",
 "ISIN codes and tickers accept exactly the texts that fit and read back as that text; instrument ids made from equal data are equal, hash alike and find each other in maps however and in whatever order they were made (constructor or deserialization), and ids of different data never do. Currencies, venues, sides and trade types map to and from their codes, virtual order ids count up, trade histories average by quantity, and orders survive serialization unchanged.",
 ["inputs", "histories"], "every byte at every position of an ISIN, every ticker length, every pair of ids, every enum code",
 "Everything else is keyed by these ids; the tests intern three of them.",
 [TE+"types/id/mod.rs", TE+"types/id/isin_code.rs", TE+"types/id/ticker.rs", TE+"types/enums.rs", TE+"types/base.rs", TE+"types/inst_info.rs", TE+"data/order.rs"],
 [("interning", TE+"types/id/mod.rs InstId::new")],
 ENUM,
 "All single-byte substitutions in three ISINs, all lengths, all pairs of 70 ids made three ways, all byte codes of the enums, all trade histories of up to 3 trades from a menu of 12.")

prop("T10", "UDP messages arrive whole",
 "A text sent with the UDP client reaches the peer as one datagram with exactly its bytes, and a response of any length a datagram can carry is returned whole. Messages stay separate and in order of arrival.",
 ["inputs"], "every message length from 0 to 65507 bytes, one-byte and multi-byte text",
 "The test exchanges one short message; truncation depends on the length.",
 [TE+"communication/udp_client.rs"],
 [("send and receive", TE+"communication/udp_client.rs")],
 "exhaustive enumeration of the message lengths on the real code over the loopback interface",
 "Quick: all lengths up to 4200 and every 61st above; thorough: all 65508 lengths. One datagram in flight at a time; a lossy network is outside the statement.")

SCHED = "stateless exploration of all thread interleavings of the real code under a controlled scheduler, with release/acquire memory and data-race detection"
MEM = "The unmodified sources are compiled against replacement std::sync/once_cell/crossbeam-channel crates. Loads may return any value release/acquire order allows; stores to one location take effect in execution order. "

prop("C01", "Spin queue hands every update to every worker exactly once, without races",
 "Under every interleaving, each registered worker sees every update the producer publishes exactly once, in order and completely written, and the producer is let in again only when all registered workers have reported their work done. Producer and workers never access the data at the same time under the memory ordering the code asks for, and a worker's report clears nobody's bit but its own. Worker ids above the bound and duplicate ids are refused, and a default queue owns default data.",
 ["schedules", "histories"], "every schedule of one producer and up to 5 workers over up to 6 updates, every worker set of 3",
 "The test walks through one round in a single thread; the guarantee is about interleavings and memory order.",
 [TE+"spinqueue.rs"],
 [("status word protocol", TE+"spinqueue.rs get/get_mut/notify_all_workers/work_done")],
 SCHED,
 MEM+"All interleavings without bound (sleep sets, fruitless polls cut) for 1x4, 2x4, 3x2 and 4x1 workers x updates, thorough up to 2x6, 3x3, 5x1.")

prop("C02", "Counters hand out unique, consecutive numbers and stop at their end",
 "However many threads draw from a counter, every number is given out at most once, the numbers given out are consecutive from the start, and each thread sees increasing numbers. A bounded counter gives out exactly its range including both ends and refuses ever after, also at the top of the integer type.",
 ["schedules", "inputs"], "every schedule of 2-4 threads drawing up to 4 numbers each, every small range at the bottom and at the top of the type",
 "The tests draw many numbers in a few runs and check the total; lost or repeated numbers need particular interleavings.",
 [TE+"utils/counter.rs"],
 [("fetch_add and bound", TE+"utils/counter.rs next")],
 SCHED, MEM+"All interleavings without bound.")

prop("C03", "Instrument ids are interned once under any interleaving",
 "When several threads make instrument ids at the same time, by constructor, deserialization or default, no thread blocks forever or panics, each id holds the data it was made from, and ids are equal, hash alike and find each other in maps exactly when their data are equal, also those made later.",
 ["schedules"], "every schedule of 2-3 threads making up to two ids each in every combination of ways and equal or different data, starting from an empty cache",
 "The tests intern ids from one thread at a time; the cache and the default id initialise each other lazily under a lock.",
 [TE+"types/id/mod.rs"],
 [("cache", TE+"types/id/mod.rs ID_CACHE, DEFAULT_ID_PTR, InstId::new, InstId::deserialize")],
 SCHED, MEM+"All interleavings without bound for 2x2 and 3x1 ids; thorough also 3 threads with at most 3 preemptions.")

prop("C04", "Log messages are written exactly once, in order, and never break the program",
 "Every enabled message logged between launch and shutdown, or before the launch once its level is configured, is written to the file exactly once as one line with its own level, time of logging and data, in the order of its thread, whatever the other threads do and however long the writer takes; disabled messages are not. Once the writer is idle a flushing message and everything its thread logged before it is in the file without waiting for the shutdown. Logging during or after the shutdown, without a file or with a full disk neither panics nor blocks.",
 ["schedules", "faults", "histories"], "every schedule within the preemption bound of up to 4 logging threads and the writer, every pattern of delays across the flush interval, every failing write",
 "The test logs a few lines from one thread and asserts nothing; loss, duplication and reordering depend on interleaving, timing and faults.",
 [TE+"logger.rs"],
 [("writer thread", TE+"logger.rs LOG_SENDER"), ("macros", TE+"logger.rs log_fn_json, flushing_log_fn_json"), ("shutdown", TE+"logger.rs LoggerGuard, Logger::finalize")],
 SCHED,
 MEM+"About 110 scenarios with at most 3 (thorough 4) preemptions each, 2 (3) for the widest; the file system is in memory and fails on demand, time passes only where the scenario lets it. Console output is not checked.")

prop("C05", "Lazy strings are computed once and read the same by all",
 "However many threads read or serialize a lazy string at the same time, its initialiser runs exactly once, not before the first read, and every reader gets the same text and is ordered after the initialiser. Serializing and deserializing gives the same text.",
 ["schedules"], "every schedule of 2-4 concurrent readers, by dereference or serialization",
 "The test reads one from a single thread.",
 [TE+"utils/lazy_string.rs"],
 [("one-time initialisation", TE+"utils/lazy_string.rs deref")],
 SCHED, MEM+"All interleavings without bound.")

prop("C06", "The process clock never runs backwards and measures intervals exactly",
 "Whichever threads ask for the time first and however their requests interleave, a time told after another is never smaller, also across threads. The clock is off the system time by no more than what passed while it was being set up, and the difference of two readings is exactly the time that passed.",
 ["schedules"], "every schedule within the bound of 1-3 threads asking for the time up to 3 times while time passes in steps of 0, 1 ns or 5 s",
 "The clock is anchored lazily in three steps that several threads can interleave; the tests time a few calls.",
 [TE+"utils/timer.rs", TE+"types/timestamp.rs"],
 [("lazy anchors", TE+"utils/timer.rs get_unix_nano")],
 SCHED, MEM+"System clock and cycle counter are virtual. At most 4 preemptions for 2x1 (thorough 2x2, 3x1), 2 for the larger ones.")

prop("Q01", "Business days: status and adjustment in every calendar",
 "For every calendar, and every joint calendar made of several, a date (read as written, in its own offset) is a business day exactly when it is neither a weekend nor a holiday of any member, holidays added by the user counting and removed ones not, also after storing and reloading the calendar. Adjusting moves a date to the nearest business day the convention asks for, by whole days only, and turns around at the month end under the modified conventions. Unusable requests (the Dummy convention, an empty joint calendar, editing a joint calendar) are refused.",
 ["inputs", "histories"], "every calendar and joint calendar, every date of the supported range, every convention, sets of added and removed holidays",
 "The tests adjust a handful of dates; the conventions differ only around runs of holidays and month ends.",
 [QL+"time/calendar.rs", QL+"time/calendar_trait.rs", QL+"time/jointcalendar.rs", QL+"time/holiday.rs"],
 [("adjustment", QL+"time/calendar_trait.rs adjust"), ("joint calendars", QL+"time/jointcalendar.rs")],
 ENUM,
 "Every day of the supported years in every single calendar, joint calendars of 0-3 members, six conventions, offsets -12 to +14 at times around midnight; the holiday rule is an independent table (Q02).")

prop("Q02", "Public holidays of every calendar",
 "Every calendar names exactly the public holidays of its rules: Korea's solar and lunar holidays and the exchange's year-end closing, the five United States calendars with their observed days, Thanksgiving, Good Friday and historical closings, and the Western and Orthodox Good Friday and Easter Monday of every year follow from the computed date of Easter.",
 ["inputs"], "every day of 1951-2050 (Korea) and 1901-2199 (other calendars)",
 "The tests look at a few dates of two years; tables of 300 years of Easter dates can be wrong anywhere.",
 [QL+"time/calendars/southkorea.rs", QL+"time/calendars/unitedstates.rs", QL+"time/calendar_trait.rs", QL+"time/calendar.rs"],
 [("holiday rules", QL+"time/calendars/"), ("Easter tables", QL+"time/calendar_trait.rs")],
 ENUM,
 "Every day of the range in every calendar against independent rules: computus for both churches, the lunar calendar by its own table, weekday rules. Ad hoc closings are taken from the sources' list.")

prop("Q03", "Day counts and year fractions",
 "The number of days and the year fraction between two dates follow the definition of each day-count convention, the time difference between two instants is the exact number of calendar years between them, leap years and month lengths are those of the Gregorian calendar. An end before the start and the Dummy convention are refused.",
 ["inputs"], "every pair of dates within the spans explored, every convention",
 "The tests compute one or two fractions a convention; month-end and leap-year rules need every pair of days.",
 [QL+"time/conventions.rs", QL+"definitions.rs", QL+"time/calendar_trait.rs"],
 [("day counts", QL+"time/calendar_trait.rs year_fraction/day_count_fraction")],
 ENUM,
 "46 million pairs: all pairs of days in spans around leap and century years plus longer distances. 30/360 from the 30th to the 31st is not claimed (street variants differ); actual/actual agrees within a hundredth of a day.")

prop("Q04", "Period texts move dates by exactly what they say",
 "Adding or subtracting a period text (years, months, weeks, days, hours, minutes, seconds, in any combination) moves a date or date-time by exactly those parts from left to right, months keeping the day of month or falling back to the last day; evaluation dates move likewise, the rough length of a period and the frequencies' texts agree with it, and text that names no period is refused.",
 ["inputs"], "every period of one or two parts and combinations of all seven, every start date over month, year and leap-year ends",
 "The tests move a few dates; a wrong year needs a particular month and a particular number of months.",
 [QL+"utils/string_arithmetic.rs", QL+"evaluation_date.rs", QL+"time/conventions.rs"],
 [("period arithmetic", QL+"utils/string_arithmetic.rs add_period/sub_period/add_period_date/sub_period_date")],
 ENUM,
 "All single parts up to several years, all ordered pairs of parts from a menu and all seven together, from every day of leap and common years, for date-times in several offsets and dates. One known finding (an existing test enshrines it): dates minus months that reach past the previous year.")

prop("Q05", "Payment schedules tile the life of an instrument",
 "The schedule built between an effective date and a maturity has periods that follow one another without gap or overlap from the first to the last date, each boundary on its adjusted roll date, each fixing the given number of days before its period and each payment the given gap after it, adjusted; the last period ends and pays on maturity. Negative gaps and periods of no length are refused.",
 ["inputs"], "every frequency, length, start day, gap, convention and calendar in the menu",
 "The tests print one schedule; stub periods and month-end rolls differ with every start day.",
 [QL+"instruments/schedule.rs"],
 [("schedule builder", QL+"instruments/schedule.rs build_schedule")],
 ENUM,
 "All start days of two years x all lengths x frequencies x conventions x gaps in the menu against an independent builder. The frequency None is excluded.")

prop("Q06", "Interpolation passes through its knots and extrapolates as configured",
 "Index search finds the same bracket one at a time and vectorised, linear interpolation passes through every knot and is straight between, step-wise interpolation is constant between knots, bilinear interpolation is linear along each axis; outside the knots the configured rule applies (flat, straight on, given values, or refused). Unsorted or mismatched knots are refused, and scalar and vectorised forms agree.",
 ["inputs"], "every small set of knots, every query at, between and outside the knots, every extrapolation setting",
 "The tests interpolate on one grid; the edges (last knot, single knot, vectorised search order) are special cases.",
 [QL+"math/interpolators/linear_interpolator.rs", QL+"math/interpolators/stepwise_interpolatior.rs", QL+"math/interpolators/bilinear_interpolator.rs", QL+"utils/find_index.rs"],
 [("search", QL+"utils/find_index.rs"), ("interpolators", QL+"math/interpolators/")],
 ENUM,
 "All subsets of a knot grid with several value patterns, all query points on a finer grid and all short query vectors, compared with exact f64 definitions (tolerance 1e-5). Knots strictly increasing.")

prop("Q18", "Value distribution and Cholesky factorisation",
 "Distributing a value over neighbouring points of an axis keeps its total and its position. The Cholesky factor of a positive definite matrix is lower triangular and multiplies back to the matrix, others are refused.",
 ["inputs"], "every small axis and position, every small matrix from an alphabet of entries",
 "The test factors one matrix.",
 [QL+"utils/distribute_value.rs", QL+"math/cholescky_factorization.rs"],
 [("factorisation", QL+"math/cholescky_factorization.rs")],
 ENUM,
 "All symmetric 1x1 to 4x4 matrices over a small alphabet, all positions on axes of up to 5 points.")

prop("Q07", "Zero curves discount, give forward rates and bump consistently",
 "A curve built from market data has at each of its tenors the discount factor exp(-rate x time) of the interpolated rate, 1 at the evaluation date, joined linearly in between, and the same for times, vectors of times and dates counted from the current evaluation date. Forward rates and factors between two times are those the factors imply, also over an empty interval; bumps of a time or date interval raise exactly the tenors in it, however many are applied and also after the evaluation date moved. Dates in the past, times out of order or beyond the last tenor and mismatched data are refused.",
 ["inputs", "histories"], "every sequence of bumps and date moves up to the bound, every curve in the menu, every tenor and point between",
 "The test checks six points of one curve, without absolute values; bump boundaries, year ends and empty intervals are special cases.",
 [QL+"parameters/zero_curve.rs", QL+"data/vector_data.rs", QL+"time/calendar_trait.rs", QL+"math/interpolators/linear_interpolator.rs"],
 [("cached factors", QL+"parameters/zero_curve.rs new"), ("bumps", QL+"parameters/zero_curve.rs bump_time_interval/bump_date_interval"), ("forward rates", QL+"parameters/zero_curve.rs get_forward_rate_between_times")],
 "exhaustive exploration of bump and date-move histories on the real code against a reference model",
 "All histories of 2 (thorough 3) steps from 11 on 9 curves at 4 (10) evaluation dates, all observations after each; curves from dated data on 60 (800) market dates. One known finding (an existing test enshrines it): the simple forward rate is on a discount basis. Tolerances are a few units of single precision.")

prop("Q08", "Dividends are deducted once, over the right days, whatever the date",
 "The deduction ratio to a date is the product of one minus each dividend over the spot, over the ex-dates strictly after the evaluation date and up to and including that date, wherever the evaluation date moves. A spot price that follows the evaluation date is deducted as the date moves forward over ex-dates and restored as it moves back, so that every dividend is taken out exactly once, in the spot or in the ratio; a price without dividends stays. A bump in a date interval changes exactly the amounts inside it, and undated or empty dividends are refused.",
 ["inputs", "histories"], "every sequence of evaluation-date moves (both ways, onto and past ex-dates), bumps and spot changes up to the bound, on every dividend stream in the menu",
 "The test uses one stream and one date move; whether a dividend is counted twice, or not at all, depends on the history of dates.",
 [QL+"parameters/discrete_ratio_dividend.rs", QL+"parameters/market_price.rs", QL+"evaluation_date.rs"],
 [("ratio and interpolation", QL+"parameters/discrete_ratio_dividend.rs"), ("spot deduction", QL+"parameters/market_price.rs update_evaluation_date"), ("observers", QL+"evaluation_date.rs")],
 "exhaustive exploration of date-move and bump histories on the real code against a reference model",
 "All histories of 3 (thorough 4) steps from 17 operations on 5 dividend streams and 2 starting dates, every ratio and price compared after each step (tolerance a few units of single precision).")

prop("Q09", "Volatility surfaces reproduce their data, axes and bumps",
 "A volatility surface has at every tenor and moneyness of its grid the volatility of the market data it was built from, interpolated linearly in both directions between and flat outside; moneyness is the strike over the forward price of that maturity. A bump of a time and moneyness interval raises exactly the grid points in it, before and after the evaluation date moves. Total variance and total deviation are volatility squared times time and its root; a constant volatility is the same everywhere; inconsistent data are refused.",
 ["inputs", "histories"], "every sequence of bumps and date moves up to the bound on every surface in the menu, every grid point and point between",
 "The tests look at single points of one surface; the axis conversions, interval edges and date moves multiply.",
 [QL+"parameters/volatilities/local_volatility_surface.rs", QL+"parameters/volatilities/constant_volatility.rs", QL+"parameters/volatility.rs"],
 [("grid, axes and bumps", QL+"parameters/volatilities/local_volatility_surface.rs"), ("constant volatility", QL+"parameters/volatilities/constant_volatility.rs")],
 "exhaustive exploration of bump and date-move histories on the real code against a reference model",
 "All histories of 2 (thorough 3) steps from 12 operations on every surface of the menu, several hundred points compared after each. The construction of a local volatility from option prices is not part of it.")

prop("Q10", "Currencies, stored instruments and daily prices keep their meaning",
 "A currency or currency pair is read from its own name only, and the reciprocal of a pair is the pair the other way round. A currency, currency pair, instrument, market datum, setting or result that is stored as JSON and read back is the same in everything it answers, cash flows included; an instrument reports the identity it was given and the currency pairs and underlyings it needs for pricing. A daily series answers with the last value put in for a day, and the close at an instant is that of its local day, or of the next business day once that day's close has passed.",
 ["inputs", "histories"], "every pair of currencies, all texts of three letters, every kind and combination of instrument in the menus, every sequence of insertions up to the bound, every day and boundary second in the years checked",
 "The tests store one sample of a few instruments; a swapped field, a currency read as another, or a close taken from the wrong day shows only for some.",
 [QL+"currency.rs", QL+"instrument.rs", QL+"instruments/bond.rs", QL+"instruments/vanilla_option.rs", QL+"instruments/fx_futures.rs", QL+"instruments/cash.rs", QL+"instruments/stock.rs", QL+"data/daily_value_data.rs", QL+"data/vector_data.rs", QL+"parameters/past_price.rs", QL+"pricing_engines/calculation_configuration.rs"],
 [("currencies", QL+"currency.rs"), ("stored form", QL+"instruments/*.rs, "+QL+"currency.rs, "+QL+"pricing_engines/calculation_result.rs"), ("close of a day", QL+"parameters/past_price.rs get_at_datetime, "+QL+"data/daily_value_data.rs")],
 ENUM,
 "47x47 currency pairs, 17576 texts, all combinations in the instrument menus, all histories of 3 (thorough 4) operations from 16 on a series, all days of 2 (10) years on 6 calendars. Storing a daily series keyed by dates as JSON is refused by the library and not claimed.")

prop("Q11", "Bonds and swaps pay the cash flows their terms say",
 "On every payment date on or after the pricing date a bond or swap leg pays, summed where dates coincide, accrual fraction times coupon (the fixed coupon; for floating ones the past fixing before the pricing date, else the index's forward rate, plus spread, compounded over the compounding tenor; given amounts as given), principal at maturity unless stripped. Each swap leg pays its own exchanges and coupons on its own initial notional at every pricing date. What kind of swap it is follows from what is given, otherwise it is refused, and a bond has exactly one kind of coupon.",
 ["inputs"], "every combination of terms (frequency, convention, day count, gaps, direction, coupon kind, compounding, spread, exchanges) with every position of the pricing date in the schedule",
 "The tests print a few coupons and check two swaps; which fixing, notional or date a coupon takes depends on where the pricing date falls.",
 [QL+"instruments/bond.rs", QL+"instruments/plain_swap.rs", QL+"instruments/schedule.rs", QL+"parameters/rate_index.rs", QL+"parameters/past_price.rs"],
 [("bond flows", QL+"instruments/bond.rs get_coupon_cashflow"), ("swap flows", QL+"instruments/plain_swap.rs"), ("schedule amounts", QL+"instruments/schedule.rs"), ("floating rates", QL+"parameters/rate_index.rs")],
 ENUM,
 "All combinations in the menus of terms, at pricing dates before, between, on and after every payment date, from given schedules and from conventions, against an independent computation in f64. Overnight coupons in the future are the documented approximation; the simple forward rate is taken as the code computes it (Q07's known finding).")

prop("Q15", "Pricers agree with their definitions, flows and currency exposures",
 "A futures is worth spot times borrowing over collateral discount times dividend ratio; an exchange-rate futures, spot times the ratio of discount factors; a European option, the discounted Black value on the forward (adjusted for correlation with the exchange rate when paid in another currency, refused without), also without volatility or time; a bond or swap, the sum of flows after the pricing day times discount factors, each leg in its currency. The reported flows are those from the pricing day on, summed per date; the exposure per currency is the value held in it times the unit notional. All follow the market as it changes.",
 ["inputs", "histories"], "every market in the menu after every short history of date moves, rate bumps and price changes, for every instrument in the menu",
 "The tests check one number per pricer on one market; quanto, expiry-day, coinciding-flow and date cases are each one branch.",
 [QL+"pricing_engines/futures_pricer.rs", QL+"pricing_engines/fx_futures_pricer.rs", QL+"pricing_engines/option_analytic_pricer.rs", QL+"pricing_engines/bond_pricer.rs", QL+"pricing_engines/plain_swap_pricer.rs", QL+"pricing_engines/npv_result.rs", QL+"pricing_engines/pricer.rs"],
 [("prices", QL+"pricing_engines/*_pricer.rs npv/npv_result"), ("exposures", QL+"pricing_engines/*_pricer.rs fx_exposure"), ("flows", QL+"pricing_engines/npv_result.rs get_expected_coupon_amount")],
 "exhaustive exploration of market histories on the real code against a reference model",
 "All menus of markets x histories up to 2 (thorough 3) steps x instruments; references in f64, tolerances a few units of single precision of the summed terms. Cash flows themselves are Q11, volatilities Q09. One known finding (an existing test enshrines it): exposures of exchange-rate futures leave out the unit notional.")

prop("Q16", "Bond yields and prices invert each other; treasury bond futures",
 "The price of a bond at a yield follows the exchange's formula: flows after the pricing day discounted by whole periods from the first of them, simple interest over the rest of the current period. Finding the yield for a price returns one that gives the price back, whatever the first guess, and is refused when there is none. A treasury bond futures is worth its virtual bond at the average yield of the underlying bonds' forward prices, times the borrowing factor; underlying bonds must be priced on its maturity.",
 ["inputs"], "every bond in the menu (frequency, age, length, coupon kind), every position of the pricing date, yield and first guess; every set of underlying bonds",
 "The test inverts one price; a root search fails for particular bonds, prices and guesses.",
 [QL+"pricing_engines/krx_yield_pricer.rs", QL+"pricing_engines/ktbf_pricer.rs", QL+"instruments/ktbf.rs"],
 [("price and yield", QL+"pricing_engines/krx_yield_pricer.rs"), ("futures", QL+"pricing_engines/ktbf_pricer.rs, "+QL+"instruments/ktbf.rs")],
 ENUM,
 "All combinations in the menus against an f64 reference; a found yield must reprice the bond within single-precision noise. Annual to monthly frequencies.")

prop("Q12", "Instruments are selected and matched with the market data named for them",
 "A collection of instruments names every instrument once, and its selections (by currency, type, underlying, curve used, matured on or before a moment) and its shortest and longest maturities are exactly those of its members. Each instrument is matched to the discount, forward, collateral, borrowing, cross-currency and floating curves that the rules name for its underlying, currency, issuer, rating or index, is refused when a rule it needs is missing (a bond gets no discount curve), and gets none in a role it does not have. An engine refuses a set that is empty or holds an instrument already matured.",
 ["inputs"], "every list of instruments up to the bound, every subset of the matching rules, every moment around each maturity",
 "The tests match a handful of instruments with one set of rules; a rule taken from the wrong map or an instrument left out shows only for some.",
 [QL+"instrument.rs", QL+"pricing_engines/match_parameter.rs", QL+"pricing_engines/engine.rs", QL+"instruments/plain_swap.rs"],
 [("selections", QL+"instrument.rs Instruments"), ("curve names", QL+"pricing_engines/match_parameter.rs"), ("refusals", QL+"pricing_engines/engine.rs with_instruments")],
 ENUM,
 "All lists up to 3 (thorough 4) of the instrument menu, all 2^13 subsets of rule entries for every instrument, moments one second either side of every maturity.")

prop("Q13", "Engine risk measures equal revaluation on a market moved by the bump",
 "The value, exposures and cash flows an engine reports for an instrument are those of pricing it alone on its market. Each sensitivity (delta, gamma, vega, rho, dividend delta, theta, the vega, rho and dividend structures by tenor, the vega matrix) is the change of value when only that input is moved by the set bump, per unit of the bump, for exactly the instruments that depend on it. Calculating a measure leaves the market as it was, so results do not depend on which other measures, instruments or earlier calculations there are, or on their order.",
 ["inputs", "histories"], "every set of instruments up to the bound, every choice of measures, every sequence of measure calculations up to the bound",
 "The examples print numbers of one portfolio; a bump left in place, applied to the wrong underlying or shared between measures shows only in a combination.",
 [QL+"pricing_engines/engine.rs", QL+"pricing_engines/calculation_result.rs", QL+"pricing_engines/calculation_configuration.rs", QL+"pricing_engines/pricer_factory.rs", QL+"parameters/zero_curve.rs", QL+"parameters/discrete_ratio_dividend.rs"],
 [("measures", QL+"pricing_engines/engine.rs set_*"), ("pricers", QL+"pricing_engines/pricer_factory.rs"), ("bumps", QL+"parameters/*.rs bump_*")],
 "exhaustive exploration of sequences of engine operations on the real code against an independent revaluation on a fresh market",
 "All instrument sets up to 2 (thorough 3), all 1024 choices of measures, all sequences of 3 (4) of 10 operations, 2 (4) markets. Tolerance a few units of single precision of the repriced values over the bump. A gamma without delta, theta past a maturity and rho beyond the last tenor are taken as the code documents.")

prop("Q14", "A portfolio split over engines gives what each instrument gives alone",
 "Every instrument goes to the engine of the first category that contains it, by its type, currency and underlying, and to no other; a portfolio with an instrument that no category contains is refused. Whatever the categories, grouping, number of instruments and order of operations, the results collected from all engines are, instrument by instrument, those of an engine with that instrument alone, each reported once; the market data in force at the calculation are those given last.",
 ["inputs", "histories"], "every sequence of categories up to the bound, every set of instruments up to the bound, every history of generator operations up to the bound",
 "The example builds one fixed list of categories; overlap, order, an uncovered instrument and repeated distribution are never sampled.",
 [QL+"pricing_engines/engine_generator.rs", QL+"pricing_engines/engine.rs", QL+"instrument.rs"],
 [("categories", QL+"pricing_engines/engine_generator.rs InstrumentCategory"), ("distribution", QL+"pricing_engines/engine_generator.rs distribute_instruments"), ("calculation", QL+"pricing_engines/engine_generator.rs calculate")],
 "exhaustive enumeration of category sequences and operation histories on the real code against a reference assignment and stand-alone engines",
 "All sequences up to 3 of the 24 distinct behaviours of 100 categories, every resulting grouping calculated; sets of 2 (thorough 4) per type; histories of 3 (5) of 10 operations followed by distribution and calculation.")

prop("Q17", "Results keep what was set, convert and store it unchanged",
 "A calculation result answers every measure with what was last set for it, and setting one measure changes no other. Converting its representation currency multiplies each measure by the rate given, once, and all are shown under their names with thousands separators; stored as JSON and read back it is the same (cash flows excepted, which are not stored). The expected flows of a price result are amount times probability, added up by date, and adding or scaling results does so for each part.",
 ["histories", "inputs"], "every sequence of setters, conversions and stores up to the bound from an empty and a full result; every combination of flows in the menu",
 "The tests set one or two fields; a setter writing another field, or a conversion leaving a measure behind, is one case among many.",
 [QL+"pricing_engines/calculation_result.rs", QL+"pricing_engines/npv_result.rs", QL+"utils/string_arithmetic.rs", QL+"utils/number_format.rs"],
 [("setters and conversion", QL+"pricing_engines/calculation_result.rs"), ("flows", QL+"pricing_engines/npv_result.rs"), ("number text", QL+"utils/number_format.rs")],
 BFS,
 "All histories of depth 3 (thorough 4) from 34 operations. Converting the representation currency leaves the detailed price result in its own currency, as the code does; cash flows are not stored by design.")

prop("Q19", "An engine prices with complete data and refuses when any is missing",
 "When a piece of market data or a matching rule that an instrument needs is missing, preparing the engine is refused rather than priced with something else; when nothing needed is missing, what else is absent makes no difference to the result. Missing dividends mean none.",
 ["inputs"], "every removal of up to the bound many of the market data and matching entries, for each instrument alone and for all together",
 "The tests give complete data; which of the many absences is noticed is different for every instrument.",
 [QL+"pricing_engines/engine.rs", QL+"pricing_engines/pricer_factory.rs", QL+"pricing_engines/match_parameter.rs"],
 [("loading of data", QL+"pricing_engines/engine.rs with_parameter_data"), ("pricers", QL+"pricing_engines/pricer_factory.rs")],
 ENUM,
 "All removals of up to 2 (thorough 3) of about 34 entries, each instrument alone and all together, against a table of what each kind of instrument needs by its definition.")

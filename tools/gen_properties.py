#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to diff)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

ACC="base/account.cc"; ACH="base/account.h"
prop("A01","Account balances never go negative",
 "Starting from non-negative balances, executing any finite sequence of valid orders over valid ticks never makes the base balance, the quote balance or the accumulated fee negative. This holds for every order kind, amount, fee schedule, liquidity and currency granularity.",
 ["inputs","histories","configurations"],"all accounts with non-negative balances, all valid orders, valid ticks (positive prices, low<=open,close<=high, volume>=0), fee configurations with non-negative terms, any sequence of orders",
 "account_test samples a few dozen order/tick pairs; the bound has to hold for every amount, price and float rounding, after every history of orders.",
 [ACC,ACH],[("affordability guards before every balance update","base/account.cc BuyBase/SellBase")],
 [("base_balance","base currency held","base/account.h"),("quote_balance","quote currency held","base/account.h"),("total_fee","fees paid so far","base/account.h")],["Account fields","ExecutionResult"])
prop("A02","Rejected orders have no effect; executed orders touch balances and fee only",
 "When executing an order reports failure, every account field is exactly what it was before. When it reports success, only the two balances and the accumulated fee may differ; granularities, liquidity and volume ratio never change after initialisation, and initialisation copies them and the starting balances from the configuration with zero accumulated fee.",
 ["inputs","configurations"],"all account states, orders, ticks and fee configurations",
 "Tests check selected fields after selected rejections; the frame must hold on every rejecting path.",
 [ACC],[("early return before any assignment","base/account.cc BuyBase/SellBase/BuyAtQuote/SellAtQuote and wrappers")])
prop("A03","Executed trades are booked exactly, with fees rounded against the trader",
 "The fee of a trade is the larger of the minimum fee and fixed fee plus relative fee times the traded quote amount, rounded up to the quote granularity. A purchase of an amount at a price (amount rounded to the base granularity) costs the product rounded up plus the fee and succeeds exactly when the amount is at least one unit and the cost is affordable; a sale yields the product rounded down minus the fee and succeeds exactly when the amount is at least one unit, is held, and the proceeds are at least one quote unit. Balances and the accumulated fee change by exactly these amounts (rounded to granularity).",
 ["inputs","configurations"],"all balances, granularities, amounts, prices and fee configurations (exact arithmetic)",
 "Tests sample numeric examples; the rounding direction and the affordability boundary matter on inputs no example hits.",
 [ACC],[("GetFee","base/account.cc"),("BuyBase","base/account.cc"),("SellBase","base/account.cc")])
prop("A04","Orders given as a quote amount never exceed that amount",
 "A buy order specified by a quote amount never lowers the quote balance by more than that amount (rounded to the quote granularity), fee included, and a sell order specified by a quote amount never raises the quote balance by more than that amount (rounded to the quote granularity), net of the fee. Neither trades more base currency than the maximum allowed for the order.",
 ["inputs","configurations"],"all balances on the currency grid, amounts, prices, fee configurations with non-negative terms, volume caps (exact arithmetic)",
 "A handful of numeric cases cannot cover the interaction of fees, minimum fees and three roundings.",
 [ACC],[("fee deducted before conversion, rounding down","base/account.cc BuyAtQuote"),("fee monotonicity argument","base/account.cc SellAtQuote")])
prop("A05","Orders trigger only when their price is reached, at the documented price",
 "A stop buy (sell) order executes only if the tick's high (low) reaches the stop price, and a limit buy (sell) only if the tick's low (high) reaches the limit price. A limit order trades exactly at its limit price; a market order trades at the liquidity-weighted mean of the open and the adverse extreme (high for buys, low for sells), and a stop order at the liquidity-weighted mean of the worse of stop price and open and the adverse extreme.",
 ["inputs","configurations"],"all orders, ticks, liquidity values in [0,1] (exact arithmetic)",
 "Boundary ticks (extreme equal to the order price, open beyond the stop) and every liquidity value cannot be enumerated.",
 [ACC],[("Get{Market,Stop}{Buy,Sell}Price","base/account.cc"),("trigger guards","base/account.cc Stop*/Limit*")])
prop("A06","Limit orders fill at most the allowed fraction of the traded volume",
 "With a positive volume ratio, a limit order trades at most that ratio of the tick's volume, rounded down to the base granularity, and at most the requested amount; without a volume ratio the fill is not limited by volume. Market and stop orders are never limited by volume.",
 ["inputs","configurations"],"all limit orders (base and quote amounts), ticks, volume ratios and granularities",
 "Tests use a few ratios and volumes.",
 [ACC],[("GetMaxBaseAmount","base/account.cc"),("min with the maximum base amount","base/account.cc Limit*")])
prop("A07","An order is executed as its type, side, amount kind and price say",
 "Executing a valid order has exactly the effect of the dedicated operation for its type, side and amount kind, with the order's own amount and price and with the fee schedule configured for that order type, and reports that operation's outcome. No other operation is performed.",
 ["inputs","configurations"],"all valid orders, ticks, account configurations with three different fee schedules",
 "Twelve combinations times fee schedules and outcomes; tests cover combinations with hand-picked numbers.",
 [ACC],[("ExecuteOrder dispatch","base/account.cc")])
prop("A08","Trading never creates value",
 "For every executed order, the value of the account at the execution price does not increase by more than what rounding the balances to the currency granularities can add, and the value given up is at least the fee charged up to that rounding; with balances on the currency grid no rounding gain is possible.",
 ["inputs","configurations"],"all accounts, orders, prices, fee configurations with non-negative terms (exact arithmetic)",
 "Conservation has to hold for every combination of granularity, amount and fee.",
 [ACC],[("Ceil on cost, Floor on proceeds, fee subtracted","base/account.cc BuyBase/SellBase")])

prop("H01","History subsets contain exactly the records of the requested time interval",
 "For a chronologically ordered history, the subset for [start, end) contains exactly the records with start <= timestamp < end, in order, where a non-positive start or end means unbounded on that side. The result is always a valid (possibly empty) range, and the copying variant returns the same records.",
 ["inputs"],"all non-decreasing histories (with duplicates), all start and end, including reversed intervals",
 "Tests cover a small fixed history; binary search boundaries with duplicates and reversed intervals are unbounded.",
 ["base/base.h"],[("lower_bound on timestamps","base/base.h HistorySubset")])
prop("H02","Reported history gaps are the largest ones, in chronological order",
 "The reported gaps are gaps between consecutive records (and, when given, between the interval start and the first record, and the last record and the interval end), at most the requested number of them, sorted chronologically. Every reported gap is at least as long as every gap left out, and fewer than requested are reported only when there are no more gaps.",
 ["inputs"],"all non-empty non-decreasing price histories, all interval bounds and counts including zero",
 "Selection of the largest n for every history, tie and n is not sampled by the few test histories.",
 ["base/history.cc"],[("bounded priority queue","base/history.cc GetPriceHistoryGaps")])
prop("H03","Outlier removal partitions the history by the documented jump rule",
 "The cleaned history and the reported outlier indices partition the input: kept records appear unmodified and in order, and every input index is either kept or reported, in increasing order. A record is dropped exactly when its price is not positive or its volume negative, or when it jumps from the last kept price beyond the allowed deviation scaled by the square root of the elapsed minutes (at least one) and fewer than three of the next ten valid records confirm at least 80% of the jump.",
 ["inputs"],"all price histories, non-negative deviations, with or without index output (exact arithmetic)",
 "The rule depends on unbounded look-back (last kept record) and look-ahead; tests use short fixed histories.",
 ["base/history.cc"],[("RemoveOutliers","base/history.cc")])
prop("H04","Outlier context covers exactly the neighbourhoods of the last outliers",
 "The context map contains exactly the indices of the original history within the left and right context distance of one of the last n outliers (all of them when n is zero), clipped to the history. An index is marked as an outlier exactly when it is one of those last n outliers.",
 ["inputs"],"all sorted outlier index lists, history sizes, context sizes and counts",
 "Overlapping contexts, clipping and unsigned arithmetic over all sizes.",
 ["base/history.cc"],[("GetOutlierIndicesWithContext","base/history.cc")])
prop("H05","Resampling yields contiguous aligned ticks that summarise their records",
 "Resampling an ordered price history yields ticks whose timestamps are consecutive multiples of the sampling rate, from the first record's interval to the last one's. Each tick covering records has the first record's price as open, the last one's as close, the maximum as high, the minimum as low, and the sum of volumes; each tick covering no record is flat at the previous close with zero volume.",
 ["inputs"],"all ordered price histories with non-negative timestamps and all positive sampling rates (exact arithmetic for volumes)",
 "Gaps of arbitrary length and arbitrary groupings of records cannot be sampled exhaustively.",
 ["base/history.cc"],[("Resample gap fill and accumulation","base/history.cc")])

prop("S01","Side input lookup returns the latest record not after the given time",
 "The side input index for a timestamp is the last record whose timestamp is not after it, or -1 when all records are later. The lookup with a hint returns the same index for every valid hint (a previous index whose record is not after the timestamp, or a negative hint).",
 ["inputs"],"all strictly increasing side histories, timestamps and valid hints",
 "The hinted fast paths at the end of the history have off-by-one and signed/unsigned hazards for every size.",
 ["base/side_input.cc"],[("upper_bound and fast paths","base/side_input.cc GetSideInputIndex")])
prop("S02","Side input storage returns the original signals",
 "After construction the number of records and signals, every timestamp and every signal equal those of the source history. Fetching all signals of a record appends exactly its signals, in order, to the output and leaves what was already there unchanged.",
 ["inputs"],"all non-empty side histories with increasing positive timestamps and equal signal counts",
 "Flattened indexing must be right for every size and index.",
 ["base/side_input.cc","base/side_input.h"],[("flattened data vector","base/side_input.cc")])

prop("I01","The last-N tick window equals resampling the update history",
 "After any sequence of chronologically ordered updates the window holds the most recent at most N consecutive period-aligned ticks; each update is merged into the tick of its period (open kept, high/low extended, close replaced, volume added) and skipped periods appear as flat zero-volume ticks at the previous close. Observers are notified exactly once per change, with the removed/previous tick and the new last tick, and always see the already updated window.",
 ["inputs","histories","configurations"],"all update sequences with non-decreasing non-negative timestamps, all N >= 1 and periods >= 1",
 "Histories of arbitrary length and gaps; tests run two sequences.",
 ["indicators/last_n_ohlc_ticks.cc"],[("Update gap fill / append / merge","indicators/last_n_ohlc_ticks.cc")])
prop("I02","The simple moving average is the mean close of the window",
 "After any sequence of updates the simple moving average equals the arithmetic mean of the closing prices of the ticks currently in the window (zero when there are none), and the reported number of ticks is the window's size.",
 ["histories","configurations"],"all update sequences, window lengths and periods (exact arithmetic)",
 "The running sum must stay correct after every kind of update in every order.",
 ["indicators/simple_moving_average.cc"],[("running sum maintained by callbacks","indicators/simple_moving_average.cc")])
prop("I03","Sliding window minimum and maximum are exact",
 "After any sequence of added and revised values the sliding minimum (maximum) equals the minimum (maximum) of the last at most W values, where a revision replaces the most recent value. The reported counts are the number of values added and the number of values in the window.",
 ["histories","configurations"],"all sequences of additions and revisions, all window sizes >= 1",
 "The monotone queue is only correct by an invariant over unbounded histories; tests run a few sequences.",
 ["indicators/util.cc","indicators/util.h"],[("monotone deque","indicators/util.cc SlidingWindowMinimum")])
prop("I04","Sliding mean, variance and deviation are those of the window",
 "After any sequence of added and revised values the mean, variance and standard deviation equal the population mean, variance and standard deviation of the last at most W values (all values when W is zero), with zero for no values, and the variance is never negative.",
 ["histories","configurations"],"all sequences of additions and revisions, all window sizes >= 0 (exact arithmetic)",
 "Running sums over arbitrary histories; special cases W=0 and W=1.",
 ["indicators/util.cc","indicators/util.h"],[("running sums","indicators/util.cc SlidingWindowMeanAndVariance")])
prop("I05","EMA and MACD follow their recurrences under any update pattern",
 "After any sequence of updates the exponential moving average satisfies its recurrence over the closing prices of the completed periods and the current one: the first close, then weight*close + (1-weight)*previous average with weight smoothing/(1+length); intermediate updates of the current period do not accumulate. The MACD series, signal and divergence are the corresponding recurrences of the fast, slow and signal averages and their differences.",
 ["histories","configurations"],"all update sequences, lengths, smoothings and periods (exact arithmetic)",
 "Update patterns within a period are unbounded.",
 ["indicators/util.cc","indicators/exponential_moving_average.cc","indicators/moving_average_convergence_divergence.cc"],[("previous/current average pair","indicators/util.cc")])
prop("I06","The relative strength index is Wilder's index and stays within 0 and 100",
 "After any sequence of updates the index lies between 0 and 100, is 100 - 100/(1+U/D) for the smoothed upward and downward changes U and D (50 when both vanish, 100 when D is negligible against U), where each period's change is taken against the previous period's close (the open for the very first period) and smoothed with weight one over the smaller of the number of periods seen and N.",
 ["histories","configurations"],"all update sequences with positive prices, N >= 1, periods >= 1 (exact arithmetic)",
 "Needs the sign and recurrence of U and D over arbitrary histories.",
 ["indicators/relative_strength_index.cc"],[("modified moving averages of changes","indicators/relative_strength_index.cc")])
prop("I07","The stochastic oscillator matches its definition",
 "After any sequence of updates low and high are the minimum low and maximum high of the last at most N periods, %K is 100*(close-low)/(high-low) (50 for a vanishing range), fast %D is the mean of the last at most three %K values and slow %D the mean of the last at most three fast %D values, where an update within a period revises that period's values. %K stays within 0 and 100 for valid ticks.",
 ["histories","configurations"],"all update sequences of valid ticks, N >= 1, periods >= 1 (exact arithmetic)",
 "Composition of four sliding windows over arbitrary histories.",
 ["indicators/stochastic_oscillator.cc"],[("UpdateK and window updates","indicators/stochastic_oscillator.cc")])
prop("I08","Volatility is the standard deviation of per-period log returns",
 "After any sequence of updates volatility is the standard deviation over the window of the per-period logarithmic returns of the portfolio value, where a period's value uses the latest balances and the period's close, the first return is taken against the first open, and updates within a period revise only that period's return.",
 ["histories","configurations"],"all update sequences with positive portfolio values, window sizes >= 0 (exact arithmetic)",
 "Depends on the two-value history staying aligned with the tick window for every update pattern.",
 ["indicators/volatility.cc"],[("portfolio value pair","indicators/volatility.cc")])

prop("T01","The rebalancing trader restores its target allocation within its means",
 "For a portfolio outside the tolerance band it emits exactly one market order for a positive base amount that, executed at the close without fees, makes the base share exactly alpha, never selling more base or spending more quote than held. Inside the band it emits at most one limit sell above and one limit buy below the close, whose prices are where the share reaches the band's edges and whose amounts, within the holdings, restore alpha there; every emitted order is valid.",
 ["inputs","configurations"],"all balances, prices, alpha in (0,1), epsilon in (0,1), prior states (exact arithmetic)",
 "Algebraic identity over all allocations.",
 ["traders/rebalancing_trader.cc"],[("Update","traders/rebalancing_trader.cc")])
prop("T02","The stop trader always emits one valid trailing stop order for its holdings",
 "Every update emits exactly one stop order: a sell of the whole base balance while most value is in base, otherwise a buy with the whole quote balance. After a mode change or a gap the stop price is set at the configured margin below (above) the close; otherwise it only ever moves up while long and down while in cash, only when the close has moved away by the move margin, never past that margin, and by at most the configured daily rate compounded for the elapsed time.",
 ["histories","configurations"],"all tick sequences with increasing timestamps, balances, margins and rates in (0,1) (exact arithmetic)",
 "Trailing monotonicity is a property of histories.",
 ["traders/stop_trader.cc"],[("UpdateStopOrderPrice","traders/stop_trader.cc")])
prop("T03","Batches contain every parameter combination exactly once",
 "The batch of traders for lists of parameter values contains one emitter per combination, in lexicographic order of the lists, carrying exactly those parameters, and each emitter creates fresh traders with its own configuration. The trader name selects the corresponding strategy.",
 ["inputs","configurations"],"all parameter lists",
 "Cartesian product for all list lengths.",
 ["traders/rebalancing_trader.cc","traders/stop_trader.cc","traders/trader_factory.cc"],[("GetBatchOfTraders","traders/*.cc")])

prop("E01","Simulation is causal: orders act only on ticks after the one they were based on",
 "Executing a trader visits the ticks once in order; on each tick it first executes the orders from the trader's most recent update (all of them, in order) and only then, unless the tick has zero volume, shows the tick to the trader together with the resulting balances and replaces the pending orders by the newly emitted ones. On zero-volume ticks the trader is not updated and its orders stay pending.",
 ["histories","programs","configurations"],"all traders (arbitrary behaviour), tick histories, side inputs, loggers, account configurations",
 "Quantifies over every trader program and history; tests use one scripted trader.",
 ["eval/eval.cc"],[("ExecuteTrader loop","eval/eval.cc")])
prop("E02","Traders see only current or past side input, with its age",
 "At every update the side input signals shown to the trader are those of the latest side record not after the tick, followed by its age in seconds, and empty before the first record. Signals are refreshed on every tick, and no later record is ever visible.",
 ["histories","programs"],"all tick histories with non-decreasing timestamps, side inputs and traders",
 "Look-ahead can hide at any index alignment.",
 ["eval/eval.cc","base/side_input.cc"],[("index hint kept across ticks","eval/eval.cc ExecuteTrader")])
prop("E03","Execution results report exactly what happened",
 "The result carries the configured starting balances, the final account balances and fee, the first and last close, start and end value as quote plus close times base, and the number of successfully executed orders; volatilities (unless skipped) are annualised daily volatilities of one base unit and of the account. An empty history yields an empty result.",
 ["histories","programs","configurations"],"all executions",
 "Must hold for each history; tests check few runs.",
 ["eval/eval.cc"],[("result fields","eval/eval.cc ExecuteTrader")])
prop("E04","The log shows every tick, and every executed order right after its execution",
 "With a logger, each tick is logged exactly once before its orders execute, each successfully executed order is logged exactly once with the account right after it, failed orders are not logged, and the trader's state is logged exactly once after each update. Logging never changes the outcome of the simulation.",
 ["histories","programs"],"all executions with and without logger",
 "Sequence property over all histories.",
 ["eval/eval.cc"],[("logger calls","eval/eval.cc ExecuteTrader")])
prop("E05","Evaluation covers every full period in the interval, one fresh trader each",
 "With a positive period length, evaluation runs one period for every month offset from the start whose end does not exceed the interval's end and which contains at least one tick, in order, each with a freshly created trader over exactly the ticks in that period; otherwise it runs the whole interval once. It always terminates, and gains are end over start value and end over start price.",
 ["inputs","configurations"],"all histories, intervals and period lengths",
 "Termination and coverage over all calendar intervals.",
 ["eval/eval.cc"],[("month offset loop","eval/eval.cc EvaluateTrader")])
prop("E06","Evaluation scores aggregate exactly the evaluated periods",
 "The average gain, baseline gain, executed orders and fees are arithmetic means over the evaluated periods and the score is the geometric mean of trader gain over baseline gain; all are zero when no period was evaluated.",
 ["inputs"],"all sets of evaluated periods (exact arithmetic)",
 "Holds for every number of periods.",
 ["eval/eval.cc"],[("GetAverage, GetGeometricAverage","eval/eval.cc")])
prop("E07","Batch evaluation equals evaluating each trader on its own, in order",
 "Evaluating a batch returns one result per trader, in the batch's order, each equal to evaluating that trader alone with the same inputs and no logger, independent of the other traders and of scheduling.",
 ["inputs","schedules"],"all batches, all schedules of the asynchronous evaluations",
 "Schedules are not controlled by tests.",
 ["eval/eval.cc"],[("futures collected in order","eval/eval.cc EvaluateBatchOfTraders")])

prop("U01","Delimited message files are read back exactly or an error is reported",
 "Writing a sequence of messages hands every message to the stream in order and reports success only if all of them were serialised and flushed; reading delivers every message in order to the reader, stops without error at a clean end (the data ends between two messages) or when the reader asks, and reports an error when the data cannot be parsed or the reader fails. Files that cannot be opened are reported as errors.",
 ["inputs","fault_sequences"],"all message sequences, reader behaviours, parse and serialisation failures at any position",
 "Failures at arbitrary positions are not injected by tests.",
 ["util/proto.h"],[("ReadDelimitedMessagesFromIStream, WriteDelimitedMessagesToOStream","util/proto.h")])
prop("U02","Imported histories are valid, ordered and within the requested interval",
 "Importing a price, OHLC or side history from a CSV or delimited file reads the records up to the first one at or after the end of the interval (a bound that is not positive is no bound). It either reports an error or returns exactly those of them that are not before the start, in order and with the values in the file: their timestamps are positive and ordered (strictly for side inputs), their prices positive and consistent (low <= open, close <= high), volumes non-negative (NaN is neither), and side inputs have the same positive number of signals. An error is reported only if the file cannot be read or one of these records cannot be parsed or breaks these rules.",
 ["inputs"],"all input files (any lines or messages, NaN included), intervals",
 "Malformed inputs are unbounded and the importer has no tests.",
 ["convert.cc"],[("Read*HistoryFrom*","convert.cc")])
prop("U03","Times are parsed and shifted as UTC calendar times",
 "Adding months to a time changes only the calendar month (normalised as UTC civil time) and keeps day and time of day fields, so adding zero months to whole seconds is the identity, and the timestamp variant agrees with it; parsing tries exactly the documented formats, defaulting to UTC, and otherwise reports an error.",
 ["inputs"],"all times, month counts and strings",
 "All dates cannot be sampled.",
 ["util/time.cc"],[("AddMonthsToTime, ParseTime","util/time.cc")])
prop("L01","CSV logs have one complete row per event with the right columns",
 "Each exchange event produces exactly one row consisting of the tick's timestamp, open, high, low, close, volume, the account's base balance, quote balance and fee, and the order's type, side, base amount, quote amount and price columns, numbers with three decimals and absent values empty; each trader state produces exactly one row. Nothing is written when the corresponding stream is absent.",
 ["inputs"],"all ticks, accounts, orders (every type, side, amount kind) and stream configurations",
 "Column placement per order kind; tests use one order.",
 ["logging/csv_logger.cc"],[("CSV formatting helpers","logging/csv_logger.cc")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))

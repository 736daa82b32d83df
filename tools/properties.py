#!/usr/bin/env python3
"""Writes /verif/properties.jsonl: the one place where the properties are edited."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALLM = ["moment/", "joint/", "minmax/", "quantile/", "sample/", "aggregate/"]

prop("P01", "Concurrent use of one metric is free of data races",
 "Any number of goroutines may call the push, value, clear and query methods of the same metric, core, reservoir or aggregate object at the same time without a data race. Every piece of an object's state that some operation changes is only touched under that object's lock, exclusively when it is changed.",
 ["schedules", "histories"], "every interleaving of any calls on one object, including the goroutines that aggregates start",
 "The tests call metrics from one goroutine (a few from two) and one schedule each; a missing lock on one field or one path shows only in particular interleavings.",
 ALLM, [("per-object mutex, taken by every exported method", "moment/core.go, joint/core.go, quantile/quantile.go, quantile/heap_median.go, minmax/min.go, minmax/max.go, sample/sample.go"),
        ("goroutine fan-out with a local mutex and wait group", "aggregate/simple_aggregate.go, aggregate/simple_joint_aggregate.go")])

prop("P02", "No call deadlocks on, or leaks, the library's own locks",
 "No method acquires a lock that its own call chain already holds, not even for reading, so that a waiting writer can never block it forever. Every method that returns, normally or with an error, has released every lock it took; only the exported lock methods return holding one, and the Unsafe methods take none.",
 ["schedules", "inputs", "histories"], "every call, on every path through it including all error returns, under every interleaving with writers",
 "A recursive read lock only deadlocks when a writer arrives in between, and a lock leaked on an error path only blocks the next call; the tests produce neither.",
 ALLM, [("Lock/Unlock pairs and defers; Unsafe variants for composite reads", "moment/core.go, joint/core.go, quantile/quantile.go")])

prop("P03", "Every value and every update is one atomic step",
 "The value a metric reports is computed from state read in a single critical section, so that it is the metric's value at one instant even while other goroutines push. A push or clear likewise changes the object's state in a single critical section, so that no other goroutine can observe or interleave with a half-made update.",
 ["schedules"], "every interleaving of value, push and clear calls on one object",
 "Torn values need a writer between two reads of the same call; single-threaded tests never have one.",
 ALLM, [("composite values use the Unsafe getters below one RLock", "moment/kurtosis.go, moment/skewness.go, joint/corr.go, quantile/iqr.go")])

prop("P04", "Metrics are independent of one another",
 "Operations on one metric never change what another metric reports: no operation modifies package-level state that other instances use.",
 ["histories", "programs", "schedules"], "every sequence of operations on any number of instances of any types",
 "Each test uses one instance at a time.",
 ALLM + ["util/math/math.go"], [("state lives in the instance; defaults are only read", "moment/config.go, joint/config.go, util/math/math.go")])

prop("P05", "Caller-owned slices, maps and configs are neither modified nor kept",
 "Slices, maps and configs that a caller passes to push, sum, core and aggregate constructors or options stay the caller's: the library never writes to them, and changing them afterwards does not affect a metric. Slices, maps and configs that a metric returns are copies, so that changing them does not affect it either.",
 ["programs", "histories"], "every way a caller may reuse or modify its arguments and results between calls",
 "The tests pass literals and never touch them again.",
 ["joint/core.go", "joint/config.go", "moment/core.go", "moment/config.go", "aggregate/", "quantile/median.go", "quantile/iqr.go", "sample/sample.go"],
 [("copy on push, config copy in NewCore, copied metrics and options", "joint/core.go, moment/config.go, joint/config.go, aggregate/simple_aggregate.go, quantile/median.go, quantile/iqr.go"), ("copied sample", "sample/sample.go")])

prop("P06", "A windowed metric always covers exactly the last `window` values",
 "With a window of n > 0, a metric that has accepted m values covers exactly the latest min(m, n) of them, in arrival order: an accepted value is kept, and the oldest value is dropped exactly when n values are already held. With a window of 0 nothing is dropped or stored per value, and with a lag of l a lagged metric pairs each value with the one l pushes before.",
 ["histories", "inputs", "configurations"], "every history of pushes and clears, every window and lag",
 "The tests push a handful of values into windows of 3 to 10.",
 ["moment/core.go", "joint/core.go", "quantile/quantile.go", "quantile/heap_median.go", "minmax/min.go", "minmax/max.go", "joint/autocov.go", "joint/autocorr.go"],
 [("ring buffer: Get when full, undo the oldest value, Put the new one", "Push/UnsafePush of the listed files")])

prop("P07", "A rejected push changes nothing",
 "A push that is rejected because no core is set or because the number of values is wrong returns an error and leaves the metric exactly as it was: nothing is queued, evicted, counted or summed.",
 ["inputs", "histories"], "every input that is rejected, in every state",
 "The tests check that an error is returned, not that the state is unchanged.",
 ["moment/", "joint/"], [("checks precede every state change", "Push and UnsafePush of moment/ and joint/")])

prop("P08", "No error of an inner operation is swallowed",
 "When an operation that a call depends on fails (a full or disposed queue, an option or config that is rejected, an untracked sum, a wrapped metric), the call itself returns an error. A call that returns no error has done all of its work, and a call that returns an error from a value method returns no number to be mistaken for a result.",
 ["fault_sequences", "inputs"], "every inner failure at every call site",
 "Only some failures are provoked in tests, with disposed queues.",
 ALLM, [("errors are wrapped and returned at every call site", "all packages; multierror accumulation in aggregate/ and joint/tuple.go")])

prop("P09", "Unconfigured or empty metrics report an error, never a number or a panic",
 "Asking an unset-core metric to push or report a value, or asking any metric without values for a value, returns an error and never panics; clearing an unset-core metric does nothing. Queries outside the tracked domain (sums, variables, quantiles outside (0, 1)) return an error as well.",
 ["inputs", "histories"], "every metric type, in every state without a core or without values, and every query argument",
 "Tests cover some types and arguments; a panic on one more type, state or index is not seen.",
 ALLM, [("IsSetCore checks, count checks, argument range checks", "moment/, joint/, quantile/quantile.go, quantile/heap_median.go, minmax/")])

prop("P10", "Configurations are accepted exactly when they are valid",
 "A constructor, config or option succeeds exactly for its documented domain: nonnegative windows and lags, decays and probabilities strictly between 0 and 1 and only without a window, positive power sums, exponent tuples of equal length at least 2 with no negative and some positive exponent matching the number of variables, known implementations and interpolations, skip list levels from 1 to 64. Everything else, including NaN, is rejected with an error, and what is accepted is what the object then uses.",
 ["configurations", "inputs"], "every combination of configuration values, including NaN and boundary values",
 "Tests try a few values on each side of the bounds, one field at a time.",
 ["moment/config.go", "joint/config.go", "quantile/", "minmax/", "joint/autocov.go", "joint/autocorr.go"],
 [("validateConfig, validateTuple, window and lag checks, Valid(), option checks", "moment/config.go, joint/config.go, quantile/impl.go, quantile/interpolation.go, quantile/option.go, quantile/skiplist/option.go, minmax/, joint/autocov.go")])

prop("P11", "A cleared metric behaves like a new one",
 "After a clear, a metric is in the state its constructor left it in: no values, sums, queued items or counts survive, and its configuration (window, decay, options, tracked sums) is unchanged.",
 ["histories"], "every history before the clear, every metric type",
 "Tests compare a few fields after a few pushes.",
 ALLM, [("Clear/UnsafeClear of every type", "moment/core.go, joint/core.go, joint/autocov.go, joint/autocorr.go, minmax/, quantile/, quantile/skiplist/skiplist.go, quantile/ost/")])

prop("P12", "A metric's config declares everything the metric reads",
 "A core built from the config that a metric declares, alone or merged with others, tracks every sum the metric reads and uses the metric's own window and decay. Setting a core makes all parts of a composite metric use that same core.",
 ["configurations"], "every metric type and every constructor argument",
 "A config that lacks a sum is only noticed for the metric and argument that the test uses.",
 ["moment/", "joint/"], [("Config() and SetCore() of every wrapper, Init", "moment/*.go, joint/*.go")])

prop("P13", "Univariate metrics compute their documented formulas",
 "From a core with n values, mean m and k-th central power sums S_k: the mean is m, the k-th moment S_k/(n-1), the standard deviation the square root of the second moment, the skewness is adjusted by sqrt(n(n-1))/(n-2), and the excess kurtosis is m4/m2^2 - 3 with biased moments; exponentially weighted metrics report the core's mean, sums and root unchanged. The sum and mean queries return the tracked sum and the mean, for every tracked power.",
 ["inputs", "configurations"], "every state of the core, every k",
 "Tests compare a few data sets and small k.",
 ["moment/"], [("Value methods and Unsafe getters", "moment/*.go")])

prop("P14", "The univariate core keeps mean and central power sums exact",
 "In exact arithmetic, every accepted value updates count, mean and all tracked central power sums to those of the values covered, and dropping the oldest value undoes its addition, for every power. With a decay d the first value has weight 1 and every later one weight d, with all earlier weights scaled by 1-d.",
 ["histories", "inputs", "configurations"], "all values, counts, powers and decays",
 "Tests use a few values and powers up to about 4; an error in a higher power or in the removal of a value stays unseen.",
 ["moment/core.go", "util/math/math.go"], [("add, remove, addDecay recurrences; Binom and Sign", "moment/core.go, util/math/math.go")])

prop("P15", "Joint metrics compute their documented formulas",
 "From a core with n value pairs and joint central sums S: covariance is S(1,1)/(n-1), correlation S(1,1)/sqrt(S(2,0) S(0,2)), the exponentially weighted variants the same without normalisation by n-1, and the lagged variants those of the series paired with itself lag pushes earlier (lag 0: with itself). The sum and mean queries return the tracked sum of exactly the tuple asked for (with exponents below 31) and the mean of the variable.",
 ["inputs", "configurations"], "every state of the core, every lag, tuple and variable",
 "Tests compare a few data sets.",
 ["joint/"], [("Value methods and Unsafe getters, tuple hashing", "joint/*.go")])

prop("P16", "The joint core keeps means and joint central sums exact",
 "In exact arithmetic, every accepted value tuple updates count, means and all tracked joint central sums to those of the tuples covered, and dropping the oldest undoes its addition, for every number of variables and every exponent tuple (with exponents below 31, the documented bound of the tuple hash). With a decay d the first tuple has weight 1 and every later one weight d, with all earlier weights scaled by 1-d; the order in which tracked sums are updated never lets a new sum enter where an old one belongs.",
 ["histories", "inputs", "configurations"], "all values, counts, variable numbers, exponent tuples and decays",
 "Tests use two or three variables and small exponents.",
 ["joint/core.go", "joint/tuple.go", "util/math/math.go"], [("add, remove, addDecay recurrences over iter; double-buffered sums", "joint/core.go, joint/tuple.go")])

prop("P17", "The balanced trees hold exactly the values added and not removed",
 "Adding a value to an order-statistics tree adds exactly one occurrence and keeps all others; removing a value removes exactly one occurrence if there is one and nothing otherwise. The in-order sequence stays sorted through every rotation.",
 ["histories", "inputs"], "every sequence of additions and removals, with duplicates",
 "Tests build one small tree and remove a few values.",
 ["quantile/ost/avl/", "quantile/ost/rb/"], [("add, remove, removeMin, rotations", "quantile/ost/avl/node.go, quantile/ost/rb/node.go")])

prop("P18", "The balanced trees keep their sizes, heights, colors and balance right",
 "After every operation, each node's stored size is the number of values below and at it and each stored height is the real height. Every rebalancing step restores the balance or color rule of its tree (the root of a red black tree may be red), so that the height stays logarithmic for every history.",
 ["histories"], "every sequence of additions and removals",
 "A size or height that is stale after a rare rotation is only met by particular histories.",
 ["quantile/ost/avl/", "quantile/ost/rb/"], [("size/height updates, balance, rotate, addBalance/removeBalance, flipColors, moveRed", "quantile/ost/avl/node.go, quantile/ost/rb/node.go")])

prop("P19", "Rank and select are right in every order-statistics implementation",
 "In every implementation, select(k) returns the k-th smallest value held (from 0) and nothing when k is out of range, and rank(x) returns the number of values held that are strictly smaller than x. The implementations agree, also with duplicates.",
 ["histories", "inputs", "configurations"], "every content, k and x, every implementation",
 "Tests query one small structure without duplicates of the value asked for.",
 ["quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "quantile/skiplist/skiplist.go"],
 [("Select and Rank using the size or width augmentation", "quantile/ost/avl/node.go, quantile/ost/rb/node.go, quantile/skiplist/skiplist.go")])

prop("P20", "The skip list links and widths stay consistent",
 "After every addition and removal, each level of the skip list is a sorted sublist of the level below, every width is the number of bottom links it spans, and the length is the number of values held. Adding inserts exactly one occurrence and removing deletes exactly one if there is one.",
 ["histories", "inputs", "configurations"], "every sequence of additions and removals, all levels drawn, all options",
 "Tests use one random seed and a dozen values.",
 ["quantile/skiplist/skiplist.go"], [("getPrevs, Add, Remove, width updates, level drawing", "quantile/skiplist/skiplist.go")])

prop("P21", "Heap items always know their heap and position",
 "Through every push, pop, swap, removal and update, an item's recorded heap and position are the heap that holds it and its index there, so that removing or updating an item affects exactly that item.",
 ["histories"], "every sequence of heap operations",
 "Tests look at the values, not at the bookkeeping, after a few operations.",
 ["quantile/heap/heap.go"], [("index/HeapID updates in New, Swap, Push, Pop; Remove and Update by index", "quantile/heap/heap.go")])

prop("P22", "The heap median reports the median of the values covered",
 "The values covered are split into a low and a high half with every low value at most every high value, sizes differing by at most one, and the reported median is the top of the larger half or the mean of both tops. When the window is full, the value dropped is the oldest one, from the half that really holds it.",
 ["histories", "inputs"], "every history of pushes and clears, every window, with duplicates",
 "Tests push about twenty values.",
 ["quantile/heap_median.go"], [("Push with eviction, rebalance, Value", "quantile/heap_median.go")])

prop("P23", "Quantiles are interpolated as documented",
 "For a quantile q in (0, 1) of n values, with i and f the integer and fractional part of q(n-1), the reported value is the i-th smallest when f = 0 and otherwise the linear, lower, higher, nearest (half to even) or midpoint combination of the i-th and next value. The median is the 0.5 quantile by the midpoint rule and the interquartile range the difference of the 0.75 and 0.25 quantiles by the same rule.",
 ["inputs", "configurations"], "every q, n, content and interpolation",
 "Tests use a few q and n.",
 ["quantile/quantile.go", "quantile/median.go", "quantile/iqr.go", "quantile/interpolation.go"],
 [("Value: index computation and interpolation switch", "quantile/quantile.go"), ("Midpoint option appended last", "quantile/median.go, quantile/iqr.go")])

prop("P24", "Aggregates drive every metric exactly once and wait for all of them",
 "A push or clear of an aggregate reaches every wrapped metric exactly once, with the values pushed, whatever the others do, and returns after all of them are done. The values are complete, one per metric under its string form, or an error if any metric failed; an error of any wrapped metric is reported.",
 ["schedules", "inputs", "fault_sequences"], "every number of metrics, every schedule of the goroutines, every subset of failing metrics",
 "Tests use a few metrics and one failing.",
 ["aggregate/"], [("goroutine per metric, wait group, mutex, multierror", "aggregate/simple_aggregate.go, aggregate/simple_joint_aggregate.go")])

prop("P25", "Min and max report the extreme of the values covered",
 "The minimum (maximum) reported is the smallest (largest) of the values covered, over the whole stream for window 0 and over the last `window` values otherwise, with duplicates and in every order. The candidates kept are exactly the covered values that no later value beats.",
 ["histories", "inputs"], "every history of pushes and clears, every window, with duplicates",
 "Tests push about ten values.",
 ["minmax/"], [("monotonic deque: drop evicted front, pop beaten back, push", "minmax/min.go, minmax/max.go")])

prop("P26", "String forms identify a metric and its parameters",
 "The string form of a metric names its type and the values of its parameters (window, decay, k, lag, interpolation), so that the keys of aggregated values tell differently configured metrics apart.",
 ["configurations"], "every metric type and parameter value",
 "Tests check one parameter value per type.",
 ["moment/", "joint/", "minmax/", "quantile/"], [("String methods", "all metric files")])

prop("P27", "Results depend only on the values pushed",
 "Two metrics of the same configuration that saw the same calls report the same: results do not depend on map iteration order, time, goroutine scheduling or a global random source. Only the reservoir's sample and the levels of a skip list, which never show in its results, are random.",
 ["histories", "schedules"], "every history, every map iteration order and schedule",
 "One run sees one iteration order.",
 ALLM, [("order-insensitive map loops; seeded level source", "moment/, joint/core.go, quantile/skiplist/skiplist.go")])

prop("P28", "A global metric is the metric with window 0",
 "Every NewGlobal constructor returns an object in the same state as the windowed constructor with window 0 and the same other arguments.",
 ["configurations"], "every NewGlobal constructor and argument",
 "Tests compare some of them for one argument.",
 ["moment/", "joint/", "minmax/", "quantile/"], [("NewGlobal constructors", "all metric files")])

prop("P29", "The reservoir keeps a sample of the configured size by the reservoir rule",
 "The first `size` values are kept in order; the n-th value after that replaces the entry at an index drawn uniformly from the n values seen so far if that index lies in the reservoir, and is dropped otherwise. The sample returned is a copy of all entries kept.",
 ["histories", "inputs"], "every number of values and size, every random draw",
 "Tests check the length only.",
 ["sample/sample.go"], [("Push and Sample", "sample/sample.go")])

prop("P30", "Merging configs keeps every requirement or reports a conflict",
 "The config merged from several configs tracks every sum that any of them tracks and has the window, decay and number of variables that they set; when two of them set different values, merging fails. No input config is modified, and the order of the configs does not matter to what is tracked or rejected.",
 ["configurations", "inputs"], "every list of configs",
 "Tests merge two or three configs.",
 ["moment/config.go", "joint/config.go"], [("MergeConfigs, simplifySums", "moment/config.go, joint/config.go")])

prop("P31", "Every metric implements the interface it is documented for",
 "Each metric type can be used wherever its documented interface (metric, joint metric, aggregate, core wrapper, order statistic) is expected, and what one part of the library stores in a queue is what the other part expects to take out of it.",
 ["programs", "histories"], "every metric type and every place that stores or takes queued values",
 "A type that lost a method compiles as long as no test uses it through the interface.",
 ["metric.go", "moment/metric.go", "joint/metric.go", "quantile/order/order.go"], [("method sets; queue type assertions", "all metric files")])

prop("P33", "Queries never modify what they query",
 "Value, count, mean, sum, size, rank, select, sample, string and configuration queries leave the state of the object untouched, so that asking twice gives the same answer and readers may run side by side.",
 ["histories", "schedules"], "every query, in every state, any number of times",
 "Tests query once.",
 ALLM, [("queries only read", "all packages")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

NOTES = ('All checks are static analyses over facts (monomorphic MIR, types, attributes, SQL schema) that a rustc driver extracts from /repo\'s current '
         'sources on every run; facts are cached by the content hash of those sources. See DESIGN.md. known_findings.txt lists fixed and recorded defects.')
TRUST = ' Trusts: rustc\'s MIR, the fact extractor and the abstract interpreter in engine/sa, the models of the PostgreSQL functions named in DESIGN.md.'

P('P01', 'Combining never disturbs or shares memory with the second partial state',
  'When two partial states of a mergeable aggregate are combined, the second state is left exactly as it was, and the combined state holds no reference to the second state\'s memory. '
  'The executor may therefore reuse or free that input after every combine, for every aggregate that supports partial aggregation.',
  ['inputs', 'histories', 'schedules'], 'for every aggregate with a combine function, every pair of states, and every parallel or partitioned plan that combines them',
  'Tests combine a handful of states once, in one memory context that lives until the end of the query; a dangling or mutated second state only shows in plans that reset the per-tuple context or reuse the state.',
  [E + 'palloc.rs', E + 'tdigest.rs', E + 'uddsketch.rs', E + 'hyperloglog.rs', E + 'nmost.rs', E + 'counter_agg.rs', E + 'stats_agg.rs', E + 'aggregate_builder_tests.rs'],
  [('combine functions clone what they keep', E + '*_combine*'), ('Internal / Inner wrap the state pointer', E + 'palloc.rs')],
  'inlining abstract interpretation of MIR (ownership/effect analysis of combine functions)',
  'Sound up to the abstraction for all inputs: every write and every retained pointer of the 22 combine functions (60 aggregates) is accounted for on every path.' + TRUST)

P('P02', 'Aggregate state lives as long as the aggregate and never points into row data',
  'Everything an aggregate keeps between rows is allocated in memory that lives as long as the aggregation, and nothing it keeps refers to memory of the row\'s arguments, which is gone when the next row arrives. '
  'This holds for the forward, inverse and combine steps of every aggregate.',
  ['inputs', 'histories'], 'for every aggregate, every row and every sequence of rows',
  'A state that dangles reads freed memory that usually still holds the old bytes, so tests on small inputs pass; only a particular reuse of the per-row memory exposes it.',
  [E + 'aggregate_utils.rs', E + 'palloc.rs', E + 'datum_utils.rs', E + 'nmost.rs', E + 'hyperloglog.rs', E + 'frequency.rs', E + 'candlestick.rs', 'crates/aggregate_builder/src/lib.rs'],
  [('in_aggregate_context switches the memory context', E + 'aggregate_utils.rs'), ('deep_copy_datum copies by-reference values', E + 'datum_utils.rs')],
  'inlining abstract interpretation of MIR with the current memory context as tracked state (escape/region analysis)',
  'Decides, for all 103 state functions, in which memory context every reachable allocation is made and that no typed pointer to a row argument is retained.' + TRUST)

P('P03', 'All support functions of an aggregate agree on what its state is',
  'The transition, combine, final, serialize, deserialize, moving and inverse functions of each aggregate treat the stored state as one and the same type, so a state made by one step is never misread by another. '
  'An aggregate that can combine can also serialize and deserialize its state and the other way round, a moving-aggregate variant is complete, and serializing or deserializing an absent state yields an absent state instead of failing.',
  ['configurations', 'histories', 'schedules'], 'for every aggregate definition in the SQL schema and every plan (plain, windowed, partial, parallel) that strings its support functions together',
  'The state is an untyped pointer in SQL and the aggregate definitions are SQL text: neither compiler checks them, and most combinations of support functions only run in parallel plans which the tests never produce.',
  [E + 'nmost.rs', E + 'tdigest.rs', E + 'stats_agg.rs', E + 'counter_agg.rs', E + 'state_aggregate.rs', E + 'palloc.rs', 'crates/aggregate_builder/src/lib.rs'],
  [('CREATE AGGREGATE statements', E + '*.rs extension_sql!'), ('Internal::to_inner / get / get_mut choose the type', E + 'palloc.rs'), ('generated wrappers', 'crates/aggregate_builder/src/lib.rs')],
  'cross-language resolution of the SQL aggregate definitions to MIR functions, plus type inference of the untyped state pointer',
  'Every CREATE AGGREGATE in the sources is resolved to the functions it names and their state types are compared; nullness is decided by abstract interpretation.' + TRUST)

P('P04', 'Finalizing or serializing an aggregate state does not use it up',
  'Producing a result from a transition state, or serializing it, never loses what the state has accumulated and never adds to it: afterwards the state still represents the same rows. '
  'So an aggregate used over a growing window frame, or a state finalized twice, gives the same answer as a fresh aggregation over the same rows.',
  ['histories', 'inputs'], 'for every aggregate and every sequence of transition, finalize and serialize steps over one state',
  'The tests finalize each state once; a final function that moves the content out of the state is only visible with a window frame or a shared state.',
  [E + 'nmost.rs', E + 'tdigest.rs', E + 'state_aggregate.rs', E + 'heartbeat_agg.rs', E + 'counter_agg.rs', E + 'hyperloglog.rs', 'crates/t-digest/src/lib.rs'],
  [('final and serialize functions', E + '*_final, *_serialize'), ('buffers are flushed into summaries, not dropped', 'combine_summaries, process_batch, merge_all, digest')],
  'inlining abstract interpretation of MIR (conservation of state content: destructive updates vs. flow back into the state)',
  'Every location of the state that a final/serialize function empties or overwrites on some path must flow back into the state. Loss inside one computed value is not visible.' + TRUST)

P('P14', 'Integer arguments that do not fit are refused, not wrapped around',
  'An integer argument of a SQL function (a count, size, resolution, limit, degree, number of points ...) that is narrowed, or taken as an unsigned number, is known by then to fit: functions refuse '
  'what is negative, zero where that makes no sense, or too large, instead of wrapping it around to some other number and computing with that.',
  ['inputs'], 'for every SQL function with integer arguments, and every value of each such argument',
  'Tests pass small positive sizes; -1 becomes 18446744073709551615, with which a loop never ends, a buffer grows without bound, or a limit means "everything".',
  [E + 'frequency.rs', E + 'lttb.rs', E + 'asap.rs', E + 'hyperloglog.rs', E + 'uddsketch.rs', E + 'tdigest.rs', E + 'countminsketch.rs', E + 'utilities.rs', E + 'nmost', E + 'time_vector/pipeline'],
  [('SQL functions with integer arguments', E + '*.rs'), ('validate_mcv_n, lttb and asap resolution checks', E + 'frequency.rs, ' + E + 'lttb.rs, ' + E + 'asap.rs')],
  'abstract interpretation of every function with exact tracking of its integer arguments; bounds learned from comparisons on the path must cover the target type at each cast, and unsigned "argument - constant"',
  '62 functions, 76 integer arguments, 59 casts and subtractions. Only arguments as they are: values computed from arguments, stored fields, and floating point are not covered. A random seed may be any 64 bits; capacities of max_n/min_n are left to the allocator, which refuses what was negative; the number of buckets of a hyperloglog pipeline element is refused when the pipeline runs.' + TRUST)

P('P20', 'No rows and empty values are ordinary inputs',
  'An aggregate over no rows is NULL: every final, moving-final and combine function returns NULL, without an error, when there is no state. And every function and pipeline element that takes a timevector, heartbeat_agg or tdigest '
  'copes with one that has no elements (an empty timevector, no live range, no centroid): it never takes the first, last, smallest or largest of nothing, never indexes into nothing, never computes with a length of zero minus one. The same holds for aggregates over timevectors, heartbeat_aggs and tdigests of which some are empty.',
  ['inputs', 'histories'], 'for every aggregate without rows, and every function of a timevector, heartbeat_agg or tdigest without elements, whatever its other arguments',
  'Empty values come from filters, trims, groups without matching rows, workers that received no rows; nearly every test starts from values with elements.',
  [E + 'time_vector.rs', E + 'time_vector/pipeline', E + 'time_vector/iter.rs', E + 'heartbeat_agg.rs', E + 'heartbeat_agg/accessors.rs', E + 'tdigest.rs', 'crates/t-digest/src/lib.rs', E + 'asap.rs', E + 'lttb.rs', E + 'aggregate_utils.rs'],
  [('final and combine functions', E + '*.rs'), ('functions of Timevector_TSTZ_F64, HeartbeatAgg, TDigest; pipeline elements', E + 'time_vector, ' + E + 'heartbeat_agg.rs, ' + E + 'tdigest.rs')],
  'abstract interpretation with absent states, and with one argument emptied at a time: emptiness flows through collections and iterators to unwrap, index and unsigned subtraction',
  '59 final and combine functions; 78 function/argument pairs, 9 pipeline elements among them; 13 aggregate support functions whose state holds emptied summaries. Failures are reported where they are certain on the path that meets them. The as-of join refuses empty operands deliberately; lambdas are not followed.' + TRUST)

P('P23', 'Every argument of every function counts',
  'For every SQL function that is not a support function of an aggregate or type (accessors, arrow operators, constructors, time-bucketing and downsampling helpers), every argument that is given, by its value and not just its presence, reaches the result or decides a branch on the way to it, '
  'also when other, optional arguments are NULL; likewise every parameter of every pipeline element, and the timevector it is applied to. '
  'Exceptions: the interval of interpolated_delta and interpolated_rate when there is no next aggregate, the arguments of duration_in of a NULL aggregate, accessor objects without parameters, and arguments that only tell a type.',
  ['inputs'], 'for every function and pipeline element, every argument, and optional arguments that are NULL or not',
  'An option that is silently ignored in one combination (only when the previous aggregate is NULL, only in the pipeline form) leaves every call that does not use that combination right.',
  [E + 'accessors.rs', E + 'counter_agg.rs', E + 'gauge_agg.rs', E + 'state_aggregate.rs', E + 'heartbeat_agg.rs', E + 'time_weighted_average.rs', E + 'stats_agg.rs', E + 'frequency.rs', E + 'uddsketch.rs', E + 'tdigest.rs', E + 'time_vector/pipeline', E + 'lttb.rs', E + 'asap.rs', E + 'candlestick.rs', E + 'range.rs'],
  [('#[pg_extern] functions', E + '*.rs'), ('pipeline elements', E + 'time_vector/pipeline')],
  'label-flow abstract interpretation per NULL combination: the value label of each argument must reach the result or a branch condition',
  '414 functions, 666 arguments, 608 cases; 7 pipeline elements with 18 parameters. Flow over-approximates: that an argument is used correctly is not decided here.' + TRUST)

N('N01', 'Sketch estimates stay within their documented error',
  'Percentile, frequency and distinct-count estimates deviate from the exact answer by no more than the documented error for the configured size, for every input distribution and merge order.',
  ['inputs', 'histories'], 'for all multisets of inputs and all merge trees', 'Tests check a few distributions.',
  [E + 'tdigest.rs', E + 'uddsketch.rs', E + 'hyperloglog.rs', E + 'frequency.rs', E + 'countminsketch.rs'], [('sketch crates', 'crates/{t-digest,udd-sketch,hyperloglogplusplus,count-min-sketch}')],
  'Quantifies over numeric results of floating-point and hashing computations on runtime data: no sound static argument in reach bounds them.')
N('N02', 'Statistics, counters and time averages equal their mathematical definition',
  'Averages, variances, regression coefficients, counter deltas/rates with resets, time-weighted averages and interpolations equal the mathematical definition up to rounding, independent of row order where the definition is.',
  ['inputs', 'histories'], 'for all inputs and all groupings into partial aggregates', 'Tests check fixed series.',
  ['crates/stats-agg/src', 'crates/counter-agg/src', 'crates/time-weighted-average/src', E + 'state_aggregate.rs'], [('accumulate/combine formulas', 'crates/stats-agg/src/stats1d.rs')],
  'An arithmetic identity over runtime floats; deciding it needs symbolic algebra over paths or execution, not static analysis of structure.')
N('N03', 'Downsampling keeps the documented points',
  'LTTB and ASAP return the documented number of points, keep the first and last ones and the visual shape.',
  ['inputs'], 'for all series and resolutions', 'Tests check a few series.', [E + 'lttb.rs', E + 'asap.rs', 'crates/asap/src'], [('bucket selection', E + 'lttb.rs')],
  'Depends on data-dependent bucket arithmetic; no structural rule decides it.')
N('N04', 'Removing a row from a moving window exactly undoes adding it',
  'For windowed statistics, removing a row after adding it gives the state without it, also with infinities and NaN.',
  ['histories', 'inputs'], 'for all window histories', 'Tests slide short windows.', ['crates/stats-agg/src', E + 'stats_agg.rs'], [('remove', 'crates/stats-agg/src/stats1d.rs')],
  'Numeric inverse property of floating-point code; only which fields are touched is structural, not whether they are restored.')

P('P05', 'A row with a NULL input leaves the aggregate state as it was',
  'A row in which an aggregated input is NULL is ignored: the state after the row is the very state before it, and an absent state stays absent or becomes one that holds nothing of the row. '
  'Arguments that an aggregate declares non-nullable are rejected instead; inputs for which NULL is itself meaningful are not covered (candlestick volume, counter and gauge bounds, the value of a timevector point).',
  ['inputs', 'histories'], 'for every aggregate, every nullable input argument, every state and every position of the NULL row',
  'Tests put NULL rows into a few aggregates, in one argument at a time and mostly as the only special row.',
  [E + 'tdigest.rs', E + 'uddsketch.rs', E + 'nmost.rs', E + 'stats_agg.rs', E + 'counter_agg.rs', E + 'time_weighted_average.rs', E + 'heartbeat_agg.rs', E + 'state_aggregate.rs', E + 'candlestick.rs'],
  [('transition functions return the state early on None', E + '*_trans*, *_rollup*')],
  'inlining abstract interpretation of MIR with the NULL argument as the only known input (frame condition on the state)',
  'For all inputs and states: every location of the state provably keeps its initial content on every path of the NULL case.' + TRUST)

P('P06', 'Combining or rolling up takes all of both inputs into account',
  'When two partial states, two sketches or a rollup state and one more summary are merged, everything either of them has accumulated is taken into account in the result: no counter, sum, heap, register, bucket, '
  'buffered value or boundary point of one side is ignored, in any combination of internal representations (sparse/dense, exact/approximate, empty/non-empty). Combining with an absent state yields the other state, never an absent result.',
  ['inputs', 'histories', 'schedules'], 'for every aggregate with a combine function, every rollup aggregate, every merge routine of the sketch crates and every pair of states',
  'Tests merge few states, mostly of one representation; a forgotten component shows only for states in which it differs from its default.',
  ['crates/counter-agg/src/lib.rs', 'crates/hyperloglogplusplus/src', 'crates/t-digest/src/lib.rs', 'crates/udd-sketch/src/lib.rs', E + 'frequency.rs', E + 'candlestick.rs', E + 'stats_agg.rs', E + 'nmost.rs', E + 'state_aggregate.rs'],
  [('combine functions', E + '*_combine*'), ('rollup transition functions', E + '*_rollup*, *_compound_trans'), ('merge routines', 'merge, merge_in, merge_sketch, combine')],
  'inlining abstract interpretation of MIR (component-wise may-flow of both operands into the result)',
  'For every leaf component of every state type: it may flow into the result on some path. A component that flows but is combined with the wrong arithmetic is not visible.' + TRUST)

P('P13', 'Stored values keep their binary layout and their text field names',
  'Every type the extension stores is written field by field in one fixed sequence of types, offsets, tags and version numbers, reads back exactly that sequence, and this sequence and the names used in its text form do not change: '
  'a value stored or dumped by an earlier build of the same version is read as the same value by this one. Enum tags, discriminants and slice lengths are part of the form.',
  ['configurations', 'histories'], 'for every SQL type of the extension, every field nested in it and every value stored by an earlier build',
  'Most types have no test of their stored bytes, and a round-trip inside one build cannot see that the form changed; writer and reader are generated or hand-written in different places.',
  [E + 'type_builder.rs', E + 'pg_any_element.rs', E + 'time_vector.rs', E + 'accessors.rs', 'crates/flat_serialize/flat_serialize_macro/src/lib.rs', 'crates/encodings/src', 'crates/udd-sketch/src/lib.rs', 'crates/stats-agg/src/lib.rs', E + 'candlestick.rs', E + 'state_aggregate.rs'],
  [('pg_type! / flat_serialize! / ron_inout_funcs!', E + 'type_builder.rs'), ('try_ref / fill_slice', 'crates/flat_serialize/flat_serialize_macro/src/lib.rs')],
  'extraction of the stored form from the MIR of every flat reader, writer and text serializer, compared with each other and with a recorded baseline',
  'Decides the form of all 141 stored types and 165 text types on every run; that the payload bytes mean what they say (e.g. compression of buckets) is not covered.' + TRUST)

P('P18', 'A stored value that is changed is stored and shown with its change',
  'Each SQL value keeps the bytes it was read from beside its decoded data. Whenever the data is changed, or built anew, the cached bytes are dropped or are exactly the bytes of that data, so that what a function returns, stores or shows is always the '
  'value it computed and never the one it started from.',
  ['histories', 'inputs'], 'for every SQL type of the extension and every function that reads, changes and returns a value of it',
  'A stale cache returns the old, valid value: no error, and only for values that came from a table rather than a literal computed in the same query.',
  [E + 'type_builder.rs', E + 'time_vector/pipeline.rs', E + 'time_vector/pipeline/map.rs', E + 'time_vector/pipeline/arithmetic.rs', E + 'candlestick.rs', E + 'counter_agg.rs', E + 'state_aggregate.rs'],
  [('CachedDatum and DerefMut of the wrappers', E + 'type_builder.rs'), ('pipeline elements change a timevector in place', E + 'time_vector/pipeline/*.rs')],
  'typestate analysis of MIR over every construction of and every write into a wrapper value',
  'All 141 wrapper types, every construction and every access to the wrapped data in the program.' + TRUST)

P('P10', 'Failures surface as SQL errors and never crash the server',
  'Whatever a query feeds to the extension - malformed text forms, absurd sizes that exhaust memory, deeply nested lambda expressions - it ends in a result or an ordinary error. No error is raised where it cannot unwind, every function PostgreSQL calls runs inside the '
  'panic guard, no code ends the process, running out of memory panics instead of aborting, recursion has a bound that does not depend on the input, and no unchecked conversion is applied to data.',
  ['inputs', 'faults'], 'for every SQL function, every input and every point at which an error can arise',
  'Tests run under a harness on valid inputs; an abort needs an error at one particular place (inside a callback, while out of memory, deep in a recursion) and then takes down all sessions of the server.',
  [E + 'palloc.rs', E + 'serialization.rs', 'crates/tspoint/src/lib.rs', E + 'time_vector/pipeline/lambda/parser.rs', E + 'time_vector/pipeline/lambda/executor.rs', E + 'state_aggregate.rs', 'Cargo.toml'],
  [('PanickingAllocator', E + 'palloc.rs'), ('extern "C-unwind" functions', E + 'serialization.rs'), ('check_complexity', E + 'time_vector/pipeline/lambda/parser.rs'), ('#[pg_extern] wrappers', 'pgrx')],
  'effect and ABI rules over the MIR of the whole program (unwind edges, guards, process-ending and unchecked calls), call-graph cycles and dominance of limit checks',
  'Every function, call and call-graph cycle of the extension and its crates is covered. Trusted: the recorded reasons why the few known recursion cycles are bounded; pgrx\'s own guard.' + TRUST)

P('P09', 'Functions declared immutable depend on nothing but their arguments',
  'A function the extension declares IMMUTABLE gives the same result for the same arguments in every call, session and process: it does not depend on the clock, on random numbers (including the iteration order of a randomly seeded hash table), '
  'on the environment, on other tables, on session settings such as the time zone, or on anything an earlier call left behind. A STABLE function may depend on the session only, and PARALLEL SAFE functions keep no mutable global state.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'for every SQL function with a declared volatility, all arguments, and all earlier calls in the session',
  'PostgreSQL folds, caches, indexes and parallelises such functions on the strength of the declaration alone; tests run each call once under one setting and see nothing.',
  [E + 'datum_utils.rs', E + 'state_aggregate.rs', E + 'frequency.rs', 'crates/hyperloglogplusplus/src/sparse.rs', 'crates/udd-sketch/src/lib.rs', E + 'serialization.rs', E + 'time_vector.rs', E + 'utilities.rs'],
  [('#[pg_extern(immutable, parallel_safe)]', E + '*.rs'), ('interval_to_ms', E + 'datum_utils.rs'), ('DurationState', E + 'state_aggregate.rs')],
  'call-graph reachability (effect analysis) from every declared SQL function to a catalogue of nondeterminism sources, with PostgreSQL\'s own volatility of the functions called',
  'All 959 SQL functions with a declaration; known findings list the functions that depend on the session time zone. User functions called by a pipeline are not followed.' + TRUST)

P('P07', 'Sketches that do not fit together, and values of another type, are refused',
  'Two states or summaries whose identifying parameters differ are never merged: combining or rolling up hyperloglogs of different element type or precision, percentile sketches of different size or error bound, count-min sketches of different dimensions or hash functions, '
  'frequency aggregates or max_n_by/min_n_by heaps of different element types, heartbeat aggregates of different intervals, state aggregates of different kind, or time-weighted averages of different methods ends in an error, whatever else the operands hold. '
  'Likewise, a function that returns stored values of a caller-chosen type (topn, into_values) raises an error unless that type is exactly the stored one.',
  ['inputs', 'histories'], 'for every pair of states or summaries that differ in an identifying parameter, and every stored value read as another type',
  'Tests try one mismatching pair, if any; a missing refusal shows only for the combination of representations that skips it, and then yields a plausible number or reads foreign memory.',
  [E + 'hyperloglog.rs', E + 'frequency.rs', E + 'uddsketch.rs', E + 'tdigest.rs', E + 'heartbeat_agg.rs', E + 'state_aggregate/rollup.rs', E + 'nmost.rs', 'crates/udd-sketch/src/lib.rs', 'crates/hyperloglogplusplus/src/lib.rs', 'crates/count-min-sketch/src/lib.rs', 'crates/time-weighted-average/src/lib.rs'],
  [('element type, precision, size and interval checks of combine and rollup functions', E + '*.rs'), ('topn, into_values', E + 'frequency.rs'), ('into_values', E + 'nmost/max_n*.rs')],
  'inlining abstract interpretation of MIR under the single assumption that one parameter differs (must-refuse)',
  'For all other contents of the operands: no path on which the parameters differ returns. 24 parameters of 14 merge functions and 9 typed readers. Capacities that only bound a result are not identifying.' + TRUST)

P('P19', 'A partial aggregate state survives serialization unchanged',
  'When an aggregate runs in parallel its partial state is written to bytes and rebuilt elsewhere. Everything the state has accumulated, including values still buffered, is in those bytes; the rebuilt state takes every written component back into the very place it came from and into no other; '
  'and the reader of each state format expects exactly the sequence of types its writer produces.',
  ['histories', 'schedules', 'inputs'], 'for every aggregate that serializes its state, every state, and every type nested in it',
  'No test runs a partial aggregate in a worker process; hand-written implementations, skipped fields and conversions on the way differ from the state only in components that most states leave at their default.',
  [E + 'type_builder.rs', E + 'frequency.rs', E + 'time_weighted_average.rs', E + 'counter_agg.rs', E + 'gauge_agg.rs', E + 'tdigest.rs', E + 'uddsketch.rs', E + 'datum_utils.rs', 'crates/tspoint/src/lib.rs', 'crates/counter-agg/src', 'crates/t-digest/src/lib.rs', 'crates/hyperloglogplusplus/src'],
  [('*_serialize / *_deserialize of every aggregate', E + '*.rs'), ('Serialize / Deserialize implementations', E + '*.rs, crates/*/src')],
  'abstract interpretation of the monomorphic Serialize and Deserialize instances (element order, types, origin and destination), and of every serialize/deserialize function (component-wise flow)',
  'All 41 types of the state format and 22 function pairs. Order, type, source and destination of every element are compared exactly; that a converted component (e.g. compressed buckets) decodes to the same value is not covered.' + TRUST)

P('P08', 'agg -> accessor(args) gives what accessor(agg, args) gives',
  'For every accessor object, `aggregate -> accessor(args)` is the same function as `accessor(aggregate, args)`: the same inputs take part (every argument and every part of the aggregate), through the same operations, conversions, defaults and refusals; '
  'for every text option that is accepted, and for optional arguments that are NULL or not, including a NULL aggregate.',
  ['inputs'], 'for every accessor, every aggregate, every argument, given or left out',
  'Most accessor tests compare one arrow call to one literal; an accessor that truncates its argument, forgets an option or picks another default agrees on such samples.',
  [E + 'accessors.rs', E + 'counter_agg/accessors.rs', E + 'frequency.rs', E + 'stats_agg.rs', E + 'heartbeat_agg/accessors.rs', E + 'state_aggregate/accessors.rs', E + 'time_weighted_average/accessors.rs', E + 'uddsketch.rs', E + 'tdigest.rs', E + 'candlestick.rs', E + 'hyperloglog.rs'],
  [('accessor! constructors', E + 'accessors.rs'), ('arrow_* functions and their function forms', E + '*.rs')],
  'abstract interpretation of constructor, arrow function and function form; comparison of the operations, conversions, calls and guards each applies to which input',
  '144 accessors in 339 cases (options, presence of optional arguments). Operations are compared as sets per input, not by order. Timevector operators and pipeline elements are no accessors.' + TRUST)

P('P22', 'Every row and everything accumulated has its part in the result',
  'Every argument of an aggregate that is not configuration enters its state with every row, the first row included, and configuration arguments decide how the first row sets the state up. Every component of the state has its part in the final result. '
  'Values waiting in a buffer are never dropped: on every path through a final or combine function each buffer is found empty, consumed, or handed on. Aggregates that keep all rows or totals over them (asap_smooth, lttb, counter_agg, gauge_agg, heartbeat_agg, state_agg, stats_agg, tdigest, '
  'timevector, time_weight, uddsketch and percentile_agg, count_min_sketch) record every row without NULLs, on every path; tdigest leaves out NaN. A uddsketch counts and sums every value it takes.',
  ['inputs', 'histories', 'schedules'], 'for every aggregate with an accumulated state, and every sequence of rows',
  'Losing a row needs the row that meets a full buffer, repeats a time, or arrives at a worker whose state is then combined; tests with a few rows never fill a buffer.',
  [E + 'heartbeat_agg.rs', E + 'lttb.rs', E + 'asap.rs', E + 'counter_agg.rs', E + 'gauge_agg.rs', E + 'tdigest.rs', E + 'uddsketch.rs', E + 'time_weighted_average.rs', E + 'frequency.rs', E + 'state_aggregate.rs', E + 'stats_agg.rs', E + 'candlestick.rs', 'crates/udd-sketch/src/lib.rs', 'crates/t-digest/src/lib.rs'],
  [('*_trans, *_final and *_combine functions', E + '*.rs'), ('UDDSketch::add_value, tdigest::Builder::push', 'crates/udd-sketch/src/lib.rs, crates/t-digest/src/lib.rs')],
  'label-flow abstract interpretation of transition, final and combine functions; must-pass analysis of recording and buffer consumption on all paths',
  '48 transition, 37 final functions, 143 state components, 21 buffers, 24 transition functions that must record. That a row is used with the right arithmetic is not decided; aggregates that keep only some rows (max_n, candlestick, frequency, hyperloglog) may drop rows by value.' + TRUST)

P('P11', 'Lambda expressions are checked when read and mean what they say',
  'A lambda expression is accepted only if each operator, function and negation in it gets operands of types it is defined for (functions: their number of arguments, all of them DOUBLE PRECISION); every other one is refused with an error. '
  'Evaluating an accepted expression never fails because of a type and gives a value of the type it was read as. Each operator and function computes what its name says, operands in order; comparisons compare the values; `and`, `or`, `not` follow logic; '
  '$value, $time, constants and variables stand for what they name; operators bind in the usual order of precedence. filter, map and the *_lambda functions refuse a lambda of another result type. The result for a point does not depend on the points evaluated before it.',
  ['inputs', 'histories'], 'for every expression, every combination of operators, functions and operand types, and every sequence of points',
  'There are 325 combinations of operator and operand types, and tests try a few dozen; an accepted combination the evaluator does not expect, or a variable remembered from the point before, needs a particular expression over several points.',
  [E + 'time_vector/pipeline/lambda.rs', E + 'time_vector/pipeline/lambda/parser.rs', E + 'time_vector/pipeline/lambda/executor.rs', E + 'time_vector/pipeline/filter.rs', E + 'time_vector/pipeline/map.rs'],
  [('build_binary_op, parse_primary, PREC_CLIMBER', E + 'time_vector/pipeline/lambda/parser.rs'), ('ExpressionExecutor', E + 'time_vector/pipeline/lambda/executor.rs'), ('Value', E + 'time_vector/pipeline/lambda.rs'), ('apply_lambda_to', E + 'time_vector/pipeline/*.rs')],
  'abstract interpretation of the parser\'s node construction and of the evaluator over the finite table of operators, functions and types; typestate of the executor (reset before each use)',
  'All 325 operator and type combinations, 25 functions, 11 users of lambdas. Trusted: that the grammar gives each rule its token, that PostgreSQL\'s and f64\'s functions do what they are named after, and that a variable is entered under the number it is later looked up by.' + TRUST)

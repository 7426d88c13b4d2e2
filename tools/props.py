"""The table of properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))


NF = "abstract interpretation of the module source to value graphs (gated SSA terms over symbolic state and inputs), exact rational-function normal forms compared case by case with an independently written specification"
NF_NOTE = (
    "For every previous state, input and NaN pattern within the stated configurations (window lengths and modes enumerated), over exact real "
    "arithmetic: equality of the one-step transition with the specification, by structural value-graph comparison of the current source. Trusted: "
    "the models of jax.numpy/Haiku/Flax primitives in waxsa/models.py. Constructs outside the analysed subset make an obligation undecided (quiet, listed in evidence)."
)
HF = lambda n: [f"src/wax/modules/{n}.py", f"src/wax/flax/modules/{n}.py"]

prop("W10", "A rolling buffer always exposes exactly the last L inputs in arrival order",
     "After any number of steps, a Buffer of length L returns the last L inputs, oldest first and newest last, with the fill value in the leading places while fewer than L inputs have arrived. "
     "With state reporting enabled it additionally reports how many of the places hold real inputs, min(inputs seen, L); the Haiku module started at a position i_start >= -L counts from that position. This holds for the Haiku and the Flax module alike, for scalar and multi-dimensional inputs.",
     ["inputs", "histories", "configurations"], "every input sequence of any length and content, every L, every fill value",
     "Tests compare a handful of short numeric sequences for one or two lengths; wrap-around of the ring storage, every length residue and arbitrary content are not sampled.",
     HF("buffer"), [("ring / shift update of the stored window", "wax/modules/buffer.py Buffer.__call__; wax/flax/modules/buffer.py Buffer.__call__")],
     "value-graph comparison of composed step summaries over all reachable integer states (constant propagation)", NF_NOTE + " Window lengths 1-4; the integer part of the state is enumerated by constant propagation.")

prop("W11", "Lag and Diff refer to exactly the right earlier input",
     "Lag with lag k returns at every step the input received k steps earlier and the fill value during the first k steps; lag 0 is the current input; tree_lag and Lag with a returned state (value and window) follow the same rule. Diff returns the current input minus the immediately preceding one, and NaN at the first step. Both hold for the Haiku and the Flax modules.",
     ["inputs", "histories", "configurations"], "every input sequence and position; lags enumerated 1-3",
     "Tests use fixed short series; an off-by-one that only shows for another lag or after wrap-around passes them.",
     HF("lag") + HF("diff"), [("buffer of length lag+1 read at its oldest place", "wax/modules/lag.py; wax/flax/modules/lag.py"), ("two-place buffer difference", "wax/modules/diff.py; wax/flax/modules/diff.py")],
     "value-graph comparison of composed step summaries over all reachable integer states", NF_NOTE)

prop("W12", "Percentage change uses the last valid earlier value and the documented NaN rule",
     "PctChange returns the current input divided by the most recent non-missing earlier input, minus one. Where the current input is missing and an earlier valid value exists it returns 0 if zero-filling is enabled (the default) and NaN otherwise; before any valid value it returns NaN. With forward filling off it divides by the preceding input itself. This holds for the Haiku and the Flax modules.",
     ["inputs", "histories"], "every sequence of observed and missing inputs",
     "The tests check one series with one gap; runs of gaps at other places, leading gaps and both option values are not covered.",
     HF("pct_change"), [("forward fill then lag", "wax/modules/pct_change.py; wax/flax/modules/pct_change.py")],
     "value-graph comparison of composed step summaries, every NaN pattern of four consecutive inputs", NF_NOTE)

prop("W13", "Counters count calls and change detection compares with the previous input",
     "Counter returns 1, 2, 3, ... on successive steps. HasChanged returns true exactly when some component of the current input differs from the corresponding component of the previous input, and true on a first floating-point input. Both hold for the Haiku and the Flax modules, and the counts do not wrap or lose precision: they are integers of at least 32 bits.",
     ["inputs", "histories"], "every input sequence",
     "Tests use one short scalar series; vector inputs where a single component changes and long histories are not sampled.",
     HF("counter") + HF("has_changed"), [("count state", "wax/modules/counter.py"), ("previous value state and inequality reduction", "wax/modules/has_changed.py")],
     NF, NF_NOTE)

prop("W14", "Forward fill, NaN/inf fill and rolling mean treat missing values as documented",
     "Ffill returns the most recent non-missing input and NaN before any. FillNanInf replaces exactly the NaN and infinite entries of every leaf by the fill value and leaves all others unchanged. RollingMean returns the mean of the non-missing entries among the last `horizon` inputs, and NaN when fewer than min_periods of them are present.",
     ["inputs", "histories", "configurations"], "every sequence of observed and missing inputs, horizons 1-3, min_periods 1-2, Haiku and Flax",
     "Tests use single random series with one NaN pattern; every placement of missing values in the window is not covered.",
     HF("ffill") + HF("fill_nan_inf") + HF("rolling_mean"), [("last valid value state", "wax/modules/ffill.py"), ("nan_to_num with one fill", "wax/modules/fill_nan_inf.py"), ("NaN-aware sum and count of the buffer", "wax/modules/rolling_mean.py")],
     NF, NF_NOTE)

prop("W15", "ARMA filters and SNARIMAX features use the documented previous values",
     "ARMA (Haiku and Flax) outputs eps_t plus the AR coefficients times the previous outputs plus the MA coefficients times the previous inputs, with zeros before the start, component by component, and replaces a non-finite result by 0, also for missing and integer inputs. Each coefficient belongs to one fixed lag. "
     "Haiku SNARIMAX predicts with its regressor applied to the exogenous inputs, the last q prediction errors and the last p targets, missing entries counted as 0. Flax SNARIMAX hands its regressor the last lags_x inputs, the last lags_y differences y - x when y is given and the current input, in this order and oldest first, and returns 0 for a non-finite prediction.",
     ["inputs", "histories", "configurations"], "every input sequence and every coefficient value, orders 1-3, scalar and two-component inputs",
     "Tests check shapes and one AR or MA coefficient on one random series; interplay of the two parts, several lags and vector inputs are not covered.",
     ["src/wax/modules/arma.py", "src/wax/flax/modules/arma.py", "src/wax/modules/snarimax.py", "src/wax/flax/modules/snarimax.py"],
     [("output and input history", "wax/modules/arma.py ARMA.__call__; wax/flax/modules/arma.py ARMA.__call__"), ("error and target buffers", "wax/modules/snarimax.py SNARIMAX.__call__")],
     "value-graph comparison of composed step summaries with the documented difference equation, from the initial and from arbitrary states", NF_NOTE)

prop("W18", "Factories and state decorators hand every option on unchanged",
     "create_X(option=value) builds a module X whose field of that name holds that value; options left out, and fields the factory has no parameter for, have the default of X. The decorators (compressed and hierarchical memory, state machine, attention state, composed states, update on event, streaming optimiser) build their module with exactly the given options, call it on the decorated function's input and hand its output, the inputs and the keywords to that function. create_flax_module_factory builds a new, equal module at every call. create_streaming_module_wrapper(cls) yields transforms of cls with the options given, make_streaming_compatible(module) a transform of a module that computes what the module computes. tree_lag(k) lags every leaf of every argument by k.",
     ["configurations", "inputs"], "every public create_* factory of wax.flax.modules with arbitrary option values, every decorator with each subset of one or all options",
     "Tests build some factories with default or single options and look at shapes only; a dropped or swapped option keeps them green.",
     ["src/wax/flax/modules", "src/wax/flax/core/advanced_state_patterns.py", "src/wax/flax/core/unroll.py", "src/wax/flax/core/state_utils.py", "src/wax/modules/lag.py"],
     [("factories", "wax/flax/modules/*.py create_*"), ("decorators", "wax/flax/core/advanced_state_patterns.py streaming_*; wax/flax/modules/compressed_buffer.py streaming_*_memory"), ("tree_lag", "wax/modules/lag.py, wax/flax/modules/lag.py tree_lag")],
     "abstract interpretation of each factory with symbolic options; fields of the constructed module compared with the options and the class defaults", "Field values only: what a module computes with its fields is the subject of the other properties.")

prop("W20", "The exponential moving average follows its documented recursion in every mode",
     "At every step EWMA's output and state equal the documented (pandas-compatible) recursion for adjust true, false and 'linear', ignore_na on and off, decay given as centre of mass or smoothing factor, and any initial value: an observed input is weighted against the decayed past, a missing input never changes the mean. "
     "The output is NaN while fewer than min_periods observations have been seen, and the optional report gives the effective centre of mass and the observation count. Components of an array input do not influence one another. Haiku and Flax modules both satisfy it.",
     ["inputs", "histories", "configurations"], "every previous state, every input (observed or missing), every combination of the listed options",
     "Tests compare a few option combinations with pandas on one random series; combinations such as missing values with adjust='linear' or min_periods with initial values are never executed.",
     HF("ewma"), [("weight / mean / count recursion", "wax/modules/ewma.py EWMA.__call__; wax/flax/modules/ewma.py EWMA.__call__")], NF, NF_NOTE)

prop("W21", "The exponential moving variance follows the incremental weighted recursion",
     "At every step EWMVar's output and state equal the incremental weighted variance recursion for adjust true, false and 'linear', with the decay given as centre of mass or smoothing factor. A missing input changes neither mean, variance nor observation count, and the variance of a single observation is 0. Components of an array input do not influence one another. Haiku and Flax modules both satisfy it.",
     ["inputs", "histories", "configurations"], "every previous state, every input (observed or missing), every mode",
     "Tests compare a few modes with pandas on one series without gaps.",
     HF("ewmvar"), [("mean / variance / count recursion", "wax/modules/ewmvar.py EWMVar.__call__; wax/flax/modules/ewmvar.py EWMVar.__call__")], NF, NF_NOTE)

prop("W22", "The exponential moving covariance is E[xy] - E[x]E[y] with one set of options",
     "EWMCov(x, y) at row i, column j equals the exponential moving average of x_i*y_j minus the product of the moving averages of x_i and y_j (without the subtraction when the inputs are declared centred). Each of the averages has its own state and uses exactly the decay, min_periods, adjust, ignore_na and initial value given to the module. Haiku and Flax modules both satisfy it.",
     ["inputs", "histories", "configurations"], "every input pair of different sizes, every option combination",
     "Tests use symmetric calls (x with itself) and default options, which hide transposition and dropped options.",
     HF("ewmcov"), [("three moving averages combined", "wax/modules/ewmcov.py EWMCov.__call__; wax/flax/modules/ewmcov.py EWMCov")],
     "modular value-graph comparison with the moving average kept as an uninterpreted function of its options and input", NF_NOTE)

prop("W23", "The numba moving average follows the same recursion and can be resumed",
     "wax.numba.ewma(...)(values, state) returns, for every row and column, the same documented moving average as EWMA for adjust true, false and 'linear', ignore_na, centre of mass or smoothing factor, min_periods and initial value, together with the state after the last row. Continuing with that state equals processing all rows at once. The values and the state given by the caller keep their content. df.wax_numba.ewm(...).mean() uses exactly the given options.",
     ["inputs", "histories", "configurations"], "every value and NaN pattern of 1-3 rows and 1-2 columns from the initial and from an arbitrary state, every option combination",
     "Tests compare with the JAX module on one random table and never use a state twice; in-place updates that leak into the caller's state are invisible there.",
     ["src/wax/numba/ewma_numba.py"], [("recursion over rows and columns", "wax/numba/ewma_numba.py ewma"), ("accessor", "wax/numba/ewma_numba.py NumbaExponentialMovingWindow.mean")],
     "abstract interpretation with mutable, aliasable NumPy arrays; results and final array contents compared with the documented recursion", NF_NOTE + " numba compilation itself is trusted.")

prop("W30", "Masking keeps selected values and averages only over them",
     "ApplyMask keeps the input exactly at places where the mask is true and puts the mask value everywhere else; a 1-d mask is lined up with the stated axis. MaskMean returns, for every group along the axis, the mean of the values at selected places (a missing selected value counts as zero, a group without selected place has mean NaN). Values at excluded places, including NaN and infinity, never influence the mean. Haiku and Flax modules both satisfy it. The Haiku ApplyMask accepts a 1-d mask of the axis's length or a mask of the input's shape and refuses every other mask instead of broadcasting it.",
     ["inputs", "configurations"], "every input, every mask, every axis of 1-d and 2-d inputs",
     "Tests use one mask on one small array; other axes, masks of differing population per group and NaN at excluded places are not sampled.",
     HF("apply_mask") + HF("mask_mean"), [("where(mask, x, mask_value)", "wax/modules/apply_mask.py; wax/flax/modules/apply_mask.py"), ("masked sum over masked count", "wax/modules/mask_mean.py; wax/flax/modules/mask_mean.py")],
     NF, NF_NOTE)

prop("W31", "Masked standard deviation and normalisation use only the selected values",
     "MaskStd returns, for every group along the axis, the root of the population variance of the selected values about their own mean (about zero when declared centred), and 0 when that variance is 0. MaskNormalize divides every value by the masked std of its group and replaces NaN and infinite results by zero. Haiku and Flax modules both satisfy it.",
     ["inputs", "configurations"], "every input and mask, axes of 1-d and 2-d inputs",
     "Tests use one axis and one mask, where mis-broadcast means are invisible.",
     HF("mask_std") + HF("mask_normalize"), [("deviation about the group mean", "wax/modules/mask_std.py; wax/flax/modules/mask_std.py"), ("division by the group std", "wax/modules/mask_normalize.py; wax/flax/modules/mask_normalize.py")],
     NF, NF_NOTE)

prop("W32", "OHLC bins hold the first, largest, smallest and last observed value",
     "Since the last reset, open is the first observed input, high the largest, low the smallest and close the last one; a missing input changes none of them. A reset starts a new bin whose open, high, low and close are its own input. Components of an array input have independent bins. Haiku and Flax modules both satisfy it.",
     ["inputs", "histories"], "every previous bin, input (observed or missing) and reset flag",
     "Tests use one short complete series with fixed reset points.",
     HF("ohlc"), [("bin update", "wax/modules/ohlc.py; wax/flax/modules/ohlc.py")], NF, NF_NOTE)

prop("W33", "An event-gated module advances on events only",
     "UpdateOnEvent returns the wrapped module's new output and stores its successor state exactly when the event holds; otherwise it returns the previous output and the wrapped module's state stays unchanged. Flax ConditionalComputation likewise returns the new output on an event and its last event's output (or the initial value) otherwise. Arguments given by name and several outputs are treated the same.",
     ["inputs", "histories", "configurations"], "every wrapped module, state, input and event flag",
     "Tests gate one module over one event sequence; state leaking on non-events for other wrapped modules is not exercised.",
     ["src/wax/modules/update_on_event.py", "src/wax/flax/core/streaming_transforms.py"], [("conditional state update", "wax/modules/update_on_event.py; wax/flax/core/streaming_transforms.py ConditionalComputation")],
     "value-graph comparison with the wrapped module uninterpreted and its state symbolic", NF_NOTE)

prop("W40", "Unrolling a model is its step function threaded over time in order",
     "Unrolling over sequences x_0..x_{T-1} yields outputs y_t and the final state where (y_t, s_{t+1}) = apply(params, s_t, x_t) in time order, starting at the given state, for the scan and the Python-loop mode, with nested inputs and outputs and keyword inputs; with skip_first the first element is used only for init. init sees exactly the first element. unroll() uses explicitly given params and state (also empty ones) and otherwise those from init. Haiku and Flax functions both satisfy it.",
     ["inputs", "histories", "configurations"], "every pure (init, apply) pair, every input sequence; sequence lengths 1-4, every option combination",
     "Tests run particular modules; dropping or reordering state, or taking init from another element, is invisible for models without the specific sensitivity.",
     ["src/wax/unroll.py", "src/wax/flax/core/unroll.py"], [("scan step", "wax/unroll.py unroll_transform_with_state; wax/flax/core/unroll.py flax_unroll_transform"), ("given params/state", "wax/unroll.py unroll; wax/flax/core/unroll.py flax_unroll")],
     "abstract interpretation with the model's init/apply as uninterpreted functions; resulting term structure compared with the required fold", NF_NOTE)

prop("W41", "Every unrolled step gets its own random key derived from the given key",
     "When a random key is given to an unrolled function, sequence driver, batch transform or streaming scan, every step's apply receives a key derived from it by splitting, no two steps receive the same key, and no key handed to a step is split again. Initialisation also gets a key derived from the given one. Without a key, no step receives one.",
     ["inputs", "configurations"], "every model, key and option combination; sequence lengths up to 4",
     "Tests use deterministic models or only check shapes; a reused key yields plausible but correlated randomness that no sampled assertion sees.",
     ["src/wax/unroll.py", "src/wax/flax/core/unroll.py", "src/wax/transform.py", "src/wax/stateful.py", "src/wax/flax/core/streaming_transforms.py"],
     [("key splitting in the scan step", "wax/unroll.py unroll_transform_with_state; wax/flax/core/unroll.py flax_unroll_transform"), ("key splitting of the other drivers", "wax/unroll.py dynamic_unroll, static_unroll, gym_static_unroll; wax/transform.py; wax/stateful.py unroll_lift_with_state; StreamingTransform.scan, streaming_scan")],
     "provenance analysis of key terms over the abstractly interpreted unroll (uninterpreted split)", NF_NOTE)

UNINT = "abstract interpretation with the model's init/apply as uninterpreted functions; resulting term structure compared with the required fold"
prop("W42", "Every sequence driver computes the same fold of the model over time",
     "dynamic_unroll, static_unroll, dynamic_unroll_fori_loop, gym_static_unroll, unroll_lift_with_state, StreamingTransform.scan and the batch transforms return the outputs of the model's step function applied to the elements in time order, threading the state from the given (or initialised) one, and the last state; with skip_first the first element only serves for initialisation. Given params and state are kept. data_unroll stacks a stream's observations in time order; static_scan agrees with jax.lax.scan.",
     ["inputs", "histories", "configurations"], "every pure (init, apply) pair and every sequence; lengths 1-4, option combinations",
     "Tests run one module per driver, mostly with default options; dropped elements, restarted state or ignored arguments need the specific option and a state-sensitive model.",
     ["src/wax/unroll.py", "src/wax/transform.py", "src/wax/stateful.py", "src/wax/flax/core/streaming_transforms.py"],
     [("scan / Python loop / fori_loop steps", "wax/unroll.py dynamic_unroll, static_unroll, dynamic_unroll_fori_loop, gym_static_unroll, static_scan, data_unroll"), ("batch fold", "wax/transform.py"), ("lifted fold", "wax/stateful.py unroll_lift_with_state")], UNINT, NF_NOTE)

prop("W43", "streaming_scan restarts the state exactly where the reset condition holds",
     "streaming_scan returns at every step the model's output for the current state; the state for the next step is the initial one when the reset condition holds for the current element and the successor state otherwise. Params and state given by the caller are used as given, missing ones come from init on the first element.",
     ["inputs", "histories", "configurations"], "every model, reset condition and sequence; length 3, every combination of given params/state",
     "Tests check shapes and one reset pattern on a counter.",
     ["src/wax/flax/core/streaming_transforms.py"], [("reset inside the scanned step", "wax/flax/core/streaming_transforms.py streaming_scan")], UNINT, NF_NOTE)

prop("W44", "Flax modules become pure (init, apply) pairs without losing state",
     "flax_transform_with_state turns a module (or factory) into init returning the params collection and all other collections, and apply which gives the module exactly those params and collections, the arguments and the key, and returns the output with every updated collection. Splitting and combining variables are inverse to each other; apply_with_state returns updated state and cache; jitting a pair keeps its functions. A streaming transform keeps its pair's init and apply and hands arguments and key on.",
     ["inputs", "configurations"], "every module, collection set, argument and key",
     "Tests use modules with one collection; dropping a second collection or the key is invisible for them.",
     ["src/wax/flax/core/transform.py", "src/wax/flax/core/state_utils.py", "src/wax/compile.py"], [("collection split and combine", "wax/flax/core/transform.py"), ("mutable collections", "wax/flax/core/state_utils.py apply_with_state"), ("jit of the pair", "wax/compile.py jit_init_apply")], UNINT, NF_NOTE)

OPTF = lambda *n: [f"src/wax/modules/{x}.py" for x in n] + [f"src/wax/flax/modules/{x}.py" for x in n]
prop("W50", "An optimiser module performs exactly one optimiser step per call",
     "Each call hands the gradients, the stored optimiser state and the parameters to the optimiser's update, returns the parameters with the updates applied and stores the new optimiser state; the first call starts from the optimiser's init on the parameters. The Haiku and Flax OptaxOptimizer and the StreamingOptimizer wrapper (loss of the scaled prediction against the second argument) satisfy it.",
     ["inputs", "histories", "configurations"], "every optimiser (init, update), every parameter, gradient and history; two successive steps from a fresh state",
     "Tests use SGD/Adam, which ignore the params argument and hide a dropped or stale optimiser state in small numeric differences.",
     OPTF("optax_optimizer") + ["src/wax/flax/core/streaming_transforms.py"],
     [("update call and stored state", "wax/modules/optax_optimizer.py; wax/flax/modules/optax_optimizer.py"), ("streaming step", "wax/flax/core/streaming_transforms.py StreamingOptimizer")], UNINT, NF_NOTE)

prop("W51", "FuncOptimizer trains the trainable parameters and keeps the others",
     "Each call evaluates the wrapped function's value and gradient with respect to the current trainable parameters, applies one optimiser step to those only, and leaves every non-trainable parameter unchanged and present; gradients that are not finite are replaced by zero when gradient filling is on. The next call works with the updated parameters. Haiku and Flax modules both satisfy it. The Haiku UpdateParams evaluates a function at the given trainable parameters merged with its own others and threads its state; get_init_params gives the trainable part of the initial parameters. The Flax UpdateParams splits parameters into the trainable ones and the others under their own names, and merging the two gives all of them back.",
     ["inputs", "histories", "configurations"], "every function, optimiser, input and partition predicate; two successive steps from a fresh state",
     "Tests use a predicate selecting everything and finite gradients, so a lost or wrongly updated non-trainable parameter is not observed.",
     OPTF("func_optimizer", "update_params"), [("gradient step and partition", "wax/modules/func_optimizer.py; wax/flax/modules/func_optimizer.py"), ("partition and merge", "wax/modules/update_params.py; wax/flax/modules/update_params.py")], UNINT, NF_NOTE)

prop("W52", "OnlineOptimizer takes one regularised projected step per observation",
     "Each call computes the model's loss on the current parameters (plus the regularisation of those parameters when given), differentiates it with respect to the trainable parameters only, applies one optimiser step, projects the result when a projection is given, and stores it; the reported loss, output and parameters belong to the step. The projection sees all trainable parameters at once. Non-trainable parameters stay unchanged. Haiku and Flax modules both satisfy it.",
     ["inputs", "histories", "configurations"], "every model, loss, optimiser, projection and regulariser; two successive steps from a fresh state",
     "Tests check that a loss decreases on one regression problem; a wrong gradient target, a projection applied to the wrong tree or an extra step still decreases it.",
     OPTF("online_optimizer"), [("online step", "wax/modules/online_optimizer.py; wax/flax/modules/online_optimizer.py")], UNINT, NF_NOTE)

prop("W53", "An online learner predicts before it learns from the observation",
     "OnlineSupervisedLearner returns the prediction made with the parameters before the current (x, y) was learned and the loss of that prediction, then updates the parameters by one optimiser step on that loss, so the next prediction uses the updated parameters. Haiku and Flax learners and the simple learner satisfy it.",
     ["inputs", "histories", "configurations"], "every model, loss and optimiser; two successive observations from a fresh state",
     "Look-ahead (predicting with parameters that saw the target) or a model that never learns gives plausible numbers on one sampled series.",
     OPTF("online_supervised_learner"), [("predict then update", "wax/modules/online_supervised_learner.py; wax/flax/modules/online_supervised_learner.py")], UNINT, NF_NOTE)

prop("W54", "The Newton optimiser scales each gradient by the running inverse Hessian",
     "After gradients g_1..g_n, scale_by_newton(eps) returns for every parameter leaf the product A g_n in the leaf's shape, where A is the exact inverse of eps I + sum of g_i g_i^T over the flattened leaf (Sherman-Morrison), starting from I/eps; leaves do not influence each other. newton(lr, eps) is this scaling followed by the learning rate.",
     ["inputs", "histories"], "every gradient sequence (3 steps from init, one step from an arbitrary symmetric inverse); leaves with up to 2 (thorough: 3) elements in every small shape, alone and in trees",
     "Tests compare one regret number; an update that uses the old inverse, mixes leaves or loses the shape still converges on one sample.",
     ["src/wax/optim/newton.py"], [("Newton scaling", "wax/optim/newton.py scale_by_newton, sherman_morrison"), ("chain", "wax/optim/newton.py newton")],
     UNINT, NF_NOTE)

SHAPES = "abstract interpretation of the source with concrete timestamps for every order type and symbolic values; every visible value is compared with the term the specification requires"
prop("W60", "Stream synchronisation never shows a value before it is available",
     "At a local time t a secondary variable of a Stream shows its observations strictly before t (t floored when a frequency is given), each once and in order: the newest one, or the newest maxlen when buffered, if one is new since the previous local time or forward filling is on, else the missing value. Local variables show the step's own value; variables without time dimension stay constant. prepare() unrolls the module once per local step over these data, encoded by the given encoders and narrowed or widened as x64 mode says. Options given per stream affect that stream only; progress bars and verbosity change nothing.",
     ["inputs", "histories", "configurations"], "every dataset whose timestamps have one of the enumerated order types (3-5 local times, up to 4 secondary observations in every relative position), every value, ffill/buffer/frequency options",
     "Tests use one daily/hourly data set; look-ahead by one observation, a duplicated or lost observation needs particular relative positions of the timestamps.",
     ["src/wax/stream.py"], [("synchronisation of streams", "wax/stream.py Stream.merge, trace_dataset"), ("access with masking", "wax/stream.py tree_access_data, access_data"), ("prepared function", "wax/stream.py Stream.prepare")],
     SHAPES, "Values are symbolic (any content); timestamps enumerate all order types up to the stated sizes. xarray is replaced by the source model waxsa/stubs/xarray.py; undecided constructs are quiet and listed in the evidence.")

prop("W61", "Encoded dates, integers and labels decode to exactly what was encoded",
     "A 64-bit integer (or a date, by its nanosecond count since 1970) is encoded as its upper and lower 32-bit words, and decoding gives back exactly the same value, negative ones included. less() on codes orders them like the integers; flooring gives the start of the day. Encoders of date and label arrays work element by element in order and restore the shape; encode_dataset and decode_dataset convert exactly the variables with an encoder.",
     ["inputs"], "all 64-bit integers and dates; arrays of any content (shapes enumerated)",
     "Tests use dates around 2020; sign bits, word boundaries and dates before 1970 are not sampled.",
     ["src/wax/encode.py"], [("word packing", "wax/encode.py encode_int64, decode_int64"), ("order of codes", "wax/encode.py less"), ("array encoders", "wax/encode.py string_encoder, datetime64_encoder, encode_dataset, decode_dataset"), ("day floor", "wax/encode.py floor_datetime, floor_jax_datekey")],
     "bit-provenance analysis of the abstractly interpreted integer arithmetic (each result bit is a constant or an input bit); order and floor by constant folding over all order types of the words", "All 64 bits symbolic for the codecs; sign/word-boundary representatives for less and the day floor. pandas/numpy date conversions and LabelEncoder are trusted models.")

prop("W62", "Streams replay and collect data in order; missing data read as sentinels",
     "A data set started as a stream yields its first observation for initialisation and then every observation in time order (values, or positions when tracing). unroll_stream stacks every leaf over the observations of a stream in order, without the first one when skip_first. A missing observation, also inside a buffer, reads as NaN, -99999, 0 or False according to the variable's type. With several time dimensions and no chosen local time an error is raised; exactly dates and labels get encoders. split() refuses variables with two time dimensions; a checked schema refuses encoders that lose data.",
     ["inputs", "configurations"], "every data content and tree of outputs; lengths 1-4, every supported dtype, option combinations",
     "Tests consume streams of one shape only; dropped or repeated observations, options and dtypes that no test combines stay unseen.",
     ["src/wax/stream.py"], [("replay", "wax/stream.py Stream.start_dataset_stream, np_select_item"), ("collection", "wax/stream.py unroll_stream"), ("sentinels", "wax/stream.py access_data, DTYPE_INIT_VALUES"), ("local time and encoders", "wax/stream.py Stream.get_local_time, get_dataset_schema")],
     SHAPES, "Values are symbolic; lengths and option combinations are enumerated. xarray is replaced by the source model waxsa/stubs/xarray.py; undecided constructs are quiet and listed in the evidence.")

prop("W63", "Accessors apply a module over time and label the results like the input",
     "On Dataset, DataArray, DataFrame and Series, .wax.stream().apply(module) returns the module's output at every time step, computed from the given params and state (else those of init) and the given key, in a container of the same kind with the input's dims and coordinates (per output up to its rank); with skip_first the first time has no output. format_outputs=False gives the raw outputs, return_state selects whether the last state is returned. .wax.ewm(...).mean() on DataArray, DataFrame and Series applies EWMA with exactly the given arguments.",
     ["inputs", "configurations"], "every module and data content; 2-3 time steps, 0 or 2 columns, one or two outputs, every option",
     "Tests use one output and default options; mislabelled second outputs, ignored params or options stay unseen.",
     ["src/wax/accessors.py", "src/wax/format.py"], [("apply", "wax/accessors.py StreamDataset, StreamDataArray, StreamDataFrame, StreamSeries"), ("ewm", "wax/accessors.py ExponentialMovingWindow"), ("labels", "wax/format.py")],
     SHAPES, "Modules and values are symbolic; sizes and options enumerated. xarray and pandas containers are replaced by the source model waxsa/stubs/xarray.py (no multi-index); undecided constructs are quiet and listed in the evidence.")

prop("W45", "Batched modules act element by element on their own parameters and state",
     "vmap_lift_with_state(f)(xs) returns, for every batch element i, f applied with the i-th parameters, state and inputs, stacks results and successor states in order and stores the states in the surrounding module; with split_rng every element has its own key, otherwise none. VMap does the same with a key at initialisation; add_batch additionally averages every output leaf over the batch, whether or not a key is available. The Flax VMap maps the function per element and averages when take_mean.",
     ["inputs", "histories", "configurations"], "every function and content; batches of 1-3 elements, trees of inputs and outputs, init and apply, with and without keys",
     "Tests use one module whose elements are alike; crossed states, shared keys or a batch mean over the wrong axis stay unseen.",
     ["src/wax/stateful.py", "src/wax/modules/vmap.py", "src/wax/flax/modules/vmap.py"], [("batched lifting", "wax/stateful.py vmap_lift_with_state"), ("batch helpers", "wax/modules/vmap.py VMap, add_batch; wax/flax/modules/vmap.py")],
     UNINT, NF_NOTE)

LOOP = "abstract interpretation of the source with uninterpreted agents, environments and models; the trace of calls and the results are compared with the specified protocol"
LOOP_NOTE = "Agents, environments and callbacks are uninterpreted (any behaviour, stateful); loop lengths and options are enumerated. Undecided constructs are quiet and listed in the evidence."
prop("W64", "Formatting labels arrays without moving, dropping or relabelling a value",
     "format_dataarray, format_dataset, format_dataframe and format_series turn every leaf of a nested structure into a container with the leaf's values, the given dims in order (one for all leaves, or per leaf) and exactly the reference coordinates of those dims, keeping the nesting; a frame of a 3-d array has its first index_nlevels dims as rows. The auto formatters label data with the dims of the first variable of the data set having that leading shape, in the container kind asked for, and return data of any other shape unchanged.",
     ["inputs", "configurations"], "arbitrary values, 1-, 2- and 3-dimensional leaves, per-leaf and common dims in several orders, missing reference coordinates, both kinds of containers",
     "The one test checks dims of one data set; values, coordinates, other ranks and trees are not looked at.",
     ["src/wax/format.py"], [("formatters", "wax/format.py format_*, auto_format_with_shape, tree_auto_format_with_shape")],
     "abstract interpretation with source models of xarray and pandas containers; values, dims and coordinates compared with an independent specification", NF_NOTE + " The real xarray and pandas are trusted to behave like the models.")

prop("W70", "The feedback module feeds the previous action to the environment, then acts",
     "At each step GymFeedback calls the environment with the previous action and the raw observation, then the agent with the observation the environment returned; it returns that reward (and observation, action on request) with both infos and remembers the action for the next step. The first previous action is init_action if given, else the agent's action on the first raw observation.",
     ["inputs", "histories", "configurations"], "every stateful agent and environment; three steps, every output option",
     "Tests use one linear agent; acting on the raw observation, an extra agent call or a stale action need particular agents to show.",
     ["src/wax/modules/gym_feedback.py"], [("feedback", "wax/modules/gym_feedback.py GymFeedback, GymOutput")], LOOP, LOOP_NOTE)

prop("W71", "gym_unroll drives agent, environment and callbacks in the documented order",
     "gym_unroll resets the environment unless obs is given, calls on_train_start, then repeats action = agent(obs), on_act, env.step(action), on_step, until the environment is done or an on_step callback returns true; then on_train_end, exactly one env.close(), and the last (reward, observation, action, done, info) is returned. Callbacks get exactly the documented arguments, all in list order, every one at every step.",
     ["inputs", "schedules", "configurations"], "every agent and environment; episodes of 1-3 steps, up to three callbacks with any subset of hooks and stop steps",
     "Tests run one environment to its end; early stops, several callbacks and given observations are not combined.",
     ["src/wax/gym/gym_unroll.py"], [("loop", "wax/gym/gym_unroll.py gym_unroll")], LOOP, LOOP_NOTE)

prop("W72", "Callbacks are active exactly where entered and record every step",
     "Callbacks entered with `with` or registered are called by every outermost gym_unroll without explicit callbacks until left or unregistered; explicit callbacks replace them, nested loops call none, and a loop that raises leaves the active callbacks as they were; entering a callback twice or giving a tuple of functions works as well. Stop(n) ends a loop after exactly n steps; Record returns reward (observation, action on request) of every step before done, stacked in order (pandas values one after the other with their labels); ProgressBar updates once per step and is closed at the end.",
     ["histories", "schedules", "configurations"], "sequences of loops, nested and failing loops; 1-6 steps, every option",
     "Tests enter one callback once; leaking callbacks, nested loops and failures are never exercised.",
     ["src/wax/gym/callbacks/callbacks.py", "src/wax/gym/callbacks/record.py", "src/wax/gym/callbacks/stop.py", "src/wax/gym/callbacks/progressbar.py", "src/wax/gym/gym_unroll.py"], [("activation", "wax/gym/callbacks/callbacks.py Callback, local_callbacks, add_callbacks"), ("Record, Stop, ProgressBar", "wax/gym/callbacks/record.py, stop.py, progressbar.py")], LOOP, LOOP_NOTE)

prop("W73", "Haiku agents and environments keep their state and replay the data in order",
     "HaikuAgent initialises params and state on its first observation (again after reset) and each call returns the module's action and keeps the new state; every init and apply gets a key of its own, whatever other agents or environments are in use. HaikuEnv.reset returns the next observation of the data; step applies the module to (action, next observation) and returns its observation and reward, done False and that observation's info; when the data is exhausted done is True, the reward 0 and the observation None. Agent.unroll runs the loop with the given obs and callbacks.",
     ["inputs", "histories"], "every module and data content; four agent steps with resets at any step, data of 1-5 observations",
     "Tests compare one unroll; reset in the middle, exhausted data and repeated keys stay unseen.",
     ["src/wax/gym/haiku_agent.py", "src/wax/gym/haiku_env.py", "src/wax/gym/agent.py"], [("agent", "wax/gym/haiku_agent.py HaikuAgent"), ("environment", "wax/gym/haiku_env.py HaikuEnv"), ("unroll", "wax/gym/agent.py Agent.unroll")], LOOP, LOOP_NOTE)

prop("W74", "The Flax feedback modules hand observation and reward to the agent unchanged",
     "Each step of the Flax GymFeedback calls the agent once with the observation, and with the reward when one is given and the agent takes it, returns the agent's action and remembers it as prev_action; GymFeedbackLoop returns (observation, action, reward) of the step, with reward 0 when none is given. Flax UpdateParams returns exactly what its function returns for the same positional and keyword arguments.",
     ["inputs", "histories"], "every observation, reward and agent function, from every stored state",
     "Tests use linear agents and check shapes; a reward or observation of another step, or a second call of the agent, stays unseen.",
     ["src/wax/flax/modules/gym_feedback.py", "src/wax/flax/modules/update_params.py"], [("feedback", "wax/flax/modules/gym_feedback.py GymFeedback, GymFeedbackLoop"), ("pass-through", "wax/flax/modules/update_params.py UpdateParams.__call__")],
     NF, NF_NOTE + " Agents are uninterpreted functions.")

prop("W16", "Compressed and hierarchical buffers keep the representation documented per level",
     "CompressedBuffer outputs, after any inputs: 'none' the rolling buffer; 'downsample' a rolling buffer of length max(1, maxlen // factor) over every factor-th input, the first included; 'ewma' the exponential moving average of the inputs; 'quantile' the percentiles of the newest min(maxlen, 1000) inputs, refreshed at every tenth input. HierarchicalBuffer's recent level sees every input, the medium level every 5th and the long level every 50th; between its updates a level's output is returned unchanged.",
     ["inputs", "histories", "configurations"], "every input sequence of up to 52 steps; lengths 1-4, each strategy, strategy pairs of the two slower levels",
     "Tests check shapes and key names only; order of the stored samples, the refresh schedule and what a level shows between its updates are not looked at.",
     ["src/wax/flax/modules/compressed_buffer.py"], [("strategies", "wax/flax/modules/compressed_buffer.py CompressedBuffer"), ("levels", "wax/flax/modules/compressed_buffer.py HierarchicalBuffer")],
     "abstract interpretation of the module source over composed steps with symbolic inputs; outputs compared as value graphs with an independent reference", NF_NOTE + " The 'sketching' strategy and the memory estimates are not covered.")
PAT = "abstract interpretation of the source with uninterpreted modules and conditions; calls, their arguments and the results are compared as value graphs with the specified behaviour"
prop("W46", "State patterns run exactly the modules their configuration selects",
     "HierarchicalState runs its modules once each in the given order; a module receives by name the outputs so far of its declared dependencies and the initial inputs, which win. ConditionalStateUpdate runs the module with the given arguments exactly when the condition holds and else returns its first argument; conditions are asked about exactly the call's arguments, named ones included. StreamingStateMachine runs the module of the current state and moves along that state's first transition whose condition holds, else stays; it starts in initial_state. hierarchical_composition, conditional_update and state_machine do this with the modules, condition or functions given to them.",
     ["inputs", "histories", "configurations"], "every module and condition (uninterpreted); dependency tables and state graphs of up to four nodes, every truth assignment of the conditions",
     "The classes are untested; an ignored dependency, a transition of another state or a module run in the wrong branch needs particular configurations.",
     ["src/wax/flax/core/streaming_transforms.py"], [("patterns", "wax/flax/core/streaming_transforms.py HierarchicalState, ConditionalStateUpdate, StreamingStateMachine")],
     PAT, NF_NOTE)
prop("W47", "Coordinated state modules run once each, in dependency order, deterministically",
     "HierarchicalStateMachine runs every state module once, after those it depends on, in an order that is the same in every process; 'hierarchical' coordination blends 9:1 the entries a state shares with coordinated states of higher levels; an exception of one module yields an error entry for it only; an unknown strategy is refused and the caller's mapping left unchanged. CompositeStateManager chains ('pipeline'), fans out ('parallel') or passes on influence ('hierarchical') in the order of its patterns. AttentionBasedStateSelector attends to at most max_history_length earlier embeddings, oldest first; get_relevant_states returns the first of them with uniform weights and leaves them as they are.",
     ["inputs", "configurations", "schedules"], "every module behaviour including failure; dependency graphs of up to four states, cyclic ones included; histories of up to four embeddings",
     "Tests run one process and one hash seed and check key names; an order taken from a set differs only under other hash seeds, blending is never looked at.",
     ["src/wax/flax/core/advanced_state_patterns.py"], [("state machine", "wax/flax/core/advanced_state_patterns.py HierarchicalStateMachine"), ("composition", "wax/flax/core/advanced_state_patterns.py CompositeStateManager"), ("attention", "wax/flax/core/advanced_state_patterns.py AttentionBasedStateSelector")],
     PAT + "; syntactic dataflow check that no iteration order comes from a set", NF_NOTE)
REF = "whole-package reference analysis of the syntax trees: symbol tables, import resolution, signature matching of resolvable calls, attribute existence on classes of the package"
prop("W80", "Every exported or referenced name exists and every resolvable call fits",
     "Every name in an __all__, every import between the package's modules and every global name used in a function exists; every call to a function or class of the package fits its signature (required, unexpected and repeated arguments); every attribute read from self or from a class of the package exists; every Flax module can be rebuilt from its constructor fields (no custom __init__ that drops them), as init, apply and clone require.",
     ["inputs", "configurations"], "every module, function and call site of the package, executed by a test or not",
     "Only executed lines are checked by tests; a wrong name, argument or export in an option or error path is found by the user who takes it.",
     ["src/wax"], [("references", "all modules of src/wax except tests")],
     REF, "Sound for what it reports: receivers of unknown class, star-arguments and dynamic attributes are skipped. External libraries are not checked.")

MON = "abstract interpretation of the monitor's source with a symbolic clock, a modelled process memory and uninterpreted monitored functions; containers and results compared with an independent reference"
MON_NOTE = "Step counts, limits and modules are enumerated; states, inputs and times symbolic or exact rationals. Undecided constructs are quiet and listed in the evidence."
prop("W81", "Debugging, profiling and memory decorators never change the function they watch",
     "A function wrapped by debug_streaming, profile_streaming or track_memory_usage has the init, apply and direct call of the function itself: same results, same exceptions, called exactly once with the same arguments, whether the monitor is enabled, disabled or created by the decorator. Each apply is recorded exactly once, with its duration, in the debugger (new state, first input, output) and the profiler (also when it raises). Without a module name any function or init/apply pair is accepted.",
     ["inputs", "histories", "configurations"], "every function and argument (uninterpreted); outputs with and without state, failing calls, every option",
     "Tests wrap one function with a name and look at a summary; duplicated records, swallowed exceptions and unnamed pairs stay unseen.",
     ["src/wax/flax/debug/debugger.py", "src/wax/flax/debug/profiler.py", "src/wax/flax/debug/memory_tracker.py"], [("decorators", "wax/flax/debug debug_streaming, profile_streaming, track_memory_usage")], MON, MON_NOTE)

prop("W82", "Debug hooks fire exactly when their condition holds and keep that step's data",
     "Each step asks every enabled hook's condition once with the step number, state, input and output; the hook fires exactly when it is true (one that raises counts as false and does not stop the others), counts its hits and keeps its newest max_events events. An event keeps its step's state, input, output and duration even if the caller changes its containers later. The newest max_history states and durations are kept; get_summary, export_events and clear_history match them. The ready-made conditions fire as documented: multiples of an interval, above a threshold, at a change larger than the tolerance since the last reported value, slow steps. A breakpoint's commands continue, show or end the run.",
     ["inputs", "histories", "configurations"], "every condition outcome including failure, several hooks, limits and interleaved enabling",
     "Tests use one always-true or simple hook; hooks that fail, bounded histories and the reference value of the change detector are not covered.",
     ["src/wax/flax/debug/debugger.py"], [("debugger", "wax/flax/debug/debugger.py StreamingDebugger, DebugHook, value_threshold, step_interval, state_change_detector")], MON, MON_NOTE)

prop("W83", "The profiler keeps the newest records and reports their exact statistics",
     "record_metrics appends, while enabled, one record with consecutive step number, module, duration, data sizes, memory and its change since the previous record; the newest max_history are kept and no history grows beyond that. finalize().get_summary() and get_module_summary() are the statistics of the kept records (of that module) in milliseconds and MB, with the throughput of the session; create_performance_report shows them; recommendations are given exactly at their thresholds; bottlenecks are exactly the steps slower than the threshold, a leak is reported exactly when the last ten records grew by more than the threshold. start_step records once, also when the block raises; reset forgets everything.",
     ["inputs", "histories", "configurations"], "sequences of records of several modules, limits below and above their number, thresholds met exactly",
     "Tests check that keys exist; statistics of a truncated history, unit slips and boundary cases are not looked at.",
     ["src/wax/flax/debug/profiler.py"], [("profiler", "wax/flax/debug/profiler.py StreamingProfiler, ProfileResult, ProfilerContext")], MON, MON_NOTE)

prop("W84", "Memory snapshots follow their schedule and leaks their least squares slope",
     "take_snapshot counts every call while enabled and takes a snapshot at multiples of snapshot_interval or when forced, with step, module, process memory, number and size of tracked arrays, their changes since the previous snapshot, and the summed sizes of parameters, state and buffers (names containing 'buffer', any case); the newest max_snapshots are kept. Summaries and generate_memory_report give the statistics of the kept snapshots. A leak is recorded exactly when the last ten snapshots (at least five) grow by more than the threshold at a least squares rate, in MB per step, above a hundredth of it, or by more than 100 arrays, with its steps, modules and severity (above 100, 50, 20 MB). track_memory_usage asks for a snapshot before and after each call, then with the new state. reset forgets everything.",
     ["inputs", "histories", "configurations"], "memory and array-count histories of up to 24 snapshots, intervals 1-40, limits 1-1000, forced and disabled calls, reset and reuse",
     "Tests take a few snapshots of the real process, whose memory they cannot control; schedule, truncation and leak thresholds are not exercised.",
     ["src/wax/flax/debug/memory_tracker.py"], [("tracker", "wax/flax/debug/memory_tracker.py MemoryTracker")], MON, MON_NOTE)

prop("W85", "Monitors shared among threads touch their histories only under their lock",
     "In StreamingDebugger, StreamingProfiler and MemoryTracker every read or change of a container that is changed under the object's lock happens with that lock held, counters are advanced only under it, and no method that holds a non-reentrant lock calls one that takes it again. So concurrent steps, summaries and resets neither lose records nor see half-updated histories nor deadlock.",
     ["schedules"], "every access to a lock-protected field in every method, along the calls among the object's methods",
     "Races and deadlocks need particular interleavings; the tests are single-threaded.",
     ["src/wax/flax/debug/debugger.py", "src/wax/flax/debug/profiler.py", "src/wax/flax/debug/memory_tracker.py"], [("lock discipline", "wax/flax/debug classes creating a threading.Lock or RLock")],
     "lock-set analysis on the syntax tree: regions holding the lock, private methods entered only with it held (fixpoint over call sites), classification of field accesses",
     "Closures, decorated methods and explicit acquire/release make the enclosing method undecided (quiet). Accesses from outside the class are not judged.")

prop("W86", "Trackers keep the newest data points; dashboards alert exactly above thresholds",
     "DataFlowTracker.record_data appends one data point with the current step, module, type, value and metadata; the newest max_history are kept overall and per module, and get_recent_data and get_module_history return exactly the matching ones in order and change nothing. InteractiveDashboard routes data and steps to the tracker of their pipeline, ignores unregistered pipelines, keeps every reported execution time and memory use, and raises an alert exactly for those above the threshold when alerts are enabled.",
     ["inputs", "histories", "configurations"], "interleaved records and steps of several modules and pipelines, limits 1-1000, queries of 0-100 points, thresholds met exactly",
     "Tests record a few points of one module; truncation, several pipelines and exact thresholds stay unseen.",
     ["src/wax/flax/visualization/data_flow_visualizer.py", "src/wax/flax/visualization/interactive_dashboard.py"], [("tracker", "wax/flax/visualization/data_flow_visualizer.py DataFlowTracker"), ("dashboard", "wax/flax/visualization/interactive_dashboard.py InteractiveDashboard")], MON, MON_NOTE + " Plotting back ends and web routes are not covered.")

prop("W87", "Computation graphs show every module once and nest as a forest",
     "The graph of an init/apply pair has one node per module that holds parameters, under its dotted path, and one for the function itself; edges join existing nodes; its DOT text shows every node and edge. In the nested graph every one of these appears, parents exist, children are exactly the inverse of parents, levels are depths, and a cluster groups at least cluster_min_nodes roots of one type; get_hierarchy_summary counts its nodes per type and level.",
     ["inputs", "configurations"], "parameter trees of depth 1-3 with several kinds of modules, both forms of init, with and without clustering, repeated analyses",
     "Tests analyse one flat function; nested parameters, clusters and repeated use of one analyzer are not looked at.",
     ["src/wax/flax/visualization/computation_graph.py", "src/wax/flax/visualization/nested_graph_viz.py"], [("graph", "wax/flax/visualization/computation_graph.py ComputationGraphRenderer"), ("nesting", "wax/flax/visualization/nested_graph_viz.py HierarchicalGraphAnalyzer, NestedGraphVisualizer")],
     "abstract interpretation of the renderer and analyzer on enumerated parameter trees; the resulting node and edge sets compared with an independent reference", "Parameter trees enumerated. Rendering back ends (graphviz, plotly, HTML) are not covered.")

prop("W88", "Calls leave their arguments and shared containers unchanged",
     "No public function or method of the package, and no function it returns (such as an init/apply pair), changes an argument it is given: it assigns no item or attribute of, and calls no changing container method on, anything reachable from its arguments or from the fields given to a module's constructor. Default values and module-level or class-level containers are not changed either. Excepted are an object's own fields, figures handed over to be drawn on, and the registered gym callbacks. So params, states and data can be used again after any call.",
     ["inputs", "histories", "configurations"], "every public function, method and returned closure of the package, along all its paths and the package functions it calls",
     "Tests use most arguments once; a state or option dict changed in place only shows when the caller uses it again.",
     ["src/wax"], [("all public functions", "src/wax/**/*.py")],
     "interprocedural effect (mod) analysis on the syntax tree: flow-sensitive alias sets of the parameters, function summaries composed to a fixpoint",
     "Objects of external libraries are opaque: only item and attribute assignment, container methods, in-place NumPy functions, inplace= and out= count as changes. In-place operators on a bare name count only for annotated containers. Changes through an alias stored on another object are not tracked.")

prop("W89", "Results depend on the inputs only: no hidden input, no set order",
     "No function of the computational packages reads a clock, the environment, the process, an object's identity or hash, or a global or unseeded random generator; randomness comes only from given keys. Nowhere in the package does the iteration order of a set become the order of a result: lists, tuples, joined texts, positions and appended elements made from a set are sorted first. So the same call gives the same result in every process.",
     ["inputs", "schedules", "environment"], "every function of the package; hidden inputs for all but the debug, visualization, dataset and example modules, whose purpose is to measure or to draw samples",
     "Within one process with one hash seed the results repeat, so tests cannot see a dependence on string hashing, time or global state.",
     ["src/wax"], [("all functions", "src/wax/**/*.py")],
     "source lints on resolved names (clock, environment and random sources) and a dataflow query from set-typed expressions to order-sensitive consumers",
     "Only expressions that are sets for sure are judged (displays, comprehensions, set(...), set algebra, package functions returning sets); loops over a set that only fill dicts or sets are accepted. Registered gym callbacks are a set by design: their relative order is unspecified.")

prop("W91", "Every rendering of a computation graph shows the same nodes, nesting and edges",
     "ComputationGraphRenderer.render as DOT, HTML, text or matplotlib figure shows every node exactly once with its name and type, every edge once from source to target with its label, and input shapes and parameters exactly when included; DOT cuts names longer than max_label_length. The Graphviz, Cytoscape and D3 renderings show every node of the nested graph once, inside its parent, with one edge from each node to each of its children. The interactive notebook graph of a function shows a named marker per node, with type and parameters when hovering, and a line per edge. Given an output path the same content is written there and the path is returned; unknown backends raise ValueError.",
     ["inputs", "configurations"], "graphs with long, special and equal names, shapes, parameters and labelled edges; all options; nested trees of depth 0-3 with and without clusters",
     "Tests check that some file or text comes back for one small function; a missing, doubled or reversed edge, a lost name or a wrong parent stays unseen.",
     ["src/wax/flax/visualization/computation_graph.py", "src/wax/flax/visualization/nested_graph_viz.py", "src/wax/flax/visualization/jupyter_viz.py"], [("renderings", "wax/flax/visualization/computation_graph.py ComputationGraphRenderer.render, render_pipeline_graph, export_graph_to_dot"), ("nested renderings", "wax/flax/visualization/nested_graph_viz.py NestedGraphVisualizer, visualize_nested_graph")],
     "abstract interpretation of the renderers to the text, JSON data or drawing calls they produce on enumerated graphs; nodes, labels, clusters and edges extracted from it are compared with the graph", "Drawing libraries are modelled by the calls they receive; other drawing calls leave the obligation undecided (quiet). Layout and styling are not judged.")

prop("W92", "Compressed buffers report the size of what they store; sketches count inputs",
     "get_memory_usage of a CompressedBuffer reports 8 bytes per element its strategy stores (rolling buffer capped at 1000 for 'quantile', max(1, maxlen // factor) for 'downsample', percentiles, sketch cells) and 4 per counter or hash parameter, and their total; get_total_memory_usage of a HierarchicalBuffer adds 8 bytes per recent element to the totals of its two levels and gives the ratio of the uncompressed size of all levels to it. The 'sketching' strategy adds one to one bucket of every row per input and returns the smallest count per bucket.",
     ["inputs", "configurations"], "all strategies and pairs of strategies, lengths 1-10000 around the cap and below the factor, given and default parameters; sketches of 1-4 rows",
     "Tests check that totals are positive; sizes below the factor, the cap and sketching levels are not looked at.",
     ["src/wax/flax/modules/compressed_buffer.py"], [("sizes", "wax/flax/modules/compressed_buffer.py CompressedBuffer.get_memory_usage, HierarchicalBuffer.get_total_memory_usage")],
     "abstract interpretation of the source on enumerated configurations, compared with an independent account of what is stored", "Configurations enumerated; sketches on exact rational inputs.")

prop("W93", "Dashboard clients get exactly what was recorded",
     "The dashboard's routes answer with the registered pipelines in order, the newest 100 data points of a pipeline (step, module, type, serialised value, metadata) with its number of steps, per metric the newest 50 values with the last and their mean, and the newest 100 alerts; an unknown pipeline is answered with status 404. Numbers, texts and up to ten elements of sequences, dictionaries and arrays are serialised in full, longer sequences and arrays by a summary. While a client is connected each recorded data point is broadcast once; each alert is broadcast when raised; subscriptions are confirmed exactly for registered pipelines.",
     ["inputs", "histories", "configurations"], "record sequences of several pipelines around every limit (10 elements, 50 values, 100 points and alerts), connects and disconnects",
     "No test has a web server: the routes and events are never called.",
     ["src/wax/flax/visualization/interactive_dashboard.py"], [("routes", "wax/flax/visualization/interactive_dashboard.py InteractiveDashboard._register_flask_routes, _register_socketio_events, record_pipeline_data")],
     "abstract interpretation of the dashboard with a model of Flask and Socket.IO that collects routes, handlers and messages; the answers compared with an independent reference", "The HTML page, its scripts and the server start are not covered. Sequences of records enumerated, values symbolic or exact.")

prop("W94", "Plots of recorded data show exactly the newest recorded points",
     "The text plot of a tracker lists the newest ten of the newest twenty recorded points of the modules and data types asked for, with step, module, type and value, together with the number of active modules, the types, the steps and the points; saving writes that text. The matplotlib plot draws, of the newest max_points points asked for, per module the numeric values and the sizes over the steps and every point at its time; updating it again changes nothing; each frame of an animation shows the points of the steps reached, and the recorded data are unchanged after every frame. A stream of a notebook or Bokeh figure shows its own newest points (up to the limit) in order; the animated flow shows per stage the newest 50 recorded points of its module; the Bokeh panels draw the numeric values of the newest 200 and 500 points. Parameter controls start with the configured values and hand all current values to every callback, also when one of them raises. A heatmap shows every value of the data in its own cell.",
     ["inputs", "histories", "configurations"], "record sequences around every limit, filters, several streams and figures",
     "No test has a drawing library with an inspectable output; what is drawn is never checked.",
     ["src/wax/flax/visualization/data_flow_visualizer.py", "src/wax/flax/visualization/jupyter_viz.py", "src/wax/flax/visualization/bokeh_viz.py"],
     [("plots", "wax/flax/visualization/data_flow_visualizer.py DataFlowVisualizer, create_flow_animation"), ("notebook", "wax/flax/visualization/jupyter_viz.py StreamingDataVisualizer, AnimatedPipelineFlow, InteractiveParameterControls; bokeh_viz.py BokehStreamingPlot, BokehMultiPanelDashboard, BokehHeatmapVisualizer")],
     "abstract interpretation of the plots over recording drawing surfaces (axes, figures, widgets, data sources); everything drawn compared with an independent selection of the recorded points", "Colours, titles, the flow rate, layouts and the simulated Bokeh panels are not covered. Record sequences enumerated, streamed values symbolic.")

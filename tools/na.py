"""Properties of wax-ml that hold or matter but that static analysis cannot decide here."""
NA = [
    dict(id="N01", title="Streaming statistics stay numerically close to their exact values",
         statement="For every float32 / float64 series the streaming results (ewma, ewmvar, ewmcov, rolling mean, masked std, online "
                   "optimisers) stay within a small relative error of the exact real-number recursion, however long the stream is.",
         over=["inputs", "histories"],
         quant="All finite float series of all lengths; error measured against exact arithmetic.",
         why="Accumulated rounding depends on the magnitudes of the whole history; tests compare a few hundred random values with pandas.",
         files=["src/wax/modules/ewma.py", "src/wax/modules/ewmvar.py", "src/wax/modules/ewmcov.py"],
         mech=[("EWMA", "wax.modules.ewma.EWMA.__call__"), ("EWMVar", "wax.modules.ewmvar.EWMVar.__call__")],
         reason="The value graphs of W20-W22 are compared in real arithmetic. A bound on accumulated rounding depends on the magnitudes and "
                "length of the stream and on how XLA fuses and reorders operations, neither of which is in the Python source."),
    dict(id="N02", title="Unrolling and streaming run in bounded memory and amortised constant time",
         statement="Processing a stream of any length uses memory that does not grow with the number of steps beyond the declared buffers, "
                   "and one step costs amortised constant time; monitoring overhead stays below the documented percentages.",
         over=["histories", "schedules"],
         quant="All stream lengths and all models.",
         why="Tests run short streams and cannot see growth.",
         files=["src/wax/unroll.py", "src/wax/stream.py", "src/wax/flax/debug/memory_tracker.py"],
         mech=[("dynamic_unroll", "wax.unroll.dynamic_unroll"), ("MemoryTracker", "wax.flax.debug.memory_tracker.MemoryTracker")],
         reason="Resident memory and time are properties of the interpreter, the XLA allocator and the machine. What the source does decide, that "
                "histories are cut at their declared limits, is part of W84 and W86."),
    dict(id="N03", title="Every module can be traced by jit, vmap, grad and scan",
         statement="A step function of any module can be placed under jax.jit, vmap, grad or scan and gives the same result as when run eagerly.",
         over=["inputs", "programs"],
         quant="All modules, all inputs, all compositions of JAX transformations.",
         why="Tests jit the modules they happen to use.",
         files=["src/wax/unroll.py", "src/wax/modules/buffer.py", "src/wax/flax/modules/compressed_buffer.py"],
         mech=[("static_unroll", "wax.unroll.static_unroll"), ("dynamic_unroll", "wax.unroll.dynamic_unroll")],
         reason="Several documented modules (compressed buffers, state patterns, monitors) branch on host values on purpose and the library does not "
                "say which are traceable, so a rule 'no host control flow on traced values' would alarm on intended code; and equality of eager "
                "and compiled results is a property of XLA."),
    dict(id="N04", title="Graphs and dashboards are drawn legibly by every rendering back end",
         statement="Matplotlib, Plotly, Graphviz, Bokeh and Dash show every node, edge and series of the graph or monitor at a place where it can be read.",
         over=["inputs"],
         quant="All graphs and series.",
         why="Tests check that a figure object comes back.",
         files=["src/wax/flax/visualization/nested_graph_viz.py", "src/wax/flax/visualization/bokeh_viz.py"],
         mech=[("bokeh plots", "wax.flax.visualization.bokeh_viz"), ("nested graph", "wax.flax.visualization.nested_graph_viz")],
         reason="Whether something can be read on a rendered page is decided by third-party layout code. The data handed to the back ends is covered by W86 and W87."),
    dict(id="N05", title="The sampling profiler attributes time to the function that spent it",
         statement="Recorded durations equal the wall-clock or CPU time spent in the watched function, including asynchronous device work.",
         over=["schedules"],
         quant="All schedules of host threads and device queues.",
         why="A test can only sleep and compare within a tolerance.",
         files=["src/wax/flax/debug/profiler.py"],
         mech=[("StreamingProfiler", "wax.flax.debug.profiler.StreamingProfiler")],
         reason="Asynchronous dispatch makes the measured interval a property of the JAX runtime. That the statistics are exact functions of the recorded "
                "durations is W83."),
    dict(id="N06", title="Online learners reach sublinear regret on every bounded sequence",
         statement="Online gradient and Newton learners have regret O(sqrt T) and O(log T) for convex and exp-concave losses.",
         over=["inputs", "histories"],
         quant="All bounded sequences of convex losses and all horizons.",
         why="Tests run one simulated environment.",
         files=["src/wax/optim/newton.py", "src/wax/modules/online_optimizer.py"],
         mech=[("newton", "wax.optim.newton.newton"), ("OnlineOptimizer", "wax.modules.online_optimizer.OnlineOptimizer")],
         reason="A regret bound is a theorem about the recursion, not a fact in the source; the source-level part, that each step is exactly the "
                "documented update, is W52-W54."),
]

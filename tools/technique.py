NOTE = ("randomised and directed workloads on the real code, each execution "
        "judged by an oracle computed independently; nothing is said about "
        "executions that were not run")
NOT_APPLICABLE = {}
TECH.update({
    'C01': 'random operation histories on real Topology objects, a shadow model scanned after every operation',
    'C02': 'all status/type combinations and random assignment histories, each outcome compared with the rule table',
    'C03': 'locations, links and polygons across zones and edges, compared with independent spherical/UTM computations',
    'C04': 'generated configuration files, tables and one-field mutations compared value by value with what was written',
    'C05': 'generated site tables written as CSV/KML/KMZ and read back by the real loaders, every site compared with the row it stands for',
    'C06': 'generated topologies written by the real serializer, parsed by an independent XML reader and read back, plus hand-written KML/CSV topologies with known content',
    'C07': 'runtime oracle over the real loader and grids: random rasters with voids, tiles, lat/lon sources and box queries, compared cell by cell with independent indexing',
    'C08': 'runtime oracle: confidences of the real validators over random surfaces compared with an independent column-to-axis computation, and metamorphic monitors (ends swapped, scene moved, obstruction raised, obstruction elsewhere)',
    'C09': 'runtime monitoring of the real process pool under injected delays, failures, batch sizes, process counts and shuffled inputs; results compared with serial evaluation and with each other, completion orders logged',
    'C10': 'Online monitors over real LOS plans: random sites, buildings, base networks and LOS results turned into topologies in memory and from files (CSV, KML, GeoTIFF); every pair of sites of the result is re-judged by an independent link oracle and by the C08-checked validators with tightened and loosened limits.',
    'C11': 'Online monitors over the real loaders, clipping, detection and rasterising of random outlines in files and memory, judged against independent geometry (vertex angles, cell grids, polygon intersection in UTM).',
    'C12': 'Online monitors on every public function of the link budget under random radios, patterns, MCS tables and weather, judged by an independent implementation of the documented equations, plus monotonicity monitors along sorted sweeps.',
    'C13': 'Online monitors on the device-pair distances and the search: both sides of every returned distance judged by an independent link budget, small ranges metre by metre, device order permuted.',
    'C14': 'Runtime oracle: setup_node_structure runs on random sites (bearing clusters across north, multi-sector nodes, all statuses, wires, given sectors); each layout is judged by a separate circular search of the pointing grid and every link by independent bearings',
    'C15': 'Runtime oracle: add_demand_to_topology runs on random sites (colocated, shared roofs, near the antimeridian) under all model mixtures; every demand site, its demand and connections are compared with a separately computed point list',
    'C16': 'Runtime oracle: status validation, link capacities and the whole preparation run on random networks made incoherent afterwards; acceptance is compared with a separate rule list, every capacity with independent radio equations',
    'C17': 'runtime monitoring: recomputation oracle over reported violation lists on random networks',
    'C18': 'runtime monitoring: independent recomputation oracle over signal levels on random networks',
    'C19': 'runtime monitoring of the graph analyses on random networks, with an oracle that removes elements one at a time and walks the network again',
    'C20': 'runtime monitoring of simulated network failures under injected clocks and seeds, against the exact availability from all failure combinations',
    'C21': 'runtime monitoring of the report of random plans, with an oracle that recounts, reprices and tabulates every element again',
    'C22': 'runtime monitor over plans of the real cost model (HiGHS stand-in for Xpress): constraint-by-constraint plan checker plus exhaustive reference search over site sets, polarities and traffic LPs',
    'C23': 'runtime monitor over plans of the real coverage model (HiGHS stand-in for Xpress): plan checker, budget and adversarial monitors, exhaustive reference search for the best affordable coverage',
    'C24': 'runtime monitoring with fault injection: redundancy planned on random plans, every failure of the level applied in turn, shortage and cost compared with exhaustive enumeration of sites and polarities by an independent max-flow',
    'C25': 'runtime oracle over random plans solved by the real interference model: every rule re-checked from inputs, SINR recomputed from reported time shares, objective bounded below and above by every legal link set (LP with and without interference)',
    'C26': 'Runtime monitoring: every flow solution computed by the real code for thousands of random plans is audited site by site, link by link, sector by sector by an independent monitor and its optimum compared with an LP written from scratch (commercial solver replaced by HiGHS)',
    'C27': 'runtime monitoring of POP proposal and duplication: every constraint of each proposal re-checked, unserved demand compared with exhaustive enumeration of POP choices, additions compared element by element with a model',
    'C28': 'runtime monitoring: random candidate networks and legal plans re-aimed by the real code; an independent observer checks sector membership, layout legality, channels, rules, and aim against a separate grid search',
    'C29': "Runs the real planner end to end (HiGHS behind the solver's interface) on random candidate networks and parameters, audits the plan with an independent walk, and reads back every table, metric and file; random decisions are written into random networks and compared with a model",
    'C30': 'differential runtime monitor: each world planned and surveyed by the real code in processes with three hash seeds and in shuffled listing orders; every element, table row and refusal compared',
    'C31': 'differential monitor: whole runs from generated YAML/JSON files against direct calls with the same values; files written, debug output and log lines observed per destination',
    'C32': 'fault injection: solver time-outs, infeasibility and poor answers injected per step; audit of the plans, differential against runs without the step',
    'C33': 'runtime monitoring: staged networks of random whole runs vs a rehearsal of the public step models and stage invariants',
})

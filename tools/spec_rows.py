HOOKS = ["09dbb56", "a8b3cb0"]
LOAD = ["src/dta.cpp", "src/dlink.cpp", "src/dnode.cpp", "src/od.cpp", "src/multiclass.cpp", "src/routing.cpp", "src/vehicle.cpp"]
BIND = ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"]
TESTS = ("The test suite loads three fixed example networks and compares a few numbers; ")

p("C01", "Vehicles are conserved at every interval of a loading",
  "At every interval of a single-class or two-class loading, the vehicles released so far equal those en route plus those that "
  "reached their destination, and every vehicle en route is in exactly one place (an origin queue or a link). A vehicle leaves "
  "the network only at its own destination, flow is conserved at every junction and per class, no link lets out more than came "
  "in, and a run asked to drain ends empty.",
  ["schedules", "inputs", "configurations", "histories"],
  "all legal networks, demands, link-model mixes, routing types, random streams, and every interval of the run",
  TESTS + "they never look at intermediate intervals, mixed link types, congestion with spill-back, or unfavourable random draws.",
  LOAD, [("MNM_Dta::load_once", "src/dta.cpp"), ("MNM_Veh_Factory counters", "src/factory.cpp"),
         ("node move_vehicle / link clear_incoming_array", "src/dnode.cpp, src/dlink.cpp, src/multiclass.cpp"),
         ("MNM_Destination::receive", "src/od.cpp")],
  "per-interval conservation invariant over the recorded history")

p("C02", "Cumulative curves equal the vehicles that crossed each link end",
  "After a loading, the cumulative in- and out-curves of every registered link (and, with two classes, of each class) equal, at "
  "every integer interval, the number of vehicles that actually entered or left that link by then, divided by the flow scalar. "
  "The curves never decrease, the interval counter equals the number of intervals simulated, and inflow queries over any window "
  "equal the difference of the curve; every query keeps the order in which the links were registered.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, all registered links and subsets of links, all integer intervals and query windows",
  TESTS + "only a few totals are compared; the curve is never compared with what the vehicles did.",
  ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp", "src/path.cpp", "src/dta_gradient_utls.cpp"] + BIND,
  [("MNM_Cumulative_Curve", "src/dlink.cpp"), ("record_cumulative_curve", "src/dnode.cpp, src/multiclass.cpp"),
   ("get_in_ccs / get_out_ccs / get_link_inflow", "macposts/_ext")],
  "recorded vehicle history as reference model for every curve")

p("C03", "Single-class demand is released exactly when and where asked",
  "In a single-class loading, each OD pair releases in each assignment interval its demand times the flow scalar, rounded to one "
  "of the two neighbouring integers (exact when it is an integer) without bias, at the first loading interval of that assignment "
  "interval, counted from the configured start. Nothing is released at any other time or for any other pair, and each vehicle "
  "enters on a link leaving its origin with its departure time recorded correctly.",
  ["schedules", "inputs", "configurations"],
  "all demand tables, scalars, interval lengths, start intervals and random streams",
  TESTS + "a fixed random state hides the rounding, and the starts, scalars and interval lengths never vary.",
  ["src/od.cpp", "src/dta.cpp", "src/io.cpp", "src/ults.cpp"],
  [("MNM_Origin::release_one_interval", "src/od.cpp"), ("MNM_IO::build_demand", "src/io.cpp"), ("MNM_Ults::round", "src/ults.cpp")],
  "release history against an exact demand model, with a binomial bound on rounding bias")

p("C04", "Two-class demand is released minute by minute as configured",
  "In a two-class loading, cars and trucks of each OD pair are released at minute boundaries as the demand table and the "
  "configured splitting rule say (all in the first minute, or spread evenly over the most minutes that get at least one whole vehicle each, if any), each amount times the flow scalar "
  "rounded to a neighbouring integer without bias. Nothing else is released, whatever the length of the assignment interval, and "
  "class, departure time and assignment interval of each vehicle are recorded correctly.",
  ["schedules", "inputs", "configurations"],
  "all two-class demand tables, splitting rules, scalars, interval lengths, start minutes and random streams",
  TESTS + "all shipped two-class examples use 15-minute assignment intervals and one splitting rule.",
  ["src/multiclass.cpp", "src/od.cpp", "src/dta.cpp"],
  [("MNM_Origin_Multiclass::release_one_interval*", "src/multiclass.cpp"),
   ("add_dest_demand_multiclass", "src/multiclass.cpp"), ("MNM_IO_Multiclass::build_demand_multiclass", "src/multiclass.cpp")],
  "release history against an exact demand model, with a binomial bound on rounding bias")

p("C05", "A loading is reproducible from its inputs and random state",
  "With the same input files and the same random state, a loading and everything reported about it (vehicle movements, curves, "
  "travel times, statistics, emission totals, record files) are bit-for-bit the same. Neither memory layout, clock, process identity, system entropy, "
  "earlier loadings in the process, other live instances nor random numbers drawn before the state was set make a difference, and "
  "which curves are recorded, and whether progress is printed, does not change the loading.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, and all memory layouts, clock readings, entropy and earlier activity of the process",
  TESTS + "one process never shows that results depend on addresses, on uninitialised memory or on what ran before.",
  LOAD + ["src/factory.cpp", "src/emission.cpp", "src/ults.cpp", "macposts/_ext/utils.cpp"],
  [("containers keyed by pointer, unordered iteration", "src/od.cpp, src/dnode.cpp, src/emission.cpp"),
   ("set_random_state and std::rand / std::random_shuffle users", "macposts/_ext, src/ults.cpp, src/od.cpp")],
  "repeated executions under different simulated heaps, clocks, entropy and process histories compared event by event")

p("C06", "No link receives or stores more vehicles than it can",
  "In every interval the vehicles entering a link stay within what its flow capacity admits (up to the documented rounding to whole "
  "vehicles and car equivalents), and a link-queue link never lets out more than its capacity. A cell-transmission link never holds "
  "more vehicles than its jam density allows.",
  ["schedules", "inputs", "configurations", "histories"],
  "all networks, demands far above capacity, random streams, and every interval",
  TESTS + "nobody checks per-interval flows, and over-saturated networks with spill-back are not sampled.",
  ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
  [("get_link_supply", "src/dlink.cpp, src/multiclass.cpp"), ("compute_flow / move_vehicle", "src/dnode.cpp, src/multiclass.cpp")],
  "per-interval flow and storage bounds over the recorded history under over-saturated demand")

p("C07", "Queues are first in, first out",
  "Vehicles of one class that traverse the same link and leave it in the same direction leave in the order in which they entered, "
  "in every link model. Vehicles waiting at an origin for the same first link are served from the front of the origin's queue: in an "
  "interval without a new release nobody overtakes a vehicle of the same class waiting ahead for the same link.",
  ["schedules", "inputs", "histories"],
  "all loadings, links, and pairs of vehicles of one class with the same next link",
  TESTS + "order among individual vehicles is never observed.",
  ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
  [("m_finished_array / m_veh_queue deques", "src/dlink.h, src/multiclass.h"), ("move_vehicle", "src/dnode.cpp, src/multiclass.cpp")],
  "pairwise order check over the recorded history")

p("C08", "Travel times respect free flow and match the curves they summarise",
  "No vehicle crosses a link in fewer intervals than the link's free-flow traversal takes, and reported link travel times are "
  "never below the free-flow time. The travel time reported for a link, entry time and class equals the time between a vehicle "
  "entering and the same position leaving according to the link's cumulative curves, and unresolved trips are reported as documented. "
  "Window averages, speeds and times along a path agree with these travel times.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, registered links, classes, integer and fractional entry times, both unresolved-trip modes",
  TESTS + "travel times are sampled for a couple of links at a few times in one congested state.",
  ["src/dta_gradient_utls.cpp", "src/dlink.cpp", "src/multiclass.cpp"] + BIND,
  [("MNM_DTA_GRADIENT::get_travel_time_from_FD / get_travel_time", "src/dta_gradient_utls.cpp"),
   ("get_link_freeflow_tt_loading", "src/dlink.cpp, src/multiclass.cpp"), ("get_link_tt / get_car_link_tt / get_truck_link_tt", "macposts/_ext")],
  "executable reference of the curve inversion plus per-vehicle traversal bound")

p("C09", "Every vehicle follows a legal route and path shares are respected",
  "A vehicle moves only between adjacent links, at most one per interval, from its origin to its destination, and in an acyclic "
  "network never uses a link twice. A vehicle with a fixed route stays on a path of its OD pair from the path table, never one "
  "whose share is zero at its departure, and paths are chosen without bias from their shares for the vehicle's class and interval.",
  ["schedules", "inputs", "configurations", "histories"],
  "all networks, path tables and share tables, routing types and random streams",
  TESTS + "individual routes are never observed and choice frequencies are never compared with the shares.",
  ["src/routing.cpp", "src/path.cpp", "src/multiclass.cpp", "src/vehicle.cpp", "src/shortest_path.cpp"],
  [("MNM_Routing_Fixed / Hybrid / Biclass_*", "src/routing.cpp, src/multiclass.cpp"), ("MNM_Pathset::normalize_p", "src/path.cpp"),
   ("MNM_Routing_Adaptive", "src/routing.cpp")],
  "per-vehicle route check and binomial bound on choice frequencies over the recorded history")

p("C10", "A loading keeps moving and ends at the configured horizon",
  "A loading runs exactly to its configured horizon, or, when asked to drain, to the first interval at or after the end of the "
  "demand at which nobody is en route; it never stops before all demand is released. In an acyclic network with workable "
  "capacities some vehicle moves within a bounded number of intervals whenever any is en route, so every drain finishes.",
  ["schedules", "inputs", "configurations", "histories"],
  "all acyclic networks (and cyclic ones with a fixed horizon), demands, start intervals, random streams",
  TESTS + "gridlock or stalls under unusual capacities, lengths and draws are never provoked.",
  LOAD, [("MNM_Dta::loading / load_once / finished_loading", "src/dta.cpp"), ("MNM_Dta::is_ok and queue handling", "src/dta.cpp")],
  "bounded-progress and termination check over the recorded history")

p("C11", "Unreadable or incomplete inputs end in an error, never a wrong loading",
  "When a configuration, network, demand or path file is missing, cannot be opened, ends early or fails while being read, preparing or running the "
  "loading raises an exception; it neither hangs, crashes, nor goes on silently with part of a required table or of a table it began to read. Short and "
  "interrupted reads make no difference, and after a failed attempt the same process can load a good network correctly. "
  "check_input_files accepts a network exactly if every destination can be reached from every origin.",
  ["fault sequences", "inputs", "crash points"],
  "every input file, every byte at which it is cut or fails, and open errors, short and interrupted reads, alone and in pairs",
  TESTS + "every file is complete and readable there.",
  ["src/io.cpp", "src/multiclass.cpp", "src/ults.cpp", "src/dta.cpp", "src/path.cpp", "src/routing.cpp"] + BIND,
  [("MNM_IO readers", "src/io.cpp"), ("MNM_IO_Multiclass readers", "src/multiclass.cpp"), ("ConfigFile", "src/ults.cpp"),
   ("from_files", "macposts/_ext")],
  "injected open and read faults and truncations at seeded byte positions; exception, recovery and history oracles",
  note="A truncation that leaves a well-formed but different file (a shorter number, say) may load; only termination, absence of crashes and heap damage, and recovery are judged there.")

p("C15", "silence() mutes exactly its block and restores everything",
  "Within macposts.utils.silence(fd) nothing written to that descriptor arrives anywhere, and other descriptors are not affected; on leaving the "
  "block, normally or through any exception, the descriptor refers to its former file and no descriptor is left open. An exception "
  "raised in the block reaches the caller unchanged, nesting works, and if the muting cannot be set up an exception is raised with nothing changed (a descriptor that is "
  "not open is simply ignored).",
  ["programs", "fault sequences", "crash points"],
  "all programs of nested silenced blocks, writes and exceptions over several descriptors, with descriptor exhaustion or failing opens at any point",
  "The tests silence one descriptor once and print.",
  ["macposts/utils.py"], [("silence", "macposts/utils.py")],
  "random programs of nested blocks under descriptor exhaustion and open faults against a model of where each byte must arrive", hook=False,
  observe=["bytes arriving at each descriptor", "open descriptors of the process"])

p("C18", "Trip, en-route and queue statistics equal the vehicles' histories",
  "After a loading, the reported released, en-route and finished counts and the total travel time (per class with two classes, "
  "including vehicles still under way, divided by the flow scalar) equal those of the individual vehicles. With two classes the "
  "per-interval en-route and queue statistics equal the vehicles en route and those waiting at link exits in that interval, the "
  "average waiting time of a link is that of its vehicles at its exit, and spillback is reported exactly for links that held more "
  "than their jam density.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, horizons, scalars and classes",
  TESTS + "totals are only compared for drained runs of one network.",
  ["src/dta.cpp", "src/multiclass.cpp", "src/statistics.cpp"] + BIND,
  [("get_travel_stats", "macposts/_ext"), ("MNM_Veh_Factory total time counters", "src/factory.cpp, src/multiclass.cpp"),
   ("record_enroute_vehicles / record_queue_vehicles", "src/dta.cpp, src/multiclass.cpp"),
   ("m_tot_wait_time_at_intersection*, m_spill_back", "src/multiclass.cpp")],
  "statistics against totals recomputed from the recorded history")

p("C22", "Vehicle classes, labels and adaptive shares match the inputs",
  "Released vehicles are adaptive or fixed-route in the proportion configured for their OD pair, class and interval (exactly none "
  "or all when that proportion is 0 or 1), and carry labels in the proportions given for their origin and class, never a label of "
  "proportion zero. An entry for one OD pair, class or origin does not influence any other.",
  ["schedules", "inputs", "configurations"],
  "all label tables, adaptive-ratio tables, routing types and random streams",
  TESTS + "no example has a time-dependent adaptive ratio or more than one label.",
  ["src/od.cpp", "src/multiclass.cpp", "src/io.cpp"],
  [("release_one_interval / release_one_interval_biclass", "src/od.cpp, src/multiclass.cpp"), ("generate_label", "src/od.cpp, src/multiclass.cpp"),
   ("build_td_adaptive_ratio", "src/io.cpp, src/multiclass.cpp")],
  "exact checks at the extremes and a binomial bound elsewhere over the recorded releases")

na("C91", "The graph container keeps nodes, edges and iteration consistent",
   "After any sequence of additions the graph reports exactly the nodes and edges added, with the attached data, and rejects duplicates.",
   ["programs"], "all operation sequences", "A few fixed sequences are tested.",
   ["src/graph.h"], [("macposts::graph", "src/graph.h")],
   "A sequential in-memory data structure without schedule, clock, randomness, I/O or faults; deciding it would need model-based "
   "property testing, not simulation.")

p("C13", "Record files state what was on every link, interval by interval",
  "After a single-class or two-class run, every volume and travel-time record file that was asked for (and no other) has one "
  "complete row per interval (or per record interval, averaged), starting with the empty network, and one column per link. A "
  "volume is the vehicles then on the link (per class in the class files) divided by the flow scalar, and a travel time is the "
  "one the link's fundamental diagram gives for that volume with the link attributes then in force.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, record settings, averaging lengths, link types and lane numbers, and every interval and link",
  TESTS + "no record file is ever opened by them.",
  ["src/statistics.cpp", "src/dlink.cpp", "src/multiclass.cpp"],
  [("MNM_Statistics / MNM_Statistics_Lrn", "src/statistics.cpp"),
   ("MNM_Statistics_Lrn_Multiclass::update_record", "src/multiclass.cpp"),
   ("get_link_flow / get_link_tt", "src/dlink.cpp, src/multiclass.cpp")],
  "record files against the recorded movements and a model of the fundamental diagram")

p("C19", "Emission totals account for every vehicle on the listed links",
  "The emission report of a run equals the sum, over all intervals and listed links, of the vehicles on the link times the "
  "distance driven at the link's current speed times the published rate for that speed (limited to 5-65 mph; trucks with their "
  "factors), where electric vehicles (by label) add distance only. Total and electric miles, and with two classes hours and "
  "trips, are exact for each class; links that are not listed add nothing and asking for the report changes nothing.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, lists of links, electric-vehicle labels, speeds from jam to free flow, and both classes",
  TESTS + "the report is never compared with anything.",
  ["src/emission.cpp", "src/multiclass.cpp", "src/dlink.cpp", "src/dta.cpp"],
  [("MNM_Cumulative_Emission::update", "src/emission.cpp"),
   ("MNM_Cumulative_Emission_Multiclass::update", "src/multiclass.cpp"),
   ("get_link_flow_emission*", "src/dlink.cpp, src/multiclass.cpp")],
  "emission report recomputed from the recorded movements, labels and speeds")

p("C17", "Assignment-ratio matrices trace link flow back to path departures",
  "Each entry of the assignment-ratio matrix is the number of vehicles of that registered path and departure interval that "
  "entered that registered link within that query window, divided by the flow scalar, and, in the complete matrix and its saved "
  "file, divided by the given path flow. Each such vehicle (fixed-route, of the class asked for) is counted exactly once, and "
  "nothing else is.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, registered path and link subsets, query windows, path flows, scalars and both classes",
  TESTS + "one matrix of one network is compared in aggregate at most.",
  ["src/dta_gradient_utls.cpp", "src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"] + BIND,
  [("MNM_Tree_Cumulative_Curve", "src/dlink.cpp"), ("add_dar_records*", "src/dta_gradient_utls.cpp"),
   ("get_dar_matrix / get_complete_dar_matrix / save_dar_matrix", "macposts/_ext")],
  "matrices recomputed from the recorded movements of every vehicle")

p("C20", "Adaptive vehicles always head along a currently cheapest route",
  "Whenever an adaptive vehicle leaves its origin or passes a junction, the link it takes begins a route to its destination that "
  "no other route undercuts, by the link travel times last recorded before the last routing update, valued with the configured "
  "value of time, plus the tolls then in force. Tolls, time-dependent tolls, the value of time and the routing interval take "
  "effect exactly as configured.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings with adaptive vehicles, tolls, values of time, routing and record intervals, congestion patterns",
  TESTS + "the route of an adaptive vehicle is never looked at and no example is tolled.",
  ["src/routing.cpp", "src/shortest_path.cpp", "src/statistics.cpp", "src/multiclass.cpp", "src/io.cpp"],
  [("MNM_Routing_Adaptive::update_routing / update_link_cost", "src/routing.cpp"),
   ("MNM_Shortest_Path::all_to_one_FIFO", "src/shortest_path.cpp"),
   ("build_link_toll*, build_link_td_attribute*", "src/io.cpp, src/multiclass.cpp")],
  "every recorded turn of an adaptive vehicle against shortest routes by recomputed costs")

p("C21", "Path travel times and costs agree with the links walked in turn",
  "After a loading, the travel time of a path for a departure interval is the sum of its links' travel times, each taken at the "
  "interval (rounded up, at least one) in which the previous links were left, and its cost sums value of time and toll of the "
  "same links; registered paths, arbitrary link sequences and both classes agree, and departures after the last interval are "
  "refused. The lowest-cost path reported is a legal path whose cost no other path undercuts.",
  ["schedules", "inputs", "configurations", "histories"],
  "all loadings, paths, departure intervals, tolls, values of time and both classes",
  TESTS + "path times are queried for a few departures of one network and compared with nothing.",
  ["src/dta_gradient_utls.cpp", "src/multiclass.cpp", "src/shortest_path.cpp"] + BIND,
  [("get_path_travel_time / get_path_travel_cost", "src/dta_gradient_utls.cpp"), ("build_link_cost_map", "macposts/_ext"),
   ("get_path_tt* / get_registered_path_tt* / get_lowest_cost_path", "macposts/_ext"), ("MNM_TDSP_Tree", "src/shortest_path.cpp")],
  "link-by-link walk over travel times recomputed from the recorded movements, and dynamic programming for the lowest cost")

p("C24", "Links pass vehicles on as their traffic model prescribes",
  "The vehicles ready at a link's exit after each interval are exactly those its traffic model (point queue, link queue or cell "
  "transmission; one or two classes) yields from the vehicles that entered and left it, with the capacity, speed, jam density, "
  "lanes and length then in force, time-dependent attributes included. Every fractional flow is rounded to a neighbouring whole "
  "number, up exactly when the interval's random draw lies below the fraction, hence without bias. The flow a link still admits is "
  "the supply of the same model.",
  ["schedules", "inputs", "configurations", "histories"],
  "all link types, lengths, capacities, densities, classes, scalars, unit times, arrival patterns, back-pressure histories and "
  "attribute changes",
  TESTS + "no link is compared with its model, and congested, two-class or changing links hardly occur.",
  ["src/dlink.cpp", "src/multiclass.cpp", "src/ults.cpp"],
  [("MNM_Dlink_Ctm / _Lq / _Pq ::evolve, get_link_supply", "src/dlink.cpp"),
   ("MNM_Dlink_Ctm_Multiclass / _Lq_Multiclass / _Pq_Multiclass", "src/multiclass.cpp"),
   ("modify_property / update_link_attribute", "src/multiclass.cpp"), ("MNM_Ults::round", "src/ults.cpp")],
  "executable reference models of every link stepped along the recorded entries and departures, under a random stream whose level "
  "per interval the simulator knows")

p("C25", "Junctions pass what demand and supply allow, shared in proportion",
  "In every interval and for every turn, an ordinary junction passes the waiting vehicles of that turn up to its proportional "
  "share (by waiting car equivalents) of what the next link admits, rounded to whole vehicles; with one class all turns into a "
  "link together never pass more than it admits, nor less than its whole part when more are waiting. Origins release all waiting "
  "vehicles, or as many as the first link admits. Destinations take every vehicle that has arrived.",
  ["schedules", "inputs", "configurations", "histories"],
  "all merges and diverges, demands, supplies, class mixes, scalars and congestion histories of fixed-route loadings",
  TESTS + "no flow through a junction is looked at.",
  ["src/dnode.cpp", "src/multiclass.cpp", "src/ults.cpp"],
  [("MNM_Dnode_Inout::prepare_supplyAndDemand / round_flow_reduction / move_vehicle", "src/dnode.cpp"),
   ("MNM_Dnode_FWJ::compute_flow", "src/dnode.cpp"), ("MNM_Dnode_FWJ_Multiclass", "src/multiclass.cpp"),
   ("MNM_DMOND / MNM_DMDND ::evolve", "src/dnode.cpp, src/multiclass.cpp")],
  "executable reference model of every junction fed with the recorded exit queues and the reference supply of the links")

p("C12", "Write failures and crashes never distort a loading or its records",
  "When a record file cannot be created the run raises an exception; when writing one fails (disk full, I/O error) or the process "
  "dies at any point, that file holds a prefix of what the undisturbed run writes, the other files are unaffected, and a loading "
  "that goes on is the same loading. Short and interrupted writes make no difference. A new run in the same folder, whatever "
  "remains there, writes complete and correct files.",
  ["crash points", "schedules", "inputs", "configurations"],
  "all record settings, write positions, fault kinds, crash points and remains of earlier runs",
  TESTS + "writes never fail and no run is ever interrupted.",
  ["src/statistics.cpp", "src/multiclass.cpp", "src/dta.cpp"],
  [("MNM_Statistics::init_record / record_*_interval_condition / post_record", "src/statistics.cpp"),
   ("MNM_Statistics_Lrn_Multiclass", "src/multiclass.cpp")],
  "write faults and process death injected at chosen bytes of chosen record files, compared with the undisturbed execution of the "
  "same seed")

p("C14", "Asking questions never changes the answers",
  "After a loading, every query (curves, flows, travel times and speeds, costs, paths, matrices, statistics, emissions) gives the "
  "same answer whenever, however often and in whatever order it is asked, and whatever other instances are loaded or destroyed in "
  "between. A question about intervals outside the loading, or about an empty window, raises an exception and leaves no trace.",
  ["histories", "schedules", "inputs", "configurations"],
  "all sequences of queries, repetitions, impossible questions and other instances, after all loadings",
  TESTS + "each query is called once or twice in one fixed order.",
  BIND + ["src/dta_gradient_utls.cpp", "src/multiclass.cpp", "src/dlink.cpp", "src/shortest_path.cpp"],
  [("query methods of Dta and Mcdta", "macposts/_ext"), ("MNM_Cumulative_Curve::get_result / get_time", "src/dlink.cpp"),
   ("get_travel_time_from_cc, m_last_valid_time", "src/dta_gradient_utls.cpp")],
  "two executions of the same seed asked in different seeded orders with repetitions, impossible questions and other instances in "
  "between, all answers compared")

p("C16", "Congestion reports and vehicle trajectories match the loading",
  "The congestion report has one row per complete window and link, whose inflows and outflows are the vehicles that crossed the link's "
  "ends in that window divided by the flow scalar, and whose travel times, free-flow times and speeds agree with the cumulative curves "
  "and link attributes. The trajectory file lists, at every requested interval, exactly the tracked vehicles still under way with the link "
  "they are on and the link they are heading for; vehicles are tracked exactly if released and let in at a requested interval and OD "
  "pair and sampled. Neither changes the loading, and a file that cannot be created raises an exception.",
  ["histories", "inputs", "faults", "configurations"],
  "all loadings of one or two classes, windows, sampling rates, tracking settings and file faults",
  TESTS + "neither file is ever written by the tests.",
  BIND + ["src/multiclass.cpp", "src/io.cpp", "src/dta_gradient_utls.cpp"],
  [("print_simulation_results", "macposts/_ext"), ("MNM::print_vehicle_route_results", "src/multiclass.cpp"),
   ("MNM_Dta_Multiclass::loading_vehicle_tracking", "src/multiclass.cpp"), ("read_vehicle_tracking_setting", "src/io.cpp")],
  "both files compared with executable references computed from every vehicle's recorded history, under file faults, stale files "
  "and re-runs")

p("C23", "Path sets cover what they claim and survive saving and loading",
  "Coverage queries state exactly which registered links lie on which registered paths. Paths generated to cover links, and generated "
  "shortest path sets, are connected routes from an origin to a destination with demand between them, without duplicates; a link is "
  "reported as covered exactly if some such path contains it, and the first path of a shortest path set is a cheapest one. The saved path "
  "table keeps all earlier paths with their shares, the new ones with share zero, and loads again; a file that cannot be created raises "
  "an exception.",
  ["programs", "inputs", "configurations", "fault sequences"],
  "all networks, path tables, registered links and paths, sequences of generation calls, tolls, and file faults",
  TESTS + "path generation is never called.",
  ["src/path.cpp", "src/multiclass.cpp", "src/shortest_path.cpp"] + BIND,
  [("generate_paths_to_cover_registered_links / generate_paths_to_cover_links / generate_shortest_pathsets", "macposts/_ext"),
   ("MNM::build_pathset / build_pathset_multiclass / save_path_table", "src/path.cpp, src/multiclass.cpp"),
   ("are_registered_links_in_registered_paths", "macposts/_ext")],
  "random programs of generation calls under file faults, judged by the saved tables and a loading with them")

p("C26", "Equilibrium iterations keep the demand and report true gaps",
  "In every iteration of run_due and run_dso no path flow is negative and the path flows of each OD pair add up to its demand (in each "
  "assignment interval, or in total with departure-time choice); the loading releases these flows, on these paths only. Without "
  "departure-time choice, method MSA moves the same fraction of all other flows to one currently cheapest path. Saved path flows, "
  "times and costs, the total travel time and the gap of each iteration are those of its loading; gaps are never negative, and one row "
  "is written per iteration.",
  ["histories", "schedules", "inputs", "configurations", "fault sequences"],
  "all single-class networks, demands, tolls, penalties, step sizes, methods, numbers of iterations and random streams",
  TESTS + "no equilibrium is ever computed by them.",
  ["src/due.cpp", "src/dso.cpp", "src/path.cpp", "src/dta_gradient_utls.cpp", "macposts/_ext/dta.cpp"],
  [("Dta::run_due / run_dso", "macposts/_ext/dta.cpp"), ("MNM_Due_Msa::update_path_table*", "src/due.cpp"),
   ("compute_merit_function*, get_disutility", "src/due.cpp"), ("MNM_Dso::get_link_marginal_cost", "src/dso.cpp")],
  "iterations re-run with the same random state, the saved tables of each compared with its recorded loading and with the iteration before")

p("C27", "Tours make every trip in turn, waiting at each stop, and are counted once",
  "In loadings with delivery or electric traffic, vehicles of a tour are released by its demand, travel its trips in the given order, "
  "each along a connected route of that trip (a path with a positive share, if not adaptive), wait the given time at each further "
  "origin before moving on, and leave the network only at the end of the last trip. Every vehicle is counted once as released, en route "
  "or finished; curves and the statistics report agree with the vehicles. The random state alone decides the run.",
  ["histories", "schedules", "inputs", "configurations", "fault sequences"],
  "all single-class networks, OD and tour demands (repeated stops included), waiting times, shares of adaptive vehicles and random "
  "streams, with and without charging stations",
  TESTS + "no tour is ever simulated by them.",
  ["src/delivery_traffic.cpp", "src/ev_traffic.cpp", "src/dnode.cpp", "macposts/_ext/dta.cpp"],
  [("MNM_Destination_Delivery::receive, MNM_Veh_Delivery::move_to_next_od", "src/delivery_traffic.cpp"),
   ("MNM_Dlink_Pq_Delay::clear_incoming_array", "src/delivery_traffic.cpp"),
   ("Dta::run_dnl_delivery_traffic / run_dnl_electrified_traffic", "macposts/_ext/dta.cpp")],
  "every trip of every recorded vehicle history checked as a vehicle of its own, repeated under another heap layout")

p("C28", "Electric vehicles that must charge do so once, first come first served",
  "Exactly the vehicles of the electric label are electric; those charging on the road visit one candidate station of their OD pair on "
  "the way (on a tour: on each trip they start with a tenth of the range or less), others none. A station serves as many "
  "vehicles at once as it has places: arrivals join a shortest queue and leave it after the charging time at its head. Station and routes "
  "are cheapest by link times, tolls and station surcharges of the last routing update, and station records agree with the vehicles.",
  ["histories", "schedules", "inputs", "configurations", "fault sequences"],
  "all single-class networks with charging stations beside their roads, ranges, places, charging times, prices, candidate tables and "
  "random streams",
  TESTS + "no charging station is ever simulated by them.",
  ["src/ev_traffic.cpp", "macposts/_ext/dta.cpp"],
  [("MNM_Charging_Station::evolve", "src/ev_traffic.cpp"), ("MNM_Routing_Adaptive_With_POIs::update_best_POI / update_routing",
   "src/ev_traffic.cpp"), ("MNM_Veh_Electrified::need_charging", "src/ev_traffic.cpp"),
   ("MNM_IO_EV::save_charging_station_record", "src/ev_traffic.cpp")],
  "per-interval invariants over the recorded station queues; who charges, choices and records against executable references")

p("C29", "Time-dependent shortest paths are cheapest, whether from arrays or from files",
  "Without turn delays and turn costs, Tdsp reports for every origin and departure interval the least cost of all routes to the "
  "destination, each link valued with the cost and travel time (rounded up, at least one interval) of the interval it is entered in, with "
  "the last interval lasting for ever; the connected route returned has that cost, and with or without turns it takes the time reported. "
  "Arrays and files of the same costs give the same answers, however often and in whatever order costs are read and trees are built. A cost "
  "file that is missing, cut short or unreadable raises an exception, after which it can be read again.",
  ["fault sequences", "histories", "inputs"],
  "all networks, tables of link and turn times and costs (closed links included), horizons, programs on several instances, read faults and "
  "memory layouts",
  "No test uses Tdsp.",
  ["src/shortest_path.cpp", "src/io.cpp", "macposts/_ext/tdsp.cpp", "src/graph.h"],
  [("MNM_TDSP_Tree::update_tree / get_tdsp", "src/shortest_path.cpp"), ("MNM_IO::read_td_link_cost / read_td_node_cost", "src/io.cpp"),
   ("Tdsp", "macposts/_ext/tdsp.cpp")],
  "seeded programs of reads (with file faults), tree builds and queries on two instances, answers against a dynamic programme")

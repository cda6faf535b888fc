PY = "uxsim/uxsim.py"
CPP = "uxsim/trafficpp/traffi.cpp"
HDR = "uxsim/trafficpp/traffi.h"
WR = "uxsim/uxsim_cpp_wrapper.py"
AN = "uxsim/analyzer.py"
RW = "uxsim/scenario_reader_writer.py"
BI = "uxsim/trafficpp/bindings.cpp"
TX = "uxsim/TaxiHandler/TaxiHandler.py"
DT = "uxsim/DTAsolvers/DTAsolvers.py"
AL = "uxsim/DTAsolvers/ALNS.py"
AD = "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py"
DC = "uxsim/trafficpp/dta_solver.cpp"
UT = "uxsim/Utilities/Utilities.py"
US = "uxsim/utils.py"
PROPS = []
NA = {}


def P(id, title, statement, over, qtext, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, **kw))


P("P01", "Vehicles are conserved",
  "At every moment each vehicle is in exactly one place: at home, in the waiting queue of its origin, on exactly one link, or finished. A vehicle moved at a node is taken off its link exactly when it is put on the next one, a departing vehicle is taken from the waiting queue exactly when it is put on its first link, and a finished vehicle is on no link. No vehicle is lost or duplicated, in the Python and in the C++ engine.",
  ["inputs", "histories"], "all networks, demands, signal settings and random choices, at every step", "tests compare a few final counts on sample networks; a lost or duplicated vehicle needs a particular coincidence of merging, trip end and capacity to appear",
  [PY, CPP], [("transfer at a node", "Node.transfer / Node::transfer"), ("departure", "Node.generate / Node::generate"), ("trip end", "Vehicle.end_trip / Vehicle::end_trip"), ("joining the waiting queue", "Vehicle.update / Vehicle::update")])
P("P02", "Cumulative counts record every entry and exit exactly once",
  "The cumulative arrival count of a link grows by one platoon in the step in which a vehicle enters it and never otherwise; the cumulative departure count grows by one platoon in the step in which a vehicle leaves it, by transfer or by trip end, and never otherwise. Each new step starts from the counts of the previous one, so arrivals minus departures is the number of vehicles on the link. This holds for the Python and the C++ engine and for every platoon size.",
  ["inputs", "histories"], "all scenarios, all links, all steps, all platoon sizes", "tests read final counts for a few links; a missed or doubled count on one path (trip end, departure, transfer, first step) changes nothing they look at",
  [PY, CPP], [("counting on transfer", "Node.transfer"), ("counting on departure", "Node.generate"), ("counting on trip end", "Vehicle.end_trip"), ("carrying over", "Link.update")])
P("P03", "Capacity and storage limits are never exceeded",
  "A vehicle enters a link only if the link's inflow capacity still allows one platoon and the last vehicle on its lane has cleared the jam spacing (or a lane is free); it leaves a link through a node only if the outflow capacity of that link and the capacity of the node still allow one platoon. Every entry and exit uses up one platoon of the respective capacity, and capacities are refilled each step by capacity times step width only while less than one platoon per lane is left.",
  ["inputs", "histories", "configurations"], "all scenarios, all capacity settings, numbers of lanes and platoon sizes, at every step and for every order of service", "tests compare average flows with a tolerance; one vehicle too many in a step, or a limit ignored for multi-lane links or departures only, stays inside it",
  [PY, CPP], [("acceptance on transfer", "Node.transfer"), ("acceptance on departure", "Node.generate"), ("refill", "Link.in_out_flow_constraint, Link::update, Node.flow_capacity_update")])
P("P04", "No vehicle passes a red signal",
  "A vehicle crosses a signalised node only from a link whose signal group contains the phase the node currently shows; nodes without signal never block a vehicle for that reason. The signal state changes only through the signal control step or an explicit signal change by the user.",
  ["inputs", "histories", "configurations"], "all signal plans, offsets, groups with several phases, and all traffic states", "tests check a few plans through average delays; a violation needs a link with several phases or a phase change in the very step",
  [PY, CPP], [("phase test before transfer", "Node.transfer"), ("signal state", "Node.signal_control / Node::signal_update")])
P("P05", "First in, first out on links and in waiting queues",
  "Vehicles leave a link in the order in which they entered it, whether by transfer or by trip end, and vehicles waiting at a node depart in the order in which they started waiting. Nothing reorders, inserts into or removes from the middle of these queues.",
  ["inputs", "histories"], "all scenarios, numbers of lanes and trip-end situations", "tests do not compare orders; overtaking changes averages only slightly",
  [PY, CPP], [("queue operations", "Node.transfer, Node.generate, Vehicle.end_trip, Vehicle.update")])
P("P06", "Car following: bounded speed, safe spacing, no backward motion",
  "In one step a vehicle on a link moves at most free-flow speed times step width, never backwards, never past the end of the link, and never closer than the jam spacing to its leader's position at the start of the step unless it already stands there. A vehicle entering a link carries over its remaining movement scaled by the two free-flow speeds, limited in the same way; movement left over at a link end is kept for the next link and speed and travelled distance equal the actual displacement. This holds in both engines.",
  ["inputs", "histories"], "all link parameters, numbers of lanes, platoon sizes and traffic states, every vehicle and step", "tests look at average travel times; violations at a link end, behind a leader or on multi-lane links hide in the average",
  [PY, CPP], [("car following", "Vehicle.carfollow / Vehicle::car_follow_newell"), ("movement", "Vehicle.update"), ("entry position", "Node.transfer")])
P("P07", "Lane assignment and leader-follower links are consistent",
  "A vehicle entering a link takes the lane after that of the last vehicle, cyclically over the lanes (the first lane on an empty link), and its leader is the nearest vehicle ahead on the same lane, or none. When a vehicle leaves a link or finishes, its follower no longer has a leader; leader and follower references never point to a vehicle on another link.",
  ["inputs", "histories"], "all numbers of lanes, entry orders and departure patterns", "tests use few lanes and check averages; a wrong leader only shows for particular queue lengths",
  [PY, CPP], [("lane and leader", "Node.generate, Node.transfer"), ("clearing", "Node.transfer, Vehicle.end_trip")])
P("P08", "Vehicle life cycle, arrival times and registries",
  "A vehicle waits from the first step at or after its departure time, runs once it is put on its first link, and finishes when it reaches the end of a link that leads to its destination, or is aborted at a dead end if trip abortion is enabled; it passes through these states in this order only. At the end of a link exactly one of finishing, aborting or requesting the next link happens. Travel time is arrival minus departure time for completed trips and -1 for aborted ones, and the registries of running and unfinished vehicles follow these changes.",
  ["inputs", "histories"], "all scenarios, departure times between steps, dead ends, destinations in the middle of the network, both engines", "tests check the number of completed trips and average travel times on sample networks",
  [PY, CPP], [("state machine", "Vehicle.update / Vehicle::update"), ("trip end", "Vehicle.end_trip"), ("registries", "Node.generate, World::main_loop")])
P("P09", "A simulation step is a fixed sequence of complete passes",
  "In each step all links are updated, then all departures and signals and node capacities, then all transfers, then the next positions of all running vehicles are computed from the positions at the start of the pass, and only then the vehicles are moved and route information is refreshed. Every element takes part exactly once in each pass, the clock advances by exactly one step, and the time is step number times step width. This holds in both engines.",
  ["inputs", "histories", "schedules"], "all scenarios and all orders in which elements were created", "tests fix one creation order; mixing two passes only matters when elements depend on each other in a particular order",
  [PY, CPP], [("main loop", "World.exec_simulation / World::main_loop")])
P("P10", "Results are reproducible from the random seed",
  "With a fixed random seed, two runs of the same scenario give the same result: every random decision of the simulation draws from a generator that belongs to the simulated world (or one of its elements) and is seeded from its seed. The simulation neither draws from nor reseeds the process-wide random generators, and no decision depends on hash order, memory addresses, wall-clock time or the computing environment.",
  ["inputs", "configurations", "schedules"], "all scenarios, seeds and surrounding programs, both engines", "a test run twice in one process with the same interpreter state cannot show dependence on global generators, hash seeds or other worlds",
  [PY, CPP, WR], [("random draws", "World.rng and its uses"), ("C++ generators", "make_entity_rng, World::rng, node_rngs, link_rngs")])
P("P11", "C++ results do not depend on the number of threads",
  "In the C++ engine the work done concurrently for different links or nodes touches no common mutable data, random generator or accumulation order, so that the result of a simulation is the same for every number of threads. Errors raised by concurrent work are reported deterministically and never cross the parallel region.",
  ["schedules", "inputs"], "all thread counts and interleavings, all scenarios", "a race shows only under particular interleavings; tests run with few threads on small networks",
  [CPP, HDR], [("parallel region", "World::main_loop"), ("parallel work", "Link::update, Node::generate, Vehicle::update, Vehicle::end_trip, Vehicle::log_data, route_search_all")])
P("P12", "Signals cycle through their phases with the given durations",
  "A signalised node shows its phases in order, each until its duration has elapsed, and restarts with the first phase after the last; the initial phase follows from the offset. A node with a single phase never leaves it, the phase shown in each step is recorded exactly once per step, and signal settings and group assignments given by the user are used as given.",
  ["inputs", "histories", "configurations"], "all phase counts, durations, offsets and step widths", "tests use a few two-phase plans without looking at every phase",
  [PY, CPP], [("signal control", "Node.signal_control / Node::signal_update"), ("initial phase", "Node.__init__ / Node::Node"), ("user change", "Node.override_signal")])
P("P13", "Route information reflects current travel times, tolls and closures",
  "The cost used for route search of each link is its current travel time plus its current route choice penalty; parallel links between two nodes are represented by their average, and a connection that does not exist or is closed by a toll time-out is never used. The shares of links on shortest routes are updated by moving the given weight from the old shares towards the current shortest routes, so shares stay within [0,1], and each vehicle uses the shares of its own destination.",
  ["inputs", "histories"], "all networks including parallel links, all tolls and traffic states, both engines", "tests use networks with unique routes or compare aggregated results",
  [PY, CPP], [("adjacency costs", "RouteChoice.route_search_all, World::update_adj_time_matrix"), ("shares", "RouteChoice.homogeneous_DUO_update, World::route_choice_duo, Vehicle.route_pref_update")])
P("P14", "Vehicles follow connected links and specified routes exactly",
  "The next link chosen by a vehicle always starts at the node where its current link ends (or at its origin when departing). A vehicle with a specified route uses exactly the links of that route in order, and a route that does not continue at the current node raises an error instead of silently deviating. A taxi continues from each of its destinations in the same way.",
  ["inputs", "histories"], "all networks, route specifications (also inconsistent ones) and random choices, both engines", "tests use valid routes; a wrong position counter or a missing check shows only for particular routes",
  [PY, CPP], [("next link", "Vehicle.route_next_link_choice"), ("departure link", "Node.generate"), ("specified route", "Vehicle.enforce_route")])
P("P15", "Preferred, avoided and non-cyclic route restrictions are respected",
  "Where one of a vehicle's preferred links is available it chooses among these; otherwise, where links outside its avoided set are available it chooses among those. With cyclic routing disabled it does not choose a link back to a node it already left if another choice exists. Preferences are applied before avoidance, a combination that leaves no link raises an error instead of being ignored, and choices are weighted by the route shares of the vehicle's destination.",
  ["inputs", "histories"], "all combinations of preferences, avoided links and traffic states, both engines", "tests try a few combinations in small networks",
  [PY, CPP], [("choice", "Vehicle.route_next_link_choice"), ("departure choice", "Node.generate")])
P("P16", "Recorded link travel times",
  "The instantaneous travel time recorded each step for a link is its length divided by its current average speed, or its free-flow travel time when it is empty, with a bounded value for standing traffic. The actual travel time recorded for the steps from a vehicle's entry on is the time that vehicle needed, later vehicles overriding earlier ones from their own entry on.",
  ["inputs", "histories"], "all traffic states, all links and steps, both engines", "tests compare a few averages; an index or time offset by one step is inside the tolerance",
  [PY, CPP], [("instantaneous", "Link.set_traveltime_instant / Link::set_travel_time"), ("actual", "Node.transfer, Vehicle.end_trip, Link::ensure_traveltime_real")])
P("P17", "Running a simulation in pieces equals running it at once",
  "A simulation can be executed in several calls by end time or duration; each call starts at the step after the last executed one, no step is skipped or repeated and the run never goes past the end of the simulation time. The scenario is finalised exactly once, before the first step, and a finished simulation reports so and performs no further step.",
  ["inputs", "histories"], "all ways of cutting the simulation time into calls, both engines", "tests cut at one or two points",
  [PY, CPP, WR], [("execution", "World.exec_simulation / World::main_loop"), ("finalisation", "World.finalize_scenario"), ("status", "World.check_simulation_ongoing")])
P("P18", "User functions run once per element and step",
  "A function attached by the user to the world, a node, a link or a vehicle is called exactly once per step with that element as argument, after the element's own update in that step. Node events of a vehicle are called in the steps in which it is at the end of a link leading to that node, and only then.",
  ["inputs", "histories"], "all attached functions, elements and steps", "tests attach functions in one scenario and look at a resulting average",
  [PY], [("calls", "Node.update, Link.update, Vehicle.update, World.exec_simulation")])
P("P19", "Demand is generated as specified",
  "A time-dependent origin-destination demand accumulates rate times step width over the steps of its window and creates a platoon vehicle with that departure step whenever the amount reaches a platoon, so the generated amount never falls behind by a full platoon (the final remainder is dropped); a volume converts to the rate of volume over duration. Demands between points join the nearest nodes, demands between areas or node lists divide the amount evenly over all pairs of usable nodes or, in the newer methods, create volume over platoon size trips with departures evenly spaced over the window between two different usable nodes. Attributes and all other options are passed on to every vehicle, in the Python and in the C++ mode.",
  ["inputs", "configurations"], "all rates, windows, platoon sizes, node sets and options, both engines", "tests use round rates and windows",
  [PY, CPP, WR], [("demand", "World.adddemand, World.adddemand_point2point, World.adddemand_area2area, World.adddemand_nodes2nodes2"), ("C++", "add_demand and CppWorld methods")])
P("P20", "Names and identifiers are unique and the registries complete",
  "Every node, link and vehicle has a name and an identifier that no other element of its kind in the same world has; a duplicate name is either renamed, if requested, or rejected with an error before anything is registered under it. Every created element is found in its registry under its name and identifier, and a link is registered as outgoing at its start node and incoming at its end node.",
  ["inputs", "histories"], "all sequences of creation calls, both engines", "tests create well-named elements",
  [PY, CPP, WR], [("registration", "constructors of node, link and vehicle in both engines")])
P("P21", "Lookups find the right element or fail loudly",
  "Looking up a node, link or vehicle by name, by identifier-bearing object or by object of the same world returns that element; an unknown one raises an error in every mode. No operation that refers to an element by an unknown name silently does nothing or uses another element.",
  ["inputs"], "all names and objects, known or unknown, both engines", "tests look up existing elements",
  [PY, WR, CPP], [("lookup", "World.get_node, World.get_link, CppWorld.get_node, CppWorld.get_link"), ("C++ maps", "World::get_node, World::get_link and users of the name maps")])
P("P22", "Worlds do not influence each other",
  "Several simulated worlds in one process are independent: creating, running, copying or discarding one never changes the state or results of another. No element keeps mutable data that is shared between objects through default arguments, class attributes or module variables.",
  ["inputs", "histories", "programs"], "all programs that use several worlds, in any order", "tests run one world at a time and rarely compare",
  [PY, AN, WR, TX, DT, UT, RW], [("constructors and defaults", "World, Node, Link, Vehicle, Analyzer and the utility modules")])
P("P23", "Saved scenarios reload completely",
  "Saving a scenario and loading it into a new world reproduces every node, link, demand and individually added vehicle exactly once with all its parameters, in the original order of each kind, including demands given by different methods and with optional arguments. Parameters that a saved element can have are all written and all read; what cannot be saved or loaded is reported instead of silently dropped.",
  ["inputs"], "all scenarios that can be built with the public methods", "a round-trip test covers the arguments it happens to use",
  [RW, PY, US], [("writer", "scenario_reader_writer.save_scenario"), ("reader", "scenario_reader_writer.load_scenario"), ("argument recording", "World.addNode, World.addLink, World.adddemand")])
P("P24", "The C++ mode offers the same interface and semantics",
  "In C++ mode the world and its elements offer the public attributes and methods of the Python mode with the same parameters, defaults and meaning. An option the C++ mode cannot honour is reported by an error or warning; it is never silently ignored, and equal calls produce the same scenario in both modes.",
  ["inputs", "programs", "configurations"], "all public calls and option combinations", "parity tests compare aggregate results of a few scenarios",
  [WR, PY, BI], [("wrapper", "CppWorld, CppNode, CppLink, CppVehicle"), ("bindings", "bindings.cpp")])
P("P25", "Looking at a simulation does not change it",
  "Reading attributes of elements, querying time series, computing statistics, exporting tables and drawing results never changes the state from which the simulation continues: vehicles, links, nodes, route information, random generators and the clock stay as they are. A run that is inspected between its parts gives the same result as one that is not.",
  ["inputs", "histories"], "all analysis and query calls at any time of a run, in both modes", "tests analyse only finished simulations",
  [AN, PY, WR], [("analysis", "Analyzer methods"), ("queries", "properties and query methods of World, Link, Node, Vehicle")])
P("P26", "Analysis results are up to date",
  "Statistics, tables and data frames always describe the simulation as far as it has been run when they are asked for. Results computed earlier in a run are recomputed when the simulation has been continued in the meantime.",
  ["histories"], "all interleavings of running and analysing", "tests analyse once at the end",
  [AN, PY], [("cached results", "Analyzer.basic_analysis, od_analysis, link_analysis_coarse, compute_accurate_traj, compute_edie_state, *_to_pandas")])
P("P27", "Trip statistics are correct",
  "The numbers of all and of completed trips, the total and average travel time and delay, and their values per origin-destination pair and per vehicle group count every platoon vehicle with its platoon size and use the recorded travel times of completed trips only; ratios with an empty denominator are marked instead of raising or dividing by zero. Total delay is the sum of travel time minus free-flow travel time of completed trips, and the overall delay ratio is delay over travel time.",
  ["inputs"], "all sets of trips, also with no completed trip, with aborted trips, and in both modes", "tests check the standard case of completed trips",
  [AN, WR, PY], [("statistics", "Analyzer.basic_analysis, Analyzer.od_analysis, Analyzer.vehicle_groups_to_pandas, CppAnalyzer"), ("averages", "World.simple_output_data")])
P("P28", "Time-indexed queries refer to the right step and never fail inside the run",
  "Queries of counts, travel times and traffic states for a time return the value of the step that contains this time, and times outside of the recorded range are mapped to the nearest recorded step instead of failing or wrapping around to the other end. Speed, density, flow and vehicle numbers of a link agree with its current vehicles, length and counts.",
  ["inputs", "histories"], "all times, also negative, beyond the end and between steps, at every moment of a run", "tests query a few times inside the run",
  [PY, WR, CPP], [("queries", "Link.arrival_count, Link.departure_count, Link.instant_travel_time, Link.actual_travel_time, Link.density/speed/flow"), ("C++ queries", "CppLink")])
P("P29", "Vehicle logs are complete and aligned",
  "While vehicle logging is enabled, every vehicle records its time, state, position, speed, link, lane and leader spacing once per logging interval while it has not finished and once when it finishes, all columns having the same length at all times. The recorded link sequence contains every link the vehicle entered once, in order, with the time of entry, and ends with the trip end.",
  ["inputs", "histories", "configurations"], "all vehicles, logging options and histories, both engines", "tests read the log of a few vehicles at the end",
  [PY, CPP, WR], [("log", "Vehicle.record_log / Vehicle::log_data"), ("log access", "CppVehicle log properties, Vehicle::log_t_at")])
P("P30", "Taxi requests are served once and in order",
  "Every trip request handed to a taxi handler is assigned to at most one vehicle, is picked up at its origin before it is dropped off at its destination, and then counts as completed with its pick-up and drop-off times recorded. A vehicle is free for new requests only when it has none left to serve, each request is always in exactly one of the states waiting, assigned, on board and completed, several requests served by one vehicle do not disturb each other, and the handler's statistics are those of the recorded times.",
  ["inputs", "histories"], "all request sequences, fleets and assignment rules", "tests run the sample assignment rules and look at the number of completed requests",
  [TX], [("requests", "TaxiHandler.add_trip_request, assign_trip_request, trip_completed_at_node"), ("destinations", "Vehicle.add_dest, Vehicle.update")])
P("P31", "Traffic states of links and areas are those of the vehicle trajectories",
  "The trajectory of a vehicle on a link consists of its recorded positions in order, extended to the start and the end of the link at free-flow speed where the vehicle passed them. Density, flow and speed of each space-time cell of a link are the time spent and the distance travelled in it by all vehicles (counted with the platoon size) divided by the area of the cell, and their ratio; a cell nobody was in has density and flow zero and the free-flow speed. The network-wide (MFD) state of a set of links is that of exactly the requested links together, in every period, and the tables report every value at its own link, place and time. Cells have the requested size, by default a tenth of the link and never less than one step at free-flow speed.",
  ["inputs", "histories"], "all scenarios, cell sizes, platoon sizes and sets of links", "tests compare a few densities and flows of simple scenarios with loose tolerances",
  [AN, PY, WR], [("analyses", "Analyzer.compute_accurate_traj, compute_edie_state, compute_mfd, mfd_to_pandas, link_traffic_state_to_pandas"), ("cells", "Link.__init__, Link.init_after_tmax_fix and their C++-mode versions")])
P("P32", "Assignment solvers evaluate fresh simulations and report them faithfully",
  "Each iteration of a dynamic traffic assignment solver simulates a newly created world with exactly the routes chosen for that iteration, and the recorded travel times, route logs and convergence indicators belong to that simulation. The solution returned is the one the solver's documentation names (the last iterate, or the best found), never a world of another iteration.",
  ["inputs", "histories"], "all scenarios and iteration numbers, all solvers, both engines", "tests run a few iterations and check averages loosely",
  [DT, AL, AD, DC], [("solvers", "SolverDUE, SolverDSO_D2D, SolverDSO_GA, SolverDSO_ALNS"), ("adapter", "DTAsolvers_cpp_adapter")])
P("P33", "Assignment solvers change routes only towards cheaper ones",
  "In a user equilibrium iteration a vehicle changes its route only to one of its alternatives whose travel time (plus tolls) at its departure is lower than that of its current route, and in a system optimum iteration only to one whose marginal cost is lower, with the given swapping probability. Vehicles that do not change keep their route exactly.",
  ["inputs", "histories"], "all scenarios, route sets and random choices", "tests check that average travel times decrease",
  [DT, DC], [("swap step", "SolverDUE.solve, SolverDSO_D2D.solve and their C++ versions")])
P("P34", "Enumerated routes are valid, distinct and within the requested number",
  "Route enumeration returns, for each origin-destination pair, at most the requested number of different routes; each is a sequence of links in which every link starts where the previous one ends, from the origin to the destination. The cost of a route at a time is the sum of the link costs at the times of entering them.",
  ["inputs"], "all networks, also with parallel links and unreachable pairs", "tests enumerate routes in a grid without parallel links",
  [UT, US, PY, AD], [("enumeration", "Utilities.enumerate_k_shortest_routes, enumerate_k_random_routes"), ("route cost", "Route.actual_travel_time in utils or uxsim")])
P("P35", "Link parameters are mutually consistent, also after changes",
  "Backward wave speed, jam density, critical density, capacity and jam spacing of a link follow the triangular fundamental diagram of its free-flow speed, jam density, reaction time and number of lanes, whichever of the parameters were given. Changing free-flow speed or jam density during the simulation updates every derived quantity consistently, in both engines.",
  ["inputs", "histories", "configurations"], "all parameter combinations and changes at any time", "tests use default parameters",
  [PY, CPP, WR], [("derivation", "Link.__init__ / Link::Link"), ("changes", "Link.change_free_flow_speed, Link.change_jam_density")])
P("P36", "Output switches only affect output",
  "The print, show and save switches and the progress display of a world determine only what is printed, shown and written: nothing is printed with printing disabled unless the caller asks for it explicitly, figures are written only with saving enabled and shown only with showing enabled, and files are written only below the output location of the world or where the caller says. No such switch, and no progress interval, changes the simulation result or makes the run fail.",
  ["inputs", "configurations"], "all switch combinations and analysis calls", "tests run with output disabled",
  [PY, AN, WR], [("switches", "World.__init__, World.print, Analyzer methods")])
NA.update({
})
P("P37", "Both engines give the same numbers",
  "For the same scenario and seed the Python and the C++ engine give statistically equal results for travel times, delays and counts.",
  ["inputs", "configurations"], "all scenarios and seeds", "parity tests compare a few scenarios with tolerances", [PY, CPP, WR], [("engines", "World and CppWorld")])
NA["P37"] = "equality of numerical results of two stochastic programs quantifies over run-time values; the sibling rules of the other properties check that both implement the same formulas and guards, but no sound static argument here yields equal histories"
P("P38", "Assignment solvers converge",
  "The dynamic traffic assignment solvers converge towards user equilibrium or system optimum as iterations increase.",
  ["inputs", "histories"], "all scenarios", "tests check a decrease over some iterations", [DT, AL], [("solvers", "SolverDUE, SolverDSO_D2D, SolverDSO_GA, SolverDSO_ALNS")])
NA["P38"] = "convergence is a limit statement about run-time values of a heuristic; nothing in the shape of the code decides it"
P("P39", "Traffic flow agrees with kinematic wave theory",
  "Simulated flows, densities and travel times agree with the kinematic wave model up to the discretisation by platoon size.",
  ["inputs"], "all link parameters and demands", "tests compare a few cases with tolerances", [PY, CPP], [("model", "Vehicle.carfollow, Node.transfer")])
NA["P39"] = "agreement with theory within a tolerance is a statement about run-time values; its structural part (formulas, limits) is claimed under P03, P06 and P35"
P("P40", "Map import and viewers preserve the network",
  "Networks imported from map data keep connectivity, and the viewers show the simulated data.",
  ["inputs"], "all map extracts and results", "no test covers them offline", ["uxsim/OSMImporter/OSMImporter.py", "uxsim/OSMImporter2/OSMImporter2.py", "uxsim/ResultGUIViewer/ResultGUIViewer.py"], [("import", "OSMImporter"), ("viewer", "ResultGUIViewer")])
NA["P40"] = "correctness is relative to external map data and a third-party graph library that are not available here; no oracle in the source"

"""The properties and how they are decided; properties.jsonl and
MANIFEST.json are written from here (python -m vf.catalog)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent

TESTS = ("The 23 tests load one 7-link single-class and one 7-link two-class "
         "fixture, plus a hand-made graph. ")

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state,
                  observe=observe))


prop("C01", "Vehicles are conserved everywhere in the network",
     "In every interval of a single- or two-class run, the vehicles of each "
     "class that leave the links entering a junction are exactly those that enter the links leaving it; "
     "everything that entered the network is on some link or has arrived, "
     "and everything released has arrived or is still counted as en route. "
     "A run that goes on until the network is empty delivers every released "
     "vehicle to a destination.",
     ["inputs", "configurations"],
     "every valid network, demand table, path table, link model (point "
     "queue, cell transmission, link queue), junction layout, routing type, "
     "class count, time step and flow scalar, at every interval",
     TESTS + "They compare totals on those fixtures; a vehicle lost or "
     "duplicated by another link type, junction shape, scalar or congestion "
     "level is never seen.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/dta.cpp", "src/multiclass.cpp",
      "src/vehicle.cpp"],
     [("vehicle hand-over", "MNM_Dnode_Inout::move_vehicle, "
       "MNM_Dnode_Inout_Multiclass::move_vehicle"),
      ("cell/queue evolution", "MNM_Dlink_*::evolve, clear_incoming_array"),
      ("release and arrival", "MNM_DMOND::evolve, MNM_DMDND::evolve, "
       "MNM_Destination::receive")],
     "property-based testing: random networks, full simulations, "
     "conservation invariants over the observed cumulative curves",
     "Random networks with up to 5 junctions, 3 origins and 3 destinations; "
     "per-class flow balance at every node and interval, totals against the "
     "reported statistics.",
     state=[("cumulative curves", "vehicles in and out of each link so far")],
     observe=["get_link_in_cc/get_link_out_cc", "get_travel_stats",
              "get_enroute_and_queue_veh_stats_agg"])

prop("C02", "Cumulative curves are well-formed, causal and consistently read",
     "In single- and two-class runs, the curves of every registered link "
     "start at zero, never decrease, "
     "move in whole simulated vehicles and end at the number of intervals "
     "run; no vehicle leaves a link earlier than its free-flow time after "
     "entering. The simulation runs as many intervals as configured, links "
     "can be registered in any subset and order, and the whole-array "
     "getters return for each asked link exactly that link's own curve.",
     ["inputs", "configurations"],
     "every valid network and configuration, every subset and order of "
     "registered and queried links, every interval",
     TESTS + "They look at end values of the fixtures' curves with all "
     "links registered in file order.",
     ["src/dlink.cpp", "src/pre_routing.cpp", "src/dta_gradient_utls.cpp",
      "macposts/dta.py", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("curve recording", "MNM_Cumulative_Curve::add_increase/add_record, "
       "MNM_Dnode move_vehicle"),
      ("registration", "Dta::register_links, Mcdta::register_links"),
      ("array getters", "_CommonMixin._get_ccs")],
     "property-based testing: invariants over every curve, getters compared "
     "with each other",
     "Monotone, whole-vehicle, causal curves; array getters compared cell by "
     "cell with the single-link getters.",
     observe=["get_link_in_cc", "get_in_ccs", "registered_links", "links"])

prop("C03", "Traffic follows the link and junction models",
     "In every interval of a single- or two-class run, or of a multimodal one "
     "without buses under way, the vehicles that leave each link, and how "
     "many of them each downstream link accepts, are those the configured link model "
     "(point queue, cell transmission or link queue, with its speed, "
     "capacity, jam density, lanes and, with two classes, car-equivalents) "
     "and the junction model allow and require, up to rounding to whole "
     "vehicles. In particular no link ever sends more than its capacity, "
     "accepts more than its storage or capacity, or holds vehicles back when "
     "the way ahead has room.",
     ["inputs", "configurations"],
     "every valid network, demand level up to several times capacity, link "
     "and junction type, time step and flow scalar, at every interval",
     TESTS + "One demand pattern on one set of parameters exercises a few "
     "branches of the supply, demand and merge formulas.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
     [("supply and demand", "MNM_Dlink_Ctm::get_demand/get_link_supply, "
       "MNM_Dlink_Lq::*, MNM_Dlink_Pq::*, and the Multiclass versions"),
      ("junction flows", "MNM_Dnode_FWJ::compute_flow, "
       "round_flow_to_vehicle, MNM_Dnode_FWJ_Multiclass")],
     "property-based testing against a reference model that follows the "
     "observed flows",
     "A Python reference model of each link and junction is driven with the "
     "observed inflows; the observed outflows have to lie within the "
     "model's rounding interval in every interval.",
     state=[("cell volumes", "vehicles in each cell of a link")],
     observe=["get_link_in_cc/get_link_out_cc of all links"])

prop("C04", "Demand is released in the right number, place and time",
     "In single- and two-class runs, each origin releases, at the start of "
     "every release step, the number "
     "of vehicles of each class its demand rows ask for, rounded to a "
     "neighbouring whole number of simulated vehicles without bias, and "
     "nothing at other times. Each destination receives the vehicles whose "
     "demand rows name it.",
     ["inputs", "configurations"],
     "every demand table (whole, fractional, zero), flow scalar, release "
     "period, start interval, number of classes and both ways of splitting "
     "two-class demand over minutes",
     TESTS + "The fixtures' demands are a few constants that never round.",
     ["src/od.cpp", "src/multiclass.cpp", "src/io.cpp", "src/dta.cpp"],
     [("release", "MNM_Origin::release_one_interval, "
       "MNM_Origin_Multiclass::release_one_interval"),
      ("reading demand", "MNM_IO::build_demand, "
       "MNM_IO_Multiclass::build_demand_multiclass")],
     "property-based testing: releases recomputed from the demand table",
     "Exact bounds per origin, class and release step; an aggregate test "
     "over all cases for unbiased rounding (7 sigma).",
     observe=["first-link inflow curves", "get_travel_stats"])

prop("C05", "Reported link traffic measures agree with the curves",
     "After single- and two-class runs, every per-link answer - travel time, average and robust travel time, "
     "free-flow time, speed, inflow and outflow over a window - is the one "
     "the link's cumulative curves imply, for each class and for any "
     "selection and order of links and times asked for. Travel times are "
     "never below free-flow time.",
     ["inputs", "configurations", "histories"],
     "every simulated network, every query window and entry time in range, "
     "every subset and order of queried links, each class",
     TESTS + "They ask for a handful of values on one uncongested run.",
     ["src/dta_gradient_utls.cpp", "src/dlink.cpp", "macposts/_ext/dta.cpp",
      "macposts/_ext/mcdta.cpp"],
     [("curve interpolation", "MNM_Cumulative_Curve::get_result/get_time"),
      ("travel times", "MNM_DTA_GRADIENT::get_travel_time*, "
       "get_average_*, get_link_inflow*"),
      ("means", "get_avg_link_on_path_tt_car, get_avg_link_on_path_tt_truck")],
     "property-based testing: differential against measures recomputed "
     "from the raw curves",
     "A separate Python implementation reads the raw curves and recomputes "
     "each answer; comparison tolerance 1e-6.",
     observe=["get_link_tt", "get_link_inflow", "get_link_fftt",
              "get_*_link_speed and the rest of the link getters"])

prop("C06", "Path travel times and costs compose from their links",
     "After single- and two-class runs, the travel time reported for a path "
     "and a departure time is obtained "
     "by walking its links one after the other, each entered when the one "
     "before is left, and the cost adds to each link's travel time, valued "
     "at the configured value of time, that link's toll for the class. This "
     "holds for registered paths and for any sequence of connected links.",
     ["inputs", "configurations"],
     "every simulated network with tolls and values of time, every path and "
     "walk, every departure time, each class",
     TESTS + "They check the shape of a path-time array.",
     ["src/dta_gradient_utls.cpp", "macposts/_ext/dta.cpp",
      "macposts/_ext/mcdta.cpp", "src/multiclass.cpp", "src/io.cpp"],
     [("path time", "MNM_DTA_GRADIENT::get_path_travel_time*, "
       "Dta::get_path_tt, Mcdta::get_path_tt_car/truck"),
      ("link cost", "Dta::build_link_cost_map, MNM_IO::read_link_toll")],
     "property-based testing: differential against link times put end to end",
     "Random tolls, values of time, paths, walks and departures; link times "
     "recomputed from the curves.",
     observe=["get_registered_path_tt", "get_path_tt", "get_path_tt_car"])

prop("C07", "Vehicles with fixed routes follow the path table",
     "In single- and two-class runs, vehicles that do not reroute travel only "
     "along the paths listed for "
     "their origin and destination, in order from first link to last, and a "
     "path whose portion for the departure interval (and class) is zero "
     "gets none. The shares of the paths follow their portions, and the "
     "vehicles of each pair and interval are all accounted for by its paths.",
     ["inputs", "configurations"],
     "every network and path table with portions per departure interval and "
     "class",
     TESTS + "The fixtures' portions are constant over time and the tests "
     "never follow a vehicle.",
     ["src/routing.cpp", "src/multiclass.cpp", "src/path.cpp",
      "src/pre_routing.cpp"],
     [("route choice", "MNM_Routing_Fixed::register_veh/init_routing/"
       "update_routing, MNM_Routing_Biclass_Fixed::register_veh"),
      ("portions", "MNM_Path::m_buffer, MNM_Pathset::normalize_p")],
     "property-based testing: per-path flows followed link by link; "
     "chi-square over all cases for the shares",
     "Per path and departure interval inflows of every link; causality and "
     "conservation along the path; 8 sigma aggregate test of the shares.",
     observe=["curve-tree inflows per path and departure interval"])

prop("C08", "Assignment ratio matrices account for observed flow",
     "After single- and two-class runs, the dynamic assignment ratio of a "
     "path, departure interval, link and "
     "arrival interval is the share of that path's departing vehicles which "
     "entered that link in that interval: non-negative, and multiplied by "
     "the path flows it gives back the link inflows. All ways of asking "
     "(dense, sparse, saved, per class) agree.",
     ["inputs", "configurations"],
     "every network with the tree of curves installed, every choice of "
     "links, paths, intervals and class",
     TESTS + "They check matrix shapes and one total.",
     ["src/cc_tree.cpp", "src/dta_gradient_utls.cpp",
      "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("tree recording", "MNM_Tree_Cumulative_Curve::add_flow"),
      ("matrix", "MNM_DTA_GRADIENT::add_dar_records*, "
       "Dta::get_dar_matrix, get_complete_dar_matrix")],
     "property-based testing: ratio matrix times path flow against the "
     "cumulative curves, getters against each other",
     "Random link/path/interval selections; sums compared with curve "
     "differences.",
     observe=["get_dar_matrix", "get_complete_dar_matrix",
              "save_dar_matrix"])

prop("C09", "A simulation is determined by its input files and random state",
     "Two simulations of the same files with the same random state give the "
     "same curves, statistics and matrices, whatever else runs in the "
     "process, in whichever process, whichever links or paths are "
     "registered and whether progress is printed; observing a simulation "
     "never changes it.",
     ["inputs", "configurations", "histories"],
     "every valid network and configuration, any other simulation before or "
     "beside it, any process and heap contents, any registration",
     TESTS + "They run once per process and never compare two runs; "
     "dependence on addresses or uninitialised memory shows only on some "
     "networks.",
     ["src/dta.cpp", "src/od.cpp", "src/od.h", "src/multiclass.cpp",
      "src/routing.cpp", "src/dnode.cpp", "src/multimodal.cpp",
      "src/multimodal.h", "macposts/utils.py"],
     [("random numbers", "macposts.set_random_state, MNM_Ults random use"),
      ("release order", "MNM_Origin::release_one_interval over m_demand"),
      ("routing choice", "MNM_Routing_*::update_routing")],
     "property-based testing: differential between repeated runs of one "
     "input under different surroundings",
     "Up to 5 origins and destinations, one and two classes, every routing "
     "type, multimodal networks; "
     "exact comparison of all curves and statistics.",
     observe=["get_link_in_cc", "get_travel_stats", "get_dar_matrix"])

prop("C10", "Adaptive travellers follow least-cost routes on recorded times",
     "In single- and two-class runs, vehicles that route adaptively leave "
     "every junction and origin by a "
     "link on a least-cost way to their destination, the cost being the "
     "recorded link travel time (averaged over the recording window, "
     "refreshed at the configured frequency, free-flow before any record) "
     "valued at the value of time, plus the link's toll.",
     ["inputs", "configurations"],
     "every network, toll table, value of time, recording window, update "
     "frequency, link model and congestion level, at every interval",
     TESTS + "None of them looks at which way adaptive travellers take.",
     ["src/routing.cpp", "src/statistics.cpp", "src/multiclass.cpp",
      "src/shortest_path.cpp", "src/dlink.cpp"],
     [("cost update", "MNM_Routing_Adaptive::update_link_cost"),
      ("trees", "MNM_Shortest_Path::all_to_one_FIFO"),
      ("recorded times", "MNM_Statistics_Lrn::update_record"),
      ("next link", "MNM_Routing_Adaptive::update_routing")],
     "property-based testing: every observed movement checked against "
     "least-cost trees computed by an independent model of recorded times",
     "Dense networks with route choice; fundamental-diagram travel times "
     "and moving averages recomputed from the observed link volumes.",
     observe=["get_link_in_cc", "get_link_out_cc"])

prop("C11", "Time-dependent shortest paths are feasible and cheapest",
     "For any departure node and interval, the reported time-dependent "
     "shortest path is a connected way to the destination, its reported "
     "cost is the sum of its links' costs at the intervals they are reached "
     "and no other way is cheaper; unreachable destinations are reported as "
     "such. Rebuilding after cost changes uses the new costs. On a loaded "
     "network the lowest-cost path query does so with the simulated travel "
     "times and tolls.",
     ["inputs", "histories"],
     "every graph, every nonnegative time-dependent cost and positive travel "
     "time table (array or file), every sequence of updates and queries",
     TESTS + "They check one tiny graph; wrong labels show only with "
     "particular crossings of time-dependent costs.",
     ["src/shortest_path.cpp", "src/multiclass.cpp",
      "macposts/_ext/tdsp.cpp"],
     [("labels", "MNM_TDSP_Tree::update_tree, round_time"),
      ("extraction", "MNM_TDSP_Tree::get_tdsp"),
      ("query", "Mcdta::get_lowest_cost_path, build_link_cost_map")],
     "property-based testing: dynamic-programming and path-enumeration "
     "oracles on random graphs and simulated networks",
     "Graphs up to 7 nodes and 21 links, up to 20 intervals; simulated "
     "networks with recomputed travel times. With nonzero turn costs only "
     "connectivity, lower bound and path travel time are decided.",
     observe=["Tdsp.extract_tdsp", "Mcdta.get_lowest_cost_path"])

prop("C12", "The graph container behaves as a multigraph keyed by IDs",
     "After any history of adding nodes and links, the graph reports exactly "
     "the nodes and links added, each link's ends, and for each node exactly "
     "its incoming, outgoing or all neighbours and connections, parallel "
     "links included; adding a duplicate or a link to an unknown node, or "
     "asking for something unknown, is refused and changes nothing.",
     ["histories"],
     "every sequence of operations over arbitrary 32-bit IDs",
     TESTS + "They check one hand-made graph.",
     ["src/graph.h", "macposts/_ext/macposts.cpp", "macposts/graph.py"],
     [("container", "macposts::Graph::add_node, add_link, get_node"),
      ("iteration", "Graph neighbors/connections/nodes/links iterators")],
     "model-based property testing: random operation histories against a "
     "dictionary model",
     "Histories up to 120 operations; extreme and colliding IDs.",
     state=[("graph", "nodes and directed links, by ID")],
     observe=["Graph.nodes/links/neighbors/connections/endpoints"])

prop("C13", "silence() hides exactly the output inside it and restores everything",
     "While a silence() block over a descriptor is active, nothing written "
     "to that descriptor comes out; everything written before, after, or to "
     "other descriptors does, in order. However the block is left (nested, "
     "by any exception, as a decorator, with an invalid descriptor) the "
     "descriptor is restored with its flags, none is leaked, and exceptions "
     "come out unchanged. Child processes are hidden likewise, and can write.",
     ["histories", "inputs"],
     "every nesting of blocks and writes over any set of descriptors, valid "
     "or not, and every exception",
     "The tests silence standard output once; nesting, aliases, exceptions "
     "and leaks need histories.",
     ["macposts/utils.py"],
     [("redirection", "macposts.utils.silence")],
     "model-based property testing: random nested programs over real files, "
     "pipes and standard output against a depth-counting model",
     "Nesting up to depth 5 over up to 4 descriptors.",
     state=[("descriptor table", "what each descriptor refers to")],
     observe=["bytes received", "/proc/self/fd"])

prop("C14", "Generated path sets are valid, complete and cheapest",
     "Path-set generation gives every O-D pair with demand loop-free "
     "connected paths, without duplicates, starting with the one cheapest at "
     "free flow (time valued plus toll), then those cheapest once links "
     "already used are penalised; the files load again as the same paths. "
     "Covering generation keeps all existing paths and their flows, adds "
     "connected paths of O-D pairs with demand and reports exactly what is "
     "covered: every link some such pair can use.",
     ["inputs", "configurations"],
     "every network, toll table, value of time, penalty, iteration count and "
     "minimum length; every choice of registered links and paths",
     TESTS + "None generates a path.",
     ["src/path.cpp", "src/multiclass.cpp", "src/io.cpp",
      "macposts/_ext/mcdta.cpp", "macposts/_ext/dta.cpp",
      "src/shortest_path.cpp"],
     [("complete sets", "MNM::build_pathset_multiclass, "
       "Mcdta::generate_shortest_pathsets"),
      ("covering", "generate_paths_to_cover_registered_links, "
       "generate_paths_to_cover_links"),
      ("files", "MNM::save_path_table, MNM_IO::load_path_table")],
     "property-based testing: independent replay of the procedure over all "
     "simple paths, reachability oracle, file round trip",
     "Networks with up to 6 junctions; replay exact unless two paths are "
     "equally cheap.",
     observe=["path_table, path_table_buffer",
              "get_registered_links_coverage_in_registered_paths"])

prop("C15", "Recorded files, printed results and vehicle-hours match the curves",
     "In single- and two-class runs, the record files hold for every link and interval the vehicles on the "
     "link and its travel time, and their averages over the recording "
     "window, for the settings switched on and no others; the printed "
     "results give each window's inflow, outflow, travel time and speed; "
     "total vehicle-hours are the time all released vehicles have spent so "
     "far. All agree with the cumulative curves.",
     ["inputs", "configurations"],
     "every network and congestion level, every recording window and "
     "combination of settings, every interval",
     TESTS + "They look at no recorded file and one total.",
     ["src/statistics.cpp", "src/multiclass.cpp", "macposts/_ext/dta.cpp",
      "macposts/_ext/mcdta.cpp", "src/factory.cpp", "src/dlink.cpp"],
     [("recording", "MNM_Statistics::init_record, update_record, "
       "record_loading_interval_condition"),
      ("link contents", "MNM_Dlink_*::get_link_flow, get_link_tt"),
      ("results", "print_simulation_results"),
      ("vehicle-hours", "MNM_Veh_Factory::remove_finished_veh, "
       "get_travel_stats")],
     "property-based testing: every recorded number recomputed from the "
     "cumulative curves",
     "Both models, all link types; truck travel-time files are checked for "
     "shape only.",
     observe=["record/MNM_output_*", "driving_link_cong_raw.txt",
              "get_travel_stats"])

prop("C16", "Queues, waiting times, en-route totals and spillback are what happened",
     "For two-class runs, the vehicles queued on each link at each interval "
     "are those that have crossed the link and still wait at its end; the "
     "waiting time of a link is their average wait; the en-route and queued "
     "totals are the sums over the network at every interval; a link is "
     "reported to have spilled back if and only if at some interval it held "
     "more (in car equivalents) than it has room for. All agree with the "
     "cumulative curves.",
     ["inputs", "configurations"],
     "every two-class network, link type, class mix and congestion level, "
     "every link and interval asked for, in any order",
     TESTS + "They check the shape of these results on one fixture.",
     ["src/multiclass.cpp", "src/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("queues", "MNM_Dta::record_queue_vehicles, get_queue_veh_each_link"),
      ("totals", "MNM_Dta::record_enroute_vehicles, "
       "get_enroute_and_queue_veh_stats_agg"),
      ("waiting", "MNM_DTA_GRADIENT::get_average_waiting_time_at_"
       "intersection(_car/_truck)"),
      ("spillback", "MNM_Dlink_Multiclass::m_spill_back, "
       "MNM_DTA_GRADIENT::get_is_spillback")],
     "property-based testing: reference link dynamics followed along the "
     "observed curves, every queue and wait recomputed",
     "Both classes, CTM/LQ/PQ links, demand up to 8 times capacity; "
     "spillback within one vehicle per cell.",
     observe=["get_queue_veh_each_link", "get_link_spillback",
              "get_enroute_and_queue_veh_stats_agg",
              "get_waiting_time_at_intersections"])

prop("C17", "Layout of the input files, order of rows and identifiers do not matter",
     "Comment lines, blank lines, spacing, line ends, the way a number is "
     "written and the order of settings in config.conf never change a run. "
     "The order of the rows of any input file, and the identifiers given to "
     "nodes, links, origins and destinations, change nothing but the names "
     "in the results, as long as chance plays no part in the run.",
     ["inputs", "configurations"],
     "every valid set of input files and every rewriting of it that keeps "
     "its meaning",
     TESTS + "The fixtures have one layout, sorted rows and small "
     "consecutive identifiers.",
     ["src/io.cpp", "src/multiclass.cpp", "src/ults.cpp", "src/routing.cpp",
      "src/graph.h"],
     [("row files", "MNM_IO::build_node_factory, build_link_factory, "
       "build_od_factory, build_demand, build_graph, load_path_table and "
       "their two-class counterparts"),
      ("config.conf", "ConfigFile::ConfigFile, MNM_ConfReader"),
      ("words", "MNM_IO::split, MNM_IO::trim")],
     "property-based testing: metamorphic rewriting of the input files, "
     "fingerprints and curves compared",
     "Both models; rows and identifiers on networks verified to be free of "
     "chance (two other random states give the same curves).",
     observe=["every reading of the Python package"])

prop("C20", "Attributes, tolls and adaptive shares take effect when the file says",
     "In single- and two-class runs, link attributes of the time-dependent "
     "file (lanes, capacity, jam "
     "density, truck speed) rule the flow of the link from the interval "
     "they are given for, and no earlier; tolls given there or in the toll "
     "file enter the route costs of adaptive travellers from that interval, "
     "and those in force at the end the costs asked for after the run; "
     "the adaptive share given for an O-D pair and interval decides how many "
     "of its travellers follow current costs instead of their fixed path.",
     ["inputs", "configurations", "histories"],
     "every network and every sequence of attribute changes, tolls and "
     "adaptive shares, including several changes of one link, changes at "
     "interval 0 and shares of only some O-D pairs",
     TESTS + "None has a time-dependent file.",
     ["src/multiclass.cpp", "src/io.cpp", "src/dta.cpp", "src/od.cpp",
      "src/routing.cpp", "src/dlink.cpp"],
     [("files", "build_link_td_attribute, build_td_adaptive_ratio, "
       "build_link_toll"),
      ("changes", "MNM_Dta::load_once, "
       "MNM_Link_Factory_Multiclass::update_link_attribute, "
       "modify_property"),
      ("shares", "MNM_Origin::release_one_interval, "
       "add_dest_adaptive_ratio; MNM_Routing_Hybrid")],
     "property-based testing: reference dynamics and shortest ways under "
     "the attributes in force at each interval",
     "Attributes and changing tolls in the two-class model (the "
     "single-class model ignores them), shares in both.",
     observe=["link cumulative curves, path counts"])

prop("C18", "Multimodal passengers are all accounted for and walk at their pace",
     "In every multimodal simulation, transit passengers set out from their "
     "origin in the minute and number the transit demand asks for (fractions "
     "rounded without bias, paths chosen by their shares); every "
     "park-and-ride car that reaches the lot puts its passenger on foot; a "
     "walking link is left after its walking time; stops and platforms pass "
     "on everybody at once and nobody appears or vanishes between origin, "
     "walking links, buses and destination; the reported passenger number "
     "and passenger hours are those of the passenger curves.",
     ["inputs", "configurations", "histories"],
     "every network with bus routes, stops, walking links and lots, every "
     "demand table and path set, at every interval",
     TESTS + "One multimodal network is loaded with one demand.",
     ["src/multimodal.cpp", "src/multimodal.h"],
     [("release", "MNM_Origin_Multimodal::release_one_interval_passenger"),
      ("walking", "MNM_Walking_Link::evolve, MNM_Busstop_Physical::evolve"),
      ("park and ride", "MNM_Parking_Lot::evolve, "
       "MNM_Destination_Multimodal::receive"),
      ("statistics", "Mmdta::get_travel_stats, MNM_Passenger_Factory")],
     "property-based testing: conservation, delay and release relations over "
     "the passenger curves of generated multimodal networks",
     "Fixed paths (no adaptive passengers), explicit buses.",
     observe=["walking and bus link passenger curves, get_travel_stats"])

prop("C19", "Buses stop, board and alight by the rules and never over capacity",
     "In every multimodal simulation, each bus runs through the stops of its "
     "route in order and no faster than free flow; at each stop it stays at "
     "least the fixed dwell time (unless it is full and nobody gets off), "
     "serves passengers only once the doors have opened, at most so many per "
     "interval as the boarding and alighting times allow, "
     "never beyond its capacity, and leaves as soon as nobody more "
     "wants to get off and nobody waits or it is full; nobody gets on or off "
     "without a bus at the stop, and riders enter the next bus link when "
     "their bus leaves.",
     ["inputs", "configurations", "histories"],
     "every network, bus timetable, capacity, boarding, alighting, dwell and "
     "lost time, every passenger demand and scaling factor, at every stop "
     "and interval",
     TESTS + "No test looks at a stop.",
     ["src/multimodal.cpp", "src/multimodal.h"],
     [("holding", "MNM_Busstop_Virtual::hold_bus, receive_bus, release_bus"),
      ("boarding", "MNM_Veh_Multimodal::board_and_alight"),
      ("links", "MNM_Dlink_Ctm_Multimodal::move_veh_queue_in_cell, "
       "move_veh_queue_in_last_cell, MNM_Dlink_Pq_Multimodal::evolve")],
     "property-based testing: every stop of every bus replayed against a "
     "reference model of dwelling, boarding and alighting",
     "Exact at stops on point-queue links and in the last cell of CTM links; "
     "elsewhere traffic may delay the service. With a scaling factor the "
     "stops of every factor-th simulated bus count.",
     observe=["bus counts at stops, boarding, alighting and bus link "
              "passenger curves"])

prop("C21", "Multimodal vehicles are released, conserved and counted by class",
     "In every multimodal simulation, cars, park-and-ride cars, trucks and "
     "buses set out in the minute and number their demand asks for; "
     "junctions pass on every car and truck at every interval; nobody leaves "
     "a link before its free-flow time, and park-and-ride cars not before "
     "the pick-up time of their origin; arrivals at a destination never "
     "exceed the demand for it; the reported numbers and hours of each class "
     "are those of the curves.",
     ["inputs", "configurations", "histories"],
     "every multimodal network, demand table, scaling factor and length of "
     "the assignment interval",
     TESTS + "One multimodal network is loaded with one demand.",
     ["src/multimodal.cpp", "src/multiclass.cpp"],
     [("release", "MNM_Origin_Multimodal::release_one_interval, "
       "MNM_IO_Multimodal::build_vehicle_demand_multimodal"),
      ("movement", "MNM_Dnode_Inout_Multiclass::move_vehicle, "
       "MNM_Dlink_Ctm_Multimodal::evolve, MNM_Dlink_Pq_Multimodal::evolve"),
      ("statistics", "Mmdta::get_travel_stats, "
       "MNM_Veh_Factory_Multimodal")],
     "property-based testing: conservation, causality and release relations "
     "over the car and truck curves of generated multimodal networks",
     "Bus movement is observed at stops (C19); bus hours are bounded only.",
     observe=["link car and truck curves, get_travel_stats"])

prop("C22", "Multimodal times, speeds, flows and costs are those of the simulation",
     "After every multimodal simulation, reported link times of cars, "
     "trucks, walkers and bus riders are those of travellers entering the "
     "link then (riders wait for the next bus first); speeds, flows, lengths "
     "and free-flow times agree with them; path times are link times one "
     "after the other from the departure interval, and path costs are those "
     "times and the tolls, fares, fees and penalties in the input files, "
     "whether a path is registered or given as a list of links.",
     ["inputs", "configurations", "histories"],
     "every multimodal network and demand, every link, path and departure "
     "interval, whole or fractional, queries in any order",
     TESTS + "One multimodal network is loaded, and no time is compared with "
     "the curves.",
     ["macposts/_ext/mmdta.cpp", "src/multimodal.cpp", "src/dta_gradient_utls.cpp"],
     [("link times", "Mmdta::get_car_link_tt, get_bus_link_tt, "
       "get_passenger_walking_link_tt, get_bus_driving_link_tt_*"),
      ("travellers", "MNM_DTA_GRADIENT::get_travel_time_bus_robust, "
       "get_travel_time_walking, get_travel_time_from_cc"),
      ("paths", "Mmdta::get_path_tt_car, get_path_tt_truck, "
       "get_registered_path_tt_*, get_registered_path_cost_*; "
       "MNM_Passenger_Path_*::get_travel_cost, get_travel_time")],
     "property-based testing: every reading recomputed from the curves by a "
     "second implementation",
     "Bus riders' times without a scaling factor; driving paths that end at "
     "a parking lot are bounded below only.",
     observe=["link and path times, costs, speeds and flows of Mmdta"])

prop("C23", "Multimodal assignment matrices account for every traveller",
     "After every multimodal simulation, the assignment matrices of cars, "
     "trucks, park-and-ride cars, buses and passengers give, for each "
     "registered path, departure interval, link and window, how many of the "
     "path's travellers entered the link: windows add up, travellers come to "
     "a link after the one before it and never before their departure "
     "interval, and all paths together make up the flow of the link; "
     "no record names a path or link that was not registered, or a link the "
     "path does not use.",
     ["inputs", "configurations", "histories"],
     "every multimodal network and demand, every subset and order of "
     "registered links, every list of windows",
     TESTS + "No test asks for a multimodal matrix.",
     ["macposts/_ext/mmdta.cpp", "src/multimodal.cpp", "src/dta_gradient_utls.cpp",
      "src/path.cpp"],
     [("matrices", "Mmdta::get_*_dar_matrix_*, "
       "MNM_DTA_GRADIENT::add_dar_records_*"),
      ("records", "add_flow on m_N_in_tree_car, m_N_in_tree_truck, "
       "m_N_in_tree_bus and m_N_in_tree of walking and bus links")],
     "property-based testing: matrices compared with unit windows, path "
     "tables and cumulative curves of generated multimodal networks",
     "Links fed by an origin connector record no vehicles and are left out; "
     "all paths of a mode are registered, as the package demands.",
     observe=["get_*_dar_matrix_* of Mmdta"])

prop("C24", "Vehicles pass each turn in the order in which they came",
     "For every single- or two-class network, link model and demand with fixed routing, vehicles "
     "of one class that go from one link to the same next link leave it in "
     "the order in which they entered it: for each number that has gone, no "
     "path or departure interval has more gone than came by the entry of the "
     "last of them, or fewer than came before it, as the assignment matrix "
     "records.",
     ["inputs", "configurations", "histories"],
     "every network of cell, point-queue and link-queue links, every node "
     "model, unit time, demand and rate at which congestion builds",
     TESTS + "None tells vehicles of one link apart.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp", "src/od.cpp"],
     [("queues in a link", "MNM_Dlink_Ctm::evolve, MNM_Dlink_Pq::evolve, "
       "MNM_Dlink_Lq::evolve and their multiclass versions"),
      ("turns", "MNM_Dnode_Inout::move_vehicle, MNM_Dnode_FWJ, "
       "MNM_Dnode_Inout_Multiclass::move_vehicle"),
      ("records", "MNM_Tree_Cumulative_Curve")],
     "property-based testing: order of (path, departure) groups at each turn "
     "of generated networks, from entries in unit windows",
     "Fixed routing: adaptive travellers are recorded under a nominal path. "
     "Vehicles of one path, departure and class cannot be told apart. Links "
     "fed by an origin connector record no vehicles.",
     observe=["get_dar_matrix of Dta", "get_car_dar_matrix and "
              "get_truck_dar_matrix of Mcdta"])

prop("C25", "No run or query touches memory it does not own",
     "For every valid network and every sequence of supported calls, building "
     "from files, simulating, querying, saving and destroying read and write "
     "only live memory within bounds, free no object twice or by another form "
     "than the one that made it, and execute no undefined operation (overflow of signed "
     "integers, invalid shifts, casts or bool values).",
     ["inputs", "histories", "configurations"],
     "every network of the other properties (single-class, two-class, "
     "multimodal), every order of queries, graphs and paths built by hand",
     TESTS + "They run without sanitizers, so a stray read passes.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp",
      "src/multimodal.cpp", "src/path.cpp", "src/dta.cpp", "src/io.cpp",
      "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp",
      "macposts/_ext/mmdta.cpp", "macposts/_ext/tdsp.cpp"],
     [("ownership", "destructors of Dta, Mcdta, Mmdta, MNM_Dta and the "
       "factories"),
      ("arrays by interval", "MNM_Cumulative_Curve, MNM_Statistics, link cost "
       "maps"),
      ("queues of vehicles", "MNM_Dlink_*::evolve, move_vehicle of nodes")],
     "property-based testing: cases of the other properties under address and "
     "undefined-behaviour sanitizers; a report of either is the failure",
     "Leaks are not claimed. Calls with arguments out of range are C26.",
     observe=["sanitizer reports while the cases of the other properties run"])

prop("C26", "Requests out of range are refused, requests in range are answered",
     "After a complete run, every request for link or path times, speeds, "
     "inflows or assignment matrices with an interval after the end of the "
     "run, an empty window, a window that ends after the run, arrays of "
     "different lengths or dimensions, or an unknown or doubled link or path "
     "raises an error and leaves the results of the run as they were; every "
     "request in range returns an array of "
     "the right shape, and the same one when asked again after refusals and "
     "after the agents have been discarded.",
     ["inputs", "histories"],
     "every network (single-class, two-class, multimodal), every mix and "
     "order of good and bad requests",
     TESTS + "They make few requests, all of them good.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp",
      "macposts/_ext/mmdta.cpp", "macposts/_ext/utils.h"],
     [("bounds", "the checks at the top of each getter of Dta, Mcdta, Mmdta"),
      ("registration", "register_links and register_paths")],
     "property-based testing: random mixes of good and bad requests to runs "
     "of generated networks; refusal, shape and repeatability as oracle",
     "Negative intervals and requests before a run are not claimed.",
     observe=["exceptions and arrays of the getters of Dta, Mcdta, Mmdta"])

prop("C27", "Equilibrium iterations conserve demand and report true gaps",
     "For every network, demand, number of iterations and update rule, user "
     "equilibrium and system optimum keep every path flow non-negative and "
     "the flows of every origin-destination pair equal to its demand (in each "
     "departure interval, or in total with departure-time choice), on paths "
     "which follow links between the pair; costs follow from travel times; "
     "each reported gap and total travel time is that of the tables; with "
     "fixed departures no update moves flow to dearer paths; successive "
     "averages move exactly the step to one best path; and the first "
     "iterations of a longer run are those of a shorter one.",
     ["inputs", "configurations", "histories"],
     "every single-class network, value of time, penalty, target time, step "
     "and number of iterations",
     TESTS + "They run one network and look at no table.",
     ["src/due.cpp", "src/dso.cpp", "src/path.cpp", "src/shortest_path.cpp",
      "macposts/_ext/dta.cpp"],
     [("updates", "MNM_Due_Msa::update_path_table, "
       "update_path_table_fixed_departure_time_choice, "
       "update_path_table_gp_fixed_departure_time_choice"),
      ("gaps", "MNM_Due::compute_merit_function, "
       "compute_merit_function_fixed_departure_time_choice"),
      ("costs", "MNM_Due::get_disutility, update_one_path_cost; MNM_Dso")],
     "property-based testing: tables written by each iteration of generated "
     "problems against conservation, the cost formula, the gap and the step",
     "No tolls; early penalty at most half the value of time (else waiting "
     "costs less than nothing). Gradient projection is not claimed to conserve "
     "demand when a path in use is cheaper than the best one found.",
     observe=["record/path_table, path_table_buffer, path_table_time, "
              "path_table_disutility, gap_iteration"])

prop("C28", "Reported emissions, miles, hours and trips follow from the traffic",
     "After a two-class run, for every set of observed links, the report gives "
     "for cars and trucks the vehicle-hours spent on those links, the miles "
     "driven there at the speed of the fundamental diagram, the fuel, CO2, "
     "HC, CO and NOX of the vehicles which are not electric, at the rates of "
     "that speed between 5 and 65 mph, the miles of the electric ones, and "
     "the number of distinct vehicles seen there; vehicles are electric in "
     "the shares given for their label.",
     ["inputs", "configurations", "schedules"],
     "every two-class network, demand, routing, set of observed links and "
     "label shares",
     TESTS + "They print no emissions.",
     ["src/emission.cpp", "src/multiclass.cpp", "macposts/_ext/mcdta.cpp"],
     [("totals", "MNM_Cumulative_Emission_Multiclass::update, output, "
       "calculate_*_rate_truck; MNM_Cumulative_Emission::calculate_*_rate"),
      ("vehicles", "get_link_flow_emission_car, get_link_flow_emission_truck "
       "of the link models"),
      ("labels", "MNM_Origin_Multiclass::generate_label; "
       "MNM_IO_Multiclass::read_origin_car_label_ratio")],
     "property-based testing: the report of generated runs against totals "
     "computed from the curves and the published rates; electric shares "
     "tested over all runs together",
     "Observed point queues are wide: vehicles waiting to enter one are not "
     "on it yet. Each origin gives the same label shares.",
     observe=["Mcdta.print_emission_stats"])

prop("C29", "Multimodal queues, en-route totals and path facts are what happened",
     "After a multimodal run, the queue reported at the end of every driving "
     "link and the passengers waiting at the end of every walking or boarding "
     "link, in every interval, are those who have covered it and not left; "
     "the en-route totals are the sums of the queues and of those on the way; "
     "time waited at intersections and spillback follow from the queues and "
     "from what the link holds. Path lengths, the road links a bus link runs "
     "on and the share of each, links covered by paths, and conversions "
     "between node and link sequences agree with the network files, and so do "
     "the modes named as connecting each origin with each destination. A "
     "selection of links and intervals gives the values of the whole; "
     "unknown links, intervals not simulated and nodes without a link "
     "between them are refused.",
     ["inputs", "configurations", "histories"],
     "every multimodal network, demand, and selection of links and intervals",
     TESTS + "They run the fixture to its end and read none of these.",
     ["src/multimodal.cpp", "src/multiclass.cpp", "src/dta.cpp",
      "macposts/_ext/mmdta.cpp"],
     [("queues", "Mmdta::get_queue_veh_each_link, "
       "get_queue_passenger_each_link; MNM_Dta_Multimodal::"
       "record_queue_vehicles, record_queue_passengers"),
      ("totals", "record_enroute_vehicles, record_enroute_passengers, "
       "get_enroute_and_queue_*_stats_agg"),
      ("waiting", "get_waiting_time_at_intersections*, get_link_spillback"),
      ("paths", "get_registered_path_distance_*, "
       "get_links_overlapped_bus_driving, node_seq_to_link_seq_*, "
       "link_seq_to_node_seq_*, are_registered_links_in_registered_paths_*"),
      ("modes", "Mmdta::get_od_mode_connectivity; "
       "MNM_MM_Due::check_od_mode_connectivity")],
     "property-based testing: what generated multimodal runs report against "
     "values computed from the recorded curves and the network files",
     "Queues of finite-storage links and of links with buses are bounded by "
     "the curves; on wide point queues and walking links they are exact.",
     observe=["Mmdta.get_queue_veh_each_link",
              "Mmdta.get_queue_passenger_each_link",
              "Mmdta.get_enroute_and_queue_veh_stats_agg",
              "Mmdta.get_links_overlapped_bus_driving",
              "Mmdta.node_seq_to_link_seq_driving"])

prop("C30", "Followed vehicles make journeys that agree with the curves",
     "When a two-class run follows vehicles, the file has, at every multiple "
     "of the print frequency, one row for each followed vehicle until it "
     "arrives: those of the origin-destination pairs and departure intervals "
     "asked for (all without such a file), in the share of the sampling "
     "rate. Each starts on a link out of its origin, goes on to adjoining "
     "links without a gap and ends at its destination, habitual travellers "
     "along a path of the table; the next link named is the one taken; "
     "positions advance along a link. Following everybody, the rows on a "
     "link are in number the vehicles its curves have on it.",
     ["inputs", "configurations", "histories"],
     "every two-class network, demand, routing, selection, rate and frequency",
     TESTS + "They follow no vehicle.",
     ["src/multiclass.cpp", "src/io.cpp", "src/vehicle.cpp", "src/routing.cpp",
      "macposts/_ext/mcdta.cpp"],
     [("file", "MNM::print_vehicle_route_results; "
       "MNM_Dta_Multiclass::loading_vehicle_tracking"),
      ("selection", "MNM_IO::read_vehicle_tracking_setting"),
      ("journeys", "set_current_link and set_next_link in dnode, multiclass "
       "and routing")],
     "property-based testing: the journeys of generated runs against the "
     "network, the path table and the cumulative curves; sampling shares "
     "tested over all runs together",
     "Connectors are wide, so that nobody waits at an origin, where vehicles "
     "are not followed.",
     observe=["Mcdta.run_whole_vehicle_tracking"])

prop("C31", "Travel-time gradients are those of the queues trips meet",
     "After a two-class or multimodal run that has emptied, the gradient "
     "records of cars and of trucks have, for every registered path and "
     "departure asked for, one entry for each registered link of the path "
     "where the trip meets a queue, in every interval from its arrival there "
     "until the queue is gone, and none elsewhere: the seconds that one more "
     "vehicle adds, the inverse of the rate at which the link is left "
     "meanwhile. On the next link the trip arrives when the queue before it "
     "has cleared (point queues: when it would have anyway); none is followed "
     "past the time limit given. The matrix per assignment interval holds "
     "the sums of these entries, each in the row of its link and interval "
     "and the column of its path and departure.",
     ["inputs", "configurations", "histories"],
     "every network of cell and point-queue links, demand, selection of "
     "links and paths, departures and time limit",
     TESTS + "They read no gradient.",
     ["macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp",
      "src/multiclass.cpp", "src/multimodal.cpp"],
     [("queues", "Mcdta::get_link_queue_dissipated_time, "
       "MNM_MM_Due::get_link_queue_dissipated_time, build_link_cost_map"),
      ("records", "Mcdta::get_car_ltg_matrix, get_truck_ltg_matrix; "
       "Mmdta::get_car_ltg_matrix_driving, get_truck_ltg_matrix_driving"),
      ("matrices", "Mcdta::get_complete_car_ltg_matrix, "
       "get_complete_truck_ltg_matrix"),
      ("rates", "MNM_DTA_GRADIENT::get_departure_cc_slope_car, "
       "get_departure_cc_slope_truck, add_ltg_records_*")],
     "property-based testing: the records of generated runs against queues "
     "and rates read from the cumulative curves by a second implementation",
     "A link without a queue that is left at exactly its capacity counts as "
     "having one until the next queue is gone; where the capacity is so near "
     "a whole vehicle per interval that rounding decides, the trip is "
     "skipped.",
     observe=["Mcdta.get_car_ltg_matrix", "Mcdta.get_truck_ltg_matrix",
              "Mcdta.get_complete_car_ltg_matrix",
              "Mcdta.get_complete_truck_ltg_matrix",
              "Mmdta.get_car_ltg_matrix_driving",
              "Mmdta.get_truck_ltg_matrix_driving"])

NOT_APPLICABLE = []


def main():
    from . import worker as W
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = dict(files=p["files"],
                     mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                     observe_at=list(p["observe"]), hook_needed=False)
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m) for n, m in p["state"]]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = []
    for p in P:
        if p["id"] in [x for x, _ in NOT_APPLICABLE]:
            continue
        assert W.load(p["id"]).id == p["id"]
        checks.append(dict(
            property=p["id"], quick_cmd="bin/check %s" % p["id"],
            thorough_cmd="bin/check %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"], level="exploration",
            level_note=p["note"]))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks,
             not_applicable=[dict(property=x, reason=r)
                             for x, r in NOT_APPLICABLE],
             notes="No hooks in /repo: everything is observed through the "
             "Python package. Generators and oracles are pure Python in "
             "vf/; the extension is rebuilt from /repo's working tree into "
             "/verif/build, keyed by the hash of its sources.")
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


if __name__ == "__main__":
    main()

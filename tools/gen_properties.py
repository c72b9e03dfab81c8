"""Writes /verif/properties.jsonl (kept as code so that wording, anchors and ids are edited in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PY="uxsim/uxsim.py"; CW="uxsim/uxsim_cpp_wrapper.py"; TC="uxsim/trafficpp/traffi.cpp"; TH="uxsim/trafficpp/traffi.h"; AN="uxsim/analyzer.py"
T18="The 18 stable tests run a handful of fixed one- and two-link C++ scenarios; the Python engine is not executed by any of them. "

p("C01","Vehicles are conserved and move through one legal lifecycle",
"After every simulation step each vehicle ever added is in exactly one place: not departed yet, queued at its origin, on exactly one link, or finished (arrived or aborted); no vehicle is lost, duplicated, stuck in two places or brought back. A vehicle's status only moves forward through that lifecycle and never before its departure time, and the world's registries of all, living and running vehicles, the links' vehicle lists (in the compiled engine, which does not expose the lists, their counts), the origin queues and each vehicle's own state always agree. This holds in the Python and the C++ engine, under every random processing order and whatever interventions (closures, capacity, speed, density, signal and toll changes, vehicles added in mid-run) happen while it runs.",
["schedules","inputs","fault_sequences"],"all networks, demands, random processing orders and mid-run intervention sequences, after every timestep, both engines",
T18+"Conservation must hold at every step of every random order and intervention history, not at the end of one scenario.",
[PY,CW,TC,TH],[("vehicle state machine",f"{PY}:Vehicle.update"),("loading from the origin queue",f"{PY}:Node.generate"),("link-to-link transfer",f"{PY}:Node.transfer"),("trip end and registry removal",f"{PY}:Vehicle.end_trip"),("C++ staged registry reconciliation",f"{TC}:World::main_loop"),("wrapper registry sync",f"{CW}:CppWorld._sync_from_cpp")],
[("living / running registries","vehicles not finished / on a link",f"{PY}:World.__init__"),("link queue","vehicles on a link in entry order",f"{PY}:Link.__init__")])

p("C02","Traffic on a link keeps order, spacing, forward motion and speed limit",
"On every link vehicles leave in the order they entered; within a lane no vehicle overtakes its leader or comes closer to it than the platoon's jam spacing; nobody moves backwards, beyond the end of the link, or further in one step than the free-flow speed allows. A vehicle that has room ahead moves exactly at free-flow speed, and one that follows takes the lesser of free-flow advance and the gap to its leader's previous position. This holds in both engines for any number of lanes, platoon size and reaction time, through merges, queues and mid-run speed changes.",
["schedules","inputs","fault_sequences"],"all vehicle pairs on all links at all steps, all networks and interventions",
T18+"They check speeds and counts of a few trajectories, never the pairwise spacing of every vehicle at every step under random merging and parameter changes.",
[PY,TC],[("car following",f"{PY}:Vehicle.carfollow"),("entry position after a junction",f"{PY}:Node.transfer"),("lane and leader assignment",f"{PY}:Node.generate"),("C++ car following",f"{TC}:Vehicle::car_follow_newell")])

p("C03","Link counts, densities and travel times agree with vehicle movements",
"For every link and time the cumulative arrivals and departures equal the number of vehicles that really entered and left it, never decrease, and their difference is the number of vehicles on the link, which also equals the reported vehicle number and density. The reported actual travel time at a vehicle's entry time is the time that vehicle (or the last one entering at that time) really spent on the link, and the instantaneous travel time is the link length over the current mean speed at each refresh. Reported speed, flow and queue size are those of the vehicles then on the link.",
["schedules","inputs","histories"],"every link, every step and every vehicle passage of every run, both engines",
T18+"They compare a few totals; the agreement is a relation between two recorded histories for every vehicle and step.",
[PY,TC,CW],[("cumulative curves",f"{PY}:Link.update"),("arrival/departure increments",f"{PY}:Node.transfer"),("actual travel time bookkeeping",f"{PY}:Vehicle.end_trip"),("instantaneous travel time",f"{PY}:Link.set_traveltime_instant"),("lazy C++ travel time reconstruction",f"{TH}:Link::ensure_traveltime_real")])

p("C04","Link and node capacities and closures are never exceeded",
"In any window of time the vehicles entering a link, leaving a link and crossing a capacitated node never exceed the configured inflow, outflow or node capacity times the window length plus one bounded platoon allowance. A link whose inflow capacity is zero from the start admits no vehicle, one whose outflow capacity is zero releases none at its downstream junction, and a mid-run change of a capacity takes effect from the next step, so a closure admits at most the allowance already accumulated. Capacity that is not used is not hoarded beyond that allowance.",
["schedules","inputs","fault_sequences"],"all windows, all links and nodes, all capacity and closure histories, all random orders, both engines",
T18+"None sets a node capacity or changes a capacity during the run.",
[PY,TC],[("inflow/outflow refill",f"{PY}:Link.in_out_flow_constraint"),("node capacity refill",f"{PY}:Node.flow_capacity_update"),("capacity checks at transfer",f"{PY}:Node.transfer"),("capacity check at generation",f"{PY}:Node.generate")])

p("C05","Signals admit movements only in green and run their programme",
"A vehicle crosses a signalised junction only in a step whose displayed phase belongs to the green phases of the link it leaves, whatever the random order and whenever the programme or the phase is overridden during the run. The phases are displayed cyclically in order from the configured offset, each for its configured length to within one timestep, and the phase log records what was displayed at each step. A vehicle facing green with room, capacity and nobody ahead does cross.",
["schedules","inputs","fault_sequences"],"all programmes, offsets, groups and override sequences at all steps, both engines",
T18+"One stable test runs one two-phase signal on a straight road.",
[PY,TC,CW],[("phase clock",f"{PY}:Node.signal_control"),("programme override",f"{PY}:Node.override_signal"),("green test at transfer",f"{PY}:Node.transfer"),("C++ phase clock",f"{TC}:Node::signal_update")])

p("C06","Every trip follows a connected, permitted route to its own destination",
"The links a vehicle travels form a connected path that starts at its origin and, when it is recorded as arrived, ends at its own destination; a trip is aborted only at a dead end that is not its destination. A vehicle with an enforced route travels exactly that route, and a preferred link is always taken and an avoided link never taken where an outgoing alternative exists; cyclic routing is avoided where the option is on and an unvisited alternative exists. The travelled route and times reported for a vehicle match its recorded movements.",
["schedules","inputs","fault_sequences"],"all vehicles, route choice principles, enforced, preferred and avoided link sets and random draws, both engines",
T18+"Two stable tests run one fixed enforced route and one two-route choice.",
[PY,TC],[("next link choice",f"{PY}:Vehicle.route_next_link_choice"),("first link choice",f"{PY}:Node.generate"),("enforced routes",f"{PY}:Vehicle.enforce_route"),("abort at dead ends",f"{PY}:Vehicle.update"),("travelled route",f"{PY}:Vehicle.traveled_route")])

p("C07","A run is a pure function of its scenario and seed; worlds are isolated",
"Two runs of the same scenario with the same random seed give identical vehicle histories and results, whatever the wall clock does, however hashing is randomised, whatever else the process does with the global random generators, whether progress is printed, and on whichever run of the process they are. Building, running or reconfiguring one world never changes the outcome of another world alive in the same process, even when their steps are interleaved. With the fully deterministic mode on, the seed has no influence on the traffic at all.",
["schedules","configurations","fault_sequences"],"all seeds, clock behaviours, hash seeds, print modes and interleavings of several worlds, both engines",
T18+"None runs a scenario twice under different surroundings or interleaves two worlds.",
[PY,CW,TH],[("single per-world generator",f"{PY}:World.__init__"),("deterministic sorting of link sets",f"{PY}:Vehicle.route_next_link_choice"),("per-entity C++ random streams",f"{TH}:World"),("clock use confined to progress output",f"{PY}:World.exec_simulation")])

p("C08","Running in pieces gives the same result as running at once",
"However a simulation is divided into successive execution calls (until a time, for a duration, or to the end), every step is executed exactly once and the final state, histories and reports are identical to those of a single uninterrupted call. Each call advances the clock exactly to the step it promises, reports whether the end was reached, rejects a non-positive duration without advancing, and executing again after the end changes nothing.",
["schedules","histories","configurations"],"all ways to cut a run into until/duration calls, including calls at, after and beyond the end, both engines",
T18+"Two stable tests use one fixed chunk size each and compare a single vehicle count.",
[PY,CW,TC],[("execution window",f"{PY}:World.exec_simulation"),("C++ wrapper window",f"{CW}:CppWorld.exec_simulation"),("C++ loop window and departure buckets",f"{TC}:World::main_loop")])

p("C09","A run restored from a copy or a saved file continues exactly as the original",
"At any step a running world can be copied or saved and, after a crash of the process, loaded again; continuing the restored world yields exactly the vehicle histories and results that the uninterrupted run yields. The original and the copy are independent: continuing, changing or discarding one never affects the other. A save that fails part-way reports the failure and leaves the running world able to continue unchanged, and a torn file is rejected instead of being loaded as a different world.",
["crash_points","fault_sequences","histories"],"every step as the crash point, chains of crashes and restores, disk full, torn and failed writes",
T18+"They do not execute copying or saving; the crash point ranges over every step of every scenario.",
[PY],[("copy",f"{PY}:World.copy"),("save",f"{PY}:World.save")])

p("C10","The compiled engine's results do not depend on threads or their interleaving",
"For every number of threads and every interleaving of them, the compiled engine produces exactly the results of a single-threaded run of the same seed: vehicle states and logs, link curves, signals, reported statistics and route guidance, bit for bit. No two threads access the same data without ordering when one of them writes. This includes runs with random routing, noise, multi-lane merging, signals and vehicles injected between execution calls.",
["schedules","configurations"],"all interleavings of 1 to 8 threads at every memory access and synchronisation point of the parallel region",
T18+"They run with one thread; the operating system's schedule is not controlled by any test.",
[TC,TH,"uxsim/trafficpp/bindings.cpp"],[("parallel region with barriers",f"{TC}:World::main_loop"),("serial transfer",f"{TC}:World::main_loop"),("per-node and per-link random streams",f"{TC}:World::World"),("staged shared registries",f"{TC}:World::main_loop"),("parallel route search",f"{TC}:World::route_search_all")])

p("C11","A failing vehicle in the compiled engine fails deterministically and safely",
"When vehicles carry routes that turn out to be impossible, the compiled engine reports an error to the caller instead of crashing, hanging or going on silently, and the error reported and the step at which it appears are the same for every number of threads and every interleaving. The process and other worlds stay usable afterwards, and a scenario without an impossible route never fails.",
["schedules","fault_sequences","configurations"],"all placements of impossible routes, all interleavings of 1 to 8 threads",
T18+"No stable test makes the engine fail inside its parallel region.",
[TC],[("exception capture, smallest id wins",f"{TC}:World::main_loop"),("impossible route detection at origin",f"{TC}:Node::generate"),("impossible route detection on the way",f"{TC}:Vehicle::route_next_link_choice")])

p("C12","The compiled and the Python engine simulate the same traffic",
"For a scenario both engines support and with randomness switched off, the Python engine and the compiled engine give the same vehicle states, positions, entered links and times, link counts, signal phases and trip statistics at every step, also when the same interventions are applied to both during the run. With randomness on, both obey the same traffic rules and demand.",
["inputs","fault_sequences","histories"],"all scenarios in the common feature set, step by step, under the same intervention sequences",
T18+"They check the compiled engine against a few hand-computed numbers and never against the Python engine.",
[PY,CW,TC],[("Python step",f"{PY}:World.exec_simulation"),("C++ step",f"{TC}:World::main_loop"),("wrapper",f"{CW}:CppWorld")])

p("C13","Reports equal what happened, and reading them changes nothing",
"Trip counts, total and average travel time, delay, distance, link volumes, per-vehicle, per-origin-destination and per-link tables and Edie traffic states equal the values recomputed from the recorded vehicle histories. Reading any report, log, statistic or route at any moment, any number of times, changes neither the rest of the simulation nor any report produced later: a final report is the same whether or not reports were read before.",
["histories","schedules","inputs"],"all runs, all reports, and all schedules of report reads interleaved with execution, both engines",
T18+"No stable test produces a report; stale or wrong values only show for particular read schedules and histories.",
[AN,PY,CW],[("trip statistics",f"{AN}:Analyzer.basic_analysis"),("OD statistics",f"{AN}:Analyzer.od_analysis"),("Edie states",f"{AN}:Analyzer.compute_edie_state"),("tables",f"{AN}:Analyzer.vehicles_to_pandas"),("C++ log caches",f"{CW}:CppWorld._build_all_vehicle_log_caches")])

p("C14","A scenario survives saving and loading, and bad files are rejected",
"A scenario that is saved and loaded into an empty world reproduces the same nodes, links and demand (as given through the demand functions), and running it with the same seed gives the same result as the original. Saving never alters the world, a save that hits a disk error reports it, and loading a truncated, unreadable or missing file raises an error before anything is added to the world. Loading only the network or only the demand loads exactly that part.",
["inputs","crash_points","fault_sequences"],"all scenarios built from nodes, links and demand definitions; truncation at every byte; read and write errors and full disk at every call",
T18+"They do not execute scenario files at all; a torn file can end at any byte.",
["uxsim/scenario_reader_writer.py",PY],[("saving","uxsim/scenario_reader_writer.py:save_scenario"),("loading","uxsim/scenario_reader_writer.py:load_scenario"),("argument recovery","uxsim/scenario_reader_writer.py:instance_to_arg_dict"),("demand recording","uxsim/scenario_reader_writer.py:demand_info_record")])

p("C15","Demand is created and released as requested",
"Each demand definition creates the requested volume to within one platoon per definition (per origin-destination pair for the pairwise forms), spread evenly over the requested period, between the requested origins and destinations, with the requested attribute. No vehicle leaves before its departure time; vehicles waiting at the same origin enter the network in departure order, as soon as there is room and inflow capacity on the link they choose. The same definitions create the same demand in both engines.",
["inputs","schedules","fault_sequences"],"all demand definitions, random origin-destination draws and blockages at the origin, both engines",
T18+"They use constant demand on one origin.",
[PY,CW],[("demand generation",f"{PY}:World.adddemand"),("area and node-set demand",f"{PY}:World.adddemand_nodes2nodes2"),("departure",f"{PY}:Vehicle.update"),("loading",f"{PY}:Node.generate")])

p("C16","Every taxi request is served exactly once, in order, by one taxi",
"A trip request is assigned to at most one taxi, only after its request time and only to a taxi that was vacant; the passenger boards at its origin and alights at its destination, exactly once each, in that order and with the taxi really being at that node then. A taxi carries one assigned request at a time under the supplied dispatchers and visits its destinations in the given order, and taxis keep running when idle. The service statistics equal those recomputed from these events.",
["schedules","histories","fault_sequences"],"all request patterns, dispatchers, fleet positions, blockages and random cruising orders",
T18+"The stable tests do not run taxis.",
["uxsim/TaxiHandler/TaxiHandler.py",PY],[("assignment","uxsim/TaxiHandler/TaxiHandler.py:TaxiHandler.assign_taxi"),("boarding and alighting events","uxsim/TaxiHandler/TaxiHandler.py:TripRequest.get_on_taxi"),("taxi destinations",f"{PY}:Vehicle.add_dest"),("node events",f"{PY}:Vehicle.update")])

p("C17","Traffic recovers once disruptions end",
"When closures, red-only signals, capacity and speed reductions and other disruptions end and the demand stops, every vehicle whose destination is still reachable and that is not in a gridlock cycle finishes within a bounded number of steps. As long as vehicles are in the network of an acyclic undisrupted road system, something moves: traffic never freezes for longer than a signal cycle plus the time capacity needs to accumulate.",
["fault_sequences","schedules"],"all disruption sequences on acyclic networks, followed by a fault-free period; progress bounded in steps, both engines",
T18+"None disrupts traffic and waits for recovery.",
[PY,TC],[("transfer",f"{PY}:Node.transfer"),("capacity refill",f"{PY}:Link.in_out_flow_constraint"),("trip end",f"{PY}:Vehicle.end_trip")])

p("C18","Assignment solvers return the valid, best and reproducible solution",
"Every route a traffic assignment solver assigns is a connected route of the vehicle's origin-destination pair, taken from the route set or travelled by that vehicle in the evaluation before, and vehicles are rerouted only to routes that are cheaper under the stated cost. The solution returned by the system-optimum solvers is the best feasible one they evaluated (fewest unfinished trips weighed in, least total travel time), the logged totals are those of the evaluated worlds, and two solutions with the same seeds are identical. The user's world-building function is called anew for every evaluation, the traffic in the worlds it returned earlier is not modified, an interrupted search leaves its best or latest complete evaluation to the user, and a solver can search again without mixing with its earlier search. Figures of a search show its records.",
["histories","schedules","inputs"],"all random search histories of the solvers on small networks, both engines",
T18+"The solver tests are not among the stable ones.",
["uxsim/DTAsolvers/DTAsolvers.py","uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py","uxsim/DTAsolvers/ALNS.py","uxsim/trafficpp/dta_solver.cpp"],[("user equilibrium","uxsim/DTAsolvers/DTAsolvers.py:SolverDUE.solve"),("system optimum, day to day","uxsim/DTAsolvers/DTAsolvers.py:SolverDSO_D2D.solve"),("genetic","uxsim/DTAsolvers/DTAsolvers.py:SolverDSO_GA.solve"),("neighbourhood search","uxsim/DTAsolvers/ALNS.py:auto_step"),("compiled route swap","uxsim/trafficpp/dta_solver.cpp:dta_route_swap_due")])

p("C19","Route guidance is the shortest path under current conditions and tolls",
"At every guidance update the travel cost between any two nodes equals the shortest path over current instantaneous link travel times plus tolls, within the configured noise, and the recommended next link of each destination lies on such a shortest path; closed links are never recommended while an open path exists. Guidance is refreshed exactly at the configured interval and blended with the configured weight, and a vehicle without preferences or constraints only takes a link that guidance has recommended for its destination, where guidance gives any link there a weight.",
["schedules","inputs","fault_sequences"],"all networks, toll functions, congestion and closure histories at every update, both engines",
T18+"One stable test checks which of two parallel routes is busier.",
[PY,TC],[("route search",f"{PY}:RouteChoice.route_search_all"),("preference blending",f"{PY}:RouteChoice.homogeneous_DUO_update"),("preference use",f"{PY}:Vehicle.route_next_link_choice"),("C++ route search",f"{TC}:World::route_search_all"),("tolls",f"{PY}:Link.get_toll")])

p("C20","Failing output never breaks or changes a simulation",
"When writing tables, figures, animations or directories fails (disk full, permission denied, input/output error, directory removed), drawing functions warn instead of raising, table exports report the error, and in either case the simulation can go on and its results are the same as without the failure. Exports that succeed contain exactly the tables reported in memory, and output goes only below the world's own output directory.",
["fault_sequences","crash_points"],"all output calls at all moments of a run, with an error injected at every individual file operation",
T18+"No stable test produces output or injects a fault.",
[AN,PY,"uxsim/utils.py"],[("warn instead of raise","uxsim/utils.py:catch_exceptions_and_warn"),("exports",f"{AN}:Analyzer.output_data"),("figures",f"{AN}:Analyzer.network")])

p("C21","Merging respects priority and first-come order",
"When vehicles on several incoming links compete for the same outgoing link, only vehicles at the very front of their links compete, one is chosen per lane and step, and over time they are served in proportion to the merge priorities; a link of zero priority never goes while one of positive priority competes. In fully deterministic mode the highest priority goes. Nobody who could legally go is passed over while room and capacity remain.",
["schedules","inputs"],"all junction shapes, priorities and random draws; proportions over seeded ensembles with exact binomial bounds",
T18+"One stable merge test checks a free-flow case.",
[PY,TC],[("merge lottery",f"{PY}:Node.transfer"),("C++ merge lottery",f"{TC}:Node::transfer")])

p("C22","User functions run exactly once per step on a consistent world",
"A function attached to a node, link, vehicle or world is called exactly once per simulated step for that entity (for vehicles as long as they have not finished), with that entity, and sees the current step; a change it makes to the network takes effect from then on. If it raises, the exception reaches the caller unchanged, no other world is affected, and the world stays consistent. Attached functions that only look do not change the results.",
["schedules","fault_sequences","programs"],"all attachments of functions, all steps, exceptions thrown at an arbitrary call",
T18+"The stable tests attach no functions.",
[PY],[("node function",f"{PY}:Node.update"),("link function",f"{PY}:Link.update"),("vehicle function",f"{PY}:Vehicle.update"),("world function",f"{PY}:World.exec_simulation")])

p("C23","Imported street maps keep their topology, into any world, also after failures",
"Importing a street map gives exactly the streets the map service delivered: every one-way street becomes one link in its direction, every two-way street one link per direction, between the places it connects and with its length, speed, lanes and type defaults as documented. Merging short streets keeps every pair of remaining places connected that was connected, never moves or invents places, and leaves streets away from short ones as they are; forcing both directions gives every link a reverse. Importing into a world that already has contents, even of the same names, leaves these alone and connects imported links to imported nodes only. If the map service or the simplification fails, the error reaches the caller, the world is unchanged and a retry works. The simulator runs on the imported network, and vehicles reach what is connected.",
["inputs","fault_sequences"],"all street maps and attribute combinations, merging parameters, contents of the world, failures of the service and retries",
"The importer tests need the network, so none of the stable tests runs them.",
["uxsim/OSMImporter/OSMImporter.py","uxsim/OSMImporter2/OSMImporter2.py"],[("import and merging","uxsim/OSMImporter/OSMImporter.py:OSMImporter"),("extraction","uxsim/OSMImporter2/OSMImporter2.py:_extract_network_from_geodataframe"),("attachment","uxsim/OSMImporter2/OSMImporter2.py:_attach_osm_nodes_links")])

p("C24","Route searches and route objects are valid, best and complete at any moment",
"Route enumeration returns distinct, loopless, connected routes from the requested origin to the requested destination: the k best ones with their stated costs, in order of cost, under any cost function and at any time for the k-shortest form; for the random form one to k routes for every reachable pair, a quickest free-flow one among them. Shortest distances and shortest travel times between all nodes, at present or at a past time, and the time-space network built after a run give the true optima over the network and the recorded travel times. A route object accepts exactly sequences of consecutive links and adds up travel times along the trip; the travelled route of a vehicle matches its movements. A generated grid has every place and both directions between neighbours. Calling any of these at any moment never changes the simulation.",
["inputs","schedules"],"all networks (with parallel links and unreachable pairs), cost functions, moments of the call during a run, seeds, both engines",
T18+"They call a few of them on one network and compare with hand-written values.",
["uxsim/Utilities/Utilities.py","uxsim/uxsim.py","uxsim/uxsim_cpp_wrapper.py","uxsim/trafficpp/traffi.cpp"],[("k shortest","uxsim/Utilities/Utilities.py:enumerate_k_shortest_routes"),("k random","uxsim/Utilities/Utilities.py:enumerate_k_random_routes"),("shortest paths","uxsim/Utilities/Utilities.py:get_shortest_path_distance_between_all_nodes"),("time-space network","uxsim/Utilities/Utilities.py:construct_time_space_network"),("route objects","uxsim/uxsim.py:Route"),("compiled enumeration","uxsim/trafficpp/traffi.cpp:World::enumerate_k_random_routes_cpp")])

p("C25","The result viewer shows the state of the chosen time after any interaction",
"After any history of slider moves, playing and stopping, selections, menu choices and display switches, the interactive viewer shows the state of the time chosen on its slider and of no other: every link is painted in the colours and widths of its recorded density at that time, a highlighted vehicle appears exactly where it was then, only while it was on a link and on the link as drawn, the time label and the control widgets agree, and playing advances by whole steps and wraps around at the end. Selected links and nodes, their names and their curves are the requested ones; tables hold the data of the analyzer, whatever filter or order is chosen, and menu entries call the export they name, cancelled dialogs none. Launching and using the viewer never changes any result, and every finished world can be shown.",
["schedules","histories"],"all finished worlds and all sequences of user interactions and timer ticks",
"No stable test opens the viewer; a defect shows after particular sequences of interactions only.",
["uxsim/ResultGUIViewer/ResultGUIViewer.py"],[("viewer","uxsim/ResultGUIViewer/ResultGUIViewer.py:ResultGUIViewer")])

p("C26","A rejected call changes nothing, and names identify one entity",
"Whatever call is mistaken - an unknown node, link or vehicle, a name that is used already, links that do not connect, signal groups that do not fit the node, destinations for a vehicle that is no taxi, negative parameters - and whenever it is made, before, during or after a run, in either engine, it is rejected with an exception (negative speeds and densities are ignored) instead of crashing or being half carried out: the world is exactly as before, the rest of the run, its random numbers and the scenario that can be saved are those of a world in which nobody made the mistake. (Calls that take many entities from a file stop at the first mistaken one.) Names stay unique and find their entity, entities renamed on request are full members of the world, and objects of another world stand for their name without that world being touched.",
["histories","schedules"],"all mistaken calls at all moments of all runs of both engines",
"Tests call the API correctly; half-carried-out calls show later, in another place, or as a crash of the process.",
["uxsim/uxsim.py","uxsim/uxsim_cpp_wrapper.py","uxsim/scenario_reader_writer.py","uxsim/TaxiHandler/TaxiHandler.py"],[("lookup","uxsim/uxsim.py:World.get_node"),("signal","uxsim/uxsim.py:Node.override_signal"),("compiled add","uxsim/uxsim_cpp_wrapper.py:CppWorld.addVehicle"),("recording","uxsim/scenario_reader_writer.py:demand_info_record")])

p("C27","Figures, animations and printed progress show the run as it happened",
"Every figure shows what the run recorded, at whatever moment it is drawn and for whatever links are chosen by whatever way of naming them: each passage of a vehicle is one line of its trajectory in its colour at its place, red lights are shown exactly when and where the signal was red, densities and the fundamental diagram are those of the trajectories, cumulative curves are the recorded ones, network pictures give each link its place, the colour and the width of its state at the time asked for, in every mode and on either side of the road, animations show every time once and in order, and the animation of vehicles shows each where it enters and is last seen; a vehicle's own figure shows its links and speeds. The progress rows are printed when due and give time, vehicles on the network and their mean speed at that moment.",
["schedules","inputs"],"all networks, time steps (also non-integer), moments of drawing, selections of links and vehicles, display options, both engines",
T18+"They only draw the figures; nobody looks at them.",
["uxsim/analyzer.py","uxsim/utils.py","uxsim/uxsim.py","uxsim/trafficpp/traffi.cpp"],[("time-space diagrams","uxsim/analyzer.py:Analyzer.time_space_diagram_traj_links"),("network figure","uxsim/analyzer.py:Analyzer.network"),("network picture","uxsim/analyzer.py:Analyzer.network_pillow"),("animation","uxsim/analyzer.py:Analyzer.network_fancy"),("progress","uxsim/analyzer.py:Analyzer.show_simulation_progress"),("compiled progress","uxsim/trafficpp/traffi.cpp:World::print_progress_line")])

if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for r in P:
            assert len(r["title"])<=80,r["id"]
            f.write(json.dumps(r,ensure_ascii=False)+"\n")
    print(len(P))

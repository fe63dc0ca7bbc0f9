TODO = "its simulation scenario is not built yet"
LOS = TP + "los/"
OPT = TP + "optimization/"
ILP = OPT + "ilp_models/"
TM = TP + "common/topology_models/"
IO = TP + "common/data_io/"

P("C01", "Line-of-sight decisions do not depend on how the work is scheduled",
  "Whether two sites are given a link, and with which confidence, is a function of that pair of sites, the surface and the settings: the number of workers, the way pairs are batched, the order in which batches complete and the other pairs in the same run never change it. Every returned pair respects the distance limits, the elevation-angle limit, the exclusion zones and the rule about sites on one building, and no permitted pair is dropped.",
  ["schedules", "configurations", "inputs"],
  "all worker counts, batch sizes, completion orders and worker isolation modes; all layouts of up to 24 sites including co-located and rooftop sites, surfaces and exclusion zones",
  "Tests run one worker count on a few fixed layouts and compare with stored results; they never vary batching, completion order or what a worker remembers from earlier pairs.",
  [LOS + "core.py", LOS + "helper.py", LOS + "base_los_validator.py", LOS + "building_group.py", LOS + "cylindrical_los_validator.py"],
  [("pair batching and result collection across worker processes", "los/core.py compute_los / los/helper.py"),
   ("per-validator memo of already decided pairs", "los/base_los_validator.py"), ("simple rules (distance, angle, building, zones)", "los/base_los_validator.py")],
  note="Seeded search over layouts and schedules; reference is the same pair decided alone, plus an independent oracle for the simple rules. Surface obstruction itself is compared between schedules, not re-derived.",
  rule="case = random layout + surface + zones + settings + worker schedule; non-trivial = at least one pair accepted and one rejected",
  real=["los package (validators, batching, building groups)", "geos", "shapely", "numpy"], stub=[POOL, CLOCK],
  assume=["worker isolation is either shared memory (threads-like) or forked children; spawn start-up cost is not modelled"],
  quick=(6000, 70))

P("C02", "A failing worker never yields a partial set of line-of-sight links",
  "If any worker fails while candidate links are being computed, the computation reports the failure to its caller. It never returns a network in which the pairs handled by the failed worker are silently missing, never hangs, and a following run in the same process is unaffected.",
  ["fault_sequences", "schedules"],
  "worker exceptions, memory errors, I/O errors and unsendable results at any task of any schedule",
  "No test lets a worker fail.",
  [LOS + "core.py", LOS + "helper.py"],
  [("results gathered from asynchronous worker tasks", "los/core.py compute_los")], level="fault_enumeration",
  note="Every run injects one or two worker failures at seeded task indices; the outcome must be an exception, and a clean rerun must equal the fault-free reference.",
  rule="case = layout + schedule + worker faults; non-trivial = the injected fault fired", real=["los package", "geos"], stub=[POOL, CLOCK],
  quick=(14000, 60))

P("C03", "The generated candidate network honours every input rule and loses nothing",
  "Every link of a generated candidate network joins two distinct known sites that are allowed to be linked, lies within the configured distance and elevation limits and outside exclusion zones, and has both directions exactly when both ends can relay; every input site inside the region is there at the altitude its input and the surface say, with each device it may carry; sites and links of the base network are all kept, and new sites are considered for links among themselves and with base sites alike; every detected building gets its client at a spot with the most lines of sight. If reading the inputs or a worker fails, the failure is reported and never yields another network.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "random site lists, base networks, zones, regions and settings, under any worker schedule, with read errors and worker failures",
  "Tests mock the stages or run one stored scene; base network plus new sites, zones given in latitude/longitude and failures mid-generation are not combined.",
  [LOS + "core.py", IO + "utils.py", IO + "topology_serializer.py"],
  [("candidate network assembly", "los/core.py"), ("base network merge", "common/data_io/utils.py")],
  note="Input files are written by the scenario; sites, heights, links, statuses and the saved network are compared with independent rules, obstruction with the planner's own decision for each pair by a single worker. Worker and disk failures must end in an exception or leave the result unchanged.",
  rule="case = region, site, base network, elevation and building files + settings + worker schedule + worker/disk faults; non-trivial = at least one new link or a fault that fired",
  real=["los package", "common.data_io readers and writers", "common.topology_models", "GDAL", "geos"], stub=[POOL, CLOCK, DISKS], quick=(4500, 75), thorough=(40000, 700))

P("C04", "The network model stays consistent through any history of edits",
  "After any sequence of additions, removals, status changes and rejected edits, the network is the one described by the accepted edits: each element is found exactly under its identifier, links and sectors belong to sites that are present, link, sector and site statuses are compatible, neighbour queries agree with the links, and a rejected edit changes nothing.",
  ["histories", "inputs"],
  "edit histories of up to 60 operations over up to 8 sites, all site/link/sector statuses, co-located sites, invalid edits",
  "Unit tests perform one or two edits at a time; removal of an element other elements refer to and edits after a rejection are not covered.",
  [TM + "topology.py", TM + "site.py", TM + "link.py", TM + "sector.py"],
  [("add/remove operations and adjacency maps", "common/topology_models/topology.py"), ("status setters with compatibility rules", "common/topology_models/*.py")],
  note="Each history is run against a small reference model (plain dictionaries) compared after every edit.",
  rule="case = edit history; non-trivial = at least five accepted and one rejected edit", real=["common.topology_models", "geos"], stub=[CLOCK],
  technique="deterministic simulation: seeded edit histories against an executable reference model, rejected edits as faults",
  quick=(12000, 60))

P("C06", "Planning never alters what the user declared as existing or unavailable",
  "From the moment a network is handed to the planner until planning ends, whether it succeeds or any solver step times out, fails or is infeasible, sites and links declared existing or unavailable keep that status and every input site and link keeps its identity and attributes. At every solver call and at the end, active links join active sites and sector statuses fit their sites. The planner never fails on an accepted network by contradicting itself.",
  ["inputs", "fault_sequences", "configurations"],
  "random networks mixing all statuses, random planning settings, any sequence of solver outcomes (optimal, arbitrary incumbent, timeout with or without incumbent, infeasible, numerical trouble, exception)",
  "Tests use all-candidate networks with the exact optimum; user-fixed statuses combined with extra POP proposal, redundancy, hop limits and solver failures are not sampled.",
  [OPT + "topology_optimization.py", OPT + "topology_preparation.py", OPT + "topology_operations.py", ILP + "network_optimization.py"],
  [("status updates from solver decisions", "optimization/topology_optimization.py update_topology_with_solution"), ("preparation of sectors, reachability and polarity", "optimization/topology_preparation.py")],
  note="The solver stand-in observes the network at each solve and chooses the outcome from the fault plan; user-fixed parts are compared with their initial value.",
  rule="case = network + settings + solver fault plan; non-trivial = planning finished and the input had fixed statuses",
  real=["optimization package (all model building, solution extraction, status updates)", "common.topology_models", "common.rf"], stub=[SOLVER, CLOCK],
  assume=["a solver incumbent is any point feasible for the stated model within 1e-6; the stand-in never returns an infeasible point"],
  quick=(1600, 75))

P("C07", "Every plan the planner accepts is a deployable network",
  "In any network the optimiser reports as planned: active links join active sites through active sectors that point at the other end, on one channel, with alternating polarity along backhaul; a client has one serving link; at most one site is chosen per spot; the per-sector link limits and angle limits hold; every chosen site is fed by an active POP within the hop limit. This holds for whichever feasible answers the solver returns.",
  ["inputs", "fault_sequences", "configurations"],
  "random networks and settings; any feasible solver answers including early-stopped incumbents, and failures of optional steps",
  "Tests check decisions of the one optimum of a few symmetric networks; non-optimal incumbents, which production stops at, are never fed in.",
  [OPT + "topology_optimization.py", OPT + "topology_operations.py", ILP + "interference_optimization.py", ILP + "site_optimization.py"],
  [("interference and sector step", "optimization/topology_optimization.py"), ("solution extraction", "optimization/ilp_models/*.py extract_solution"), ("sector readjustment", "optimization/topology_operations.py")],
  note="The final network is re-validated from geometry and graph search by code that shares nothing with the planner.",
  rule="case = network + settings + solver fault plan; non-trivial = the plan contains chosen links",
  real=["optimization package", "common.topology_models", "common.rf"], stub=[SOLVER, CLOCK],
  assume=["wired links are excluded: the documented input formats do not produce them"],
  quick=(1800, 80))

P("C08", "Solver failures degrade planning exactly as documented",
  "A failed optional planning step (extra POPs, redundancy, extra coverage) leaves the plan as if that step had not been requested, a failed mandatory step ends planning with an error saying whether it timed out or was infeasible, and coverage is only lowered when higher coverage failed. Whatever happened, the caller's settings are unchanged.",
  ["fault_sequences", "inputs", "configurations"],
  "every position and combination of solver failures over random networks and settings",
  "Tests never make a solver step fail.",
  [OPT + "topology_optimization.py", ILP + "cost_optimization.py", ILP + "redundancy_optimization.py", ILP + "pop_proposal_optimization.py"],
  [("step orchestration and fallbacks", "optimization/topology_optimization.py")], level="fault_enumeration",
  note="Each run in which optional steps failed is compared with a twin run in which they were not requested; coverage levels are counted per failure and checked against the demand that has a chosen site.",
  rule="case = network + settings + failing solver steps; non-trivial = at least one step failed",
  real=["optimization package"], stub=[SOLVER, CLOCK],
  assume=["a step is optional or mandatory as the documentation and the log messages say: extra POPs, redundancy and extra coverage are optional"],
  quick=(1500, 75))

P("C09", "What is saved reads back the same, or the save reported failure",
  "Writing a network to KML at any stage of planning and reading it back (as KML or KMZ) yields the same sites (place, type, status, name, device, location type, subscribers), the same wireless links with their statuses and confidence, and the same demand locations, whatever text the names contain and whatever text encoding the host uses; surfaces and building outlines that are written and read back are the same too. If the disk fails or the process dies while saving, either the save reports failure or the file is complete; a partly written file is never accepted as smaller data.",
  ["inputs", "fault_sequences", "crash_points", "configurations"],
  "networks fresh, prepared or planned with all statuses and optional attributes, any text in names; hosts with ASCII and UTF-8 locales; failing open, write, close, mkdir and rename calls, short and torn writes, full disk and process death at any file operation",
  "Tests round-trip stored samples on a healthy disk in one locale.",
  [IO + "topology_serializer.py", IO + "kml_library.py", IO + "utils.py", IO + "input_sites_loader.py", IO + "elevation_loader.py", IO + "building_group_loader.py"],
  [("KML writer", "common/data_io/topology_serializer.py"), ("KML reader", "common/data_io/kml_library.py"), ("surface and outline writers and readers", "common/data_io/elevation_loader.py, building_group_loader.py")],
  level="fault_enumeration",
  note="The real writers and readers run on a disk that fails, or a process that dies, at seeded libc file operations; what is read back is compared element by element with what was saved.",
  rule="case = network, surface or outlines + planning stage + names + locale + disk faults; non-trivial = sites were saved, or a fault fired",
  real=["common.data_io writers and readers", "optimization package (planned stage)", "GDAL/OGR (GTiff, LIBKML, ESRI Shapefile)"],
  stub=[SOLVER, "failing file operations and process death at the libc boundary"],
  assume=["confidence is stored with one digit; building identifiers and wired links are not part of the saved format"],
  quick=(2500, 75))

P("C10", "Reading inputs under failing disks is all-or-nothing and leaves no debris",
  "Loading any input file (networks and site lists as KML, KMZ, CSV or zipped CSV, boundaries and zones, building outlines as KML or zipped shapefile, surfaces in one or several GeoTIFF tiles, antenna, scan and rate tables, configuration files) either returns the complete content or raises. A read error, a missing file, a cut or damaged archive or a missing archive member never yields less or other content, a failed load does not affect the next one, and temporary files and open handles are released whatever the outcome.",
  ["fault_sequences", "inputs"],
  "errors and short results at any open, read, write and mkdir call of a load; files cut anywhere, bit flips and missing or cut members in archives, missing files; all input formats",
  "Tests load valid samples and a few malformed files from a healthy disk.",
  [IO + "utils.py", IO + "kml_library.py", IO + "csv_library.py", IO + "elevation_loader.py", IO + "building_group_loader.py", TP + "common/configuration/utils.py"],
  [("network loaders", "common/data_io/utils.py, kml_library.py, csv_library.py"), ("surface and outline loaders", "common/data_io/elevation_loader.py, building_group_loader.py")],
  level="fault_enumeration",
  note="Each load is repeated in a forked process under one seeded fault; the value must equal the healthy load or the load must raise, and the scratch directory and file table are inspected afterwards.",
  rule="case = input file + faults and damages; non-trivial = a fault fired",
  real=["common.data_io loaders", "common.configuration", "GDAL/OGR", "pandas", "zipfile"], stub=["failing file operations at the libc boundary"],
  assume=["plain text cut at a line end is a valid shorter text, so truncation is applied to KML, archives and GeoTIFF only"],
  quick=(1100, 80))

P("C11", "Availability simulation is reproducible, exact and respects its time limit",
  "The simulated link and site availability is a function of the network, the link availabilities and the seed; it equals the fraction of simulated time in which a path to a POP exists under that failure history. When the time limit stops the simulation early, the result is the exact availability over the time actually simulated.",
  ["histories", "schedules", "configurations"],
  "random networks, availabilities, seeds, simulation lengths and clock behaviours",
  "Tests compare means on two graphs with loose tolerances and never trip the time limit.",
  [OPT + "topology_availability.py", OPT + "topology_networkx.py"], [("discrete event simulation", "optimization/topology_availability.py compute_availability")],
  note="The failure history is redrawn from the seed (alternating up and down times per link, in link order) and integrated exactly by an independent model; a run stopped by its limit must equal the model over some simulated prefix, and must stop within 60 clock steps of the limit.",
  rule="case = graph + availability + seed + clock behaviour; non-trivial = some demand is served part of the time", quick=(40000, 60), thorough=(200000, 500),
  real=["optimization.topology_availability", "networkx", "numpy generators"], stub=[CLOCK])

P("C12", "Outage analysis equals re-planning the routes without the failed parts",
  "For every single link or site outage, the reported set of disconnected or rerouted sites equals what recomputing connectivity on the network without that part gives, and analysing outages leaves the analysed network and graph exactly as they were.",
  ["histories", "inputs"],
  "random networks; every sequence of link and site outages analysed one after another on shared state",
  "Tests analyse one outage on fixed graphs; state carried from one outage to the next is not checked.",
  [OPT + "topology_networkx.py", OPT + "topology_operations.py"], [("graph building, disjoint paths, outage loops", "optimization/topology_networkx.py")],
  note="Random sequences of analyses share one graph; each result is compared with own searches over the network, and after each (also when it is interrupted by an allocation failure) graph and network must be as before.",
  rule="case = network + sequence of analyses + interruptions; non-trivial = some outage disconnects a demand", quick=(80000, 60), thorough=(400000, 500),
  real=["optimization.topology_networkx", "common.topology_models", "networkx"], stub=["allocation failures injected at graph-library calls"])

P("C13", "Reports agree with the plan they describe",
  "The numbers in the reports (element counts, costs, demands met, outages, radio statistics, the per-site, per-link and per-sector tables) equal those recomputed from the plan itself and do not depend on the order in which elements are listed or on an earlier analysis. The reported throughput is the largest bandwidth every connected demand can be given at once over the active links, existing ones included, and the reported flows respect capacities and balance. Reporting never changes statuses, sectors or demands of the plan and never fails on a plan the optimiser accepts. A report that could not be written completely is reported as an error.",
  ["inputs", "fault_sequences", "configurations"],
  "plans accepted by the optimiser for random networks (new, partly built, fully built) under random solver outcomes and all routings; listing orders; failing open, write, close and mkdir calls while the reports are written",
  "Tests compare a few fields of one all-new network, with the optimum always found and the disk always working.",
  [OPT + "topology_report.py", OPT + "topology_component_counter.py", ILP + "flow_optimization.py", OPT + "topology_operations.py", OPT + "deployment_rules.py"],
  [("metrics, tables and report files", "optimization/topology_report.py"), ("element counters", "optimization/topology_component_counter.py"), ("maximum flow", "optimization/ilp_models/flow_optimization.py")],
  note="The real planner makes a plan under simulated solver outcomes and reports on it; every number is recomputed by own code (own linear program for throughput), the analysis is repeated on the same plan listed in another order and with another routing, and the files are written on a disk that fails at seeded operations.",
  rule="case = network + settings + solver outcomes + listing order, or network + disk faults; non-trivial = positive throughput, or a disk fault fired", quick=(2000, 80), thorough=(60000, 500),
  real=["optimization package including reporting", "common.topology_models", "common.rf", "pandas, yaml and file writing"], stub=[SOLVER, CLOCK, "failing file operations at the libc boundary"],
  assume=["ties between equally short routes may be resolved either way (disjoint-path counts are bounded from both sides)"])

P("C14", "Elevation inputs mean the same whenever, wherever and in whatever pieces read",
  "Elevation files are accepted unless one of them states a collection date that is in the future, more than 20 years past or no date, has no projection or several bands; the answer depends on what the files state and the time of the run only, never on how the area is cut into files, their order, types or voids. The surface read has at every place the value the files give there and none where they give none; surface and terrain are completed from the height above ground only where both are known. The answer for a place or area does not depend on what was asked before. A file that cannot be read in full is reported, never read in part.",
  ["configurations", "inputs", "fault_sequences"],
  "simulated clocks from 1995 to 2060 with jumps both ways, time zones, 1-4 files per surface in any order, value types, coordinate systems, voids and void markers, dates, read failures and truncated files",
  "Tests stub the raster or read one file; they never set the clock, cut an area into files, mix void markers or let a read fail.", [IO + "elevation_loader.py", IO + "elevation_rules.py", LOS + "elevation.py", LOS + "core.py"],
  [("merging, projecting and cropping of GeoTIFF files", "common/data_io/elevation_loader.py _read_from_geotiff"), ("collection time rule", "common/data_io/elevation_rules.py"),
   ("adding and subtracting surfaces", "los/elevation.py"), ("completion of surface and terrain", "los/core.py load_gis_data")],
  note="The scenario writes the files from a known linear field; every cell read is compared with the field, every date with the simulated clock. Cells are exact for grids on whole metres, otherwise within 1.6 pixels. Dates within 1.5 days of a limit are not judged.",
  rule="case = field + files + clock history + read faults; non-trivial = a surface was accepted and compared", real=["common.data_io.elevation_loader", "los.elevation", "los.core.load_gis_data", "GDAL"], stub=[CLOCK, DISKS],
  quick=(8000, 75), thorough=(100000, 700))

P("C15", "The same inputs give the same plan in every process",
  "Generating a candidate network, planning and reporting again with the same inputs, settings and seed, but in another process with other hash randomisation, number of workers, worker schedule, time zone or listing order of the sites and links, yields the same network, plan and report files, or the same refusal.",
  ["schedules", "configurations", "inputs"],
  "pairs of executions that differ in process, hash seed, worker schedule, time zone and input listing order; all stages, called directly and from configuration files, under any solver answers",
  "A test executes in one process with one hash seed and one order.",
  [OPT + "topology_optimization.py", LOS + "core.py", TM + "topology.py", ILP + "optimization_setup.py"], [("sorting before model building", "optimization/topology_optimization.py"), ("sorted site and link order", "common/topology_models/topology.py")],
  note="A second planner process started with another hash seed forks a fresh child for every run; sites, links, sectors, demands and files of both runs are compared (numbers to 9 digits, files of candidate networks in any line order). The solver stand-in answers by the stated model alone, so a model built in another order shows.",
  rule="case = run (files or network + settings + solver answers) + the ways the second process differs; non-trivial = both runs gave a network", quick=(2000, 80), thorough=(60000, 700),
  real=["los package", "optimization package including reporting", "common package", "GDAL"], stub=[SOLVER, POOL, CLOCK])

P("C16", "Runs in one process do not influence each other",
  "The result of a run (the network, the plan, the files it writes, or its refusal) does not depend on earlier runs in the same process, whether they succeeded, failed or used other settings, devices or input files under the same names, and it does not modify the settings objects it was given, which can be used again.",
  ["histories", "fault_sequences", "configurations"],
  "histories of up to 4 candidate-network, planning and configuration-file runs with different settings, including ones that fail by solver, worker, disk or configuration errors, followed by a run compared with a fresh process",
  "Each test starts from its own fixtures and single run.",
  [TP + "common/utils.py", OPT + "topology_optimization.py", LOS + "core.py", TP + "common/configuration/utils.py"], [("process-wide settings", "common/utils.py"), ("parameter copies", "optimization/topology_optimization.py")],
  note="The history runs in a process that has already executed earlier cases; the last run is repeated in a freshly forked process with the same hash seed and everything it returns and writes is compared.",
  rule="case = history of runs + faults; non-trivial = at least one run before the compared one", quick=(800, 80), thorough=(60000, 700),
  real=["los package", "optimization package including reporting", "common package", "GDAL"], stub=[SOLVER, POOL, CLOCK, DISKS],
  assume=["output directory and debug mode chosen by a configuration file stay in force for later calls without one, as documented by the process-wide settings object; such calls are compared without the debug files"])

P("C17", "Settings files mean what they document, and a failed read changes nothing",
  "Every field of a configuration file has the value the user wrote, or its documented default when it is omitted or blank, whatever the order and letter case of the keys, the file format and the files read before: in every device, with the project-wide radio values in each of them (also when made in code), and with the tables and patterns of the files it names. Unknown keys, values outside the documented ranges, contradictory settings and missing or malformed files are refused with an error. Reading changes nothing in force; applying the system settings puts exactly those of that file in force, with messages going to its log file and no other; a read that fails, also because of the disk, leaves everything as it was.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "histories of up to 8 reads of up to 3 generated YAML or JSON documents (all documented fields, devices with MCS tables, scan and antenna patterns), some with one planted mistake, some on a failing disk, files replaced in place between reads",
  "Tests load a few fixed files once, on a disk that never fails.",
  [TP + "common/configuration/utils.py", TP + "common/configuration/configs.py", TP + "common/utils.py", TP + "data/template.yaml"],
  [("file to parameters", "common/configuration/configs.py ConfigParser.from_dict"), ("typo detection", "common/configuration/utils.py _detect_typo"), ("settings in force and logging", "common/utils.py")],
  note="An own table of all fields, defaults and ranges written from the template gives the meaning of each document; every read of the history is compared with it, and so are the settings in force, open files and log messages after every step.",
  rule="case = documents + reads with mistakes and disk faults; non-trivial = two reads or more", quick=(2600, 60), thorough=(40000, 600),
  real=["common.configuration", "common.data_io.csv_library", "common.utils"], stub=[DISKS],
  assume=["a whole LINE_OF_SIGHT, RADIO or NETWORK_DESIGN section that is omitted (rather than blank) is refused, as the code documents", "values of the wrong type are outside the claim"])

P("C18", "Preparing a network gives it exactly the demand and hardware it should have",
  "Preparing a network for planning adds the demand the settings ask for and no other: one per client location with its subscribers, the given ones, a regular grid over the network wherever it lies; each is connected once to exactly the sites that can serve it: those within the radius, the client itself, and relays that share the spot or the rooftop of such a client. Each site gets no more nodes than its device has, with all their sectors side by side and without overlap, seeing as many neighbors as the device can; a link gets the sectors that point at its other end, the same in both directions, exactly when both ends have one, and capacity only then. Sectors the user gave are kept, or refused if they cannot be mounted. The result depends neither on the listing order nor on what was prepared before, and preparing twice adds nothing.",
  ["histories", "inputs", "configurations"],
  "random networks with clients and relays sharing spots and rooftops, given sectors (valid or not), demand settings in all combinations, places next to the antimeridian; several networks prepared one after the other, twice and in other listing orders",
  "Tests prepare a handful of fixed networks, one demand model and one device at a time.",
  [OPT + "topology_preparation.py", OPT + "topology_demand.py"],
  [("sectors of sites and links", "optimization/topology_preparation.py setup_node_structure"), ("demand locations and the sites that serve them", "optimization/topology_demand.py")],
  note="The prepared network is compared with an own model of demand, mounting rules and best coverage after every step of a history of preparations.",
  rule="case = one to three networks with settings, prepared in sequence, twice and reordered; non-trivial = a network was accepted", quick=(900, 75), thorough=(20000, 600),
  real=["optimization.topology_preparation", "optimization.topology_demand", "common.topology_models", "common.rf"], stub=[CLOCK],
  assume=["two demands at exactly the same place are one", "a link within 0.02 degrees of the edge of a sector may be in or out", "no I/O, clock or second party acts here: what is simulated is the history of preparations in one process"])

P("C19", "Reachability marking is exact and forgets nothing",
  "Marking makes unreachable exactly the candidate sites with no usable path to a POP within the hop limit, together with their links and sectors that the user did not fix, and changes nothing else. The answer is that of a fresh search over the network as it is now, whatever edits, releases and markings came before, and marking twice changes nothing more. Planning marks exactly that set and keeps it to the end.",
  ["histories", "inputs", "fault_sequences"], "status, site and link edit histories of up to 15 steps interleaved with marking and reachability queries; planning runs under any solver answers",
  "Tests mark once on fixed networks.", [OPT + "topology_operations.py", OPT + "topology_optimization.py"],
  [("unreachable marking and hop counts", "optimization/topology_operations.py mark_unreachable_components")],
  note="A plain mirror of the network is searched independently after every step.",
  rule="case = network + edit/marking history (or planning run); non-trivial = something was marked", quick=(8000, 60), thorough=(60000, 500),
  real=["optimization.topology_operations", "optimization pipeline", "common.topology_models"], stub=[SOLVER, CLOCK])

P("C20", "Plans serve promised demand at least cost, within budget, redundant as asked",
  "A network accepted for a share of the demand can carry it: over its active sites and links, with their capacities, shared airtime and the POPs' capacity. When the solver is given the time, no cheaper choice of sites could, a share is refused only if no choice of sites can serve it, what the user fixed stays in use and one site is used per spot. Extra POPs are at most as many as asked, at usable relays without a POP, and the places that serve most clients. Redundancy removes no site but clients that become relays, leaves as few of the disjoint paths asked for missing as possible, and is the cheapest that does; extra coverage stays within the budget (or the cost of the minimum network) and leaves as little demand unserved as possible without the critical links. Finding any of this works for every layout of the sites.",
  ["inputs", "configurations", "fault_sequences"],
  "random networks of up to 9 sites with fixed, unavailable and co-located sites, relays on one line, all redundancy levels, both redundancy methods, budgets, costs and POP capacities, under any solver answers at any step; relative stopping gaps 0, common bandwidth off",
  "Tests compare a few fixed networks with stored solutions, and most need a licensed solver.",
  [ILP + "site_optimization.py", ILP + "network_optimization.py", ILP + "cost_optimization.py", ILP + "coverage_optimization.py", ILP + "redundancy_optimization.py", ILP + "pop_proposal_optimization.py", OPT + "topology_optimization.py"],
  [("constraints and goals of site selection", "optimization/ilp_models/site_optimization.py, network_optimization.py, optimization_setup.py"), ("redundancy", "optimization/ilp_models/redundancy_optimization.py"), ("extra POPs", "optimization/ilp_models/pop_proposal_optimization.py")],
  note="Models of each step written from docs/algorithm/optimization, in an own form and solved on their own, are compared with the network after that step: served demand by a linear program over the active sites and links, disjoint paths by maximum flows, least costs by own integer programs.",
  rule="case = network + settings + solver answers per step; non-trivial = a minimum cost network was accepted and judged",
  real=["optimization package"], stub=[SOLVER, CLOCK],
  assume=["which links the redundancy heuristic leaves is judged by the disjoint paths it keeps only", "which links are critical for extra coverage is taken from the planner", "relays already in use are not judged as places for extra POPs"],
  quick=(900, 75), thorough=(20000, 700))

PURE = "a pure function of its arguments: no schedule, clock, I/O, history or second party for simulation or faults to act on; left to ordinary tests or proof"
P("C30", "Link budget arithmetic follows the documented radio model",
  "Received signal strength, signal-to-noise ratio, data rate and transmit power back-off follow the documented formulas and are monotone in distance and attenuation.",
  ["inputs"], "all link geometries and radio settings", "Tests sample a handful of table entries.",
  [TP + "common/rf/link_budget_calculator.py"], [("link budget", "common/rf/link_budget_calculator.py")], reason=PURE)
P("C31", "Coordinate conversions are inverse to each other",
  "Converting between latitude/longitude, projected and grid coordinates and back returns the original point within a centimetre.",
  ["inputs"], "all points of all projection zones", "Tests sample a few points.", [TP + "common/geos.py"], [("conversions", "common/geos.py")], reason=PURE)
P("C32", "Sight-tunnel geometry counts exactly the obstructing surface samples",
  "The confidence of one link is the clear share of its Fresnel tunnel over the surface grid.",
  ["inputs"], "all endpoint pairs and surfaces", "Tests sample a few tunnels.",
  [LOS + "fresnel_zone.py", LOS + "cylindrical_los_validator.py", LOS + "ellipsoidal_los_validator.py"], [("tunnel geometry", "los/")], reason=PURE)

"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/openclsim/" + f for f in files],
            state=[dict(name=a, meaning=b, where="src/openclsim/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where="src/openclsim/" + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Container levels are exact per product",
  "After any history of puts and gets, the level a container reports for a product equals its initial level plus everything put into minus everything taken out of that product. The levels of its other products, of the matching reservation accounts, all capacities and the set of products stay untouched by that history.",
  ["histories", "configurations"], "all sequences of put/get on any product or reservation account of containers with one or several products, interleaved with time passing and with level queries",
  "The tests run three fixed put/get sequences on a one-product container and one transfer on a two-product container; isolation between products and accounts is never quantified over histories.",
  ["core/container.py", "core/events_container.py"],
  [("EventsContainer.put / get", "core/events_container.py"), ("initialize_container", "core/events_container.py")],
  [("items", "one record per product and per reservation account", "core/events_container.py")],
  ["container.get_level", "container.get_capacity", "container.container_list", "object get_state()"])

p("C02", "Level conditions are signalled exactly when they hold",
  "A level condition requested on a container (above, at least, below, at most a threshold, empty, full) is signalled in the first simulated instant, at or after the request, at whose end it holds; at once if it already holds. It is never signalled unless it held at some moment between the request and the signal, whatever other conditions, products or earlier requests of the same condition exist.",
  ["histories", "schedules"], "all histories of puts, gets, requests of conditions and passing of time over one or more products",
  "The container tests follow three hand-written histories; re-requesting a condition after it came and went, and interference between conditions and products, depends on the whole history.",
  ["core/events_container.py"],
  [("get_container_event", "core/events_container.py"), ("update_container_events", "core/events_container.py")],
  [("_container_events", "one shared event per product, threshold and comparison", "core/events_container.py")],
  ["the event returned by get_container_event / get_empty_event / get_full_event"])

p("C03", "Cargo is conserved",
  "Cargo is never created or lost: at every moment of a simulation the amounts in all containers plus the amounts in transfers that have started and not yet finished equal the initial total, per product. When nothing is being transferred the containers alone hold exactly the initial total.",
  ["schedules", "configurations", "histories"], "all fleets of sites and vessels, capacities, amounts, durations, plugins and all orders in which simultaneous happenings can be processed",
  "Tests look at the final levels of a few fixed fleets; conservation must hold at every step under every interleaving of concurrent transfers.",
  ["model/shift_amount_activity.py", "core/processor.py", "core/events_container.py"],
  [("Processor.process", "core/processor.py"), ("check_possible_shift", "core/processor.py")],
  [("container level", "amount per product", "core/events_container.py")],
  ["container.get_level of every object", "transfer START/STOP log entries"])

p("C04", "Containers are never overdrawn or overfilled by transfers",
  "Transfers between objects never drive the level of a container below zero or above its capacity, however many vessels work on the same site at the same time.",
  ["schedules", "configurations"], "all fleets competing for the same origins and destinations, with one or several resource slots per object, all orders of simultaneous happenings",
  "Races between checking a level and using it only show for particular combinations of amounts, durations, slots and arrival order; the tests have one lucky combination.",
  ["model/shift_amount_activity.py", "core/processor.py"],
  [("determine_processor_amount and the re-check after each resource request", "model/shift_amount_activity.py"), ("check_possible_shift", "core/processor.py")],
  [("container level", "amount per product", "core/events_container.py")],
  ["container.get_level after every simulation step"])

p("C05", "A transfer moves the right amount in the right time",
  "A transfer moves the smallest of the requested amount, the content of the origin and the free room of the destination, leaving the origin when it starts and arriving in the destination when it ends. Its duration is the given duration, or the amount divided by the rate plus the manoeuvring time in minutes, or the result of the rate function evaluated from the level before to the level after of the vessel's product being loaded or unloaded, plus manoeuvring.",
  ["inputs", "configurations"], "all levels, capacities, requested amounts, products, durations, constant and level-dependent rates, manoeuvring times and phases",
  "Tests transfer a handful of fixed amounts with a fixed duration and never use level-dependent rates, manoeuvring or partial amounts on several products.",
  ["model/shift_amount_activity.py", "core/processor.py"],
  [("determine_processor_amount", "core/processor.py"), ("LoadingFunction.loading / UnloadingFunction.unloading", "core/processor.py"), ("ShiftAmountActivity._shift_amount", "model/shift_amount_activity.py")],
  (), ["levels around transfer START and STOP", "log times"])

p("C06", "Fleets that stop on reservations deliver exactly",
  "A fleet of vessels with equal trip amounts and work for each of them, whose trips repeat until the reservation account of the destination is full (or that of the origin empty), makes just enough trips and then every vessel stops: no transfer is attempted on an empty origin or a full destination, the destination ends exactly full (or the origin empty) and the reservation accounts end equal to the real levels. While trips are under way the reservation account of the destination runs ahead of its level by exactly the amounts of the transfers that are registered and not yet delivered, and that of the origin runs behind likewise.",
  ["schedules", "configurations"], "all fleets of up to three vessels with trip amounts that do or do not divide the total, all durations, slots and orders of simultaneous happenings",
  "One fleet of eight vessels with fixed amounts is tested at its final state only.",
  ["model/shift_amount_activity.py", "core/processor.py", "model/base_activities.py", "core/events_container.py"],
  [("make_container_reservation", "model/shift_amount_activity.py"), ("reservation correction in check_possible_shift", "core/processor.py"), ("determine_reservation_amount", "core/processor.py")],
  [("<product>_reservations", "reservation account", "core/events_container.py")],
  ["container.get_level(id_='..._reservations')", "end of simulation"])

p("C07", "Objects serve no more users than they have slots",
  "At no moment do more transfers and moves use an object (as vessel, processor, origin or destination) than it has resource slots, and waiting users are served first come first served. An activity that ends releases everything it acquired except resources it was told to keep, a kept resource stays with its holder until a later activity of the same holder releases it, and once everything has ended no slot is left occupied.",
  ["schedules", "configurations"], "all sets of activities competing for one to three objects with one or more slots, with and without shared holders and kept resources, all orders of simultaneous happenings",
  "Mutual exclusion and release are about every interleaving; the tests check the end time of one two-vessel case and never use kept resources.",
  ["model/base_activities.py", "model/shift_amount_activity.py", "model/move_activity.py", "core/resource.py"],
  [("_request_resource / _release_resource", "model/base_activities.py"), ("HasResource", "core/resource.py")],
  [("requested_resources", "requests held on behalf of one holder", "model/base_activities.py")],
  ["object.resource.count / queue", "overlap of START..STOP intervals per object"])

p("C08", "Sequences run their steps one after another",
  "A sequential activity runs its steps exactly once each, in the given order, every step being released at the moment its predecessor is done and the first one when the sequence starts. It ends exactly when its last step is done, at any nesting depth.",
  ["programs", "schedules"], "all activity trees up to a size, with all assignments of durations (including zero) from a small domain",
  "Tests cover one flat sequence and a few fixed nestings; ordering must hold for every tree shape and every duration assignment.",
  ["model/sequential_activity.py", "model/base_activities.py"],
  [("register_sequential_subprocesses", "model/base_activities.py"), ("SequentialActivity.main_process_function", "model/sequential_activity.py")],
  (), ["START/STOP log entries of parent and steps"])

p("C09", "Parallel activities start together and end with the last one",
  "All branches of a parallel activity are released when it starts, run exactly once each, and it ends exactly when the last branch is done. Its log notes the end of every branch at the moment that branch is done, at any nesting depth.",
  ["programs", "schedules"], "all activity trees up to a size, with all assignments of durations (including equal and zero ones) from a small domain",
  "One flat parallel activity is tested; simultaneous endings, nesting and repetition of parallel blocks are not.",
  ["model/parallel_activity.py", "model/base_activities.py"],
  [("register_parallel_subprocesses", "model/base_activities.py"), ("ParallelActivity.main_process_function", "model/parallel_activity.py")],
  (), ["START/STOP log entries of parent and branches"])

p("C10", "Loops run exactly the required number of rounds",
  "A repeat activity runs its steps in order exactly the given number of times, back to back. A while activity runs its steps at least once, checks its stop condition at the end of every round and ends with the first round by whose end the condition has been met since the loop started; both behave the same each time when they are themselves inside another loop.",
  ["programs", "schedules", "histories"], "all nestings of loops, sequences and parallel blocks up to a size, all repetition counts and durations from small domains, all kinds of stop conditions (level, time, other activity, and/or)",
  "Tests have single loops and one fixed nested case; round counts depend on the interplay of nested resets, conditions and timing.",
  ["model/while_activity.py", "model/base_activities.py", "model/helpers.py"],
  [("ConditionProcessMixin.main_process_function", "model/while_activity.py"), ("register_processes", "model/helpers.py"), ("GenericActivity.register_process", "model/base_activities.py")],
  (), ["START/STOP log entries per round"])

p("C11", "Activities start as soon as, and not before, their start event",
  "An activity starts at the later of the moment its parent releases it and the moment its start event (a time, a level condition, the end of another activity, or any and/or nesting of these) has occurred, neither earlier nor later. In a loop, levels and ends of activities count from the moment the activity is scheduled for its current round. If that makes it wait, the wait is logged as one interval from release to start, on the activity and on its additional logs, and otherwise no wait is logged.",
  ["programs", "schedules", "inputs"], "all start-event expressions up to a nesting depth attached to any node of small activity trees, for all durations from a small domain",
  "Tests combine one expression with one tree at a time; and/or expressions and waits inside loops are hardly exercised.",
  ["model/base_activities.py"],
  [("GenericActivity.parse_expression", "model/base_activities.py"), ("GenericActivity.delayed_process", "model/base_activities.py")],
  (), ["START, WAIT_START, WAIT_STOP log entries"])

p("C12", "The order of registration does not matter",
  "The schedule that results from a set of activities that do not compete for anything is the same for every order in which they are handed over for registration, including references to activities that come later in the list and activities nested in others. Handing over two activities with the same name is refused before anything runs.",
  ["programs", "configurations"], "all permutations of small sets of activity trees that refer to each other through start events and stop conditions",
  "Tests register each model in a single order.",
  ["model/helpers.py", "model/base_activities.py"],
  [("register_processes / get_subprocesses", "model/helpers.py"), ("registry by name and id", "model/base_activities.py")],
  (), ["START/STOP log entries", "AssertionError on duplicate names"])

p("C13", "Logs are a complete and truthful record",
  "Every execution of an activity that ends appears as one START and one later-or-equal STOP with its identifier, in the activity's own log and equally in the log of every object it uses or is asked to log to (vessel of a move, processor, origin and destination of a transfer). The object state recorded with an entry (container level per product, position) is the object's real state at that moment, and a recorded interval is never attributed to another activity.",
  ["schedules", "programs", "histories"], "all small programs of basic, move and transfer activities, alone and concurrent, in loops and with several slots per object",
  "Tests compare total durations of a few logs; pairing, attribution and recorded state are never checked entry by entry under concurrency.",
  ["core/log.py", "core/processor.py", "core/movable.py", "core/container.py", "core/locatable.py", "model/basic_activity.py", "model/move_activity.py", "model/shift_amount_activity.py"],
  [("log_entry_v1", "core/log.py"), ("Processor.process", "core/processor.py"), ("Movable.move", "core/movable.py"), ("get_state chain", "core/container.py")],
  [("logbook", "list of entries", "core/log.py"), ("activity_id", "identifier stamped on entries and timeouts", "core/log.py")],
  ["logbook / log of activities and objects"])

p("C14", "Log tables show exactly the log",
  "The column view and the table view of a log contain every recorded entry exactly once with its own time, state, identifier, object state and label, the table in chronological order, for every log including an empty one. Asking for names replaces identifiers of the given activities and of everything nested in them, and changes nothing else.",
  ["histories", "inputs"], "all logs up to a length over small alphabets of times, states, identifiers, object states and labels, in any order of recording",
  "Tests build such tables from a few simulations whose logs are already in order and only check counts.",
  ["core/log.py", "plot/log_dataframe.py", "model/helpers.py"],
  [("Log.log", "core/log.py"), ("get_log_dataframe", "plot/log_dataframe.py"), ("get_subprocesses", "model/helpers.py")],
  (), ["object.log", "plot.get_log_dataframe"])

p("C15", "Exports reproduce the activity tree and its intervals",
  "The exported activity list contains every activity of a model once with its name, class and depth and the parent it is directly nested in, so that the tree can be rebuilt from it, and the exported roles list every vessel, processor, origin and destination of every activity. The exported log has one interval per execution of an activity (and per step of a composite activity) with its true start, stop and duration.",
  ["programs", "histories"], "all activity trees up to a size and their logs for all durations from a small domain",
  "The export functions have no test at all.",
  ["io.py"],
  [("get_tree_as_list / get_activities / get_activity_resources", "io.py"), ("get_ranges_dataframe / get_activity_log", "io.py")],
  (), ["returned tables and csv files"])

p("C16", "Moves end at the destination after distance over speed",
  "A move ends with the vessel exactly at the destination; it takes the given duration, or else the great-circle distance divided by the vessel's speed at departure. That speed is the nominal speed, or the one its speed function gives for the filled fraction of its whole capacity over all products, in either case scaled by the requested engine order.",
  ["inputs", "configurations", "histories"], "all sequences of moves between small sets of positions, levels of one or several products, speed functions and engine orders",
  "Tests use one or two moves with constant speed functions, engine order one, and one product.",
  ["core/movable.py", "core/locatable.py", "model/move_activity.py"],
  [("Movable.move / compute_duration / v", "core/movable.py"), ("ContainerDependentMovable.v / MultiContainerDependentMovable.v", "core/movable.py")],
  (), ["vessel geometry", "log times"])

p("C17", "Sailing a route takes the length of the route over the speed",
  "A vessel with a route or a path sails between the ends of it in the length along the route divided by its speed, in both directions, and between two points of a path in the proportional part of the length; travel between points that are not the ends of the route is refused. Sailing edge by edge visits the nodes in order, takes the same total time and ends at the last node.",
  ["inputs", "configurations"], "all simple routes and paths over small graphs in both directions, for all speeds and engine orders from small domains",
  "There is no test with a route; the one notebook that uses it needs the network and is not run.",
  ["core/movable.py"],
  [("Routable.compute_distance", "core/movable.py"), ("Routable.move_over_route / pass_linestring / move_to_geometry", "core/movable.py")],
  (), ["vessel geometry and node", "simulated time"])

p("C18", "Weather-bound activities start in the first suitable window",
  "An activity with a weather criterion starts at the earliest moment, not before it was due, from which the recorded series (each record counting until the next) respects the limit during the whole required window, shifted by the window delay; it never starts in any other moment and logs exactly the waiting time. If no such moment is left in the record, the record is taken to repeat itself.",
  ["inputs", "configurations"], "all series up to a length over a small alphabet around the limit, maxima and minima, all window lengths and delays and all due times from small domains",
  "Two fixed sinusoidal series are tested; the window search has case distinctions at both ends of the record and beyond it.",
  ["plugins/weather.py"],
  [("WeatherPluginActivity.pre_process / check_constraint / process_data", "plugins/weather.py"), ("PluginActivity.delay_processing", "model/base_activities.py")],
  (), ["START, WAIT_START, WAIT_STOP log entries"])

p("C19", "Plugins act once per execution, in priority order; delays prolong",
  "Every plugin of an activity acts exactly once before and once after each execution, in ascending priority and, at equal priority, in order of registration, and receives the true times at which preparation and execution started. A delay plugin prolongs the activity by exactly the given percentage of the time since its execution started, logged as waiting, during which its resources stay occupied and its successor does not start.",
  ["configurations", "programs"], "all sets of up to three plugins with all priority assignments on every kind of activity, all delay percentages and durations from small domains, in loops and sequences",
  "One chain with 10 percent on everything is tested by its end time.",
  ["model/base_activities.py", "plugins/delay.py", "plugins/weather.py"],
  [("register_plugin / pre_process / post_process", "model/base_activities.py"), ("DelayPlugin.post_process", "plugins/delay.py")],
  [("plugins", "registered plugins with priority", "model/base_activities.py")],
  ["calls received by plugins", "WAIT log entries", "end times"])

p("C20", "Critical activities are exactly those on a longest chain",
  "Given recorded activities and their dependencies, the activities reported as critical are exactly those that lie on a longest chain of dependent activities (if longest chains end at different moments, those ending at one of these moments), each reported once. Activities without duration do not count, and dependencies between activities that do not adjoin in time are refused.",
  ["inputs", "configurations"], "all sets of up to five activities with start and end times from a small domain and all subsets of the possible dependencies, in any order",
  "Tests count critical activities on a few simulations; which activities are found depends on the graph and on tie-breaking in the search.",
  ["critical_path/simulation_graph.py", "critical_path/base_cp.py"],
  [("SimulationGraph", "critical_path/simulation_graph.py"), ("get_critical_path_df", "critical_path/base_cp.py")],
  (), ["get_list_critical_activities", "is_critical column"])

p("C21", "Dependency tracking explains the schedule and does not alter it",
  "A simulation run in the dependency-tracking environment produces the same logs, levels and end time as in a plain one. The dependencies derived from it, of any length of simulation, link recorded activities of which the first ends exactly when the second starts, every execution of an elementary activity that takes time and does not start at the beginning of the simulation is explained by a predecessor, and (unless activities wait for a given moment in time) the critical activities together span the whole simulated time.",
  ["programs", "schedules"], "all small programs of activities (sequences, loops, parallel blocks, start events, transfers) for all durations from a small domain, and long loops",
  "Tests count dependencies for three demonstration simulations of moderate length.",
  ["critical_path/dependencies_from_simpy_step.py", "critical_path/base_cp.py"],
  [("CriticalPathEnvironment.step", "critical_path/dependencies_from_simpy_step.py"), ("DependenciesFromSimpy.get_dependency_list", "critical_path/dependencies_from_simpy_step.py")],
  [("data_cause_effect", "which event scheduled which", "critical_path/dependencies_from_simpy_step.py")],
  ["get_dependency_list", "get_critical_path_df", "logs"])

p("C22", "The table of recorded activities matches the logs",
  "For every object and every elementary activity the table used for critical-path analysis has exactly one row per logged interval with its start, end, duration and whether it was working or waiting, and rows describe the same execution if and only if they carry the same execution identifier. Dependencies derived from the table alone link executions that adjoin in time, and include every pair that adjoins on the same object.",
  ["programs", "histories"], "the logs of all small programs of basic, move and transfer activities with waits, in loops, for all durations (including zero) from a small domain",
  "Tests compare row counts for four demonstration simulations.",
  ["critical_path/base_cp.py", "critical_path/dependencies_from_recorded_activities.py"],
  [("reshape_log / add_unique_activity / combine_logs", "critical_path/base_cp.py"), ("DependenciesFromRecordedActivities", "critical_path/dependencies_from_recorded_activities.py")],
  (), ["get_recorded_activity_df", "get_dependency_list"])

p("C23", "Simulations are reproducible and independent of the start time",
  "Running the same model again yields the same logs (up to generated identifiers), levels and end time, and models running in the same program do not influence each other. Moving the start of the simulation in time moves every logged time by the same amount and changes nothing else, when the times named in the model are moved along.",
  ["configurations", "histories"], "all small models from the other checks, run twice, interleaved step by step with another model, and under several start times",
  "Tests run every model once, at one start time.",
  ["model/base_activities.py", "core/log.py", "core/movable.py", "core/events_container.py"],
  [("no module-level mutable state", "model/base_activities.py"), ("per-object logbook, registry and resources", "core/log.py")],
  (), ["logs, levels, env.now"])

p("C24", "The ready-made transport cycle moves everything",
  "The ready-made single-run cycle sails empty, loads, sails full and unloads, in this order, until the origin is empty or the destination full (or until the given stop event), and then stops. It makes exactly as many trips as the vessel's capacity requires, honours its start event, and leaves vessel, loader and unloader free.",
  ["configurations", "inputs"], "all origin and destination levels and capacities, vessel capacities and rates from small domains, with and without separate loaders, start and stop events",
  "One fixed configuration is tested by its final time.",
  ["model/single_run_process.py"],
  [("single_run_process", "model/single_run_process.py")],
  (), ["levels, trips and log times"])

p("C25", "Feasible transfers never get stuck",
  "A transfer that has been released, whose origin has content, whose destination has room and whose objects become free, always takes place; in particular one that waits for content, room or a busy object goes on as soon as these are there. This holds for every combination of amounts, including fractional ones.",
  ["schedules", "inputs"], "all combinations of levels and capacities from a grid of fractional amounts, and all contention patterns of up to three transfers over shared objects under all orders of simultaneous happenings",
  "A lost wake-up or a rounding mismatch shows only for particular numbers or interleavings; tests use small integers.",
  ["model/shift_amount_activity.py", "core/events_container.py"],
  [("wait-and-recheck loop", "model/shift_amount_activity.py"), ("update_container_events", "core/events_container.py")],
  (), ["STOP entries of all transfers at the end of the simulation"])

p("C26", "Charts draw exactly the logged intervals and levels",
  "The planning chart draws, for every elementary activity and every object, one bar per logged execution from its start to its stop on the row of that object, under the right name, and nothing else, whether the chart is asked for objects, activities or both. The level chart draws for every product the logged levels at their logged times, and the critical-path chart marks exactly the critical executions.",
  ["histories", "programs"], "the logs of all small programs of basic, move and transfer activities over one or two objects and products",
  "Charts are produced in notebooks but what they show is never checked.",
  ["plot/vessel_planning.py", "plot/step_chart.py", "critical_path/base_cp.py"],
  [("get_gantt_chart / get_segments", "plot/vessel_planning.py"), ("get_step_chart", "plot/step_chart.py"), ("make_plotly_gantt_chart", "critical_path/base_cp.py")],
  (), ["chart data"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")

"""Regenerates /verif/properties.jsonl (kept as source so that edits stay readable)."""
import json, pathlib
S = "src/upstage_des/"
P = []
def prop(id, title, st, over, text, why, files, mech, observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     mechanism=[dict(name=n, where=S+w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "No interrupt or race loses, duplicates or leaks a stored item",
 "Whatever the timing of interrupts, every item, unit of quantity and resource slot handled by get, put, filtered-get and resource-hold events is at each instant held by exactly one of: a store, the task it was given to, or a put that is still pending. A task that an interrupt ends or restarts while its request is outstanding leaves no request behind and never consumes anything afterwards. The remaining requests are served in request order (priority resources: by priority), and a stored item, matching item or free slot is never withheld from a request that waits for it.",
 ["schedules", "fault_sequences", "programs"], "all programs of producer/consumer tasks over stores, filter stores, sorted stores, containers and resources; all interrupt times, including the very instant at which a request is granted; all interrupt answers. A container serves its first request first, so a large one may hold back a smaller one behind it",
 "Tests interrupt a waiting get once, at a time when nothing else happens; the race of an interrupt with a grant at the same instant, repeated interrupts and contention are not sampled.",
 ["events.py", "task.py"], [("request withdrawal on interrupt", "events.py: BaseRequestEvent.cancel, ResourceHold"), ("interrupt handling", "task.py: Task._handle_interruption, Task.run")],
 ["store contents, container levels, resource users and queues", "items returned to tasks"])

prop("C02", "Interrupt answers mean what they say: end, ignore, restart",
 "If a task's interrupt handler answers ignore, the remaining steps of the task, their times and the values they yield are the same as in a run without that interrupt; if it answers restart, the task begins again from its first step at the interrupt instant; if it answers end, none of its later steps ever execute and the task is over at that instant; either way the clean-up of its with and finally blocks has run by then. Every interrupt that reaches a task while it executes its steps is delivered to the handler exactly once with its cause. The marker, marker time and marker action reported are those last set.",
 ["schedules", "fault_sequences", "programs"], "all task programs of waits, requests, events, composite events, sub-processes and routines; all sequences of interrupts at any times and with any mix of answers (clean-up of routines that takes time delays restart and end by that time)",
 "Tests use one interrupt in one fixed task for each answer; combinations (several interrupts, interrupts during composite events and routines, at event instants) are not reached.",
 ["task.py", "events.py"], [("interrupt loop", "task.py: Task.run, Task._handle_interruption"), ("markers", "task.py: Task.set_marker, get_marker, clear_marker")],
 ["times and values logged by the task body and the interrupt handler"])

prop("C03", "Ending a task releases all and only that task's states and event",
 "When an interrupt ends or restarts a task, every active state and mimicking state that task switched on stops at its value at the interrupt instant and can be activated again, and a knowledge entry holding the very event the task was waiting on is removed. Active and mimicking states switched on by other tasks of the same actor, and other knowledge, are unaffected. A non-shared active state is never driven by two tasks at once: a second activation is refused and leaves the first one's evolution unchanged.",
 ["schedules", "fault_sequences", "programs"], "all sets of parallel tasks on one or several actors, with any active, shared, location or mimic states, any interrupt times and answers (a task that ends by itself stops its own states itself; an event nested in an any/all stays in knowledge)",
 "Tests interrupt a task that is alone on its actor; interference between parallel tasks on one actor is sampled in one arrangement.",
 ["actor.py", "task.py", "states.py"], [("per-task state bookkeeping", "actor.py: Actor._lock_state, _unlock_state, deactivate_all_states, deactivate_all_mimic_states"), ("interrupt clean-up", "task.py: Task._handle_interruption")],
 ["state values over time", "actor knowledge"])

prop("C04", "A rate state is the exact integral of its rate, however it is observed",
 "While a linearly changing state is active its value at any time is the value at activation plus rate times elapsed time, and after deactivation it stays at the value of that instant; assigning it while active makes it continue from the assigned value. Reading or recording it, any number of times and at any instants, never changes any later value.",
 ["schedules", "histories"], "all sequences of activations, assignments, deactivations and reads at any times",
 "Tests read at a couple of fixed times; independence from the observation schedule is a property of pairs of histories.",
 ["states.py", "actor.py"], [("lazy update", "states.py: LinearChangingState._active, ActiveState.__get__"), ("activation data", "actor.py: Actor._set_active_state_data, activate_state, deactivate_state")],
 ["state values and recorded history"])

prop("C05", "A shared rate state is the integral of the sum of its users' rates",
 "The value of a shared linearly changing state at any time equals its initial or last assigned value plus, for every task that has used it, that task's rate times how long it was active since, under any interleaving of activations, deactivations, interrupts and reads by any number of tasks. One user stopping never disturbs the others, and a task cannot contribute twice at once.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of users joining, leaving and being interrupted, with any reads in between",
 "Tests use two or three users in one order.",
 ["state_sharing.py", "actor.py"], [("rate bookkeeping", "state_sharing.py: SharedLinearChangingState._active, deactivate")], ["state values and history"])

prop("C06", "A moving actor is where its speed and path put it, at every instant",
 "While a location state is active its value at each time is the point reached along the waypoints given at its activation at its constant speed since then, in Cartesian and in geodetic space, whatever has been read before, and the remaining waypoints reported are exactly those not yet reached. After being stopped, interrupted or arriving it stays put, and resuming towards the remaining waypoints completes the original path.",
 ["schedules", "fault_sequences", "inputs"], "all waypoint paths (in degrees or radians, with altitudes) and speeds, all interruption and resume schedules, all observation schedules, and later changes to the caller's list of waypoints",
 "Tests check end points of a few routes; positions under arbitrary interrupt/resume/observe schedules are not sampled.",
 ["states.py", "data_types.py"], [("path evaluation", "states.py: CartesianLocationChangingState, GeodeticLocationChangingState (_setup, _get_index, _active, _get_remaining_waypoints)"), ("waypoints", "actor.py: Actor.get_remaining_waypoints")], ["location values", "remaining waypoints"])

prop("C07", "A mimicking state equals its model while mimicking, and only then",
 "From activation to deactivation of a mimicking state, reading it gives the value the mimicked state has at that instant, including values that change actively over time, through chains of mimics, and if it records, its history follows the changes of the state it mimics. After deactivation it keeps the last value and no longer follows. Other actors of the same classes, and other environments in the same program, are never affected.",
 ["schedules", "fault_sequences", "histories"], "all sequences of mimic activation and deactivation, changes of the mimicked state, reads and interrupts over several actors; the mimicking state itself is not assigned meanwhile and is stopped by the task that started it",
 "Tests use one pair of actors and a fixed sequence.",
 ["actor.py", "states.py"], [("mimic activation", "actor.py: Actor.activate_mimic_state, deactivate_mimic_state"), ("read-through", "states.py: State.__get__, ActiveState.__get__, _add_callback, _remove_callback")], ["state values and histories of both actors"])

prop("C08", "Task networks run exactly the queued tasks, then the defaults, in order",
 "A running task network executes the actor's queued tasks in queue order and, whenever the queue is empty, the default successor of the task that just finished or was ended by an interrupt, starting each task at the instant its predecessor finishes and running one task at a time. Parallel networks on one actor and on other actors, and a removed network of the same name, never influence each other's sequence. The running-task report, the queue and an interrupt addressed to a network always refer to the task of that network executing at that instant, and to none between two tasks.",
 ["schedules", "fault_sequences", "programs", "histories"], "all network graphs and factory kinds, all queue edits at any times, all interrupt schedules, any number of parallel networks",
 "Tests drive two or three tasks in a fixed order with one interrupt.",
 ["task_network.py", "actor.py", "task.py"], [("network loop", "task_network.py: TaskNetwork.loop, _next_task_name; TaskNetworkFactory"), ("queue", "actor.py: Actor._begin_next_task, set_task_queue, clear_task_queue, get_running_task, interrupt_network")], ["log of task starts and ends", "Actor.get_running_tasks, get_task_queue"])

prop("C09", "A watched state change interrupts exactly the networks watching it",
 "Each time a state watched through a nucleus is assigned, every network added for that state and not since removed gets one interrupt on its running task, at that instant, carrying the state's name and the assigned value. Networks not watching that state, networks removed and other actors' networks get none.",
 ["schedules", "histories", "configurations"], "all watch maps, all add/remove sequences, all change schedules including several changes at one instant and assignments made by the running task of another network (a task assigning a state its own network watches, and the updates of active states by reading, are excluded)",
 "Tests use one or two networks with one state change each.",
 ["nucleus.py", "states.py"], [("dispatch", "nucleus.py: TaskNetworkNucleus.add_network, remove_network, send_change"), ("change broadcast", "states.py: State.__set__, State._broadcast_change")], ["interrupts received by tasks"])

prop("C10", "Rehearsal leaves the real simulation untouched",
 "Rehearsing a task or task network, at any time and however often, and whether or not the rehearsal fails, leaves the real clock, event schedule, actor states, active states, histories, knowledge, task queues, stores, containers and networks exactly as they were. The simulation afterwards continues exactly as if the rehearsal had not happened, and cloned actors share no stores, knowledge or states with the originals.",
 ["schedules", "programs", "fault_sequences", "histories"], "all task programs without random draws or effects of their own outside the simulation, all instants of rehearsal in a running simulation, rehearsals that raise (a rehearsal samples active states, as any read does)",
 "Tests compare a few values after one rehearsal; non-interference is a property of pairs of runs.",
 ["task.py", "task_network.py", "actor.py", "base.py"], [("cloning", "actor.py: Actor.clone; task.py: Task._clone_actor"), ("rehearsal", "task.py: Task.rehearse; task_network.py: TaskNetwork.rehearse_network; base.py: MockEnvironment")], ["full observable snapshot of the real simulation"])

prop("C11", "A rehearsal predicts the real run of a deterministic task",
 "For tasks whose duration is determined by waits and by events that succeed when planned, the actor returned by a rehearsal has the clock, the state values and the knowledge the real actor has after really performing the same tasks undisturbed from the same moment. A rehearsed network follows the given task list, then the queue and the default links up to the end task, and refuses a listed task that its links do not allow.",
 ["programs", "inputs", "schedules"], "all deterministic task programs and networks, from any starting time and actor state; each event yielded once; states driven by other tasks and user routines' documented empty rehearsal results excluded; a windowed get rehearses its first arrival",
 "Tests rehearse a handful of tasks and compare hand-computed values.",
 ["task.py", "task_network.py", "events.py"], [("rehearsal of events", "events.py: BaseEvent.rehearse, MultiEvent.rehearse"), ("rehearsal", "task.py: Task.rehearse, DecisionTask.rehearse; task_network.py: rehearse_network")], ["understudy state vs real state"])

prop("C12", "A windowed get returns what arrived in its window and loses nothing",
 "A windowed get takes the first available item and then every further item available until its time window, fixed or reset by each arrival, closes, and returns exactly those in order of arrival; nothing arriving later is taken. If its task is ended or restarted by an interrupt, everything taken so far goes back into the store, so that no item is lost or duplicated. User-defined routines run in place within their task and pass their result to it, and on interrupt run their clean-up exactly once.",
 ["schedules", "fault_sequences", "inputs"], "all arrival and interrupt schedules, including arrivals and interrupts at the instant the window closes; clean-up that takes time delays the restart or end of the task",
 "Tests use a few arrivals at distinct times and one interrupt.",
 ["routines.py", "task.py"], [("window loop", "routines.py: WindowedGet.run, cancel"), ("routine stack", "task.py: Task.run; routines.py: Routine._run, _run_cancel")], ["routine results", "store contents"])

prop("C13", "Events complete exactly when, and with what, they should",
 "A wait completes exactly its (unit-converted) duration after being yielded, an event when it is succeeded and with the payload it was succeeded with, a composite any/all event at the earliest/latest completion among its members, and each member then reports completion exactly if it has completed. An event that was waited on and completed can be waited on again and completes anew; a random wait lies within its bounds.",
 ["schedules", "programs", "fault_sequences"], "all nestings of any/all over waits, events, requests, in all completion orders including simultaneous ones (whose members may report either way), with interrupts; an event that doesn't reset itself is refused until it is reset",
 "Tests build single-level composites with distinct times.",
 ["events.py"], [("event conversion", "events.py: Wait, Event, MultiEvent, Any, All (as_event, is_complete, get_payload, cancel)")], ["resume time and values in the waiting task"])

prop("C14", "A continuous container's level is the exact integral of its flows",
 "At every instant a continuous container's level equals its initial level plus the integral of the sum of the rates of the gets and puts in progress, each lasting exactly its requested time unless it is cancelled or a limit is hit. The level never leaves the range from empty to capacity: at a limit the flows pushing against it are stopped at exactly that instant, by the error or callback asked for, while all others continue. Reading the level never changes it.",
 ["schedules", "fault_sequences", "inputs", "histories"], "all overlapping flows with any rates and times, cancellations, reads and limit hits, including simultaneous ones, and the predicted times of undisturbed containers",
 "Tests use two or three flows in fixed arrangements.",
 ["resources/container.py"], [("piecewise level", "resources/container.py: ContinuousContainer, ContainerEmptyError/ContainerFullError handling")], ["level over time", "completion times and errors of flows"])

prop("C15", "Reservations never promise the same quantity twice and expire on time",
 "In a reservable container the available amount is always the stored amount less what is currently reserved, a reservation is granted exactly if enough is available and its requester holds none, and what is reserved can be taken once by its holder until it is taken, cancelled or expired. A reservation expires exactly when its time is up, and expiry or cancellation affects that reservation only. Nothing is created or lost: the stored amount changes only by puts and by reservations taken, and never exceeds the capacity.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of reserve, take, cancel, expire and put by any number of requesters",
 "Tests follow one reservation at a time.",
 ["resources/reserve.py"], [("reservation table", "resources/reserve.py: ReserveContainer")], ["available, remaining and queued amounts", "values returned"])

prop("C16", "A sorted filter get takes the best matching item at that moment",
 "A get from a sorted filter store yields, among the items then in the store that pass the filter, one whose sort key is smallest (or largest when reversed; without a sorter the first stored), removes exactly that item and waits as long as none passes. Waiting requests that an arriving item satisfies are served in request order, and a request that cannot be met never blocks another that can.",
 ["inputs", "schedules", "fault_sequences"], "all items (equal, falsy and of any type), filters, sort keys, arrival orders, pending requests and cancellations; items don't change while stored",
 "Tests sort a handful of items with no contention.",
 ["resources/sorted.py", "events.py"], [("selection", "resources/sorted.py: SortedFilterStore._do_get"), ("event", "resources/sorted.py: SortedFilterGet")], ["items returned", "store contents"])

prop("C17", "Self-monitoring resources record every change, and change nothing",
 "The recorded quantity history of a self-monitoring store, filter store, sorted store, container, continuous or reserve container gives, at every instant, the quantity actually held (or the chosen summary of the items held), with times in order. A self-monitoring resource otherwise behaves exactly as the plain resource it extends, under any sequence of operations.",
 ["schedules", "histories", "fault_sequences"], "all operation sequences, contention and cancellations on every kind of self-monitoring resource; items don't change while stored",
 "Tests check a short fixed history of some of the classes; equivalence with the plain resource is a property of pairs of runs.",
 ["resources/monitoring.py"], [("recording", "resources/monitoring.py: MonitoringMixin and SelfMonitoring* classes")], ["recorded histories", "results of requests"])

prop("C18", "Point-to-point messages arrive once, intact, at the right place and time",
 "Every message sent over an undegraded link is put exactly once into the destination's communication store for the chosen mode, unaltered, exactly the send time after sending, and says when that was. While the link, source or destination is degraded it is retried at the set interval and delivered at the first retry after the fault has cleared, or dropped once the retry limit has passed; no message is ever delivered to another actor or store.",
 ["schedules", "fault_sequences", "histories"], "all message schedules, modes and connections, all degradation, link-block and repair sequences, all send-time and retry settings (a fault changing in the very instant of a try may be seen by it or not, and the try at which the limit is first passed may deliver or not)",
 "Tests send one or two messages across one degradation.",
 ["communications/comms.py", "communications/processes.py"], [("transmission", "communications/comms.py: CommsManager, PointToPointCommsManager, Message, MessageContent, CommsTransfer")], ["contents of communication stores over time"])

prop("C19", "Routed messages follow working shortest routes and arrive once",
 "A message routed through a network of actors travels hop by hop along links of the network that are working when crossed, by a route with the fewest hops that was available when chosen, and is put exactly once per sending in the destination's store, saying when that was. When a hop stays blocked past the retry limit another route that avoids it is chosen from where the message is; when none exists the message is dropped and transmission ends rather than continuing forever.",
 ["schedules", "fault_sequences", "configurations"], "all network graphs, names, node and link failure and repair sequences, all message schedules and settings (unless blocked nodes are ignored globally, two routes that are both blocked for ever may be tried in turn for ever, as documented)",
 "Tests use one small graph and a couple of failures.",
 ["communications/routing.py", "communications/comms.py"], [("route choice", "communications/routing.py: RoutingCommsManager, RoutingTableCommsManager"), ("transmission", "communications/comms.py: CommsManager")], ["communication stores over time, hop log"])

prop("C20", "Sensors are told of every entry and exit at the right time, once each",
 "Whenever a detectable moving actor's path enters a sensor's range the sensor is notified of the entry at that instant and, when it leaves, of the exit, entries and exits of each pair alternating; an actor that is not detectable is never reported, and losing detectability inside a range is one exit for each sensor that has it in view. An actor that stops inside a range stays in view and is not reported again when it moves on. This holds for any number of sensors and movers, at any altitudes, paths of several legs, sensors added while actors move, and movement interrupted and resumed.",
 ["schedules", "fault_sequences", "inputs", "configurations"], "all layouts of static sensors, multi-leg paths, speeds, interruptions, detectability changes and sensor additions; a movement begun or become undetectable is unknown until the next movement; visits of no depth may be reported or not",
 "Tests fly a few straight legs past one or two sensors.",
 ["motion/motion.py", "motion/cartesian_model.py", "motion/geodetic_model.py"], [("event scheduling", "motion/motion.py: SensorMotionManager"), ("intersections", "motion/cartesian_model.py, motion/geodetic_model.py")], ["notifications received by sensors, with times"])

prop("C21", "Stepped motion reports entries and exits at the sampling that shows them",
 "Under stepped motion, at each sampling time a sensor is told of exactly those detectable actors that newly came into its range (straight-line distance including altitude, the edge included) and those in view that have left it, so that entries and exits of each pair alternate and match the positions at the sampling times. A mover that stops is no longer sampled and stays in view until it moves or is registered again, and losing detectability is reported at once. This holds for moving sensors, moving, stopping and late-registered actors and changes of detectability.",
 ["schedules", "fault_sequences", "configurations"], "all layouts and motions of sensors and actors, flat or on either earth, sampling steps, start, stop, registration and detectability changes (a change in the very instant of a sample may be seen by it or not)",
 "Tests use one or two movers.",
 ["motion/stepped_motion.py"], [("sampling loop", "motion/stepped_motion.py: SteppedMotionManager")], ["notifications received by sensors, with times"])

prop("C22", "Recorded histories and tables are a faithful replay of the run",
 "A recording state's history contains, in time order, every distinct value the state was assigned with the time of assignment, unaffected by later mutation of the value; recording functions, dictionary and dataclass states likewise, per key. The exported tables contain exactly the recorded rows of every actor and monitored resource, each once, with right entity, kind, state, time and value, and the location table the recorded positions; custom recorded data comes back as recorded.",
 ["histories", "configurations", "schedules"], "all sequences of assignments, activations, mutations and exports over any mix of state kinds and actors; dictionary and dataclass states record the value assigned to a key itself; active states are sampled when read, activated and deactivated; results of recording functions are in the actor's histories and not in tables",
 "Tests export one fixed run.",
 ["states.py", "state_proxies.py", "data_utils/data_utils.py", "data_utils/data_recorder.py"], [("recording", "states.py: State._do_record, _KeyValueBase._record_state"), ("tables", "data_utils/data_utils.py: create_table, create_location_table; data_recorder.py: record_data")], ["histories and tables"])

prop("C23", "One seed and one model give one identical history",
 "Two runs of the same model with the same seed produce identical histories of states, logs, messages, notifications and final time, whatever the process's hash seed, whatever other simulations ran before in the same process and however the run is cut into partial runs. Different random draws come only from the environment's own generator.",
 ["schedules", "configurations", "programs"], "all models, seeds, hash seeds, run-slicing and preceding simulations (unique ids of messages, exception texts and the stepped motion manager's stopping when nothing is left excluded)",
 "Reproducibility is a property of pairs of runs in different processes; tests run in one process with one hash seed.",
 ["base.py", "actor.py", "nucleus.py", "communications/routing.py", "motion/stepped_motion.py"], [("stage generator", "base.py: EnvironmentContext"), ("ordered iteration", "nucleus.py, routing.py, actor.py, motion")], ["complete history digests across processes"])

prop("C24", "Environment contexts are isolated from one another",
 "Everything created inside an environment context (actors, named entities and groups, stage variables, monitored resources, recorded data, the clock and the random generator) is visible in that context only, at any nesting, sequence or interleaving of contexts across threads and copied contexts. Leaving a context restores exactly what was visible before, also when it is left by an exception, and a stage variable once set cannot be silently replaced.",
 ["schedules", "programs", "fault_sequences"], "all interleavings of operations in several nested, sequential and concurrent contexts, each left in nesting order; stage variables set by call, attribute or item; a copied context shares the contexts around it",
 "Tests open one context at a time.",
 ["base.py"], [("context variables", "base.py: EnvironmentContext, UpstageBase, NamedUpstageEntity, add_stage_variable, create_top_context, clear_top_context")], ["get_actors, get_entity_group, stage, env, get_recorded, get_monitored"])

prop("C25", "Knowledge is a faithful per-actor store and its events wake who waits",
 "An actor's knowledge returns what was last set under a name until cleared, refuses overwriting without permission, and clearing or demanding what does not exist is refused without any change; bulk operations equal their single ones in order, up to the first one refused. Succeeding a knowledge event resumes the tasks waiting on it at that instant with the payload, removes it from knowledge, and wakes nothing else; a refused success changes nothing.",
 ["histories", "schedules", "fault_sequences"], "all operation sequences by any tasks and actors, all orders of creating, succeeding, waiting and interrupting",
 "Tests perform single operations in one task.",
 ["actor.py", "task.py"], [("knowledge", "actor.py: Actor.set_knowledge, clear_knowledge, bulk variants, create_knowledge_event, succeed_knowledge_event")], ["knowledge values, resume times, payloads"])

prop("C26", "State declarations are enforced on every assignment, for every actor",
 "A state accepts only values of its declared types, a frozen state is never changed after it is set, defaults and factories give each actor its own initial value, and missing, unknown or forbidden initial values are refused. A refused assignment leaves value, history and watchers unchanged, and resource states give each actor its own resource of the declared kind, which cannot be replaced.",
 ["inputs", "histories", "configurations"], "all state declarations, actor class hierarchies, initial values and assignment sequences (mutable defaults are per actor through factories; resources of a multi-store may be added or replaced by ones of the declared kinds; what a refused construction leaves in groups is left open)",
 "Tests try one violation of each kind.",
 ["states.py", "actor.py", "state_proxies.py"], [("guards", "states.py: State.__set__, _type_check, _set_default, ResourceState.__set__; actor.py: Actor.__init_states"), ("proxies", "state_proxies.py")], ["values, errors"])

prop("C27", "Observing a simulation does not change it",
 "Whatever of a model is observed - states recording their histories with or without duplicates and recording functions, resources monitoring themselves, debug logs of actors, communication and motion managers, tables exported and logs, queues, running tasks, groups, knowledge and stored items looked at, at any time - the simulation does exactly what it does unobserved. All actors' states, stores, knowledge and queues, the times and order of everything done, the notifications and messages, and the next random draw are the same.",
 ["schedules", "configurations", "programs", "fault_sequences"], "all models, all selections of what is observed and all instants of looking; reading an active state is a sample of it and is excluded, as are user functions that change something themselves",
 "Non-interference is a property of pairs of runs, and tests observe one fixed selection in one run.",
 ["actor.py", "states.py", "resources/monitoring.py", "communications/comms.py", "motion/motion.py", "data_utils/data_utils.py"], [("recording", "states.py: State._do_record; state_proxies.py"), ("logs", "actor.py: Actor.log, get_log; communications and motion debug logs"), ("monitoring", "resources/monitoring.py: SelfMonitoring* classes"), ("export", "data_utils/data_utils.py")], ["all states, stores, knowledge, times of the observed and of the unobserved run"])

prop("C28", "A user's own kinds of changing state follow their rule while active, only then",
 "An active state kind the user defines to the documented contract has, at every instant while it is active, the value its rule gives from the value and time of its activation and its parameters, whoever reads, records, mimics or clones it and however often, and keeps its last value when it is stopped. It cannot be activated twice, is stopped only by the task that activated it or by that task's interrupt, and only that activation's own data and parameters reach the rule. Its histories hold its switches and true values, and rehearsal reaches the value execution would.",
 ["programs", "schedules", "fault_sequences", "histories"], "all rules a function of activation value, elapsed time, parameters and data kept in the activity data; all interleavings of tasks switching it, interrupts and reads; assigned while inactive only",
 "Tests define no such state with generated reads in between.",
 ["states.py", "actor.py", "task.py"], [("contract", "states.py: ActiveState, get_activity_data, _active"), ("activity data", "actor.py: Actor.activate_state, deactivate_state, _set_active_state_data, get_active_state_data"), ("release", "task.py: Task._handle_interruption")], ["values at every read", "recorded histories"])

prop("C29", "Logs hold what was logged, once, in order, at the clock's written time",
 "An actor that logs has in its log every message logged to it exactly once, in order, unaltered, with the clock's time, besides a line for every task its networks start and every interrupt that ends or restarts one; an actor that does not log has none, and rehearsals add nothing. The time written before a message, if the actor or else the stage asks for it, and the pretty time of anything at any instant is the clock in days, hours, minutes and seconds of the stage's time unit (hours if none is set), or else in that unit and days of the stage's length.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "all time units and spellings, clocks, lengths of day, log settings, and all interleavings of messages, tasks, interrupts, rehearsals and other stages; seconds are cut off, not rounded",
 "Tests log a few messages at a few round times.",
 ["actor.py", "base.py", "task.py", "task_network.py"], [("log", "actor.py: Actor.log, get_log"), ("pretty time", "base.py: UpstageBase.pretty_now"), ("lines", "task.py: Task._handle_interruption; actor.py: Actor._begin_next_task")], ["logs", "pretty times"])

prop("C30", "Errors in a model's code reach the caller at once; the rest goes on unharmed",
 "An error raised by any of a model's code while it runs - a task's step, interrupt handler, decision, routine, clean-up, sub-process, filter, sort key, recording function, rule of a state, callback, choice of hop or notification - and every refusal of a misuse (a limit of a container hit, a bad event, interrupt answer, task name or wait, a message to an actor with no store) reaches the caller of run at the instant it is raised, once, with its type and arguments; none is swallowed, delayed or replaced. If the simulation is run on, everything that does not depend on what failed - other tasks, networks of the same actor, messages, movers - does exactly what it would have done.",
 ["programs", "fault_sequences", "schedules"], "all programs, all places and instants of errors, any number of them, interrupts in between",
 "Tests look at a few refusals in otherwise idle simulations.",
 ["task.py", "task_network.py", "events.py", "routines.py", "communications/comms.py", "motion/motion.py", "resources/container.py"], [("task loop", "task.py: Task.run, _handle_interruption"), ("networks", "task_network.py: TaskNetwork.loop"), ("routines", "routines.py: Routine._run, _run_cancel"), ("limits", "resources/container.py: ContinuousContainer._check")], ["exceptions at the caller of env.run", "logs of unrelated parts"])

prop("N01", "Unit conversions are exact, consistent and reversible",
 "Converting any quantity between any two supported units of time, distance or speed gives the physically right value, converting back returns the original, and incompatible or unknown units are refused.",
 ["inputs"], "all values and unit pairs", "Tests convert a few values.",
 ["units/convert.py"], [("conversion table", "units/convert.py: unit_convert")])
prop("N02", "Geodesy: distances, bearings and intersections are right on the globe",
 "Distance, bearing, destination-point, great-circle and sphere-intersection functions agree with the geometry of the selected Earth model, and destination-point and distance/bearing are inverse to each other.",
 ["inputs"], "all points, bearings and distances, including poles and the antimeridian", "Tests compare a few published values.",
 ["geography/spherical.py", "geography/wgs84.py", "geography/intersections.py", "geography/conversions.py"], [("formulas", "geography/spherical.py, geography/wgs84.py, geography/intersections.py")])
prop("N03", "Location values are immutable, comparable points with a metric distance",
 "Location objects refuse changes, compare equal exactly when they denote the same point, and their difference is a symmetric, non-negative distance in the stage's units that is zero only for equal points.",
 ["inputs"], "all coordinates and units", "Tests compare a few points.",
 ["data_types.py"], [("locations", "data_types.py: CartesianLocation, GeodeticLocation")])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))

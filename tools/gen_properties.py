#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place where titles/statements live)."""
import json, os
P = []
SIM = "pysim/sim/simulator.py"; LOG = "pysim/sim/logger.py"
RO = "pysim/models/rfid/objects.py"; RH = "pysim/models/rfid/handlers.py"; RC = "pysim/models/rfid/configurator.py"
RS = "pysim/models/rfid/epcstd.py"; RCLI = "pysim/models/rfid/cli.py"; RP = "pysim/models/rfid/processing.py"
PM = "pysim/models/pingpong/model.py"; PH = "pysim/models/pingpong/handlers.py"; PC = "pysim/models/pingpong/cli.py"; PP = "pysim/models/pingpong/processing.py"
TM = "pysim/models/tag_time/model.py"; TC = "pysim/models/tag_time/cli.py"; TMC = "pysim/models/tag_time/mc.py"; TP = "pysim/models/tag_time/processing.py"

def add(id, title, statement, over, qtext, why, files, mech, obs, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": obs, "hook_needed": hook}})

# ------------------------------------------------------------------ kernel
add("K01", "Events run in due-time order on a clock that never goes back",
    "Each event's handler runs when the model clock reads exactly the clock value at scheduling plus the delay, and while it runs the model clock shows that time. The model clock never decreases during a run. Events due at the same time run in the order in which they were scheduled.",
    ["programs", "schedules"], "every program of schedule/call/cancel operations issued from the initialiser and from handlers, any mix of delays including ties and zeros",
    "The tests run one echo model and three queue pushes; ordering under arbitrary nesting, ties and cancellations is a statement about all programs.",
    [SIM], [("time-ordered event queue with insertion-order tie break", SIM+":EventQueue"), ("main loop sets the clock before calling the handler", SIM+":Kernel.build_runner")],
    ["sim.time inside handlers", "order of handler calls"])
add("K02", "Every scheduled event runs exactly once unless cancelled in time",
    "An event that is not cancelled before it starts runs exactly once (unless the run ends first), with exactly the arguments it was scheduled with; a cancelled event never runs. Cancelling a pending event reports one cancelled event and affects no other event; cancelling an executed, already cancelled or unknown event reports zero and has no effect. The event queue agrees with a plain sorted list after every push, pop, cancel and clear: contents, length, emptiness and pop order.",
    ["programs", "histories"], "every history of schedule, cancel, pop and clear operations, including self-cancel, double cancel, cancel of a same-time event and cancel inside handlers",
    "Queue tests push and cancel at most a few entries once; the guarantee ranges over all interleavings of cancellation with execution.",
    [SIM], [("lazy deletion through an id table", SIM+":EventQueue.cancel/pop/clear"), ("cancel count", SIM+":Kernel.cancel")],
    ["handler call log", "return value of cancel", "EventQueue public methods"])
add("K03", "A run ends at the first stop condition and says truthfully why",
    "A run executes events until the first of: a stop request, the event-count limit, the model-time limit or no pending events; after a stop request or the last allowed event no further handler runs, every event due at or before the model-time limit is run, and at most one event past it. The reported exit reason is never empty and names a condition that really held when the run ended; a requested stop is reported together with its message.",
    ["programs", "configurations"], "every program and every combination of limits and stop requests, including stop in the initialiser, limits hit simultaneously and queues that drain",
    "Tests check one stop, one time limit and one empty run; combinations and boundary placements are unbounded.",
    [SIM], [("stop conditions evaluated before each event", SIM+":Kernel.stop_conditions"), ("stop request", SIM+":Kernel.stop")],
    ["ExecutionStats.exit_reason, stop_message, num_events_processed, sim_time"])
add("K04", "Real-time limit and elapsed time survive wall-clock steps",
    "With a real-time limit, no further event is started once the real time elapsed since the run began exceeds the limit, and the run is never ended for that reason earlier. The elapsed time reported is the real duration of the run. Both hold even if the computer's wall clock is stepped forwards or backwards during the run.",
    ["schedules", "fault_sequences"], "every sequence of handler durations and wall-clock jumps, and every limit",
    "A test can only sleep for a second on a well-behaved clock; it cannot step the machine's clock or enumerate slow handlers.",
    [SIM], [("elapsed time since start of run", SIM+":Kernel.real_time_elapsed")],
    ["which events ran", "ExecutionStats.time_elapsed, exit_reason"])
add("K05", "The run report is exact and the finaliser runs exactly once",
    "The report of a finished run gives exactly the number of events run, the model time of the last one, its handler, the model's final context and the finaliser's result; the finaliser runs exactly once, after the last event and before the report. An exception raised by the initialiser, a handler or the finaliser reaches the caller unchanged and nothing else of that run is executed after it.",
    ["programs", "fault_sequences"], "every program, with a failure injected at any initialiser, handler or finaliser call, and every context kind",
    "Tests inspect reports of successful fixed runs; failures at arbitrary points are not exercised.",
    [SIM], [("report construction", SIM+":Kernel.build_runner"), ("result delivery", SIM+":run_simulation")],
    ["tuple returned by run_simulation", "exceptions raised from it", "finaliser call log"])
add("K06", "Invalid scheduling requests are rejected and have no effect",
    "Scheduling with a negative delay, without a handler, with something that cannot be called, or with arguments that cannot be iterated raises the documented error at the call (scheduling in the past, value error, type error, type error respectively). A rejected request changes nothing: every other event still runs exactly as if the request had not been made.",
    ["inputs", "programs"], "every invalid request placed at any point of any program, from handlers or the initialiser",
    "No test makes an invalid request; that nothing else is affected is a statement over every surrounding program.",
    [SIM], [("documented validation of schedule/call", SIM+":Simulator.schedule")],
    ["exception at the call site", "handler call log"])
add("K07", "Simulations in one process never influence one another",
    "However several simulations are built and run in one process (one after another, one inside a handler of another, interleaved on several threads, or after another one crashed), each executes the same events and gives the same report, context and log records as when run alone. In particular their clocks, queues, stop requests, contexts and log destinations are separate.",
    ["schedules", "programs", "crash_points"], "every interleaving of two to four simulations at handler boundaries, nesting, and crash of any of them at any event",
    "Tests run simulations one at a time; interleavings are not reachable from a unit test.",
    [SIM, LOG], [("per-kernel state", SIM+":Kernel.__init__"), ("per-simulation logger", LOG+":ModelLogger")],
    ["event traces, reports and log files of each simulation"])
# ------------------------------------------------------------------ logging
add("L01", "Logging never changes what a simulation computes",
    "For every logging configuration and every failure of the log destination while the run proceeds (disk full, I/O error, broken console), the events executed, the model's random choices, the report and the context are the same as with logging off. A log destination that fails never aborts or alters the run.",
    ["configurations", "fault_sequences"], "every logging configuration and every point at which the log file or console starts or stops failing",
    "Tests never enable a log destination that fails; the fault point ranges over all writes of a run.",
    [LOG, SIM], [("logging handlers absorb emission errors", LOG+":ModelLogger.setup"), ("lazy message formatting", LOG+":ModelLogger")],
    ["event trace and report with and without logging/faults"])
add("L02", "Log files hold every admitted record, correctly stamped",
    "Every record at or above a destination's own level appears in that destination exactly once, in the order of the calls, and nothing below that level appears; each carries the model time at the call, the run's id, the calling function and the message. The log file is the configured one, with the run id added in front of a .log extension (or at the end) using the configured separator when requested, and it belongs to that run only. A record whose log call returned is in the file even if the process dies right afterwards.",
    ["programs", "configurations", "crash_points"], "every sequence of log calls interleaved with model time, every level and file name combination, and a crash after any log call",
    "No test reads a log file; crash points and level combinations are unbounded.",
    [LOG, SIM], [("extra fields", LOG+":ModelLogger._get_extra"), ("destination levels", LOG+":ModelLogger.setup"), ("file naming", LOG+":ModelLogger.build_file_name")],
    ["content of log files and console stream"])
add("L03", "A logger can be set up again at any time without losing or duplicating records",
    "Setting a logger up a second time has no effect unless it is forced. A forced set-up replaces every destination: each later admitted record appears exactly once in each destination of the configuration in force, and in no earlier one, stamped with the time source and the run id in force at the call; with no destination configured nothing is written anywhere. A destination that fails (full disk, broken console) takes no record away from another one. Console records are wrapped in the colour configured for their level and reset it afterwards; file records and records of an uncoloured console are plain text. A record of a caught exception is followed by its traceback. Several loggers, even of one name, do not affect each other.",
    ["histories", "fault_sequences"], "every history of set-ups, forced set-ups, run-id and time-source changes and records of several loggers, and every moment a destination fails or the process dies",
    "No test sets a logger up twice, uses two loggers, or reads what was written.",
    [LOG], [("set-up", LOG+":ModelLogger.setup"), ("colours", LOG+":ColoredFormatter"), ("run id and time source", LOG+":ModelLogger.set_run_id")],
    ["content of log files and console stream"])
# ------------------------------------------------------------------ pingpong
add("P01", "Ping-pong conserves pings and reports the true loss rate",
    "Every ping sent is acknowledged, missed or (only when a run is cut short) still outstanding, and never two of these; no pong is accepted twice or for a ping that was not sent. The client never sends more than the configured number of pings and, unless a run is cut short, sends exactly that many. The reported miss rate is missed over sent pings (zero if none was sent) and the average interval and delay are those of the run, for every loss probability from 0 to 1 and every cut-off.",
    ["configurations", "schedules", "fault_sequences"], "every configuration, every pattern of lost pings and every cut-off of a run",
    "The ping-pong test file is empty; loss patterns and cut-offs are unbounded.",
    [PM, PH], [("client counters", PM+":Client"), ("loss decision", PM+":Server.handle_receive"), ("result", PH+":finalize")],
    ["Result of run_model", "client counters", "packet events"])
add("P02", "Ping-pong messages follow the protocol's order and delays",
    "There is at most one ping in flight; each ping reaches the server exactly one channel delay after it was sent and is dropped there with exactly the drawn loss decision. A surviving ping is answered by a pong with the same number that reaches the client exactly one service delay plus one channel delay later. The next ping, numbered one higher, is sent exactly one interval after the pong arrived, or after the loss.",
    ["schedules", "configurations"], "every configuration and every sequence of random loss decisions",
    "No test looks at the message history of the model.",
    [PM], [("client/server/channel handlers", PM+":Client, Server, Channel")],
    ["times and packet numbers of send/receive events", "random draws"])
# ------------------------------------------------------------------ tag_time
add("T01", "Tag-time runs follow the scenario's absorbing chain exactly",
    "Driven by its random draws, a tag-time run visits exactly the states of the chosen scenario: success moves one state forward, failure returns to the first state (scenario 1) or stays (scenarios 2 and 3), and in scenario 3 each packet passes every chunk of the last stage in turn. Each attempt takes exactly that state's processing time and succeeds exactly when the draw does not exceed that state's probability. The run ends after exactly the configured number of packets was absorbed, and its total model time is the sum of the times spent.",
    ["configurations", "schedules"], "every scenario, probability and time vector, chunk count, packet count and sequence of draws",
    "The existing test cannot even be collected; state trajectories over all draw sequences are out of its reach.",
    [TM, TC], [("state handlers", TM+":State"), ("chunk selection", TM+":State.success_state_change"), ("entry", TC+":run_model")],
    ["ExecutionStats of run_model", "state visits in the event trace", "random draws"])
add("T02", "The matrix Monte-Carlo estimator matches its own chain and draws",
    "For each case, given the sequence of uniform draws, the estimated absorption time is the mean over trials of the summed stay times of the states visited by the scenario's chain, in milliseconds. Every trial starts in the first state and ends on absorption, and cases are reported in input order and do not influence one another.",
    ["configurations", "schedules"], "every scenario, case list, trial count and sequence of draws",
    "test_mc2 cannot be collected and compares averages only.",
    [TMC], [("trial loop", TMC+":monte_carlo"), ("matrices", TMC+":create_matrix_1/2/3")],
    ["run_multiple_models result", "random draws"])
# ------------------------------------------------------------------ rfid
add("R01", "The reader issues exactly the commands the protocol calls for",
    "Each round opens with a Query carrying the configured parameters and the current Q and target, and has at most two-to-the-Q slots, each later slot opened by a QueryRep (or QueryAdjust when Q changes). After receiving a tag's RN16 the reader acknowledges with that number; after the EPC it requests a handle with that RN16 and reads TID with that handle and configured word count exactly when TID reading is on. A missing, undecodable or colliding reply abandons the exchange and opens the next slot.",
    ["schedules", "fault_sequences", "configurations"], "every pattern of lost, colliding and delivered replies, power cycling and reader configuration",
    "No test touches the RFID model; the command sequence depends on the whole history of replies and faults.",
    [RO, RH], [("reader states", RO+":Reader.State"), ("rounds and slots", RO+":Reader.next_slot"), ("reaction to replies", RH+":finish_transaction")],
    ["commands on air, in order", "replies delivered to the reader"])
add("R02", "Tags follow the Gen2 inventory state machine",
    "An unpowered tag never replies. A tag takes part in a round only if its session flag and selection match the Query; it then draws a slot in 0..2^Q-1, counts down once per QueryRep, replies with a fresh RN16 exactly at slot zero, gives its EPC only to the Ack with that number, a handle only to that number, and memory of the requested length only to its handle. It inverts its session flag exactly once per completed acknowledgement, on the next Query, QueryRep or QueryAdjust of that session, and its flags survive power loss for as long as the session (S0: not at all) and the configured persistence prescribe.",
    ["histories", "fault_sequences"], "every sequence of reader commands (valid or hostile), power losses and random draws",
    "No test touches tags; the state space over command histories is unbounded.",
    [RO, RS], [("tag command processing", RO+":Tag.receive"), ("power handling", RO+":Tag.set_power"), ("flag persistence", RS+":Session.power_on_value")],
    ["replies of Tag.receive", "public tag state: state, sessions, slot counter, rn"])
add("R03", "Reader power cycling and tag energising are consistent",
    "In periodic mode the reader is on for exactly the on-duration and off for exactly the off-duration, alternating from time zero; in always-on mode it never turns off. While it is off no command is sent, no exchange is pending and no tag is powered; when it turns on it opens a new round at once. After each power evaluation a tag is powered exactly when its received power reaches its sensitivity, and powers are evaluated when the reader turns on or off, on tag arrival and at least every update interval. Antennas are switched on schedule only while the reader is on.",
    ["schedules", "configurations"], "every on/off duration, antenna set-up, tag arrival pattern and phase of power-off within an exchange",
    "No test runs the RFID model; power-off can hit any point of an exchange.",
    [RH, RO], [("power events", RH+":turn_reader_on/turn_reader_off"), ("power evaluation", RH+":_update_power"), ("tag power", RO+":Tag.set_power")],
    ["reader power and state, tag states, commands on air"])
add("R04", "Exchanges are back to back with the protocol's air timing",
    "While the reader is on, each command starts exactly when the previous exchange ends. An exchange without reply lasts the command plus T1(max) and T3; one with replies lasts the command, T1(min), the longest reply and T2(max), but at least the command plus T4; the command's own length follows from its bits and from a preamble that is full for Query and short for all others. A reply starts T1(min) after the command ends, and no event is ever scheduled in the past.",
    ["schedules", "configurations", "fault_sequences"], "every reader configuration, sequence of exchanges and pattern of replies and losses",
    "No test observes timing; errors appear only in sequences of exchanges of different length.",
    [RO, RH, RS], [("transaction timing", RO+":Transaction"), ("chaining", RH+":finish_transaction"), ("timeouts", RO+":_ReaderState.get_timeout")],
    ["start time and duration of successive exchanges", "scheduling delays"])
add("R05", "RFID statistics equal what happened on the air",
    "A tag's history holds exactly one entry per EPC reply delivered to the reader from that tag, with the round, antenna, position and link quality of that moment, and marks TID as read exactly when that exchange's memory reply was delivered. Rounds attended and Q adjustments followed equal the Queries and QueryAdjusts the tag took part in. Totals and probabilities over the run are those of the tags that have left, each counted exactly once.",
    ["schedules", "fault_sequences", "histories"], "every history of deliveries, losses, collisions, departures and power-offs, including a departure in the middle of an exchange",
    "No test checks statistics; the risky histories combine departures and power-off with open exchanges.",
    [RH, RO], [("read records", RH+":_one_tag_response"), ("statistics", RO+":Statistics, _TagRecord")],
    ["model.statistics"])
add("R06", "Tags arrive, move, are unique and leave as configured",
    "Tags are created one per generation interval up to the configured number, each with a distinct EPC and TID of the configured length; each leaves exactly its travel distance over speed later, and the run ends exactly when the last one has left. A tag's position is its start plus speed times direction times its age at every moment its power is evaluated, and is never staler than the update interval.",
    ["configurations", "schedules"], "every generation law, speed, distance, count, update interval and interleaving with reader events",
    "No test runs the model; staleness shows only through particular event interleavings.",
    [RH, RO, RC], [("generation", RH+":generate_tag, RO:Generator.create_tag"), ("motion", RH+":_update_power"), ("departure", RH+":remove_tag")],
    ["model.tags", "tag.pos", "epc/tid", "end of the run"])
add("R07", "Target flag alternates as configured and restarts at power-on",
    "With the switching strategy every power-on starts with target A and the target then alternates after exactly the configured number of rounds, the same for every span. With the constant strategy every Query carries the configured target.",
    ["configurations", "schedules"], "every rounds-per-target value, strategy, Q and power-off phase",
    "No test runs rounds; the defect classes appear only after several alternations.",
    [RO], [("target switching", RO+":_ReaderQUERY.enter, _ReaderOFF.handle_turn_on")],
    ["target of each Query on air"])
add("R08", "Q adapts only as prescribed and stays in range and in step",
    "With adaptation on, an empty (or undecodable) slot lowers and a collision raises the fractional Q by the configured step within 0..15; a QueryAdjust is sent exactly when its rounded value then differs from Q by one, and announces exactly the change the reader made to its Q. Every tag taking part in a round holds the reader's current Q and a slot number below two to the Q. With adaptation off Q never changes and no QueryAdjust is sent.",
    ["schedules", "configurations", "fault_sequences"], "every pattern of empty, colliding and successful slots, initial Q 0..15 and step",
    "No test exercises adaptation; its state is a function of the whole slot history.",
    [RH, RO], [("adaptation", RH+":_no_tag_response, _multiple_tag_response"), ("tag side", RO+":Tag.process_query_adjust")],
    ["Q and commands on air", "tag.q, tag.slot_counter"])
add("R09", "Once faults stop, every tag in the field is read",
    "With the switching target strategy, a fixed Q giving at least twice as many slots as there are tags, and power-on periods of several rounds, once replies stop being lost and the field is strong enough, every tag that stays powered is inventoried (and its TID read, when enabled) within a bounded number of rounds. The reader itself never goes silent: while on, it always has a next command pending, and its rounds keep following one another.",
    ["fault_sequences", "schedules"], "every prefix of lost replies, fades and power cuts, followed by a fault-free suffix",
    "Progress after arbitrary fault prefixes cannot be sampled by unit tests.",
    [RH, RO], [("slot/round progression", RO+":Reader.next_slot"), ("event chaining", RH+":finish_transaction")],
    ["statistics and commands after the last fault"])
add("R10", "No fault sequence aborts an RFID run or stops it ending",
    "Whatever replies are lost or collide, wherever signals fade, whenever tags enter or leave and the reader loses power, a run never fails with an internal error and ends after the configured number of tags has passed. A tag that has left is never heard, powered, tracked or recorded again.",
    ["fault_sequences", "configurations", "crash_points"], "every configuration and fault sequence, with tag departure and power-off at any point of an exchange",
    "Crashes appear only when a departure, a power cut and an open exchange line up.",
    [RH, RO], [("event handlers", RH), ("departure", RH+":remove_tag")],
    ["exceptions from run_model", "end of run", "model state"])
add("R11", "Collected power records are complete, true and cost nothing",
    "With power statistics on, a tag's history holds exactly one record per evaluation of its power, in time order, with the time, the time since the reader turned on (infinite when off), position, antenna, transmitted and received powers (the documented minimum when there is none), path losses, SNR and bit error rate of that moment. With it off there are no records. Collecting them changes nothing else in the run, and the collected statistics can always be printed.",
    ["schedules", "configurations", "fault_sequences"], "every interleaving of power evaluations with power cuts, antenna switches, fades, arrivals and departures",
    "No test collects power statistics; the records depend on the phase of every evaluation.",
    [RO, RH], [("records", RO+":_TagRecord.write_power_record"), ("collection", RH+":_update_power"), ("switch", RC+":create_model")],
    ["power_mapping of the tag records", "commands on air with and without collection"])
add("R12", "Reader listeners hear every power change, round, slot and state once",
    "Every listener registered with the reader is called exactly once, at the moment it happens and with its registered arguments, for each power-on and power-off, start and finish of a round (numbered from 0) and of a slot (numbered from 0 in its round), and reader state change. The calls nest: a slot starts only in its open round, all open ones are finished when the next begins or the reader turns off. Removing a listener, even while it is being called, affects no other listener.",
    ["schedules", "fault_sequences", "histories"], "every sequence of rounds, slots, receptions and power cuts, with listeners added and removed at any moment",
    "No test registers listeners; the missed or doubled calls need power cuts inside slots and removals during calls.",
    [RO, RH], [("registration and calls", RO+":Listeners"), ("rounds and slots", RO+":Reader.next_slot, Reader.stop_round"), ("one-shot use", RH+":_one_tag_response")],
    ["reader.*_listeners"])
add("R13", "Signal levels follow the link budget at the true time and place",
    "Whenever a run evaluates a signal, the power at a powered tag or at the reader is the configured transmit power (for a reply: the tag's last received power less its modulation loss) plus the two-ray path gain and the configured gains and losses, taken for the tag's position at its last evaluation, the antenna in use and the time since the reader turned on. SNR and bit error rate are those of this power, the configured noise and distribution and the encoding of the current round. A sender that is off yields no power.",
    ["schedules", "configurations"], "every radio configuration, antenna schedule, motion and phase of the power cycle",
    "No test evaluates the channel inside a run, where position, antenna, on-time and encoding all change with the schedule.",
    [RO, RH], [("link budget", RO+":Medium"), ("evaluation", RH+":_update_power"), ("reception", RO+":Transaction.received_tag_frame"), ("configuration", RC+":create_model")],
    ["Medium estimates during a run"])
# ------------------------------------------------------------------ CLI / parallel
add("C01", "Sweep results belong to the parameters they are shown with",
    "In a parameter sweep each run uses the user's parameters with exactly one of the swept values, each distinct value (for tag-time: each given parameter set) is run once, and each result is shown (or returned) against the value that produced it, whatever order the values were given in and the workers finished in. Giving several values to more than one parameter is refused, and a failing run makes the sweep fail rather than drop or misattribute results.",
    ["schedules", "configurations", "fault_sequences"], "every parameter list including duplicates and unsorted values, every worker schedule, and failure of any run",
    "No test runs a sweep; worker schedules are outside a test's control.",
    [PC, PP, TC, RCLI, RP], [("argument expansion", RCLI+":prepare_multiple_simulation; "+PC+":run_multiple_simulation; "+TC+":run_multiple_simulation"), ("presentation", PP+", "+RP)],
    ["parameters each run receives", "printed tables / returned lists"])
add("C02", "Parallel runs of a sweep draw independent random numbers",
    "No two runs of one sweep are driven by the same random stream, whichever worker process executes them and whatever state the parent's generators were in. Runs of a sweep are therefore not copies of one another.",
    ["schedules", "configurations"], "every number of workers, assignment of runs to workers and parent generator state",
    "No test compares random streams across worker processes.",
    [RCLI, PC, TC], [("worker pools", RCLI+":prepare_multiple_simulation; "+PC+":run_multiple_simulation; "+TC+":run_multiple_simulation")],
    ["random draws of each run"])
add("C03", "Saved sweep results are complete, true and never overwritten",
    "Processing finished runs with saving requested leaves a new file that holds exactly the parameters used and the results of all runs, in the order of the distinct parameter values (for tag-time: of the given parameter sets); a saved plot shows the same numbers. No results or plot saved earlier are changed or removed, even when several are saved within one second or after the wall clock was stepped back. If saving fails, the error reaches the caller and the results have been shown on the terminal; saving is never reported as done with an incomplete file.",
    ["histories", "fault_sequences"], "every history of saved sweeps of the three models, clock, presence of the result folders, and failure of opening, writing or plotting",
    "No test saves results, lets a disk fail or repeats a save within one second.",
    [PP, RP, "pysim/models/tag_time/processing.py"],
    [("saving", PP+":save_results_to_file; "+RP+":save_mult_results_to_file; pysim/models/tag_time/processing.py:save_results"), ("plots", RP+":plot_results; pysim/models/tag_time/processing.py:plot_results")],
    ["files and plots written", "terminal output", "errors raised"])
add("D01", "A run is a function of its configuration and random seeds only",
    "Two runs with the same configuration and the same random-generator seeds execute the same events and give the same results, whatever the hash seed, clock, logging configuration, working directory, or simulations run earlier in the process. No run depends on the previous runs' state.",
    ["schedules", "histories", "configurations"], "every model and configuration, every history of earlier runs in the process, hash seeds and clock values",
    "Tests never repeat a run or vary the environment.",
    [SIM, PM, TM, RO, RH], [("no hidden global state", SIM+":Kernel.__init__; "+RC+":create_model")],
    ["event traces and results of repeated runs"])
# ------------------------------------------------------------------ not applicable
add("N01", "Gen2 frame, preamble and link-timing formulas match the standard",
    "The lengths of commands and replies, and the link-timing limits T1..T7, are the functions of encoding parameters that the EPC Gen2 standard prescribes.",
    ["inputs"], "every parameter combination", "Not covered by any test.",
    [RS], [("formulas", RS)], ["return values"])
add("N02", "Path-loss, radiation-pattern, SNR and BER formulas are correct",
    "Received power, SNR and bit error rate are the physical functions of geometry and radio parameters that the channel model documents.",
    ["inputs"], "every geometry and radio parameter combination", "Not covered by any test.",
    ["pysim/models/rfid/channel.py"], [("formulas", "pysim/models/rfid/channel.py")], ["return values"])
add("N03", "Analytical absorption-time formulas equal the chain's expectation",
    "For every probability and time vector the analytical expressions for the three scenarios equal the expected absorption time of the corresponding chain.",
    ["inputs"], "every probability and time vector", "test_mc2 cannot be collected.",
    ["pysim/models/tag_time/analitical_model.py", "pysim/models/tag_time/calculate_params.py"], [("formulas", "pysim/models/tag_time/analitical_model.py")], ["return values"])
add("N04", "The command line lists and runs every installed model",
    "Every model package that provides a command is listed by the list command and can be started by the run command under its package name.",
    ["configurations"], "every set of installed model packages", "No test uses the command line.",
    ["pysim/main.py"], [("discovery", "pysim/main.py:__initialize__")], ["CLI output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
